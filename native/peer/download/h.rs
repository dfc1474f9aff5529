use super::*;
use crate::common::mock_stream::MockStream;
use crate::peer::stream::StreamInterface;
use crate::vp_util::*;

/// what a peer has sent before it was asked: frames, and what each of them means
enum Sent {
    Choke(bool),
    Answer(Vec<u8>),
    /// the extension handshake with this id of ut_metadata
    Extensions(Option<u8>),
    Other,
}

fn ext(id: u8, d: Vec<(&str, B)>, data: &[u8]) -> Vec<u8> {
    frame(20, &[vec![id], benc(&dict(d)), data.to_vec()].concat())
}

fn script(r: &mut Rng, pieces: bool) -> Vec<(Vec<u8>, Sent)> {
    let mut v = vec![];
    if r.chance(90) {
        v.push((frame(1, &[]), Sent::Choke(false)));
    }
    for _ in 0..r.below(12) {
        let n = r.pick(&[0, 0, 1, 2, 20, 100]);
        let data = r.bytes(n);
        v.push(match r.below(14) {
            0 if r.chance(30) => (frame(0, &[]), Sent::Choke(true)),
            0 | 1 => (frame(1, &[]), Sent::Choke(false)),
            2 => (frame(4, &[0, 0, 0, 7]), Sent::Other),
            3 => (frame(5, &[255, 1]), Sent::Other),
            4 => {
                let t = r.pick(&[0, 2, 3, 5, 7, 17, 255, 256, 257, 65537, (1 << 32) + 1]);
                (ext(1, vec![("msg_type", B::Int(t)), ("piece", B::Int(0))], &data), Sent::Other)
            }
            5 => {
                let id = r.pick(&[0, 1, 3, 128, 255]);
                let m = if r.chance(70) { dict(vec![("ut_metadata", B::Int(id))]) } else { dict(vec![]) };
                let known = matches!(&m, B::Dict(m) if !m.is_empty()).then_some(id as u8);
                (ext(0, vec![("m", m), ("metadata_size", B::Int(40_000))], &[]), Sent::Extensions(known))
            }
            6 => (ext(1, vec![("piece", B::Int(1))], &data), Sent::Other),
            7 if !pieces => (frame(7, &[vec![0; 8], data].concat()), Sent::Other),
            7 | 8 if pieces => {
                (ext(2, vec![("msg_type", B::Int(1)), ("piece", B::Int(0))], &data), Sent::Other)
            }
            _ if pieces => (frame(7, &[vec![0; 8], data.clone()].concat()), Sent::Answer(data)),
            _ => (ext(2, vec![("msg_type", B::Int(1)), ("piece", B::Int(0))], &data), Sent::Answer(data)),
        });
    }
    v
}

/// runs the download against the script; the requests it wrote
fn run_script(what: Downloadable, sent: &[(Vec<u8>, Sent)], id: Option<u8>, size: usize) -> (Result<Vec<u8>, DownloadableError>, Vec<u8>) {
    let mut m = MockStream::new();
    for (bytes, _) in sent {
        m.push_bytes_to_read(bytes);
    }
    let mut peer = Peer::new(StreamInterface::Mocked(m), &[7; 20]);
    peer.set_metadata_size(size);
    if let Some(id) = id {
        peer.add_extension("ut_metadata".to_string(), id);
    }
    let got = what.download(&mut peer);
    let written = match &mut peer.stream {
        StreamInterface::Mocked(m) => m.pop_bytes_written(),
        _ => vec![],
    };
    (got, written)
}

/// what the property says about the outcome
fn expected(sent: &[(Vec<u8>, Sent)], count: usize) -> Option<Vec<u8>> {
    let mut choked = true;
    let mut answers = vec![];
    for (_, s) in sent {
        match s {
            Sent::Choke(c) => choked = *c,
            Sent::Answer(a) if answers.len() < count => answers.push(a.clone()),
            _ => (),
        }
        if answers.len() == count {
            return Some(answers.concat());
        }
        if choked {
            return None;
        }
    }
    (answers.len() == count).then(|| answers.concat())
}

#[test]
fn c04_scripts() {
    let mut run = Run::new("c04s");
    let mut r = Rng::new("c04s");
    for _ in 0..scale(4000) {
        let sent = script(&mut r, true);
        let piece_length = r.pick(&[1, 16383, 16384, 16385, 40_000, 65_536, 65_537, 98_304, 131_072, 1 << 18]);
        let index = r.pick(&[0, 1, 2, 255, 256, 65_535, 65_536, 70_000]);
        let last = if r.chance(50) { piece_length } else { 1 + r.below(piece_length) };
        let more = if r.chance(50) { r.below(3 * piece_length) } else { 0 };
        let (length, total) = if more == 0 { (last, piece_length * index + last) } else { (piece_length, piece_length * (index + 1) + more) };
        let count = (length + 16383) / 16384;
        run.case((piece_length, index, total, sent.iter().map(|s| s.0.clone()).collect::<Vec<_>>()));
        let (got, written) = run_script(Downloadable::Block((piece_length, index, total)), &sent, None, 0);
        assert!(got.as_ref().ok() == expected(&sent, count).as_ref(), "{got:?}: not the {count} blocks in order");
        let block = |k: usize| {
            let begin = k * 16384;
            let n = (length - begin).min(16384);
            [&[0, 0, 0, 13, 6][..], &(index as u32).to_be_bytes(), &(begin as u32).to_be_bytes(), &(n as u32).to_be_bytes()].concat()
        };
        let mut k = 0;
        for w in written.chunks(17) {
            while k < count && block(k) != w {
                k += 1;
            }
            assert!(k < count, "{w:?} is no block of the piece, or asked for again");
            k += 1;
        }
        if sent.iter().all(|s| matches!(s.1, Sent::Choke(true) | Sent::Other)) {
            assert!(written.is_empty(), "asked while choked");
        }
        run.hit();
    }
}

/// no answer comes unasked: one request after the other, each exactly once
#[test]
fn c04_every_block() {
    let mut run = Run::new("c04e");
    for piece_length in [1usize, 16384, 40_000, 65_536, 70_000, 98_304, 131_072, 1 << 18, 1 << 20] {
        for index in [0usize, 1, 300, 70_000] {
            for cut in [0, 1, 100, 16_384] {
                if cut >= piece_length {
                    continue;
                }
                let length = piece_length - cut;
                let count = (length + 16383) / 16384;
                run.case((piece_length, index, cut));
                let mut want = vec![];
                let mut got = vec![];
                let mut next = block::next_block(BLOCK_SIZE, index, piece_length * index + length, piece_length);
                let mut peer = Peer::new(StreamInterface::Mocked(MockStream::new()), &[7; 20]);
                for k in 0..count {
                    next(&mut peer, k);
                    let n = (length - k * 16384).min(16384);
                    want.extend([0, 0, 0, 13, 6]);
                    for x in [index, k * 16384, n] {
                        want.extend((x as u32).to_be_bytes());
                    }
                    if let StreamInterface::Mocked(m) = &mut peer.stream {
                        got.extend(m.pop_bytes_written());
                    }
                }
                assert!(want == got, "the requests do not cover the piece");
                run.hit();
            }
        }
    }
}

#[test]
fn c05_scripts() {
    let mut run = Run::new("c05s");
    let mut r = Rng::new("c05s");
    for _ in 0..scale(4000) {
        let sent = script(&mut r, false);
        let size = r.pick(&[1, 100, 16383, 16384, 16385, 32768, 32769, 50_000, 65_536, 65_537]);
        let count = (size + 16383) / 16384;
        let id = if r.chance(80) { Some(r.byte()) } else { None };
        run.case((size, id, sent.iter().map(|s| s.0.clone()).collect::<Vec<_>>()));
        let (got, written) = run_script(Downloadable::Info, &sent, id, size);
        assert!(got.as_ref().ok() == expected(&sent, count).as_ref(), "{got:?}: not the {count} pieces in order");
        let mut ids: Vec<u8> = id.into_iter().collect();
        for (_, s) in &sent {
            if let Sent::Extensions(Some(id)) = s {
                ids.push(*id);
            }
        }
        let request = |id: u8, k: usize| frame(20, &[vec![id], format!("d8:msg_typei0e5:piecei{k}ee").into_bytes()].concat());
        let mut rest = &written[..];
        let mut k = 0;
        while !rest.is_empty() {
            let found = (k..count).find_map(|j| ids.iter().find_map(|id| rest.starts_with(&request(*id, j)).then(|| (j, request(*id, j).len()))));
            let Some((j, n)) = found else { panic!("{rest:?}: no metadata request, out of order, or under an id that was not announced") };
            k = j + 1;
            rest = &rest[n..];
        }
        run.hit();
    }
}
