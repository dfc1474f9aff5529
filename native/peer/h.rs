use super::*;
use crate::common::mock_stream::MockStream;
use crate::vp_util::*;

#[derive(Clone, Debug, PartialEq)]
struct State {
    choked: bool,
    active: bool,
    bits: Vec<bool>,
    size: usize,
    ext: Vec<(String, u8)>,
}

fn state(p: &Peer) -> State {
    let mut ext: Vec<(String, u8)> = p.extensions.iter().map(|(k, v)| (k.clone(), *v)).collect();
    ext.sort();
    State { choked: p.is_choked(), active: p.is_active(), bits: p.get_bitfield(), size: p.get_metadata_size(), ext }
}

#[test]
fn c12_histories() {
    let mut run = Run::new("c12");
    let mut r = Rng::new("c12");
    for _ in 0..scale(3000) {
        // a base32 magnet link has a hash of 32 bytes
        let n = if r.chance(80) { 20 } else { r.pick(&[0, 1, 19, 21, 32]) };
        let hash = r.bytes(n);
        let mut peer = Peer::new(StreamInterface::Mocked(MockStream::new()), &hash);
        let id = peer.get_peer_id();
        let mut want = State { choked: true, active: false, bits: vec![], size: 0, ext: vec![] };
        assert_eq!(state(&peer), want, "a new peer");
        let mut history = vec![];
        for _ in 0..r.below(14) {
            let (mid, body) = match r.below(9) {
                0 => (0, vec![]),
                1 => (1, vec![]),
                2 => {
                    let n = if r.chance(6) { r.pick(&[31, 32, 33, 255, 256, 257, 1024, 8192, 8193]) } else { r.below(4) };
                    (5, r.bytes(n))
                }
                3 => {
                    let mut h = hash.clone();
                    h.resize(20, 7);
                    if r.chance(50) {
                        let k = r.below(20);
                        h[k] ^= 1;
                    }
                    (19, handshake(&h, b"-FAKE-00000000000000"))
                }
                4 | 5 => {
                    let e: Vec<(String, B)> = (0..r.below(3)).map(|_| (r.pick(&["ut_metadata", "ut_pex", "é", ""]).to_string(), B::Int(r.below(256)))).collect();
                    let m = B::Dict(e.into_iter().map(|(k, v)| (k.into_bytes(), v)).collect());
                    let mut d = vec![("m", m)];
                    if r.chance(70) {
                        d.push(("metadata_size", B::Int(r.pick(&[0, 1, 16384, 16385, 100_000]))));
                    }
                    if r.chance(30) {
                        d.push(("msg_type", B::Int(r.below(3))));
                    }
                    (20, [vec![r.byte()], benc(&dict(d))].concat())
                }
                6 => (7, r.bytes(20)),
                7 => (r.pick(&[2, 3, 8, 9, 21, 255]), r.bytes(3)),
                _ => (4, vec![0, 0, 0, 1]),
            };
            history.push((mid, body.clone()));
            run.case((&hash, &history));
            let m = Message::new_raw(body.clone(), body.len() as u32, mid).expect("rejected");
            peer.apply_message(&m);
            match mid {
                0 => want.choked = true,
                1 => want.choked = false,
                5 => want.bits = body.iter().flat_map(|b| (0..8).map(move |i| b & (128 >> i) != 0)).collect(),
                19 => want.active = body[28..48] == hash[..],
                20 => {
                    if let Some((B::Dict(d), _)) = bdec(&body[1..]) {
                        if let Some(B::Int(n)) = d.get(&b"metadata_size"[..]) {
                            want.size = *n;
                            want.ext = match d.get(&b"m"[..]) {
                                Some(B::Dict(m)) => m.iter().map(|(k, v)| (String::from_utf8(k.clone()).unwrap(), match v { B::Int(n) => *n as u8, _ => 0 })).collect(),
                                _ => vec![],
                            };
                        }
                    }
                }
                _ => (),
            }
            assert_eq!(state(&peer), want, "after {:?}", history.last());
            assert_eq!(peer.is_ready(), want.size != 0 && !want.choked, "ready");
            assert_eq!(peer.get_info_hash(), hash);
            assert_eq!(peer.get_peer_id(), id);
            for (k, v) in &want.ext {
                assert_eq!(peer.find_extension_id(k), Some(*v));
            }
            assert_eq!(peer.find_extension_id("nothing"), None);
            run.hit();
        }
    }
}

/// whatever arrives, in whatever pieces: the messages are read one after the other
#[test]
fn c09_read_messages() {
    let mut run = Run::new("c09r");
    let mut r = Rng::new("c09r");
    for _ in 0..scale(300) {
        let hash = r.bytes(20);
        let mut all = handshake(&hash, b"-FAKE-00000000000000");
        let mut want: Vec<Option<(u8, Vec<u8>)>> = vec![Some((19, vec![]))];
        for _ in 0..r.below(8) {
            let (id, body) = match r.below(5) {
                0 => (r.below(4) as u8, vec![]),
                1 => (5, vec![1, 2, 3]),
                2 => {
                    let n = r.pick(&[8, 9, 100, 16392]);
                    (7, r.bytes(n))
                }
                3 => (4, vec![0, 0, 0, 19]),
                _ => {
                    all.extend([0, 0, 0, 0]);
                    want.push(None);
                    continue;
                }
            };
            all.extend(frame(id, &body));
            want.push(Some((id, if id == 7 { body[8..].to_vec() } else if id == 5 { body } else { vec![] })));
        }
        run.case((&want, all.len()));
        let mut m = MockStream::new();
        m.push_bytes_to_read(&all);
        let mut peer = Peer::new(StreamInterface::Mocked(m), &hash);
        for w in &want {
            let got = peer.read_message().map(|m| (m.get_id(), m.get_content_data()));
            assert_eq!(got, *w, "wrong message");
        }
        assert!(peer.read_message().is_none(), "more than was sent");
        run.hit();
    }
}
