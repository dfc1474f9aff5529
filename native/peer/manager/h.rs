use super::*;
use crate::vp_util::*;
use std::thread::spawn;

/// a torrent whose pieces have several blocks, the last piece any length
fn content(r: &mut Rng) -> Meta {
    let pl = r.pick(&[1, 16383, 16384, 16385, 32768, 40_000]);
    let n = r.range(1, 4);
    let last = r.pick(&[0, 1, 5, 16383, 16384, 16385, 32767]).min(pl - 1);
    let total = (pl * n + last).max(1);
    let c = r.bytes(total);
    if r.chance(50) {
        torrent("t", &[], true, pl, &c)
    } else {
        let a = r.below(total + 1);
        torrent("t", &[(vec!["a".into()], a), (vec!["b".into()], total - a)], false, pl, &c)
    }
}

fn info(m: &Meta) -> Info {
    Info::from_bytes(m.bytes()).expect("valid metadata was refused")
}

fn blocks(m: &Meta, i: usize) -> Vec<(u32, u32, u32)> {
    let n = m.piece(i).len();
    (0..n).step_by(16384).map(|o| (i as u32, o as u32, 16384.min(n - o) as u32)).collect()
}

/// the requests of every connection are a beginning of what has to be asked for
fn polite(p: &FakePeer, m: &Meta, i: usize) {
    let l = p.log.lock().unwrap().clone();
    assert!(l.rude.is_empty(), "{:?}", l.rude);
    let want = blocks(m, i);
    for c in &l.requests {
        assert!(want.starts_with(c), "piece {i} of {} bytes: requested {:?}, expected {:?}", m.piece(i).len(), c, want);
    }
    assert!(l.hashes.iter().all(|h| *h == m.hash()), "another info hash in the handshake");
}

/// a peer that only is slow to answer gets several chances
fn patient<T>(mut f: impl FnMut() -> Result<T, PeerManagerError>) -> T {
    let mut last = None;
    for _ in 0..20 {
        match f() {
            Ok(v) => return v,
            Err(e) => last = Some(e),
        }
    }
    panic!("a peer that answers correctly failed 20 times: {:?}", last)
}

#[test]
fn c04_blocks() {
    let mut run = Run::new("c04");
    let mut r = Rng::new("c04");
    let mut ts = vec![];
    for k in 0..scale(16) {
        let m = content(&mut r);
        let seed = r.next();
        let slow = k % 3 == 2;
        let what = format!("{} bytes in pieces of {}, slow {slow}", m.content.len(), m.piece_length);
        ts.push((what, spawn(move || {
            let inf = info(&m);
            for i in 0..m.pieces() {
                let p = peer(&m, Fault::None, slow, seed);
                let got = patient(|| download(p.endpoint.clone(), &inf, i));
                polite(&p, &m, i);
                assert!(p.log.lock().unwrap().requests.iter().any(|c| *c == blocks(&m, i)), "not every block was requested");
                assert!(got == m.piece(i), "piece {i}: {} bytes, expected {}", got.len(), m.piece(i).len());
            }
        })));
        if ts.len() == 8 {
            join(&mut run, &mut ts);
        }
    }
    join(&mut run, &mut ts);
}

fn join(run: &mut Run, ts: &mut Vec<(String, std::thread::JoinHandle<()>)>) {
    for (what, t) in ts.drain(..) {
        run.case(&what);
        run.hit();
        if let Err(e) = t.join() {
            let why = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            panic!("{what}: {why}");
        }
    }
}

#[test]
fn c04_choked() {
    let mut run = Run::new("c04k");
    let mut r = Rng::new("c04k");
    let mut ts = vec![];
    for k in 0..scale(6) {
        let f = if k % 2 == 0 { Fault::Choked } else { Fault::ChokeLater };
        let c = r.bytes(60_000);
        let m = torrent("t", &[], true, 50_000, &c);
        let seed = r.next();
        ts.push((format!("{f:?}"), spawn(move || {
            let p = peer(&m, f.clone(), false, seed);
                assert!(download(p.endpoint.clone(), &info(&m), 0).is_err(), "a choking peer delivered a piece");
            polite(&p, &m, 0);
        })));
    }
    join(&mut run, &mut ts);
}

#[test]
fn c02_only_verified() {
    let mut run = Run::new("c02");
    let mut r = Rng::new("c02");
    let mut ts = vec![];
    let faults = [Fault::BadPieces, Fault::BadLastByte, Fault::ShortPiece, Fault::Close, Fault::OtherHash, Fault::Choked, Fault::ChokeLater];
    for k in 0..scale(28) {
        let f = faults[k % faults.len()].clone();
        let m = content(&mut r);
        let seed = r.next();
        ts.push((format!("{f:?}: {} bytes in pieces of {}", m.content.len(), m.piece_length), spawn(move || {
            for i in 0..m.pieces() {
                let p = peer(&m, f.clone(), false, seed);
                for _ in 0..2 {
                    match download(p.endpoint.clone(), &info(&m), i) {
                        Ok(d) => {
                            assert!(d == m.piece(i), "{} wrong bytes were accepted as piece {i}", d.len());
                            assert!(f == Fault::ChokeLater, "piece {i} was accepted");
                        }
                        Err(_) => (),
                    }
                }
                if i > 2 {
                    break;
                }
            }
        })));
        if ts.len() == 14 {
            join(&mut run, &mut ts);
        }
    }
    join(&mut run, &mut ts);
    // nobody listens there
    let m = content(&mut r);
    run.case("connection refused");
    assert!(download("127.0.0.1:1".into(), &info(&m), 0).is_err());
    assert!(get_info(&m.hash(), "127.0.0.1:1").is_err());
    run.hit();
}

/// metadata of about this many bytes
fn metadata(r: &mut Rng, n: usize) -> Meta {
    let digests = n.saturating_sub(70) / 20;
    let c = r.bytes(digests.max(1));
    let name: String = (0..1 + n % 20).map(|_| 'n').collect();
    torrent(&name, &[], true, 1, &c)
}

fn asked(p: &FakePeer, m: &Meta, size: usize) {
    let l = p.log.lock().unwrap().clone();
    assert!(l.hashes.iter().all(|h| *h == m.hash()), "another info hash in the handshake");
    for c in &l.metadata {
        let want: Vec<B> = (0..(size + 16383) / 16384).map(|i| dict(vec![("msg_type", B::Int(0)), ("piece", B::Int(i))])).collect();
        let got: Vec<B> = c.iter().map(|(_, b)| bdec(b).map(|x| x.0).unwrap_or(B::Int(0))).collect();
        assert!(want.starts_with(&got), "requested {:?}, there are {} pieces", got, want.len());
        assert!(c.iter().all(|x| x.0 == 7), "sent under {:?}, the peer announced 7", c.iter().map(|x| x.0).collect::<Vec<_>>());
    }
}

#[test]
fn c05_metadata() {
    let mut run = Run::new("c05");
    let mut r = Rng::new("c05");
    let mut ts = vec![];
    for k in 0..scale(12) {
        let n = r.pick(&[90, 1000, 16370, 16400, 32768, 33000, 50_000]);
        let m = metadata(&mut r, n);
        let slow = k % 3 == 1;
        let seed = r.next();
        ts.push((format!("{} bytes of metadata, slow {slow}", m.bytes().len()), spawn(move || {
            let p = peer(&m, Fault::None, slow, seed);
            let i = patient(|| get_info(&m.hash(), &p.endpoint));
            assert_eq!(i.compute_info_hash(), m.hash());
            asked(&p, &m, m.bytes().len());
            let all = (m.bytes().len() + 16383) / 16384;
            assert!(p.log.lock().unwrap().metadata.iter().any(|c| c.len() == all), "not all pieces were requested");
            let p = peer(&m, Fault::NoMetadata, slow, seed);
            assert!(get_info(&m.hash(), &p.endpoint).is_err(), "metadata without the extension");
            assert!(p.log.lock().unwrap().metadata.iter().all(|c| c.is_empty()), "requested from a peer without the extension");
        })));
    }
    join(&mut run, &mut ts);
}

#[test]
fn c03_other_metadata() {
    let mut run = Run::new("c03");
    let mut r = Rng::new("c03");
    let mut ts = vec![];
    for k in 0..scale(12) {
        let m = metadata(&mut r, 300);
        let mut o = m.bytes();
        match k % 4 {
            // well formed, but of another torrent
            0 => o = metadata(&mut r, 17_000).bytes(),
            1 => {
                let at = o.windows(4).position(|w| w == b"name").unwrap() + 7;
                o[at] = b'x';
            }
            2 => {
                let n = o.len() - 3;
                o[n] ^= 1;
            }
            _ => {
                // other keys than the accepted ones
                o.truncate(o.len() - 1);
                o.extend(b"1:zi1ee");
            }
        }
        let seed = r.next();
        let text = String::from_utf8_lossy(&o).into_owned();
        ts.push((format!("asked for {:?}, got {:?}", String::from_utf8_lossy(&m.bytes()), text), spawn(move || {
            let p = peer(&m, Fault::OtherInfo(o), false, seed);
            for _ in 0..2 {
                if let Ok(i) = get_info(&m.hash(), &p.endpoint) {
                    assert_eq!(i.compute_info_hash(), m.hash(), "metadata of another torrent is used");
                }
            }
            let p = peer(&m, Fault::OtherHash, false, seed);
            assert!(get_info(&m.hash(), &p.endpoint).is_err(), "handshake for another torrent");
        })));
    }
    join(&mut run, &mut ts);
}
