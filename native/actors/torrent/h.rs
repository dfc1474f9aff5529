use super::*;
use crate::tracker::peer_endpoint::PeerEndpoint;
use crate::vp_util::*;
use std::collections::{HashMap, VecDeque};
use std::time::Duration;

fn at(port: u16) -> PeerEndpoint {
    PeerEndpoint::from_bytes(&compact(&[port])).remove(0)
}

fn found(port: u16) -> PeerFound {
    PeerFound { peer: at(port) }
}

/// what is waiting, in order
fn waiting(t: &TorrentActor) -> Option<VecDeque<usize>> {
    let pool = t.piece_available_pool.as_ref()?;
    let mut all = VecDeque::new();
    while let Some(p) = pool.pop() {
        all.push_back(p);
    }
    for p in &all {
        pool.insert(*p);
    }
    Some(all)
}

fn files(m: &Meta) -> Vec<(String, Vec<u8>)> {
    let mut at = 0;
    m.files
        .iter()
        .map(|(p, n)| {
            at += n;
            (format!("./{}", p.join("/")), m.content[at - n..at].to_vec())
        })
        .collect()
}

fn complete(m: &Meta) -> bool {
    files(m).iter().all(|(p, c)| c.is_empty() || std::fs::read(p).map(|d| d == *c).unwrap_or(false))
}

fn any_content(r: &mut Rng, pieces: usize) -> Meta {
    let pl = r.pick(&[1000, 16384, 20_000]);
    let c = {
        let n = pl * (pieces - 1) + r.range(1, pl);
        r.bytes(n)
    };
    let a = r.below(c.len() + 1);
    let b = r.below(c.len() - a + 1);
    let f = vec![(vec!["one".to_string()], a), (vec!["dir".to_string(), "two".to_string()], b), (vec!["dir".to_string(), "three".to_string()], c.len() - a - b)];
    torrent("t", &f, false, pl, &c)
}

/// a whole torrent from several peers, some of them bad
fn whole(run: &mut Run, seed: u64, faults: &[Fault], only_good: bool) {
    let mut r = Rng::new(&format!("whole{seed}"));
    let n = r.pick(&[1, 3, 7, 12]);
    let m = any_content(&mut r, n);
    let peers: Vec<FakePeer> = (0..14)
        .map(|k| {
            let f = if only_good || k % 3 != 1 { Fault::None } else { r.pick(faults) };
            peer(&m, f, false, r.next())
        })
        .collect();
    run.case(format!("{} pieces of {} from {} peers, only good ones: {only_good}", m.pieces(), m.piece_length, peers.len()));
    let (hash, meta) = (m.hash(), m.clone());
    let ports: Vec<u16> = peers.iter().map(|p| p.port).collect();
    actix::System::new().block_on(async move {
        let t = TorrentActor::new(hash).start();
        for p in ports.iter().chain(&ports) {
            let _ = t.send(found(*p)).await;
        }
        for _ in 0..2500 {
            if complete(&meta) {
                break;
            }
            actix::clock::sleep(Duration::from_millis(20)).await;
        }
        // nothing happens after that
        actix::clock::sleep(Duration::from_millis(300)).await;
    });
    for (p, c) in files(&m) {
        let d = std::fs::read(&p).unwrap_or_default();
        assert!(d == c, "{p}: {} of {} bytes are right, {} pieces of {}", d.iter().zip(&c).filter(|(a, b)| a == b).count(), c.len(), m.pieces(), m.piece_length);
    }
    for p in &peers {
        let l = p.log.lock().unwrap();
        assert!(l.rude.is_empty(), "{:?}", l.rude);
        assert!(l.hashes.iter().all(|h| *h == m.hash()));
        for c in &l.requests {
            assert!(c.iter().all(|q| (q.0 as usize) < m.pieces()), "piece outside of the torrent: {:?}", c);
        }
    }
    let mut stored = std::fs::read_dir(".").unwrap().flatten().map(|e| e.file_name().into_string().unwrap()).collect::<Vec<_>>();
    stored.retain(|f| f != ".vp-input" && f != "downloads" && f != "one" && f != "dir");
    assert!(stored.is_empty(), "files nobody asked for: {:?}", stored);
    for d in ["./downloads", "./dir"] {
        let _ = std::fs::remove_dir_all(d);
    }
    let _ = std::fs::remove_file("./one");
    run.hit();
}

#[test]
fn c13_whole_torrent() {
    let mut run = Run::new("c13w");
    for k in 0..scale(2).min(12) {
        whole(&mut run, k as u64, &[Fault::Close, Fault::OtherHash], true);
    }
}

#[test]
fn c01_whole_torrent() {
    let mut run = Run::new("c01t");
    for k in 0..scale(1).min(6) {
        whole(&mut run, 200 + k as u64, &[Fault::Close], true);
    }
}

/// a piece whose connection fails, whatever its index, is asked for again
#[test]
fn c02_refused() {
    let mut run = Run::new("c02r");
    let mut r = Rng::new("c02r");
    actix::System::new().block_on(async move {
        let n = 6;
        let m = any_content(&mut r, n);
        for k in 0..n {
            let gone = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().to_string();
            let endpoint = if k % 2 == 0 { gone } else { peer(&m, Fault::Close, false, 1).endpoint };
            let good = peer(&m, Fault::None, false, 1);
            let mut t = TorrentActor::new(m.hash());
            t.info = Some(Info::from_bytes(m.bytes()).expect("valid metadata"));
            t.piece_available_pool = Some(PiecePool::new(0));
            t.peers = vec![super::Peer::new(good.endpoint.clone())];
            let connections = t.connections_pool.clone();
            let info = t.info.clone().unwrap();
            let a = t.start();
            run.case(("piece", k, &endpoint));
            connections.do_send(PieceRequested { piece_idx: k, info, endpoint, torrent_actor: a.clone() });
            for _ in 0..1000 {
                if good.log.lock().unwrap().requests.iter().any(|c| !c.is_empty()) {
                    break;
                }
                actix::clock::sleep(Duration::from_millis(10)).await;
            }
            let l = good.log.lock().unwrap();
            assert!(l.requests.iter().flatten().any(|q| q.0 as usize == k), "a failed download was not reported: {:?}", l.requests);
            assert!(l.requests.iter().flatten().all(|q| q.0 as usize == k), "a piece nobody asked for: {:?}", l.requests);
            run.hit();
        }
    });
}

#[test]
fn c02_whole_torrent_bad_peers() {
    let mut run = Run::new("c02w");
    for k in 0..scale(2).min(12) {
        whole(&mut run, 100 + k as u64, &[Fault::BadPieces, Fault::BadLastByte, Fault::Close, Fault::OtherHash], false);
    }
}

/// the piece each connection of these peers was about, per connection that came that far
fn served(peers: &[FakePeer]) -> usize {
    peers.iter().map(|p| p.log.lock().unwrap().connections).sum()
}

/// any history of results: what is waiting, and the counters of the peers
async fn history(run: &mut Run, r: &mut Rng, count_connections: bool) {
    let n = r.range(1, 12);
    let m = any_content(r, n);
    let known = r.range(1, 8);
    let peers: Vec<FakePeer> = (0..known).map(|_| peer(&m, Fault::Close, false, 1)).collect();
    let mut ctx = actix::Context::<TorrentActor>::new();
    let mut t = TorrentActor::new(m.hash());
    t.info = Some(Info::from_bytes(m.bytes()).expect("valid metadata"));
    t.piece_available_pool = Some(PiecePool::new(n));
    t.peers = peers.iter().map(|p| super::Peer::new(at(p.port).endpoint())).collect();
    let mut model: VecDeque<usize> = (0..n).collect();
    let mut flying: Vec<usize> = vec![];
    // some have a long history already
    let old = r.chance(30);
    let mut counters: Vec<(usize, usize)> = (0..known).map(|_| if old { (r.pick(&COUNTS), r.pick(&COUNTS)) } else { (0, 0) }).collect();
    for (p, c) in t.peers.iter_mut().zip(&counters) {
        (p.piece_downloaded, p.piece_failed) = *c;
    }
    // the first ones
    for _ in 0..r.range(1, 5) {
        if let Some(p) = t.piece_available_pool.as_ref().unwrap().pop() {
            assert_eq!(Some(p), model.pop_front());
            flying.push(p);
        }
    }
    let mut ops = vec![];
    for _ in 0..r.range(1, 25) {
        if flying.is_empty() {
            break;
        }
        let p = { let k = r.below(flying.len()); flying.remove(k) };
        let who = r.below(known);
        let endpoint = at(peers[who].port).endpoint();
        let before: Vec<usize> = peers.iter().map(|p| p.log.lock().unwrap().connections).collect();
        let ok = r.chance(45);
        ops.push((p, who, ok));
        run.case((n, known, &ops));
        if ok {
            counters[who].0 += 1;
            let _ = t.handle(PieceDownloadSuccessfull { endpoint, piece: m.piece(p).to_vec(), piece_idx: p }, &mut ctx);
        } else {
            counters[who].1 += 1;
            model.push_back(p);
            let _ = t.handle(PieceDownloadFailed { endpoint, piece_idx: p }, &mut ctx);
        }
        let next = model.pop_front();
        flying.extend(next);
        assert_eq!(waiting(&t), Some(model.clone()), "pieces waiting");
        let got: Vec<(usize, usize)> = t.peers.iter().map(|p| (p.piece_downloaded, p.piece_failed)).collect();
        assert_eq!(got, counters, "successes and failures of the peers");
        assert!(t.peers.iter().zip(&peers).all(|(a, b)| a.endpoint == at(b.port).endpoint()), "peers");
        if count_connections && next.is_some() {
            // exactly one download is started, at a peer that may be asked
            let total: usize = before.iter().sum();
            for _ in 0..1000 {
                if served(&peers) > total {
                    break;
                }
                actix::clock::sleep(Duration::from_millis(10)).await;
            }
            assert!(served(&peers) > total, "no download was started");
            actix::clock::sleep(Duration::from_millis(15)).await;
            let after: Vec<usize> = peers.iter().map(|p| p.log.lock().unwrap().connections).collect();
            let chosen: Vec<usize> = (0..known).filter(|i| after[*i] > before[*i]).collect();
            assert_eq!(chosen.len(), 1, "more than one download was started");
            let c = chosen[0];
            if ok {
                assert_eq!(c, who, "after a success the same peer is asked");
            } else {
                assert!(allowed(&counters.iter().map(|c| c.1).collect::<Vec<_>>(), c), "peer {c} with failures {:?}", counters);
            }
        }
    }
    run.hit();
}

fn allowed(failed: &[usize], k: usize) -> bool {
    if failed.iter().any(|f| *f < 2) {
        failed[k] < 2
    } else if failed.iter().any(|f| *f < 4) {
        failed[k] < 4
    } else {
        true
    }
}

#[test]
fn c13_history() {
    let mut run = Run::new("c13h");
    let mut r = Rng::new("c13h");
    actix::System::new().block_on(async move {
        for _ in 0..scale(25) {
            history(&mut run, &mut r, false).await;
        }
    });
}

#[test]
fn c17_history() {
    let mut run = Run::new("c17h");
    let mut r = Rng::new("c17h");
    actix::System::new().block_on(async move {
        for _ in 0..scale(6).min(60) {
            history(&mut run, &mut r, true).await;
        }
    });
}

const COUNTS: [usize; 20] = [0, 0, 1, 1, 2, 2, 3, 4, 5, 9, 15, 16, 31, 99, 127, 254, 255, 256, 65_535, u32::MAX as usize];

#[test]
fn c17_choice() {
    let mut run = Run::new("c17");
    let mut r = Rng::new("c17");
    for k in 0..scale(3000) {
        let n = r.range(1, 6);
        let top = r.pick(&[2, 3, 4, 5, 7]);
        let pool: Vec<super::Peer> = (0..n)
            .map(|i| {
                let mut p = super::Peer::new(format!("10.0.0.{i}:{k}"));
                p.piece_failed = if r.chance(90) { r.below(top + 1) } else { r.pick(&COUNTS) };
                p.piece_downloaded = r.pick(&COUNTS);
                p
            })
            .collect();
        run.case(&pool);
        let got = super::Peer::find_suitable_peer(pool.to_vec());
        let c = pool.iter().position(|p| p.endpoint == got).expect("an unknown peer");
        assert!(allowed(&pool.iter().map(|p| p.piece_failed).collect::<Vec<_>>(), c), "{got}");
        run.hit();
    }
    for _ in 0..scale(2000) {
        let n = r.range(0, 6);
        let mut pool: Vec<super::Peer> = (0..n)
            .map(|_| {
                let mut p = super::Peer::new(some_endpoint(&mut r));
                p.piece_failed = r.pick(&COUNTS);
                p.piece_downloaded = r.pick(&COUNTS);
                p
            })
            .collect();
        let e = some_endpoint(&mut r);
        let fail = r.chance(50);
        run.case((&pool, &e, fail));
        let want: Vec<(String, usize, usize)> = pool
            .iter()
            .map(|p| {
                let hit = (p.endpoint == e) as usize;
                (p.endpoint.clone(), p.piece_downloaded + hit * !fail as usize, p.piece_failed + hit * fail as usize)
            })
            .collect();
        if fail {
            super::Peer::update_failed(&mut pool, e.clone());
        } else {
            super::Peer::update_sucess(&mut pool, e.clone());
        }
        let got: Vec<(String, usize, usize)> = pool.iter().map(|p| (p.endpoint.clone(), p.piece_downloaded, p.piece_failed)).collect();
        assert_eq!(got, want, "counters");
        run.hit();
    }
}

/// addresses that resemble each other
fn some_endpoint(r: &mut Rng) -> String {
    format!("{}.{}:{}", r.pick(&["10.0.0", "10.0.1", "110.0.0"]), r.pick(&[1, 11, 12, 121]), r.pick(&[1, 5, 51, 15, 512, 5120]))
}

/// a piece is only started when enough peers are known, from the front of the queue, at known peers
#[test]
fn c13_start() {
    let mut run = Run::new("c13s");
    let mut r = Rng::new("c13s");
    actix::System::new().block_on(async move {
        for _ in 0..scale(8) {
            let n = r.range(1, 9);
            let m = any_content(&mut r, n);
            let good = peer(&m, Fault::None, false, 1);
            let mut ctx = actix::Context::<TorrentActor>::new();
            let mut t = TorrentActor::new(m.hash());
            run.case((n, m.piece_length));
            for _ in 0..20 {
                if t.info.is_none() {
                    let _ = t.handle(found(good.port), &mut ctx);
                }
            }
            assert_eq!(t.info.as_ref().map(|i| i.compute_info_hash()), Some(m.hash()), "metadata");
            let all: VecDeque<usize> = (0..n).collect();
            let mut flying = 0;
            for _ in 0..16 {
                let _ = t.handle(found(1), &mut ctx);
                let w = waiting(&t).expect("no queue");
                assert_eq!(w, all.iter().skip(n - w.len()).cloned().collect::<VecDeque<_>>(), "pieces waiting");
                assert!(n - w.len() >= flying);
                flying = n - w.len();
            }
            assert_eq!(flying, n.min(5), "pieces started");
            let _ = std::fs::remove_dir_all("./downloads");
            run.hit();
        }
    });
}

/// metadata comes from the cache only when it is the right one
#[test]
fn c03_cache() {
    let mut run = Run::new("c03c");
    let mut r = Rng::new("c03c");
    for k in 0..scale(16) {
        let m = any_content(&mut r, 2);
        let other = any_content(&mut r, 3);
        let file = format!("./downloads/{}", urlencoding::encode_binary(&m.hash()));
        let _ = std::fs::remove_dir_all("./downloads");
        if k % 4 != 3 { std::fs::create_dir_all("./downloads").unwrap(); }
        let mine = Info::from_bytes(m.bytes()).unwrap();
        let his = Info::from_bytes(other.bytes()).unwrap();
        let what = match k % 4 {
            0 => { his.save(&file).unwrap(); "metadata of another torrent" }
            1 => { mine.save(&file).unwrap(); "the right one" }
            2 => { std::fs::write(&file, r.bytes(50)).unwrap(); "garbage" }
            _ => "no folder",
        };
        run.case((what, m.hash()));
        let good = peer(&m, Fault::None, false, 1);
        let i = (0..20).find_map(|_| collect_info(&m.hash(), &good.endpoint)).expect("no metadata");
        assert_eq!(i.compute_info_hash(), m.hash(), "metadata of another torrent is used");
        // it is in the cache now
        let again = collect_info(&m.hash(), "127.0.0.1:1");
        assert!(again.expect("the metadata is not in the cache").compute_info_hash() == m.hash(), "metadata of another torrent is used");
        // nobody has it
        let _ = std::fs::remove_dir_all("./downloads");
        std::fs::create_dir_all("./downloads").unwrap();
        his.save(&file).unwrap();
        let bad = peer(&m, Fault::OtherInfo(other.bytes()), false, 1);
        assert!(collect_info(&m.hash(), &bad.endpoint).is_none(), "metadata of another torrent is used");
        let _ = std::fs::remove_dir_all("./downloads");
        run.hit();
    }
}

#[allow(dead_code)]
fn unused(_: HashMap<u8, u8>) {}
