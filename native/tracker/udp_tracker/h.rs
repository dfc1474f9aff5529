use super::*;
use crate::vp_util::*;
use std::time::Duration;

fn ask(t: &FakeTracker, hash: &[u8], id: &str) -> Option<Result<Vec<u8>, UdpTrackerError>> {
    let url = Url::parse(&format!("udp://127.0.0.1:{}/announce", t.port)).unwrap();
    run_async(Duration::from_secs(20), call(hash, id, &url))
}

#[test]
fn c15_packets() {
    let mut run = Run::new("c15");
    let mut r = Rng::new("c15");
    for k in 0..scale(60) {
        let n = if k < 5 { k } else { r.below(600) };
        let mut peers = r.bytes(n * 6);
        let extra = r.below(6);
        peers.extend(r.bytes(extra));
        let hash = r.bytes(20);
        let id: String = (0..20).map(|_| char::from(b'a' + r.below(26) as u8)).collect();
        run.case((n, extra, &hash, &id));
        let p = peers.clone();
        let t = udp_tracker(move |_, b| udp_answer(b, &p));
        let got = ask(&t, &hash, &id).expect("no end");
        let sent = t.received();
        assert_eq!(sent.len(), 2, "packets sent");
        let tx = &sent[0][12..];
        assert_eq!(sent[0][..12], [0, 0, 4, 0x17, 0x27, 0x10, 0x19, 0x80, 0, 0, 0, 0], "connect packet");
        assert_eq!(sent[0].len(), 16, "connect packet");
        let want = [&CONNECTION[..], &[0, 0, 0, 1], tx, &hash, id.as_bytes(), &[0; 24], &[0; 12], &[255; 4], &[0x1f, 0x40]].concat();
        assert_eq!(want.len(), 98);
        assert_eq!(sent[1], want, "announce packet");
        if n == 0 {
            // no peers at all may count as too short
            assert!(got.as_ref().map(|v| *v == peers).unwrap_or(true), "{:?}", got);
        } else {
            assert_eq!(got, Ok(peers), "peer list");
        }
        run.hit();
    }
}

/// trackers at ports of every kind, as the built-in ones are
#[test]
fn c15_ports() {
    let mut run = Run::new("c15p");
    let mut r = Rng::new("c15p");
    for port in [7, 80, 81, 443, 451, 600, 1023, 1024, 1337, 2710, 6881, 6969, 8080, 32768, 49152, 65535] {
        let peers = r.bytes(18);
        let p = peers.clone();
        let Some(t) = udp_tracker_at(port, move |_, b| udp_answer(b, &p)) else { continue };
        run.case(("port", port));
        assert_eq!(ask(&t, &[1; 20], "abcdefghijklmnopqrst").expect("no end"), Ok(peers), "tracker at port {port}");
        run.hit();
    }
}

/// answers that are cut, of another action or to another request
#[test]
fn c15_answers() {
    let mut run = Run::new("c15a");
    let mut r = Rng::new("c15a");
    for k in 0..scale(120) {
        let peers = r.bytes(60);
        let stage = k % 2;
        let kind = k / 2 % 4;
        let (at, cut, noise) = (r.below(8), r.below(26), r.byte() | 1);
        let pos = if kind == 0 { at } else { at % 4 + if kind == 1 { 0 } else { 4 } };
        let what = format!("answer to packet {stage}: {}", match kind { 3 => format!("cut to {} bytes", cut), _ => format!("byte {pos} changed by {noise}") });
        run.case(&what);
        let p = peers.clone();
        let t = udp_tracker(move |_, b| {
            let mut a = udp_answer(b, &p)?;
            let announce = b.len() != 16;
            if announce == (stage == 1) {
                if kind == 3 {
                    let n = if announce { cut } else { cut % 16 };
                    a.truncate(n);
                } else {
                    a[pos] ^= noise;
                }
            }
            Some(a)
        });
        let got = ask(&t, &r.bytes(20), "abcdefghijklmnopqrst").expect("no end");
        assert!(got.is_err(), "{what}: used as {:?}", got);
        run.hit();
    }
}

/// only the first answers are bad: the right one is used
#[test]
fn c15_retried() {
    let mut run = Run::new("c15r");
    let mut r = Rng::new("c15r");
    for bad in 0..4 {
        run.case(("bad connect answers", bad));
        let peers = r.bytes(30);
        let p = peers.clone();
        let t = udp_tracker(move |k, b| {
            let mut a = udp_answer(b, &p)?;
            if k < bad {
                a[4 + k % 4] ^= 0x10;
                a[8..].fill(0x77);
            }
            Some(a)
        });
        let got = ask(&t, &[7; 20], "abcdefghijklmnopqrst").expect("no end");
        assert_eq!(got, Ok(peers));
        let sent = t.received();
        assert_eq!(sent.last().unwrap()[..8], CONNECTION, "connection id");
        run.hit();
    }
}

#[test]
fn c15_urls() {
    let mut run = Run::new("c15u");
    for u in ["udp:nohost", "udp://127.0.0.1/announce", "udp://[::1]:9/announce", "udp:///x"] {
        let url = match Url::parse(u) { Ok(u) => u, Err(_) => continue };
        run.case(u);
        let got = run_async(Duration::from_secs(10), call(&[1; 20], "abcdefghijklmnopqrst", &url));
        assert!(!matches!(got, Some(Ok(_))), "{u}");
        run.hit();
    }
}
