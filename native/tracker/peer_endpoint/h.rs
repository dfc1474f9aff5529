use super::*;
use crate::vp_util::*;

fn check(run: &mut Run, b: &[u8]) {
    run.case(b);
    let got: Vec<String> = PeerEndpoint::from_bytes(b).iter().map(|p| p.endpoint()).collect();
    assert_eq!(got, endpoints(b), "endpoints");
    for e in &got {
        assert!(e.parse::<std::net::SocketAddr>().is_ok(), "{e} is no socket address");
    }
    if !got.is_empty() {
        run.hit();
    }
}

#[test]
fn c16_compact() {
    let mut run = Run::new("c16");
    let mut r = Rng::new("c16");
    for n in 0..40 {
        let b = r.bytes(n);
        check(&mut run, &b);
        check(&mut run, &vec![0; n]);
        check(&mut run, &vec![0xff; n]);
    }
    for k in 0..=255u8 {
        check(&mut run, &[k, 0, 255, !k, k, 0]);
        check(&mut run, &[1, 2, 3, 4, 0, k]);
        check(&mut run, &[10, k, 100, 1, k, k, 9]);
    }
    for _ in 0..scale(2000) {
        let n = r.below(700);
        let b = r.bytes(n);
        check(&mut run, &b);
    }
    for n in [1529, 1530, 1536, 1542, 12288, 65535, 65536, 65538, 131_072, 393_216, 400_000] {
        let b = r.bytes(n);
        check(&mut run, &b);
        // the same few entries again and again
        check(&mut run, &b[..12].repeat(n / 12));
    }
}

#[test]
fn c16_reachable() {
    let mut run = Run::new("c16r");
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let p = l.local_addr().unwrap().port();
    for e in ["", "x", "1.2.3.4", "256.1.1.1:5", "127.0.0.1:99999", "é:1"] {
        run.case(e);
        assert!(!PeerEndpoint::is_reachable(e), "{e}");
        run.hit();
    }
    run.case(p);
    assert!((0..10).any(|_| PeerEndpoint::is_reachable(&format!("127.0.0.1:{p}"))), "somebody listens there");
    run.hit();
}
