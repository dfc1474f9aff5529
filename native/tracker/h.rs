use super::*;
use crate::vp_util::*;
use std::time::Duration;

fn ask(url: &str, hash: &[u8]) -> Result<Vec<String>, TrackerError> {
    let url = Url::parse(url).unwrap();
    run_async(Duration::from_secs(20), get_peers_by_tracker(&url, hash)).expect("no end").map(|v| v.iter().map(|p| p.endpoint()).collect())
}

#[test]
fn c24_protocols() {
    let mut run = Run::new("c24p");
    let mut r = Rng::new("c24p");
    for _ in 0..scale(20) {
        let n = r.range(1, 50);
        let peers = r.bytes(6 * n);
        let hash = r.bytes(20);
        run.case((&hash, n));
        let p = peers.clone();
        let u = udp_tracker(move |_, b| udp_answer(b, &p));
        assert_eq!(ask(&format!("udp://127.0.0.1:{}/announce", u.port), &hash), Ok(endpoints(&peers)), "udp");
        let sent = u.received();
        assert_eq!(sent.len(), 2);
        assert_eq!(sent[1][16..36], hash, "info hash");
        assert!(sent[1][36..56].iter().all(|b| b.is_ascii_alphanumeric()), "peer id");
        let h = http_tracker(http("200 OK", &benc(&dict(vec![("peers", B::Str(peers.clone()))]))));
        let mut got = Ok(vec![]);
        for _ in 0..20 {
            got = ask(&format!("http://127.0.0.1:{}/announce", h.port), &hash);
            if got.is_ok() {
                break;
            }
        }
        assert_eq!(got, Ok(endpoints(&peers)), "http");
        for head in h.received() {
            assert_eq!(query(&head, "info_hash"), Some(hash.clone()));
            assert!(matches!(query(&head, "peer_id"), Some(i) if i.len() == 20 && i.iter().all(|b| b.is_ascii_alphanumeric())), "peer id");
        }
        run.hit();
    }
}

#[test]
fn c24_other_protocols() {
    let mut run = Run::new("c24o");
    let h = http_tracker(http("200 OK", b"d5:peers6:abcdefe"));
    for scheme in ["https", "ftp", "ws", "wss", "tcp", "udp6", "httpx", "x"] {
        run.case(scheme);
        let got = ask(&format!("{scheme}://127.0.0.1:{}/announce", h.port), &[3; 20]);
        assert!(got.is_err(), "{scheme}: {:?}", got);
        run.hit();
    }
    assert!(h.received().is_empty(), "asked over another protocol");
}
