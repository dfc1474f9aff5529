use super::*;
use crate::vp_util::*;

fn ask(t: &FakeTracker, hash: &[u8], id: &str, path: &str) -> Result<Vec<u8>, TcpTrackerError> {
    call(hash, id, &Url::parse(&format!("http://127.0.0.1:{}{path}", t.port)).unwrap())
}

fn good(peers: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut e = vec![("peers", B::Str(peers.to_vec()))];
    if r.chance(60) {
        e.push(("interval", B::Int(1800)));
    }
    if r.chance(30) {
        let v = any_b(r, 2);
        e.push((r.pick(&["a", "peers6", "zz", "complete"]), v));
    }
    benc(&dict(e))
}

#[test]
fn c21_requests() {
    let mut run = Run::new("c21");
    let mut r = Rng::new("c21");
    for k in 0..scale(70) {
        let hash = if k < 13 { (0..20).map(|i| (k * 20 + i) as u8).collect() } else { r.bytes(20) };
        let id: String = (0..20).map(|_| char::from(b'a' + r.below(26) as u8)).collect();
        let n = if k % 9 == 0 { r.pick(&[1535, 1536, 4096, 65536, 66_000, 400_000]) } else { r.below(200) };
        let peers = r.bytes(n);
        let body = good(&peers, &mut r);
        let path = r.pick(&["/announce", "/", "/a/b%20c"]);
        run.case((&hash, &id, path, n));
        let t = http_tracker(http("200 OK", &body));
        let mut got = Err(TcpTrackerError::BufferReading());
        for _ in 0..20 {
            got = ask(&t, &hash, &id, path);
            if !matches!(got, Err(TcpTrackerError::Connection(_)) | Err(TcpTrackerError::BufferReading())) {
                break;
            }
        }
        for head in t.received() {
            let line = String::from_utf8_lossy(&head).lines().next().unwrap_or("").to_string();
            assert!(line.starts_with(&format!("GET {path}?")), "{line}");
            assert_eq!(query(&head, "info_hash"), Some(hash.clone()), "{line}");
            assert_eq!(query(&head, "peer_id"), Some(id.clone().into_bytes()), "{line}");
        }
        assert_eq!(got, Ok(peers), "peers");
        run.hit();
    }
}

#[test]
fn c21_answers() {
    let mut run = Run::new("c21a");
    let mut r = Rng::new("c21a");
    let mut ts = vec![];
    let mut answers: Vec<Vec<u8>> = vec![
        vec![],
        b"nonsense\r\n\r\n".to_vec(),
        http("200 OK", b""),
        http("200 OK", b"d5:peers3:ab"),
        http("200 OK", b"d5:peers3:abc"),
        http("200 OK", b"d5:peersi7ee"),
        http("200 OK", b"d5:peersl6:abcdefee"),
        http("200 OK", b"d5:peersd2:ip1:aee"),
        http("200 OK", b"d6:peers26:abcdefe"),
        http("200 OK", b"d14:failure reason2:noe"),
        http("200 OK", b"d8:intervali1800ee"),
        http("200 OK", b"d8:completei1e10:incompletei2e8:intervali1800e12:min intervali900ee"),
        http("200 OK", b"d8:intervali1800e5:peersld2:ip9:127.0.0.17:peer id20:aaaaaaaaaaaaaaaaaaaa4:porti6881eeee"),
        http("200 OK", b"d8:intervali1800e5:peersi7ee"),
        http("200 OK", b"d8:intervali1800e6:peers618:aaaaaaaaaaaaaaaaaae"),
        http("200 OK", b"d15:warning message2:no8:intervali1800e10:tracker id1:xe"),
        http("200 OK", b"de"),
        http("200 OK", b"le"),
        http("200 OK", b"l5:peers6:abcdefe"),
        http("200 OK", b"6:abcdef"),
        http("200 OK", b"d5:peers99999999999999999999:abcdefe"),
        http("200 OK", b"<html>d5:peers6:abcdefe</html>"),
        http("404 Not Found", b"d5:peers6:abcdefe"),
        http("500 Oops", b"d5:peers6:abcdefe"),
        http("403 No", b"d5:peers0:e"),
        http("200 OK", &vec![b'l'; 100_000]),
        http("200 OK", &"d1:a".repeat(50_000).into_bytes()),
    ];
    for _ in 0..scale(60) {
        let b = any_b(&mut r, 3);
        let mut v = benc(&b);
        if r.chance(30) && !v.is_empty() {
            let n = r.below(v.len());
            v.truncate(n);
        }
        let ok = matches!(bdec(&v), Some((B::Dict(d), _)) if matches!(d.get(&b"peers"[..]), Some(B::Str(_))));
        if !ok {
            answers.push(http("200 OK", &v));
        }
    }
    let mut cut = http("200 OK", b"d5:peers6:abcdefe");
    cut.truncate(cut.len() - 4);
    answers.push(cut);
    for a in answers {
        let what = String::from_utf8_lossy(&a[..a.len().min(200)]).into_owned();
        ts.push((what, std::thread::spawn(move || {
            let t = http_tracker(a);
            let got = ask(&t, &[1; 20], "abcdefghijklmnopqrst", "/announce");
            assert!(got.is_err(), "used as {:?}", got);
        })));
        if ts.len() == 16 {
            for (what, t) in ts.drain(..) {
                run.case(&what);
                run.hit();
                assert!(t.join().is_ok(), "{what}");
            }
        }
    }
    for (what, t) in ts.drain(..) {
        run.case(&what);
        run.hit();
        assert!(t.join().is_ok(), "{what}");
    }
    run.case("nobody listens");
    assert!(call(&[1; 20], "abcdefghijklmnopqrst", &Url::parse("http://127.0.0.1:1/announce").unwrap()).is_err());
    run.hit();
}
