use super::*;
use crate::vp_util::*;
use std::io::Write as _;
use std::net::TcpListener;

/// a connection; the other end sends these parts, with pauses in between (ms), and then closes if told to
fn feed(parts: Vec<(Vec<u8>, u64)>, close: bool) -> (StreamInterface, std::thread::JoinHandle<()>) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let e = l.local_addr().unwrap().to_string();
    let t = std::thread::spawn(move || {
        let (mut c, _) = l.accept().unwrap();
        let _ = c.set_nodelay(true);
        for (p, ms) in parts {
            if c.write_all(&p).is_err() {
                return;
            }
            thread::sleep(Duration::from_millis(ms));
        }
        if !close {
            // held open until the reader has gone
            let mut b = [0; 64];
            let _ = c.set_read_timeout(Some(Duration::from_secs(40)));
            while matches!(std::io::Read::read(&mut c, &mut b), Ok(n) if n > 0) {}
        }
    });
    (StreamInterface::connect(&e, false).unwrap(), t)
}

type Frame = (Vec<u8>, u8, u32);

fn frames(r: &mut Rng) -> (Vec<u8>, Vec<Frame>) {
    let mut all = vec![];
    let mut want = vec![];
    if r.chance(50) {
        let h = handshake(&r.bytes(20), &r.bytes(20));
        want.push((h.clone(), 19, 68));
        all.extend(h);
    }
    for _ in 0..r.range(1, 5) {
        if r.chance(25) {
            all.extend([0, 0, 0, 0]);
        }
        // all of it has to fit into the receive window of the socket (known finding of C09)
        let n = r.pick(&[0, 1, 4, 8, 18, 19, 20, 255, 256, 16393, 40_000]);
        let n = if all.len() + n < 60_000 { n } else { 18 };
        let (id, body) = (r.pick(&[0, 1, 4, 5, 7, 19, 20, 255]), r.bytes(n));
        all.extend(frame(id, &body));
        want.push((body, id, n as u32));
    }
    (all, want)
}

fn expect(stream: &mut StreamInterface, want: &[Frame], seconds: u64) {
    let mut got = vec![];
    let until = std::time::Instant::now() + Duration::from_secs(seconds);
    while got.len() < want.len() && std::time::Instant::now() < until {
        match read_stream(stream) {
            Some(f) => {
                got.push(f);
                assert!(want.starts_with(&got), "read {:?} as number {}, expected {:?}", short(got.last().unwrap()), got.len(), want.get(got.len() - 1).map(short));
            }
            None => thread::sleep(Duration::from_millis(3)),
        }
    }
    assert_eq!(got.len(), want.len(), "not all messages were read");
    assert!(read_stream(stream).is_none(), "more than was sent");
}

fn short(f: &Frame) -> (Vec<u8>, usize, u8, u32) {
    (f.0.iter().take(8).cloned().collect(), f.0.len(), f.1, f.2)
}

#[test]
fn c09_segmentation() {
    let mut run = Run::new("c09");
    let mut r = Rng::new("c09");
    let mut threads = vec![];
    for k in 0..scale(48) {
        let (mut all, mut want) = frames(&mut r);
        let whole = k % 12 == 5;
        if whole {
            let body = r.bytes(66_000);
            all = frame(7, &body);
            want = vec![(body, 7, 66_000)];
        }
        // cut anywhere, in particular within length prefixes
        let mut cuts: Vec<usize> = (0..if whole { 0 } else { r.below(4) }).map(|_| r.below(all.len() + 1)).collect();
        if k % 3 == 0 && !whole {
            let n = r.below(6).min(all.len());
            cuts.push(all.len() - n);
            cuts.push(r.below(6).min(all.len()));
        }
        cuts.sort();
        let mut parts = vec![];
        let mut at = 0;
        for c in cuts {
            parts.push((all[at..c].to_vec(), r.pick(&[1, 5, 30, 130])));
            at = c;
        }
        parts.push((all[at..].to_vec(), 0));
        let sizes: Vec<(usize, u64)> = parts.iter().map(|p| (p.0.len(), p.1)).collect();
        let close = r.chance(30);
        threads.push((format!("{:?} in parts {:?}", want.iter().map(short).collect::<Vec<_>>(), sizes), std::thread::spawn(move || {
            let (mut s, t) = feed(parts, close);
            expect(&mut s, &want, 40);
            drop(s);
            t.join().unwrap();
        })));
        if threads.len() == 16 {
            for (what, t) in threads.drain(..) {
                run.case(&what);
                run.hit();
                assert!(t.join().is_ok(), "misread: {what}");
            }
        }
    }
}

/// a message that does not arrive in time consumes nothing: it is read when the rest has come
#[test]
fn c09_late_rest() {
    let mut run = Run::new("c09l");
    let mut r = Rng::new("c09l");
    let mut threads = vec![];
    for k in 0..scale(8) {
        let whole = if k % 4 == 3 { handshake(&[1; 20], &[2; 20]) } else { frame(5, &r.bytes(40)) };
        let want = if k % 4 == 3 { (whole.clone(), 19, 68) } else { (whole[5..].to_vec(), 5, 40) };
        let cut = match k % 4 { 0 => 3, 1 => 5, 2 => 20, _ => 50 };
        threads.push(std::thread::spawn(move || {
            // longer than the bounded waiting time
            let (mut s, t) = feed(vec![(whole[..cut].to_vec(), 5200), (whole[cut..].to_vec(), 0)], false);
            expect(&mut s, &[want], 40);
            drop(s);
            t.join().unwrap();
        }));
    }
    run.case("the rest of a message comes after 5.2 s");
    for t in threads {
        run.hit();
        assert!(t.join().is_ok(), "a partial message was consumed");
    }
}

/// the connection ends within a message
#[test]
fn c09_cut_off() {
    let mut run = Run::new("c09c");
    let mut r = Rng::new("c09c");
    let mut threads = vec![];
    for _ in 0..scale(16) {
        let first = frame(5, &[1, 2, 3]);
        let second = frame(7, &r.bytes(50));
        let cut = r.below(second.len());
        let all = [first, second[..cut].to_vec()].concat();
        threads.push((cut, std::thread::spawn(move || {
            let (mut s, t) = feed(vec![(all, 0)], true);
            // on a busy machine it takes a while until it has come
            let first = (0..100).find_map(|_| read_stream(&mut s));
            assert_eq!(first, Some((vec![1, 2, 3], 5, 3)));
            for _ in 0..2 {
                assert_eq!(read_stream(&mut s), None);
            }
            t.join().unwrap();
        })));
    }
    for (cut, t) in threads {
        run.case(("cut off after", cut));
        run.hit();
        assert!(t.join().is_ok(), "a message that never came, cut after {cut}");
    }
}

#[test]
fn c10_written_completely() {
    let mut run = Run::new("c10w");
    let mut r = Rng::new("c10w");
    for k in 0..scale(12) {
        let n = if k < 4 { 8 << 20 } else { r.pick(&[0, 1, 13, 68, 70_000]) };
        let data = r.bytes(n);
        run.case(("bytes to write", n));
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let mut s = StreamInterface::connect(&l.local_addr().unwrap().to_string(), false).unwrap();
        let (mut c, _) = l.accept().unwrap();
        let t = std::thread::spawn(move || {
            // a slow reader: the buffers fill up and writes are short
            thread::sleep(Duration::from_millis(60));
            let mut got = vec![];
            let _ = std::io::Read::read_to_end(&mut c, &mut got);
            got
        });
        write_stream(&mut s, &data);
        send_metadata_handshake_request(&mut s).unwrap();
        drop(s);
        let got = t.join().unwrap();
        assert!(got.starts_with(&data), "{} of {} bytes were written as given", got.iter().zip(&data).take_while(|(a, b)| a == b).count(), n);
        let rest = &got[n..];
        assert_eq!(rest.len(), 64, "extension handshake");
        assert_eq!(rest[..6], [0, 0, 0, 60, 20, 0], "extension handshake");
        assert_eq!(bdec(&rest[6..]), Some((dict(vec![("m", dict(vec![("ut_metadata", B::Int(1)), ("ut_pex", B::Int(2))])), ("metadata_size", B::Int(28282))]), 58)), "extension handshake");
        run.hit();
    }
}

/// the rest comes soon: one call is enough
#[test]
fn c09_soon_rest() {
    let mut run = Run::new("c09s");
    let mut r = Rng::new("c09s");
    let mut threads = vec![];
    for k in 0..scale(24) {
        let whole = if k % 4 == 3 { handshake(&[1; 20], &[2; 20]) } else { frame(5, &r.bytes(40)) };
        let want = if k % 4 == 3 { (whole.clone(), 19, 68) } else { (whole[5..].to_vec(), 5, 40) };
        let cut = if k < 12 { 1 + k % 5 } else { r.range(1, whole.len() - 1) };
        let ms = r.pick(&[20, 120, 300]);
        let what = format!("{} bytes, the rest of {} after {ms} ms", cut, whole.len());
        threads.push((what, std::thread::spawn(move || {
            let (mut s, t) = feed(vec![(whole[..cut].to_vec(), ms), (whole[cut..].to_vec(), 0)], false);
            let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
            assert_eq!(s.peek(&mut [0]).ok(), Some(1));
            assert_eq!(read_stream(&mut s), Some(want));
            drop(s);
            t.join().unwrap();
        })));
    }
    for (what, t) in threads {
        run.case(&what);
        run.hit();
        assert!(t.join().is_ok(), "{what}: not read in one go");
    }
}
