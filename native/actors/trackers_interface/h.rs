use super::*;
use crate::actors::torrent::TorrentActor;
use crate::vp_util::*;
use actix_web::{test, web, App};
use std::time::Duration;

fn url(scheme: &str, t: &FakeTracker) -> Url {
    Url::parse(&format!("{scheme}://127.0.0.1:{}/announce", t.port)).unwrap()
}

fn announced(t: &FakeTracker) -> Vec<Vec<u8>> {
    t.received().iter().filter(|p| p.len() == 98).map(|p| p[16..36].to_vec()).collect()
}

async fn wait(ms: u64, mut f: impl FnMut() -> bool) {
    for _ in 0..ms / 10 {
        if f() {
            return;
        }
        actix::clock::sleep(Duration::from_millis(10)).await;
    }
}

/// magnet texts, and the hash of those that are valid
fn magnets(r: &mut Rng) -> Vec<(String, Option<Vec<u8>>)> {
    let h = r.bytes(20);
    let hex: String = h.iter().map(|b| format!("{b:02x}")).collect();
    let mut v = vec![
        (format!("magnet:?xt=urn:btih:{hex}"), Some(h.clone())),
        (format!("magnet:?xt=urn:btih:{}&dn=name&tr=udp%3A%2F%2Fx", hex.to_uppercase()), Some(h)),
    ];
    for bad in ["", "magnet:", "magnet:?", "magnet:?xt=", "magnet:?xt=urn:btih:", "xt=urn:btih:00", "é", "magnet:?dn=x"] {
        v.push((bad.to_string(), None));
    }
    v.push((format!("magnet:?xt=urn:btih:{}", &hex[..39]), None));
    v.push((format!("magnet:?xt=urn:btih:{}g", &hex[..39]), None));
    v.push((format!("magnet:?xt=urn:btih:{hex}0"), None));
    v.push((format!("magnet:?xt=urn:btmh:{hex}"), None));
    v.push((r.text(60), None));
    // what people paste
    for bad in ["magnet:?xt=urn%3Abtih%3A", "MAGNET:?XT=URN:BTIH:", "Magnet:?xt=urn:btih:", " magnet:?xt=urn:btih:", "\nmagnet:?xt=urn:btih:", "\u{feff}magnet:?xt=urn:btih:", "\"magnet:?xt=urn:btih:",
        "<magnet:?xt=urn:btih:", "link=magnet:?xt=urn:btih:", "link=magnet%3A%3Fxt%3Durn%3Abtih%3A", "magnet:?dn=x&xt=urn:btih:", "magnet:?xt.1=urn:btih:", "magnet:xt=urn:btih:", "magnet://?xt=urn:btih:",
        "magnet:?xt=urn:btih:%20", "magnet:?xt=urn:sha1:", "http://x/?magnet:?xt=urn:btih:", ""] {
        v.push((format!("{bad}{hex}"), None));
    }
    for bad in [" ", "\n", "\r\n", "#", "?", "%26dn=x", "&amp;"].into_iter().take(6) {
        v.push((format!("magnet:?xt=urn:btih:{hex}{bad}"), None));
    }
    v
}

#[::core::prelude::v1::test]
fn c18_endpoint() {
    let mut run = Run::new("c18");
    let mut r = Rng::new("c18");
    actix::System::new().block_on(async move {
        let ts: Vec<FakeTracker> = (0..3).map(|_| udp_tracker(|_, b| udp_answer(b, &[]))).collect();
        let trackers = ts.iter().map(|t| TrackerActor { url: url("udp", t) }.start()).collect();
        let state = web::Data::new(crate::AppState { trackers_interface: TrackersInterfaceActor { trackers }.start() });
        let app = test::init_service(App::new().app_data(state).service(crate::add_magnet)).await;
        let mut want = vec![];
        for _ in 0..scale(3) {
            for (text, hash) in magnets(&mut r) {
                run.case(&text);
                let req = test::TestRequest::post().uri("/add/magnet").set_payload(text.clone()).to_request();
                let status = match test::try_call_service(&app, req).await {
                    Ok(a) => a.status().as_u16(),
                    Err(e) => e.as_response_error().status_code().as_u16(),
                };
                assert_eq!(status, if hash.is_some() { 200 } else { 400 }, "{text:?}");
                if let Some(h) = hash {
                    want.push(h);
                    wait(8000, || ts.iter().all(|t| announced(t).len() >= want.len())).await;
                }
                for t in &ts {
                    assert_eq!(announced(t), want, "announced to the trackers");
                }
                run.hit();
            }
        }
        wait(300, || false).await;
        for t in &ts {
            assert_eq!(announced(t), want, "announced to the trackers");
        }
        assert_eq!(panics(), 0, "something panicked");
    });
}

#[::core::prelude::v1::test]
fn c24_peers_of_the_answer() {
    let mut run = Run::new("c24");
    let mut r = Rng::new("c24");
    actix::System::new().block_on(async move {
        for k in 0..scale(6).min(40) {
            let m = { let c = r.bytes(5000); torrent("t", &[], true, 1000, &c) };
            let listed: Vec<FakePeer> = (0..if k < 2 { 70 } else { r.range(1, 4) }).map(|_| peer(&m, Fault::Close, false, 1)).collect();
            let unlisted = peer(&m, Fault::Close, false, 1);
            let mut ports: Vec<u16> = listed.iter().map(|p| p.port).collect();
            // nobody is there
            ports.insert(r.below(ports.len() + 1), 1);
            let list = compact(&ports);
            let mut kind = ["udp", "http"][k % 2];
            let spoiled = k % 3 == 2;
            let l = list.clone();
            let t = if kind == "udp" {
                udp_tracker(move |_, b| {
                    let mut a = udp_answer(b, &l)?;
                    if spoiled && b.len() != 16 {
                        a[7] ^= 1;
                    }
                    Some(a)
                })
            } else {
                http_tracker(http(if spoiled { "500 No" } else { "200 OK" }, &benc(&dict(vec![("peers", B::Str(list))]))))
            };
            if k == 5 {
                kind = "https";
            }
            run.case((kind, spoiled, &ports));
            let hash = m.hash();
            let a = TrackersInterfaceActor { trackers: vec![TrackerActor { url: url(kind, &t) }.start()] }.start();
            let quiet = spoiled || kind == "https";
            // a slow answer may be lost
            for _ in 0..if quiet { 1 } else { 10 } {
                let torrent_actor_addr = TorrentActor::new(hash.clone()).start();
                let _ = a.send(TorrentRegistered { info_hash: hash.clone(), torrent_actor_addr }).await;
                let came = || listed.iter().all(|p| p.log.lock().unwrap().connections > 0);
                wait(if quiet { 400 } else { 2500 }, came).await;
                if came() {
                    break;
                }
            }
            for p in &listed {
                let l = p.log.lock().unwrap();
                if quiet {
                    assert_eq!(l.connections, 0, "a peer of a bad answer was used");
                } else {
                    assert!(l.connections > 0, "a peer was not passed on");
                    assert!(l.hashes.iter().all(|h| *h == hash), "another info hash");
                }
            }
            assert_eq!(unlisted.log.lock().unwrap().connections, 0);
            let _ = std::fs::remove_dir_all("./downloads");
            run.hit();
        }
        assert_eq!(panics(), 0, "something panicked");
    });
}

#[::core::prelude::v1::test]
fn c24_built_in_list() {
    let mut run = Run::new("c24b");
    run.case("the built-in list");
    actix::System::new().block_on(async move {
        assert_eq!(TrackersInterfaceActor::new().trackers.len(), 18);
    });
    run.hit();
}

#[::core::prelude::v1::test]
fn c24_every_tracker() {
    let mut run = Run::new("c24c");
    let mut r = Rng::new("c24c");
    actix::System::new().block_on(async move {
        for n in [1usize, 2, 18, 33] {
            let ts: Vec<FakeTracker> = (0..n).map(|_| udp_tracker(|_, b| udp_answer(b, &[]))).collect();
            let trackers = ts.iter().map(|t| TrackerActor { url: url("udp", t) }.start()).collect();
            let a = TrackersInterfaceActor { trackers }.start();
            let mut want: Vec<Vec<u8>> = vec![];
            for _ in 0..3 {
                let hash = r.bytes(20);
                run.case((n, &hash));
                want.push(hash.clone());
                let torrent_actor_addr = TorrentActor::new(hash.clone()).start();
                let _ = a.send(TorrentRegistered { info_hash: hash, torrent_actor_addr }).await;
                wait(8000, || ts.iter().all(|t| announced(t).len() >= want.len())).await;
                for (i, t) in ts.iter().enumerate() {
                    assert_eq!(announced(t), want, "what tracker {i} of {n} was asked");
                }
                run.hit();
            }
        }
        assert_eq!(panics(), 0, "something panicked");
    });
}

#[::core::prelude::v1::test]
fn c24_many_torrents_at_once() {
    let mut run = Run::new("c24d");
    let mut r = Rng::new("c24d");
    actix::System::new().block_on(async move {
        for n in [17usize, 40] {
            let ts: Vec<FakeTracker> = (0..2).map(|_| udp_tracker(|_, b| udp_answer(b, &[]))).collect();
            let trackers = ts.iter().map(|t| TrackerActor { url: url("udp", t) }.start()).collect();
            let a = TrackersInterfaceActor { trackers }.start();
            let mut want: Vec<Vec<u8>> = (0..n).map(|_| r.bytes(20)).collect();
            run.case((n, &want));
            let torrent_actor_addr = TorrentActor::new(want[0].clone()).start();
            for hash in &want {
                a.do_send(TorrentRegistered { info_hash: hash.clone(), torrent_actor_addr: torrent_actor_addr.clone() });
            }
            wait(8000, || ts.iter().all(|t| announced(t).len() >= n)).await;
            want.sort();
            for (i, t) in ts.iter().enumerate() {
                let mut got = announced(t);
                got.sort();
                assert!(got == want, "tracker {i} heard of {} of {n} torrents that were registered at once", got.len());
            }
            run.hit();
        }
        assert_eq!(panics(), 0, "something panicked");
    });
}

#[::core::prelude::v1::test]
fn c18_many_links_at_once() {
    let mut run = Run::new("c18b");
    let mut r = Rng::new("c18b");
    actix::System::new().block_on(async move {
        let n = 40usize;
        let ts: Vec<FakeTracker> = (0..2).map(|_| udp_tracker(|_, b| udp_answer(b, &[]))).collect();
        let trackers = ts.iter().map(|t| TrackerActor { url: url("udp", t) }.start()).collect();
        let state = web::Data::new(crate::AppState { trackers_interface: TrackersInterfaceActor { trackers }.start() });
        let app = test::init_service(App::new().app_data(state).service(crate::add_magnet)).await;
        let mut want: Vec<Vec<u8>> = (0..n).map(|_| r.bytes(20)).collect();
        run.case((n, &want));
        for hash in &want {
            let hex: String = hash.iter().map(|b| format!("{b:02x}")).collect();
            let req = test::TestRequest::post().uri("/add/magnet").set_payload(format!("magnet:?xt=urn:btih:{hex}")).to_request();
            assert_eq!(test::call_service(&app, req).await.status().as_u16(), 200);
        }
        wait(10000, || ts.iter().all(|t| announced(t).len() >= n)).await;
        want.sort();
        for t in &ts {
            let mut got = announced(t);
            got.sort();
            assert!(got == want, "{} of {n} links that were added at once were registered", got.len());
        }
        run.hit();
        assert_eq!(panics(), 0, "something panicked");
    });
}

#[::core::prelude::v1::test]
fn c24_odd_addresses() {
    use std::net::TcpListener;
    use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};
    let mut run = Run::new("c24e");
    let mut r = Rng::new("c24e");
    actix::System::new().block_on(async move {
        for k in 0..scale(3) {
            // peers at addresses and ports of every kind, all on this machine
            let mut places = vec![];
            for a in [[127, 0, 0, 1], [127, 0, 0, 2], [127, 10, 0, 0], [127, 255, 255, 254], [127, 200, 128, 255], [127, 1, 1, 1]] {
                for (lo, hi) in [(256, 1000), (1024, 5000), (10240, 10500), (33000, 40000), (65000, 65535)] {
                    let at = (0..20).find_map(|_| {
                        let port = r.range(lo, hi) as u16;
                        TcpListener::bind((std::net::Ipv4Addr::from(a), port)).ok().map(|l| (l, a, port))
                    });
                    places.extend(at);
                }
            }
            for i in 1..places.len() {
                let j = r.below(i + 1);
                places.swap(i, j);
            }
            let list: Vec<u8> = places.iter().flat_map(|(_, a, p)| [a[0], a[1], a[2], a[3], (p >> 8) as u8, *p as u8]).collect();
            run.case((k, &list));
            let met: Vec<_> = places
                .into_iter()
                .map(|(l, _, _)| {
                    let n = Arc::new(AtomicUsize::new(0));
                    let m = n.clone();
                    std::thread::spawn(move || {
                        while l.accept().is_ok() {
                            m.fetch_add(1, Ordering::SeqCst);
                        }
                    });
                    n
                })
                .collect();
            let l = list.clone();
            let t = if k % 2 == 0 { udp_tracker(move |_, b| udp_answer(b, &l)) } else { http_tracker(http("200 OK", &benc(&dict(vec![("peers", B::Str(list.clone()))])))) };
            let a = TrackersInterfaceActor { trackers: vec![TrackerActor { url: url(["udp", "http"][k % 2], &t) }.start()] }.start();
            // is it there? and what is the metadata?
            let came = || met.iter().all(|n| n.load(Ordering::SeqCst) >= 2);
            for _ in 0..5 {
                let hash = r.bytes(20);
                let torrent_actor_addr = TorrentActor::new(hash.clone()).start();
                let _ = a.send(TorrentRegistered { info_hash: hash, torrent_actor_addr }).await;
                wait(2500, came).await;
                if came() {
                    break;
                }
            }
            for (i, n) in met.iter().enumerate() {
                assert!(n.load(Ordering::SeqCst) >= 2, "the peer at {:?} was not passed on", &list[6 * i..6 * i + 6]);
            }
            let _ = std::fs::remove_dir_all("./downloads");
            run.hit();
        }
        assert_eq!(panics(), 0, "something panicked");
    });
}
