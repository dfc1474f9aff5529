use super::*;
use crate::vp_util::*;

fn strings(b: Option<&B>) -> Option<Vec<String>> {
    match b {
        Some(B::List(l)) => l.iter().map(|c| match c { B::Str(v) => String::from_utf8(v.clone()).ok(), _ => None }).collect(),
        _ => None,
    }
}

fn safe(c: &str) -> bool {
    !c.is_empty() && c != "." && c != ".." && !c.contains(|x| x == '/' || x == '\\' || x == '\0')
}

struct Plain {
    name: String,
    piece_length: usize,
    pieces: Vec<u8>,
    files: Vec<(Vec<String>, usize)>,
}

/// consistent metadata, by the letter of the property
fn plain(b: &B) -> Option<Plain> {
    let d = match b { B::Dict(d) => d, _ => return None };
    let int = |k: &str| match d.get(k.as_bytes()) { Some(B::Int(n)) => Some(*n), _ => None };
    let name = match d.get(&b"name"[..]) { Some(B::Str(v)) => String::from_utf8(v.clone()).ok()?, _ => return None };
    let pieces = match d.get(&b"pieces"[..]) { Some(B::Str(v)) => v.clone(), _ => return None };
    let piece_length = int("piece length")?;
    let files = match d.get(&b"files"[..]) {
        Some(B::List(l)) => l.iter().map(|f| match f {
            B::Dict(f) => match f.get(&b"length"[..]) { Some(B::Int(n)) => Some((strings(f.get(&b"path"[..]))?, *n)), _ => None },
            _ => None,
        }).collect::<Option<Vec<_>>>()?,
        _ => vec![(vec![name.clone()], int("length")?)],
    };
    let total: u128 = files.iter().map(|f| f.1 as u128).sum();
    if piece_length == 0 || piece_length > u32::MAX as usize || total > i64::MAX as u128 {
        return None;
    }
    let count = (total + piece_length as u128 - 1) / piece_length as u128;
    if pieces.len() as u128 != count * 20 || files.iter().any(|f| f.0.is_empty() || !f.0.iter().all(|c| safe(c))) {
        return None;
    }
    Some(Plain { name, piece_length, pieces, files })
}

fn agrees(b: &B) -> bool {
    let got = Info::from_bytes(benc(b));
    match (plain(b), got) {
        (Some(p), Ok(i)) => {
            same(&p, &i);
            true
        }
        (None, Err(_)) => false,
        (Some(_), Err(e)) => panic!("consistent metadata rejected: {:?}", e),
        (None, Ok(i)) => panic!("inconsistent metadata accepted: {:?}", i),
    }
}

fn same(p: &Plain, i: &Info) {
    assert_eq!(i.name, p.name);
    assert_eq!(i.get_piece_length(), p.piece_length);
    assert_eq!(i.get_total_length(), p.files.iter().map(|f| f.1).sum::<usize>());
    let f: Vec<_> = i.get_files().unwrap().iter().map(|f| (f.get_path(), f.get_length())).collect();
    assert_eq!(f, p.files);
    for (n, h) in p.pieces.chunks(20).enumerate() {
        assert_eq!(i.get_piece(n), h, "digest {n}");
        if n > 50 {
            break;
        }
    }
}

fn odd_torrent(r: &mut Rng) -> B {
    let m = any_torrent(r, 60, &[1, 2, 7, 16, 64]);
    let mut d = match m.dict { B::Dict(d) => d, _ => unreachable!() };
    let digests = |n: usize| B::Str(vec![7; n]);
    for _ in 0..r.below(3) {
        match r.below(12) {
            0 => {
                let k = r.pick(&["name", "piece length", "pieces", "length", "files"]);
                d.remove(k.as_bytes());
            }
            1 => {
                let k = r.pick(&["name", "piece length", "pieces", "length", "files"]);
                let v = any_b(r, 2);
                d.insert(k.as_bytes().to_vec(), v);
            }
            2 => {
                let n = r.number();
                d.insert(b"piece length".to_vec(), B::Int(n));
            }
            3 => {
                let n = r.number();
                d.insert(b"length".to_vec(), B::Int(n));
            }
            4 => {
                let n = match d.get(&b"pieces"[..]) { Some(B::Str(v)) => v.len(), _ => 0 };
                let n = r.pick(&[n, n + 1, n + 20, n.saturating_sub(1), n.saturating_sub(20), 0, 20, 19]);
                d.insert(b"pieces".to_vec(), digests(n));
            }
            5 => {
                // as many digests as a huge length needs
                let pl = r.pick(&[u32::MAX as usize, u32::MAX as usize + 1, 1 << 31, 1 << 40]);
                let n = r.below(6);
                let extra = r.below(3);
                d.insert(b"piece length".to_vec(), B::Int(pl));
                d.remove(&b"files"[..]);
                d.insert(b"length".to_vec(), B::Int(pl * n + extra));
                d.insert(b"pieces".to_vec(), digests(20 * (n + (extra > 0) as usize)));
            }
            6 => {
                let lens = [r.number(), r.number(), r.number() / 2, 0];
                let k = r.range(0, 4);
                d.insert(b"files".to_vec(), B::List(lens[..k].iter().map(|n| dict(vec![("length", B::Int(*n)), ("path", B::List(vec![s("x")]))])).collect()));
            }
            7 | 8 => {
                let p = odd_path(r);
                if let Some(B::List(l)) = d.get_mut(&b"files"[..]) {
                    if !l.is_empty() {
                        let i = r.below(l.len());
                        if let B::Dict(f) = &mut l[i] {
                            f.insert(b"path".to_vec(), B::List(p.iter().map(|c| s(c)).collect()));
                        }
                    }
                } else {
                    d.insert(b"name".to_vec(), s(&p.first().cloned().unwrap_or_default()));
                }
            }
            9 => {
                if let Some(B::List(l)) = d.get_mut(&b"files"[..]) {
                    let v = any_b(r, 2);
                    if r.chance(50) { l.push(v) } else if let Some(B::Dict(f)) = l.last_mut() {
                        f.insert(r.pick(&["length", "path"]).as_bytes().to_vec(), v);
                    }
                }
            }
            10 => {
                d.insert(b"name".to_vec(), B::Str(vec![0xff, 0xfe]));
            }
            _ => {
                let t = r.text(10);
                d.insert(b"name".to_vec(), s(&t));
            }
        }
    }
    B::Dict(d)
}

fn odd_path(r: &mut Rng) -> Vec<String> {
    if r.chance(15) {
        // names that only become something else when they are processed
        return (0..r.range(1, 3)).map(|_| r.pick(&["%2e%2e", "..%2fup", "%2F", "%00", "&#46;&#46;", "~root", "$HOME", "${HOME}", "`pwd`", " .. ", ".. ", " ..", "..\t", "..\n", "\u{2025}", "\u{ff0e}\u{ff0e}", "\u{ff0f}", "a\u{202e}b", "..;", "...", "....", "..a/"[..3].into(), "NUL", "con", "a:b", "A", "a ", "\u{feff}..", "x".repeat(255).as_str(), "é".repeat(120).as_str()]).to_string()).collect();
    }
    (0..r.below(4)).map(|_| r.pick(&["", ".", "..", "a", "a/b", "/", "/etc", "a\\b", "\\", "a\0", "\0", "...", "..a", "a..", ". ", " ", "~", "a", "b", "é", "..\u{2044}", "C:", "*"]).to_string()).collect()
}

#[test]
fn c20_consistency() {
    let mut run = Run::new("c20");
    let mut r = Rng::new("c20");
    for _ in 0..scale(15_000) {
        let b = odd_torrent(&mut r);
        run.case(&b);
        if agrees(&b) {
            run.hit();
        }
    }
}

/// only keys the client knows, with the types it knows
fn standard(b: &B) -> bool {
    let only = |d: &B, keys: &[&str]| matches!(d, B::Dict(d) if d.keys().all(|k| keys.iter().any(|w| w.as_bytes() == &k[..])));
    let d = match b { B::Dict(d) => d, _ => return false };
    only(b, &["name", "piece length", "pieces", "length", "files"])
        && matches!(d.get(&b"length"[..]), None | Some(B::Int(_)))
        && match d.get(&b"files"[..]) {
            None => true,
            Some(B::List(l)) => l.iter().all(|f| only(f, &["length", "path"])),
            _ => false,
        }
}

/// whatever is accepted stands for the bytes it came from
#[test]
fn c08_large_metadata() {
    let mut run = Run::new("c08l");
    let mut r = Rng::new("c08l");
    for _ in 0..scale(60) {
        let b = large_metadata(&mut r, 5000);
        let bytes = benc(&b);
        run.case(&b);
        let i = Info::from_bytes(bytes.clone()).expect("rejected");
        same(&plain(&b).unwrap(), &i);
        assert_eq!(i.compute_info_hash(), sha1(&bytes), "info hash");
        run.hit();
    }
}

#[test]
fn c08_odd_metadata() {
    let mut run = Run::new("c08o");
    let mut r = Rng::new("c08o");
    for _ in 0..scale(6_000) {
        let b = odd_torrent(&mut r);
        if !standard(&b) {
            continue;
        }
        run.case(&b);
        let bytes = benc(&b);
        if let Ok(i) = Info::from_bytes(bytes.clone()) {
            assert_eq!(i.compute_info_hash(), sha1(&bytes), "info hash");
            run.hit();
        }
    }
}

#[test]
fn c08_info_hash() {
    let mut run = Run::new("c08");
    let mut r = Rng::new("c08");
    for _ in 0..scale(2_500) {
        let mut m = any_torrent(&mut r, 3000, &[1, 16, 64, 1000, 16384, 1 << 20]);
        if let B::Dict(d) = &mut m.dict {
            let mut n = r.text(12);
            n.retain(|c| c != '/' && c != '\\' && c != '\0');
            let (a, b) = (r.pick(&["", "", "", " ", "\t", "\u{feff}", "é", "~", "-"]), r.pick(&["x", "x", " ", "\n", "x ", "\u{a0}", "é", ".", "x\u{301}"]));
            let name = format!("{a}{n}{b}");
            d.insert(b"name".to_vec(), s(if safe(&name) { &name } else { "x" }));
            if r.chance(20) {
                if let Some(B::List(l)) = d.get_mut(&b"files"[..]) {
                    for f in l.iter_mut() {
                        if let B::Dict(f) = f {
                            let depth = r.pick(&[1, 2, 9, 10, 11]);
                            f.insert(b"path".to_vec(), B::List((0..depth).map(|_| s(&format!("{}é", r.below(2000)))).collect()));
                        }
                    }
                }
            }
        }
        if r.chance(5) {
            // the extremes of the length
            let pl = u32::MAX as usize;
            m.dict = dict(vec![("length", B::Int(pl * 12)), ("name", s("big")), ("piece length", B::Int(pl)), ("pieces", B::Str(r.bytes(240)))]);
        }
        let bytes = benc(&m.dict);
        run.case(&m.dict);
        let i = Info::from_bytes(bytes.clone()).expect("rejected");
        same(&plain(&m.dict).unwrap(), &i);
        assert_eq!(i.encode(), bytes, "encoded differently");
        assert_eq!(i.compute_info_hash(), sha1(&bytes), "info hash");
        run.hit();
    }
}

#[test]
fn c02_verify_piece() {
    let mut run = Run::new("c02v");
    let mut r = Rng::new("c02v");
    for _ in 0..scale(1500) {
        let m = any_torrent(&mut r, 60, &[1, 2, 7, 16, 64]);
        let i = Info::from_bytes(m.bytes()).unwrap();
        for n in 0..m.pieces().min(30) {
            let mut p = m.piece(n).to_vec();
            run.case((n, &p, &m.dict));
            assert!(i.verify_piece(&p, n), "the piece itself is refused");
            match r.below(5) {
                0 => p.push(r.byte()),
                1 => { p.pop(); }
                2 => { let k = r.below(p.len()); p[k] ^= 1 << r.below(8); }
                3 => p = vec![],
                _ => { let k = r.below(m.pieces()); p = m.piece(k).to_vec(); }
            }
            run.case((n, &p, &m.dict));
            assert_eq!(i.verify_piece(&p, n), p == m.piece(n), "a wrong piece");
            // near collisions: another digest in the list must not do
            run.hit();
        }
    }
    // many pieces: every index counts, not only its low bits
    let content: Vec<u8> = (0..70_000usize).flat_map(|n| n.to_be_bytes()[5..].to_vec()).collect();
    let m = torrent("n", &[(vec!["n".into()], content.len())], true, 3, &content);
    let i = Info::from_bytes(m.bytes()).unwrap();
    for n in [0, 1, 127, 128, 255, 256, 257, 300, 511, 512, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 69_999] {
        run.case(("70000 pieces, piece", n));
        assert!(i.verify_piece(&m.piece(n).to_vec(), n), "the piece itself is refused");
        for k in [n & 255, n & 65535, n ^ 1, n ^ 256] {
            if k != n && k < m.pieces() {
                assert!(!i.verify_piece(&m.piece(k).to_vec(), n), "piece {k} is taken for {n}");
            }
        }
    }
    // digests that only differ in one byte, at every place
    for at in 0..20 {
        let c = b"content".to_vec();
        let mut h = sha1(&c);
        h[at] ^= 1;
        let b = dict(vec![("length", B::Int(14)), ("name", s("n")), ("piece length", B::Int(7)), ("pieces", B::Str([h, sha1(&c)].concat()))]);
        let i = Info::from_bytes(benc(&b)).unwrap();
        run.case(("digest byte", at));
        assert!(!i.verify_piece(&c, 0));
        assert!(i.verify_piece(&c, 1));
    }
}

#[test]
fn c19_cache() {
    let mut run = Run::new("c19");
    let mut r = Rng::new("c19");
    assert!(Info::from_file("./nothing-here").is_err());
    assert!(Info::from_file(".").is_err());
    for k in 0..scale(15) {
        let b = large_metadata(&mut r, if k == 0 { 40_000 } else { 4000 });
        let i = Info::from_bytes(benc(&b)).unwrap();
        i.save("./cache").unwrap();
        run.case(&b);
        assert_eq!(Info::from_file("./cache").unwrap(), i, "saved and read again");
        let json = std::fs::read("./cache").unwrap();
        let cut = json.len() - 1 - r.below(json.len() / 2);
        std::fs::write("./cache", &json[..cut]).unwrap();
        assert!(Info::from_file("./cache").is_err(), "a partial file");
        run.hit();
    }
    for k in 0..scale(60) {
        let m = any_torrent(&mut r, 40, &[1, 2, 7, 16, 64]);
        let i = Info::from_bytes(m.bytes()).unwrap();
        i.save("./cache").unwrap();
        let json = std::fs::read("./cache").unwrap();
        run.case(String::from_utf8_lossy(&json));
        assert_eq!(Info::from_file("./cache").unwrap(), i, "saved and read again");
        // every point where writing may have stopped
        for cut in 0..json.len() {
            if k > 3 && !r.chance(5) {
                continue;
            }
            std::fs::write("./cache", &json[..cut]).unwrap();
            run.case((cut, String::from_utf8_lossy(&json)));
            assert!(Info::from_file("./cache").is_err(), "a partial file");
        }
        for _ in 0..20 {
            let mut v: serde_json::Value = serde_json::from_slice(&json).unwrap();
            let key = r.pick(&["files", "length", "name", "piece_length", "pieces"]);
            let n = r.number();
            match r.below(6) {
                0 => { v.as_object_mut().unwrap().remove(key); }
                1 => v[key] = serde_json::json!(n),
                2 => v[key] = serde_json::Value::Null,
                3 => v[key] = serde_json::json!([{ "path": odd_path(&mut r), "length": n }, { "path": ["x"], "length": r.number() }]),
                4 => { if let Some(p) = v["pieces"].as_array_mut() { p.truncate(r.below(p.len() + 1)) } }
                _ => v["name"] = serde_json::json!(odd_path(&mut r).first().cloned().unwrap_or_default()),
            }
            let mut t = serde_json::to_vec(&v).unwrap();
            if r.chance(30) && !t.is_empty() {
                let at = r.below(t.len());
                t[at] = r.byte();
            }
            std::fs::write("./cache", &t).unwrap();
            run.case(String::from_utf8_lossy(&t));
            if let Ok(i) = Info::from_file("./cache") {
                // consistent by the same standard
                let f = i.get_files().unwrap();
                let total: u128 = f.iter().map(|f| f.get_length() as u128).sum();
                assert!(i.piece_length > 0 && i.piece_length <= u32::MAX as usize && total <= i64::MAX as u128, "inconsistent: {:?}", i);
                assert_eq!(i.pieces.len() as u128, 20 * ((total + i.piece_length as u128 - 1) / i.piece_length as u128), "digests");
                assert!(f.iter().all(|f| !f.get_path().is_empty() && f.get_path().iter().all(|c| safe(c))), "unsafe path: {:?}", f);
                run.hit();
            }
        }
    }
}

#[test]
fn c23_paths() {
    let mut run = Run::new("c23");
    let mut r = Rng::new("c23");
    let root = std::env::current_dir().unwrap();
    for k in 0..scale(4000) {
        let p = odd_path(&mut r);
        let single = r.chance(30) && !p.is_empty();
        let m = torrent(if single { &p[0] } else { "n" }, &[(p.clone(), 3), (vec!["ok".into()], 2)], single, 4, b"12345");
        run.case((&m.files, &m.dict));
        let ok = m.files.iter().all(|f| !f.0.is_empty() && f.0.iter().all(|c| safe(c)));
        let got = Info::from_bytes(m.bytes());
        assert_eq!(got.is_ok(), ok, "accepted or rejected wrongly");
        if let Ok(i) = got {
            if k % 3 == 0 {
                // what is accepted stays below the folder it is written in
                let dir = root.join(format!("o{k}/in"));
                std::fs::create_dir_all(&dir).unwrap();
                std::env::set_current_dir(&dir).unwrap();
                for n in 0..m.pieces() {
                    crate::torrent::writer::write(m.piece(n).to_vec(), n, i.get_files().unwrap(), i.get_piece_length()).unwrap();
                }
                std::env::set_current_dir(&root).unwrap();
                let out: Vec<_> = std::fs::read_dir(root.join(format!("o{k}"))).unwrap().flatten().map(|e| e.file_name()).collect();
                assert_eq!(out, ["in"], "something was written next to the folder");
                // and it is where its components say
                for (p, n) in &m.files {
                    let at = p.iter().fold(dir.clone(), |d, c| d.join(c));
                    assert_eq!(std::fs::metadata(&at).map(|f| f.len()).ok(), Some(*n as u64), "{:?}", at);
                }
                std::fs::remove_dir_all(root.join(format!("o{k}"))).unwrap();
            }
            run.hit();
        }
    }
}
