use super::*;
use crate::vp_util::*;
use std::collections::BTreeMap;

fn walk(dir: &std::path::Path, at: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let n = format!("{at}{}", e.file_name().to_str().unwrap());
        if n == ".vp-input" {
            continue;
        }
        if e.file_type().unwrap().is_dir() {
            walk(&e.path(), &format!("{n}/"), out);
        } else {
            out.insert(n, std::fs::read(e.path()).unwrap());
        }
    }
}

/// what is on the disk: every byte of the written pieces in its place, zeros in between, nothing else
fn on_disk(m: &Meta, pieces: &[usize], before: &BTreeMap<String, Vec<u8>>) -> BTreeMap<String, Vec<u8>> {
    let mut out = before.clone();
    let mut start = 0;
    for (p, n) in &m.files {
        for i in pieces {
            let (a, b) = (i * m.piece_length, i * m.piece_length + m.piece(*i).len());
            for at in a.max(start)..b.min(start + n) {
                let f = out.entry(p.join("/")).or_default();
                if f.len() <= at - start {
                    f.resize(at - start + 1, 0);
                }
                f[at - start] = m.content[at];
            }
        }
        start += n;
    }
    out.retain(|_, v| !v.is_empty());
    out
}

#[test]
fn c01_pieces_on_disk() {
    let mut run = Run::new("c01");
    let mut r = Rng::new("c01");
    let root = std::env::current_dir().unwrap();
    for k in 0..scale(400) {
        let mut m = if k % 11 == 5 {
            any_torrent(&mut r, 6000, &[511, 512, 513, 1000, 2048, 4096])
        } else {
            any_torrent(&mut r, if k % 3 == 0 { 4 } else { 40 }, &[1, 2, 3, 5, 7, 8, 16, 31, 1000])
        };
        // files and pieces that are alike
        if k % 3 == 0 {
            let kinds = r.range(1, 2) as u8;
            m.content.iter_mut().for_each(|b| *b = 1 + *b % kinds);
        }
        // the same name twice makes no torrent
        let names: std::collections::BTreeSet<_> = m.files.iter().map(|f| f.0.join("/")).collect();
        if m.content.is_empty() || names.len() != m.files.len() {
            continue;
        }
        let dir = root.join(format!("t{k}"));
        std::fs::create_dir(&dir).unwrap();
        std::env::set_current_dir(&dir).unwrap();
        let files: Vec<File> = m.files.iter().map(|(p, n)| File::new(p.clone(), *n)).collect();
        let mut before = BTreeMap::new();
        // something may already be there from an earlier run, it stays
        if r.chance(30) {
            let (p, n) = r.pick(&m.files);
            if let Some(d) = std::path::Path::new(&p.join("/")).parent() {
                std::fs::create_dir_all(d).unwrap();
            }
            let len = r.below(n + 1);
            let old = vec![0xEEu8; len];
            std::fs::write(p.join("/"), &old).unwrap();
            before.insert(p.join("/"), old);
        }
        let mut order: Vec<usize> = (0..m.pieces()).collect();
        r.shuffle(&mut order);
        let mut done = vec![];
        for i in order {
            run.case((&m.files, m.piece_length, i));
            write(m.piece(i).to_vec(), i, files.clone(), m.piece_length).unwrap();
            done.push(i);
            let mut got = BTreeMap::new();
            walk(&dir, "", &mut got);
            got.retain(|_, v| !v.is_empty());
            assert_eq!(got, on_disk(&m, &done, &before), "files after piece {i}");
            run.hit();
            // the comparison is quadratic
            if done.len() > 60 {
                break;
            }
        }
        std::env::set_current_dir(&root).unwrap();
        std::fs::remove_dir_all(&dir).unwrap();
    }
}

#[test]
fn c01_split_at_file_boundaries() {
    let mut run = Run::new("c01s");
    let mut r = Rng::new("c01s");
    for _ in 0..scale(4000) {
        let m = any_torrent(&mut r, 30, &[1, 2, 3, 4, 5, 8, 13, 64]);
        let files: Vec<File> = m.files.iter().map(|(p, n)| File::new(p.clone(), *n)).collect();
        for i in 0..m.pieces() {
            run.case((&m.files, m.piece_length, i));
            let w = get_file_writers(files.clone(), m.piece(i).to_vec(), i, m.piece_length);
            let mut seen = vec![];
            for f in &w {
                // some file of this name holds this part
                let mut start = 0;
                let mut ok = false;
                for (p, n) in &m.files {
                    if *p == f.path && f.start + f.piece.len() <= *n && f.end - f.start == f.piece.len() && m.content[start + f.start..].starts_with(&f.piece) && (f.piece.is_empty() || (start + f.start >= i * m.piece_length && start + f.start + f.piece.len() <= i * m.piece_length + m.piece(i).len())) {
                        ok = true;
                    }
                    start += n;
                }
                assert!(ok, "{:?} is no part of piece {i}", f);
                seen.extend_from_slice(&f.piece);
            }
            assert_eq!(seen, m.piece(i), "the parts do not make up piece {i}");
            run.hit();
        }
    }
    // far beyond 4 GiB
    for base in [1usize << 31, 1 << 32, 1 << 40, (i64::MAX as usize) - 1000] {
        for cut in 0..6 {
            let pl = 1 << 20;
            let idx = base / pl;
            let at = idx * pl;
            let files = vec![File::new(vec!["a".into()], at + cut), File::new(vec!["b".into()], 0), File::new(vec!["c".into()], 1), File::new(vec!["d".into()], 500)];
            run.case((base, cut));
            let piece: Vec<u8> = (0..cut + 101).map(|i| i as u8).collect();
            let w: Vec<(Vec<String>, usize, Vec<u8>)> = get_file_writers(files, piece.clone(), idx, pl).into_iter().filter(|w| !w.piece.is_empty()).map(|w| (w.path, w.start, w.piece)).collect();
            let mut e = vec![(vec!["a".to_string()], at, piece[..cut].to_vec()), (vec!["c".to_string()], 0, piece[cut..cut + 1].to_vec()), (vec!["d".to_string()], 0, piece[cut + 1..].to_vec())];
            e.retain(|w| !w.2.is_empty());
            assert_eq!(w, e);
        }
    }
}
