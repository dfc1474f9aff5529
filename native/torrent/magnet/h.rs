use super::*;
use crate::vp_util::*;

const HEX: &[u8] = b"0123456789abcdefABCDEF";
const B32: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz234567";

fn value(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}

/// the hash of a link, by the letter of the property
fn expected(m: &[u8]) -> Option<Vec<u8>> {
    let rest = m.strip_prefix(b"magnet:?xt=urn:btih:")?;
    let h = rest.split(|c| *c == b'&').next().unwrap();
    if h.len() == 40 {
        if let Some(d) = h.iter().map(|c| value(*c)).collect::<Option<Vec<u8>>>() {
            return Some(d.chunks(2).map(|p| p[0] * 16 + p[1]).collect());
        }
    }
    if h.len() == 32 && h.iter().all(|c| B32.contains(c)) {
        return Some(h.to_vec());
    }
    None
}

#[test]
fn c14_magnets() {
    let mut run = Run::new("c14");
    let mut r = Rng::new("c14");
    for i in 0..scale(60_000) {
        let mut m = b"magnet:?xt=urn:btih:".to_vec();
        let n = if r.chance(60) { r.pick(&[40, 32]) } else { r.pick(&[0, 1, 31, 32, 33, 38, 39, 40, 41, 42, 64, 80]) };
        let hex = r.chance(60);
        for _ in 0..n {
            m.push(r.pick(if hex { HEX } else { B32 }));
        }
        if r.chance(40) {
            m.extend_from_slice(r.pick(&[&b"&dn=name"[..], b"&", b"&tr=udp://a.b:1/announce", b"?x", b" ", b"0", b"\xff", b"%20", b"\xc3\xa9"]));
        }
        for _ in 0..(if r.chance(40) { r.below(3) } else { 0 }) {
            match r.below(4) {
                0 if !m.is_empty() => {
                    let k = r.below(m.len());
                    m[k] = r.pick(b"gGzZ/:@`{01&89\x00\xff aAfF");
                }
                1 => m.truncate(r.below(m.len() + 1)),
                2 if !m.is_empty() => {
                    m.remove(r.below(m.len()));
                }
                _ => {
                    let k = r.below(m.len() + 1);
                    m.insert(k, r.pick(b"&0aAgGzZ1\xe9"));
                }
            }
        }
        if r.chance(3) {
            // other letter case
            let (a, b) = (r.below(m.len() + 1), r.below(m.len() + 1));
            m[a.min(b)..a.max(b)].make_ascii_uppercase();
        }
        if i < 61 {
            m.truncate(i);
        }
        run.case(String::from_utf8_lossy(&m));
        let got = parse_magnet(m.clone()).ok().map(|m| m.get_info_hash());
        assert_eq!(got, expected(&m), "wrong hash");
        if got.is_some() {
            run.hit();
        }
    }
    // every byte at every place before the hash
    for len in [32, 40] {
        for at in 0..20 {
            for b in 0..=255u8 {
                let mut m = b"magnet:?xt=urn:btih:".to_vec();
                m.extend(vec![b'a'; len]);
                m[at] = b;
                run.case((len, at, b));
                assert_eq!(parse_magnet(m.clone()).ok().map(|m| m.get_info_hash()), expected(&m), "wrong hash");
            }
        }
    }
    // every byte at every place of the hash
    for len in [32, 40] {
        for at in 0..len {
            for b in 0..=255u8 {
                let mut m = b"magnet:?xt=urn:btih:".to_vec();
                m.extend(vec![b'a'; len]);
                m[20 + at] = b;
                run.case((len, at, b));
                assert_eq!(parse_magnet(m.clone()).ok().map(|m| m.get_info_hash()), expected(&m), "wrong hash");
            }
        }
    }
}
