use super::*;
use crate::vp_util::*;

/// the decoder's value as a reference value; `None` where it holds nothing at the end of the input
fn view(m: &Metainfo) -> Option<B> {
    Some(match m {
        Metainfo::Integer(n) => B::Int(*n),
        Metainfo::String(v) => B::Str(v.clone()),
        Metainfo::List(l) => B::List(l.iter().map(view).collect::<Option<_>>()?),
        Metainfo::Dictionary(d) => B::Dict(d.iter().map(|(k, v)| view(v).map(|v| (k.as_bytes().to_vec(), v))).collect::<Option<_>>()?),
        Metainfo::Nothing() => return None,
    })
}

fn agrees(input: &[u8]) -> bool {
    let mut d = Decoder::init(input.to_vec());
    let got = d.decode();
    match (bdec(input), &got) {
        (Some((v, n)), Ok(g)) => {
            assert_eq!(view(g), Some(v), "wrong value");
            assert_eq!(d.get_total_parsed_bytes(), n, "wrong number of bytes consumed");
            true
        }
        (None, Ok(g)) => {
            assert!(input.is_empty() && *g == Metainfo::Nothing(), "accepted: {:?}", g);
            false
        }
        (None, Err(_)) => false,
        (Some((v, _)), Err(e)) => panic!("rejected {:?}: {:?}", v, e),
    }
}

fn mutate(r: &mut Rng, mut v: Vec<u8>) -> Vec<u8> {
    for _ in 0..r.below(4) {
        let n = v.len();
        match r.below(7) {
            0 if n > 0 => {
                let i = r.below(n);
                v[i] = r.pick(b"ilde:0123456789-\x00\xff");
            }
            1 if n > 0 => v.truncate(r.below(n)),
            2 => {
                let i = r.below(n + 1);
                v.insert(i, r.pick(b"ilde:0123456789- "));
            }
            3 if n > 0 => {
                v.remove(r.below(n));
            }
            4 => {
                let k = r.below(6);
                v.extend(r.bytes(k));
            }
            5 if n > 0 => {
                let i = r.below(n);
                v[i] = r.byte();
            }
            _ => (),
        }
    }
    v
}

#[test]
fn c07_arbitrary_bytes() {
    let mut run = Run::new("c07");
    let mut r = Rng::new("c07");
    for fixed in ["", "e", "i", "ie", "i0", "i0e", "i007e", "i-1e", "0:", "0", "00:", "1:", "3:ab", "3:abc", "3:abcd", "03:abc", "l", "le", "d", "de", "d0:e", "d1:ae", "d1:ai1e", "d1:ai1ee", "d1:bi1e1:ai2ee",
        "d1:ai1e1:ai2ee", "di1ei2ee", "dlei2ee", "li1e", "lli1eee", "i18446744073709551615e", "i18446744073709551616e", "18446744073709551615:", "18446744073709551616:a", "9223372036854775807:a", "99999999999999999999999999:", "i1e2", "1 :a", ":", "-1:a", "i 1e", "i1 e"] {
        run.case(fixed);
        agrees(fixed.as_bytes());
    }
    for n in [1, 2, 62, 63, 64, 65, 66, 127, 300, 5000, 300_000] {
        for (a, b) in [("l", "e"), ("d1:a", "e")] {
            let inner = if a == "l" { "i1e" } else { "i1e" };
            run.case((n, a));
            agrees(format!("{}{}{}", a.repeat(n), inner, b.repeat(n)).as_bytes());
            agrees(a.repeat(n).as_bytes());
        }
    }
    for n in [19, 20, 21, 22, 30, 39, 40, 41, 64, 65, 100, 255, 256, 1000, 65_536, 100_000] {
        for d in ["0", "1", "9"] {
            run.case((n, d, "digits"));
            agrees(format!("i{}e", d.repeat(n)).as_bytes());
            agrees(format!("{}:ab", d.repeat(n)).as_bytes());
            agrees(format!("i{}7e", "0".repeat(n)).as_bytes());
            agrees(format!("{}2:abc", "0".repeat(n)).as_bytes());
        }
        run.case((n, "long"));
        agrees(format!("{n}:{}", "x".repeat(n)).as_bytes());
        agrees(format!("{n}:{}", "x".repeat(n - 1)).as_bytes());
        agrees(format!("l{}e", "i7e".repeat(n)).as_bytes());
        agrees(format!("l{}e", "le".repeat(n)).as_bytes());
        agrees(format!("l{}", "0:".repeat(n)).as_bytes());
        agrees(format!("d{}e", "1:ai1e".repeat(n)).as_bytes());
        agrees(format!("d{}e", (0..n).map(|k| format!("6:{k:06}le")).collect::<String>()).as_bytes());
    }
    // numbers around every power of two and ten
    for k in 0..68 {
        for d in [-1i128, 0, 1] {
            for v in [(1i128 << k) + d, if k < 38 { 10i128.pow(k) + d } else { 0 }] {
                run.case(v);
                agrees(format!("i{v}e").as_bytes());
                agrees(format!("{v}:").as_bytes());
                agrees(format!("d1:ai{v}ee").as_bytes());
            }
        }
    }
    for _ in 0..scale(20_000) {
        let depth = r.below(5);
        let v = benc(&any_b(&mut r, depth));
        let v = if r.chance(15) { let n = r.below(20); r.bytes(n) } else { mutate(&mut r, v) };
        run.case(String::from_utf8_lossy(&v));
        if agrees(&v) {
            run.hit();
        }
    }
}

#[test]
fn c06_round_trip() {
    let mut run = Run::new("c06d");
    let mut r = Rng::new("c06d");
    for _ in 0..scale(10_000) {
        let depth = r.below(5);
        let b = any_b(&mut r, depth);
        run.case(&b);
        let mut bytes = benc(&b);
        let n = bytes.len();
        let k = r.below(4);
        bytes.extend(r.bytes(k));
        let mut d = Decoder::init(bytes);
        let v = d.decode().expect("a bencoding is rejected");
        assert_eq!(view(&v), Some(b));
        assert_eq!(d.get_total_parsed_bytes(), n);
        run.hit();
    }
}
