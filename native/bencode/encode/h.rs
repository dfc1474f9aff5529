use super::*;
use crate::vp_util::*;

#[test]
fn c06_encode() {
    let mut run = Run::new("c06e");
    let mut r = Rng::new("c06e");
    for _ in 0..scale(6_000) {
        let t = if r.chance(10) { "x".repeat(r.pick(&[9, 10, 11, 99, 100, 101, 1000, 9999, 10_000, 65_535, 65_536])) } else { r.text(14) };
        let len = r.pick(&[0, 1, 9, 10, 11, 100]);
        let n = r.number();
        let v = r.bytes(len);
        let many = if r.chance(1) { r.pick(&[255, 256, 300, 1000]) } else { 5 };
        let l: Vec<String> = (0..if many > 5 { many } else { r.below(5) }).map(|_| r.text(4)).collect();
        let m: HashMap<String, usize> = (0..if many > 5 { many } else { r.below(7) }).map(|_| (r.text(if many > 5 { 9 } else { 3 }), r.number())).collect();
        let m2: HashMap<String, Vec<String>> = (0..r.below(4)).map(|_| (r.text(3), (0..r.below(3)).map(|_| r.text(4)).collect())).collect();
        run.case((&t, n, &v, &l, &m, &m2));
        let text = |t: &str| B::Str(t.as_bytes().to_vec());
        assert_eq!(t.encode(), benc(&text(&t)), "text");
        assert_eq!(t.as_str().encode(), benc(&text(&t)), "&str");
        assert_eq!(n.encode(), benc(&B::Int(n)), "integer");
        assert_eq!(v.encode(), benc(&B::Str(v.clone())), "bytes");
        assert_eq!(l.encode(), benc(&B::List(l.iter().map(|t| text(t)).collect())), "list");
        assert_eq!(m.encode(), benc(&B::Dict(m.iter().map(|(k, v)| (k.as_bytes().to_vec(), B::Int(*v))).collect())), "dictionary");
        assert_eq!(m2.encode(), benc(&B::Dict(m2.iter().map(|(k, v)| (k.as_bytes().to_vec(), B::List(v.iter().map(|t| text(t)).collect()))).collect())), "dictionary of lists");
        assert_eq!(Some(n).encode(), benc(&B::Int(n)));
        assert_eq!(None::<usize>.encode(), Vec::<u8>::new());
        if !t.is_empty() {
            assert_eq!(encode_dict_entry(&t, &n), [benc(&text(&t)), benc(&B::Int(n))].concat(), "entry");
            assert_eq!(encode_dict_entry(&t, &l), [benc(&text(&t)), l.encode()].concat(), "entry");
            assert_eq!(encode_dict_entry(&t, &None::<usize>), Vec::<u8>::new(), "absent entry");
            assert_eq!(encode_dict_entry(&t, &String::new()), [benc(&text(&t)), b"0:".to_vec()].concat(), "entry with an empty text");
        }
        run.hit();
    }
}
