use super::*;
use crate::vp_util::*;

fn meta(b: &B) -> Metainfo {
    match b {
        B::Int(n) => Metainfo::Integer(*n),
        B::Str(v) => Metainfo::String(v.clone()),
        B::List(l) => Metainfo::List(l.iter().map(meta).collect()),
        B::Dict(d) => Metainfo::Dictionary(d.iter().map(|(k, v)| (String::from_utf8(k.clone()).unwrap(), meta(v))).collect()),
    }
}

fn views(m: &mut Run, r: &mut Rng) {
    let b = any_b(r, 3);
    let keys: Vec<String> = match &b { B::Dict(d) => d.keys().map(|k| String::from_utf8(k.clone()).unwrap()).collect(), _ => vec![] };
    let key = if !keys.is_empty() && r.chance(80) { r.pick(&keys) } else { r.text(3) };
    m.case((&b, &key));
    let v = meta(&b);
    let int = |b: Option<&B>| match b { Some(B::Int(n)) => Some(*n), _ => None };
    let text = |b: Option<&B>| match b { Some(B::Str(n)) => String::from_utf8(n.clone()).ok(), _ => None };
    let bytes = |b: Option<&B>| match b { Some(B::Str(n)) => Some(n.clone()), _ => None };
    let list = |b: Option<&B>| match b { Some(B::List(n)) => Some(n.iter().map(meta).collect::<Vec<_>>()), _ => None };
    let e = match &b { B::Dict(d) => d.get(key.as_bytes()), _ => None };
    assert_eq!(v.get_integer_content().ok(), int(Some(&b)));
    assert_eq!(v.get_string_content().ok(), text(Some(&b)));
    assert_eq!(v.get_list_content().ok().cloned(), list(Some(&b)));
    assert_eq!(v.get_dict_content().is_ok(), matches!(b, B::Dict(_)));
    assert_eq!(v.get_value_from_dict(&key).ok().cloned(), e.map(meta));
    assert_eq!(v.get_integer_from_dict(&key).ok(), int(e));
    assert_eq!(v.get_string_from_dict(&key).ok(), text(e));
    assert_eq!(v.get_bytes_from_dict(&key).ok(), bytes(e));
    assert_eq!(v.get_list_from_dict(&key).ok().cloned(), list(e));
    if e.is_some() {
        m.hit();
    }
}

#[test]
fn c06_accessors() {
    let mut run = Run::new("c06m");
    let mut r = Rng::new("c06m");
    for _ in 0..scale(6000) {
        views(&mut run, &mut r);
    }
}

#[test]
fn c20_accessors() {
    let mut run = Run::new("c20m");
    let mut r = Rng::new("c20m");
    for _ in 0..scale(6000) {
        views(&mut run, &mut r);
    }
}
