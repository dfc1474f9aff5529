use super::*;
use crate::vp_util::*;

fn ext_dict(r: &mut Rng) -> B {
    let mut e = vec![];
    if r.chance(60) {
        let n = r.number();
        e.push(("metadata_size", B::Int(n)));
    }
    if r.chance(60) {
        e.push(("msg_type", B::Int(r.below(4))));
    }
    if r.chance(60) {
        let n = r.number();
        e.push(("piece", B::Int(n)));
    }
    if r.chance(60) {
        let m = B::Dict((0..if r.chance(3) { r.pick(&[16, 17, 33, 64, 65, 129, 300]) } else { r.below(4) }).map(|_| (r.text(4).into_bytes(), if r.chance(80) { B::Int(r.below(260)) } else { any_b(r, 1) })).collect());
        e.push(("m", if r.chance(85) { m } else { any_b(r, 1) }));
    }
    if r.chance(30) {
        let v = any_b(r, 2);
        e.push((r.pick(&["metadata_size", "msg_type", "piece", "m", "v"]), v));
    }
    dict(e)
}

fn int(b: &B, k: &str) -> Option<usize> {
    match b {
        B::Dict(d) => match d.get(k.as_bytes()) { Some(B::Int(n)) => Some(*n), _ => None },
        _ => None,
    }
}

fn parse(run: &mut Run, id: u8, body: &[u8]) {
    run.case((id, body));
    let m = Message::new_raw(body.to_vec(), body.len() as u32, id);
    let fixed = match id { 6 | 7 => 8, 19 => 68, 20 => 1, _ => 0 };
    if body.len() < fixed {
        assert!(m.is_err(), "a truncated body is accepted");
        return;
    }
    if id == 20 {
        match bdec(&body[1..]) {
            None => {
                if body.len() > 1 {
                    assert!(m.is_err(), "accepted without a header");
                }
                return;
            }
            Some((d, n)) => {
                let m = m.expect("rejected");
                assert_eq!(m.get_content_data(), body[1 + n..], "data behind the header");
                let e = match m.get_content() { ContentType::Extension(e) => e.clone(), c => panic!("{:?}", c) };
                assert_eq!(e.get_metadata_size(), int(&d, "metadata_size"), "metadata size");
                assert_eq!(e.is_handshake(), int(&d, "metadata_size").is_some());
                assert_eq!(e.is_data(), int(&d, "msg_type") == Some(1), "data message");
                assert_eq!(m.is_extension_data_message(), e.is_data());
                assert!(!m.is_request_message());
                let mut t: Vec<(Vec<u8>, u8)> = match &d {
                    B::Dict(d) => match d.get(&b"m"[..]) {
                        Some(B::Dict(x)) => x.iter().filter_map(|(k, v)| match v { B::Int(n) => Some((k.clone(), *n as u8)), _ => None }).collect(),
                        _ => vec![],
                    },
                    _ => vec![],
                };
                let mut got: Vec<(Vec<u8>, u8)> = e.get_extensions().iter().map(|(k, v)| (k.as_bytes().to_vec(), *v)).collect();
                got.sort();
                t.sort();
                assert_eq!(got, t, "extension table");
                run.hit();
                return;
            }
        }
    }
    let m = m.expect("rejected");
    assert_eq!(m.get_id(), id);
    let data = match id {
        5 => {
            match m.get_content() {
                ContentType::Bitfield(b) => {
                    let bits: Vec<bool> = (0..body.len() * 8).map(|i| body[i / 8] & (0x80u8 >> (i % 8)) != 0).collect();
                    assert_eq!(b.get_bitfield_as_bit_vector(), bits, "bits");
                    assert_eq!(b.get_bitfield(), body);
                }
                c => panic!("{:?}", c),
            }
            body
        }
        6 | 7 => &body[8..],
        _ => &[],
    };
    if id == 19 {
        match m.get_content() {
            ContentType::Handshake(h) => {
                assert_eq!(h.get_info_hash(), body[28..48], "info hash");
                assert_eq!(h.as_bytes(), body[..68], "handshake");
            }
            c => panic!("{:?}", c),
        }
    }
    assert_eq!(m.get_content_data(), data, "data");
    assert_eq!(m.is_request_message(), id == 6 || id == 7);
    assert!(!m.is_extension_data_message());
    run.hit();
}

#[test]
fn c11_parse() {
    let mut run = Run::new("c11");
    let mut r = Rng::new("c11");
    for id in 0..=255u8 {
        for n in [0, 1, 3, 4, 7, 8, 9, 67, 68, 69] {
            parse(&mut run, id, &vec![b'd'; n]);
            let b = r.bytes(n);
            parse(&mut run, id, &b);
        }
    }
    for b in 0..=255u8 {
        parse(&mut run, 5, &[b, !b]);
        parse(&mut run, 20, &[b]);
        parse(&mut run, 20, &[b, b'd', b'e']);
    }
    for _ in 0..scale(15_000) {
        let id = r.pick(&[5, 7, 19, 20, 20, 20, 20]);
        let mut body = if id == 20 {
            let mut v = vec![r.byte()];
            let d = if r.chance(85) { ext_dict(&mut r) } else { any_b(&mut r, 2) };
            v.extend(benc(&d));
            let n = if r.chance(2) { r.pick(&[16383, 16384, 16385, 16400, 32768, 65535, 65536, 100_000]) } else { r.pick(&[0, 0, 1, 5, 100]) };
            v.extend(r.bytes(n));
            v
        } else {
            let n = if r.chance(2) { r.pick(&[16391, 16392, 16393, 16400, 65544, 65543, 100_000]) } else { r.pick(&[0, 8, 9, 68, 100, 200]) };
            r.bytes(n)
        };
        if r.chance(15) {
            body.truncate(r.below(body.len() + 1));
        }
        if r.chance(10) && !body.is_empty() {
            let k = r.below(body.len());
            body[k] = r.byte();
        }
        parse(&mut run, id, &body);
    }
}

#[test]
fn c10_layout() {
    let mut run = Run::new("c10");
    let mut r = Rng::new("c10");
    for _ in 0..scale(5000) {
        let hash = r.bytes(20);
        let id = "ABCDEFGHIJ0123456789"[..].to_string();
        let edge = |r: &mut Rng| {
            let n = r.next() as u32;
            r.pick(&[0, 1, 255, 256, 65535, 65536, 1 << 24, u32::MAX, 0x01020304, n])
        };
        let (a, b, c) = (edge(&mut r), edge(&mut r), edge(&mut r));
        let (e, p) = (r.byte(), r.pick(&[0, 1, 9, 10, 11, 99, 100, 12345, usize::MAX]));
        run.case((&hash, a, b, c, e, p));
        assert_eq!(new_handshake(&hash, &id).as_bytes(), handshake(&hash, id.as_bytes()), "handshake");
        assert_eq!(new_interested().as_bytes(), frame(2, &[]), "interested");
        let body = [a.to_be_bytes(), b.to_be_bytes(), c.to_be_bytes()].concat();
        assert_eq!(new_request(a, b, c).as_bytes(), frame(6, &body), "request");
        let mut m = vec![e];
        m.extend(new_metadata(e, p).as_bytes().get(6..).unwrap_or(&[]));
        let got = new_metadata(e, p).as_bytes();
        let (d, n) = bdec(&got[6..]).expect("no header");
        assert_eq!(n, got.len() - 6, "nothing follows the header");
        assert_eq!(got, frame(20, &m), "metadata request");
        assert_eq!((int(&d, "msg_type"), int(&d, "piece")), (Some(0), Some(p)), "metadata request");
        run.hit();
    }
    // bodies of every length, also where the length needs another byte
    for k in 0..scale(300) {
        let n = if k % 10 == 0 { r.pick(&[65_533, 65_534, 65_535, 65_536, 70_000, 1 << 20]) } else { r.pick(&[0, 1, 2, 126, 127, 128, 254, 255, 256, 257, 16393]) };
        let body = r.bytes(n);
        run.case(("bitfield of", n));
        let b = Message::new_raw(body.clone(), n as u32 + 1, 5).unwrap().as_bytes();
        assert!(b == frame(5, &body), "bitfield of {n} bytes: {:?}.. of {}", &b[..b.len().min(12)], b.len());
        run.hit();
    }
}
