//@ top
// ------------------------------------------------------------------ bencoding, as a specification
pub mod vp_benc {
use vstd::prelude::*;
use crate::vp_ext::*;
use crate::vp_ext::exts::*;

pub enum BV { Int(nat), Str(Seq<u8>), List(Seq<BV>), Dict(Map<Seq<char>, BV>), Nothing }
pub open spec fn max_depth() -> nat { 64 }

pub open spec fn is_dig(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn dig_end(s: Seq<u8>, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && is_dig(s[i]) { dig_end(s, i + 1) } else { i }
}
// value of the digits of s
pub open spec fn num(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { num(s.drop_last()) * 10 + (s.last() - 48) as nat }
}
pub open spec fn number_at(s: Seq<u8>, i: int) -> Option<(nat, int)> {
    let e = dig_end(s, i);
    if e >= s.len() || e == i || num(s.subrange(i, e)) > usize::MAX { None } else { Some((num(s.subrange(i, e)), e)) }
}
pub open spec fn dec_int(s: Seq<u8>, i: int) -> Option<(BV, int)> {
    match number_at(s, i + 1) { Some((n, e)) => if s[e] == 101 { Some((BV::Int(n), e + 1)) } else { None }, None => None }
}
pub open spec fn dec_str(s: Seq<u8>, i: int) -> Option<(BV, int)> {
    match number_at(s, i) {
        Some((n, e)) => if s[e] == 58 && e + 1 + n <= s.len() { Some((BV::Str(s.subrange(e + 1, e + 1 + n as int)), e + 1 + n as int)) } else { None },
        None => None
    }
}
// the value that starts at position i, and where it ends; d: how many lists and dictionaries are open
pub open spec fn dec_at(s: Seq<u8>, i: int, d: nat) -> Option<(BV, int)> decreases s.len() - i, 0nat {
    if d >= max_depth() || i < 0 { None }
    else if i >= s.len() { Some((BV::Nothing, i)) }
    else if s[i] == 105 { dec_int(s, i) }
    else if s[i] == 108 { dec_list(s, i + 1, d + 1, Seq::empty()) }
    else if s[i] == 100 { dec_dict(s, i + 1, d + 1, Map::empty()) }
    else if is_dig(s[i]) { dec_str(s, i) }
    else { None }
}
pub open spec fn dec_list(s: Seq<u8>, i: int, d: nat, acc: Seq<BV>) -> Option<(BV, int)> decreases s.len() - i, 1nat {
    if i < 0 || i >= s.len() { None }
    else if s[i] == 101 { Some((BV::List(acc), i + 1)) }
    else { match dec_at(s, i, d) { Some((v, j)) => if i < j <= s.len() { dec_list(s, j, d, acc.push(v)) } else { None }, None => None } }
}
pub open spec fn dec_dict(s: Seq<u8>, i: int, d: nat, acc: Map<Seq<char>, BV>) -> Option<(BV, int)> decreases s.len() - i, 1nat {
    if i < 0 || i >= s.len() { None }
    else if s[i] == 101 { Some((BV::Dict(acc), i + 1)) }
    else { match dec_str(s, i) {
        Some((BV::Str(k), j)) => if i < j <= s.len() && valid_utf8(k) { match dec_at(s, j, d) {
            Some((v, l)) => if j <= l <= s.len() { dec_dict(s, l, d, acc.insert(decode_utf8(k), v)) } else { None },
            None => None } } else { None },
        _ => None } }
}

// ---- the canonical encoding
pub open spec fn asc(c: Seq<char>) -> Seq<u8> { encode_utf8(c) }
pub open spec fn enc_bytes(b: Seq<u8>) -> Seq<u8> { asc(dec(b.len())) + seq![58u8] + b }
pub open spec fn enc_nat(n: nat) -> Seq<u8> { seq![105u8] + asc(dec(n)) + seq![101u8] }
pub open spec fn enc_key(k: Seq<char>) -> Seq<u8> { enc_bytes(encode_utf8(k)) }
pub open spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}
pub open spec fn enc_list(s: Seq<Seq<u8>>) -> Seq<u8> { seq![108u8] + flat(s) + seq![101u8] }
// entries in increasing order of their keys
pub open spec fn ordered(k: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> str_lt(#[trigger] k[i], #[trigger] k[j]) }
pub open spec fn keys_of(k: Seq<Seq<char>>, s: Set<Seq<char>>) -> bool { ordered(k) && (forall|x: Seq<char>| #[trigger] k.contains(x) <==> s.contains(x)) }
pub open spec fn sorted_keys(s: Set<Seq<char>>) -> Seq<Seq<char>> { choose|k: Seq<Seq<char>>| keys_of(k, s) }
pub open spec fn entries(k: Seq<Seq<char>>, m: Map<Seq<char>, Seq<u8>>) -> Seq<u8> decreases k.len() {
    if k.len() == 0 { Seq::empty() } else { entries(k.drop_last(), m) + (enc_key(k.last()) + m[k.last()]) }
}
pub open spec fn enc_dict(m: Map<Seq<char>, Seq<u8>>) -> Seq<u8> { seq![100u8] + entries(sorted_keys(m.dom()), m) + seq![101u8] }
pub open spec fn benc(v: BV) -> Seq<u8> decreases v {
    match v {
        BV::Int(n) => enc_nat(n),
        BV::Str(b) => enc_bytes(b),
        BV::List(l) => enc_list(benc_seq(l)),
        BV::Dict(m) => enc_dict(benc_map(m)),
        BV::Nothing => Seq::empty(),
    }
}
pub open spec fn benc_seq(l: Seq<BV>) -> Seq<Seq<u8>> decreases l { Seq::new(l.len(), |i: int| if 0 <= i < l.len() { benc(l[i]) } else { Seq::empty() }) }
pub open spec fn benc_map(m: Map<Seq<char>, BV>) -> Map<Seq<char>, Seq<u8>> decreases m { Map::new(m.dom(), |k: Seq<char>| if m.dom().contains(k) { benc(m[k]) } else { Seq::empty() }) }

// ---- order of strings
pub proof fn lemma_bytes_lt_irrefl(a: Seq<u8>) ensures !bytes_lt(a, a) decreases a.len() { if a.len() > 0 { lemma_bytes_lt_irrefl(a.drop_first()); } }
pub proof fn lemma_bytes_lt_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires bytes_lt(a, b), bytes_lt(b, c) ensures bytes_lt(a, c) decreases a.len() {
    if a.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_bytes_lt_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
}
pub proof fn lemma_bytes_lt_total(a: Seq<u8>, b: Seq<u8>) requires a != b ensures bytes_lt(a, b) || bytes_lt(b, a) decreases a.len() {
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        if a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
        lemma_bytes_lt_total(a.drop_first(), b.drop_first());
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_str_lt_irrefl(a: Seq<char>) ensures !str_lt(a, a) { lemma_bytes_lt_irrefl(encode_utf8(a)); }
pub proof fn lemma_str_lt_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires str_lt(a, b), str_lt(b, c) ensures str_lt(a, c) { lemma_bytes_lt_trans(encode_utf8(a), encode_utf8(b), encode_utf8(c)); }
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>) requires encode_utf8(a) == encode_utf8(b) ensures a == b {
    vstd::utf8::encode_utf8_decode_utf8(a); vstd::utf8::encode_utf8_decode_utf8(b);
}
pub proof fn lemma_str_lt_total(a: Seq<char>, b: Seq<char>) requires a != b ensures str_lt(a, b) || str_lt(b, a) {
    if encode_utf8(a) == encode_utf8(b) { lemma_utf8_inj(a, b); }
    lemma_bytes_lt_total(encode_utf8(a), encode_utf8(b));
}
pub proof fn lemma_keys_unique(a: Seq<Seq<char>>, b: Seq<Seq<char>>, s: Set<Seq<char>>)
    requires keys_of(a, s), keys_of(b, s) ensures a == b
    decreases a.len() + b.len()
{
    if a.len() == 0 || b.len() == 0 {
        if a.len() > 0 { assert(a.contains(a[0])); assert(b.contains(a[0])); }
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
        assert(a =~= b);
    } else {
        let x = a.last(); let y = b.last();
        assert(a.contains(x)); assert(b.contains(y)); assert(b.contains(x)); assert(a.contains(y));
        if x != y {
            let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(str_lt(x, y));
            let j = choose|j: int| 0 <= j < a.len() && a[j] == y; assert(str_lt(y, x));
            lemma_str_lt_trans(x, y, x); lemma_str_lt_irrefl(x);
        }
        let t = s.remove(x);
        let a2 = a.drop_last(); let b2 = b.drop_last();
        assert forall|z: Seq<char>| #[trigger] a2.contains(z) <==> t.contains(z) by {
            if a2.contains(z) { let i = choose|i: int| 0 <= i < a2.len() && a2[i] == z; assert(a[i] == z); assert(a.contains(z)); if z == x { assert(str_lt(a[i], a[a.len() - 1])); lemma_str_lt_irrefl(x); } }
            if t.contains(z) { assert(a.contains(z)); let i = choose|i: int| 0 <= i < a.len() && a[i] == z; assert(a2[i] == z); }
        }
        assert forall|z: Seq<char>| #[trigger] b2.contains(z) <==> t.contains(z) by {
            if b2.contains(z) { let i = choose|i: int| 0 <= i < b2.len() && b2[i] == z; assert(b[i] == z); assert(b.contains(z)); if z == x { assert(str_lt(b[i], b[b.len() - 1])); lemma_str_lt_irrefl(x); } }
            if t.contains(z) { assert(b.contains(z)); let i = choose|i: int| 0 <= i < b.len() && b[i] == z; assert(b2[i] == z); }
        }
        assert(ordered(a2)); assert(ordered(b2));
        lemma_keys_unique(a2, b2, t);
        assert(a =~= a2.push(x)); assert(b =~= b2.push(x));
    }
}
pub proof fn lemma_sorted_keys(k: Seq<Seq<char>>, s: Set<Seq<char>>) requires keys_of(k, s) ensures sorted_keys(s) == k {
    lemma_keys_unique(sorted_keys(s), k, s);
}
// every finite set of keys has an increasing enumeration
pub proof fn lemma_sorted_keys_exist(s: Set<Seq<char>>) ensures keys_of(sorted_keys(s), s) decreases s.len() {
    let k = build_keys(s);
    assert(keys_of(k, s));
}
proof fn build_keys(s: Set<Seq<char>>) -> (k: Seq<Seq<char>>) ensures keys_of(k, s) decreases s.len() {
    if s.len() == 0 { assert(s =~= Set::empty()); Seq::empty() } else {
        let m = max_key(s);
        let k0 = build_keys(s.remove(m));
        let k = k0.push(m);
        assert forall|x: Seq<char>| #[trigger] k.contains(x) <==> s.contains(x) by {
            if k.contains(x) { let i = choose|i: int| 0 <= i < k.len() && k[i] == x; if i < k0.len() { assert(k0.contains(x)); } }
            if s.contains(x) { if x == m { assert(k[k.len() - 1] == x); } else { assert(k0.contains(x)); let i = choose|i: int| 0 <= i < k0.len() && k0[i] == x; assert(k[i] == x); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < k.len() implies str_lt(#[trigger] k[i], #[trigger] k[j]) by { if j == k.len() - 1 { assert(k0.contains(k0[i])); } }
        k
    }
}
proof fn max_key(s: Set<Seq<char>>) -> (m: Seq<char>) requires s.len() > 0 ensures s.contains(m), forall|x: Seq<char>| #[trigger] s.contains(x) && x != m ==> str_lt(x, m) decreases s.len() {
    let e = s.choose();
    if s.len() == 1 { 
        assert forall|x: Seq<char>| #[trigger] s.contains(x) && x != e implies str_lt(x, e) by { assert(s.remove(e).len() == 0); assert(s.remove(e).contains(x)); }
        e
    } else {
        let m = max_key(s.remove(e));
        lemma_str_lt_total(e, m);
        if str_lt(e, m) { assert forall|x: Seq<char>| #[trigger] s.contains(x) && x != m implies str_lt(x, m) by { if x != e { assert(s.remove(e).contains(x)); } } m }
        else { assert forall|x: Seq<char>| #[trigger] s.contains(x) && x != e implies str_lt(x, e) by { assert(s.remove(e).contains(x)); if x != m { lemma_str_lt_trans(x, m, e); } } e }
    }
}

// ---- decimal text
pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> is_digit(#[trigger] dec(n)[i]), undec(dec(n)) == n,
    decreases n
{
    assert(forall|m: nat| m < 10 ==> { let c = #[trigger] digit(m); is_digit(c) && (c as u32 - 48) as nat == m });
    if n < 10 {
        let s = dec(n);
        assert(s.drop_last() =~= Seq::empty());
        assert(s.last() == digit(n));
        assert(undec(s.drop_last()) == 0);
        assert(undec(s) == undec(s.drop_last()) * 10 + ((s.last() as u32 - 48) as nat));
    }
    else { lemma_dec(n / 10); assert(dec(n).drop_last() =~= dec(n / 10)); }
}
// text made of digits, as bytes
pub proof fn lemma_digits_utf8(c: Seq<char>)
    requires all_digits(c)
    ensures encode_utf8(c).len() == c.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] encode_utf8(c)[i] == c[i] as u8,
        num(encode_utf8(c)) == undec(c), forall|i: int| 0 <= i < c.len() ==> is_dig(#[trigger] encode_utf8(c)[i]),
{
    vstd::utf8::is_ascii_chars_encode_utf8(c);
    lemma_num_undec(encode_utf8(c), c);
}
pub proof fn lemma_num_undec(b: Seq<u8>, c: Seq<char>)
    requires all_digits(c), b.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] b[i] == c[i] as u8
    ensures num(b) == undec(c)
    decreases c.len()
{ if c.len() > 0 { lemma_num_undec(b.drop_last(), c.drop_last()); } }
pub proof fn lemma_digits_valid(b: Seq<u8>) -> (c: Seq<char>)
    requires forall|i: int| 0 <= i < b.len() ==> is_dig(#[trigger] b[i])
    ensures valid_utf8(b), encode_utf8(c) == b, all_digits(c), num(b) == undec(c), c.len() == b.len()
{
    let c = Seq::new(b.len(), |i: int| b[i] as char);
    assert(all_digits(c));
    lemma_digits_utf8(c);
    assert(encode_utf8(c) =~= b);
    vstd::utf8::encode_utf8_valid_utf8(c);
    c
}
pub proof fn lemma_dig_end(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= dig_end(s, i) <= s.len(), forall|k: int| i <= k < dig_end(s, i) ==> is_dig(#[trigger] s[k]),
        dig_end(s, i) < s.len() ==> !is_dig(s[dig_end(s, i)]),
    decreases s.len() - i
{ if i < s.len() && is_dig(s[i]) { lemma_dig_end(s, i + 1); } }
pub proof fn lemma_dig_end_is(s: Seq<u8>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), forall|k: int| i <= k < e ==> is_dig(#[trigger] s[k]), e < s.len() ==> !is_dig(s[e])
    ensures dig_end(s, i) == e
    decreases e - i
{ if i < e { lemma_dig_end_is(s, i + 1, e); } }


// ---- decoding what was encoded
// how many levels of lists and dictionaries
pub open spec fn levels_ok(v: BV, d: nat) -> bool decreases v {
    match v {
        BV::Int(n) => d < max_depth() && n <= usize::MAX,
        BV::Str(b) => d < max_depth() && b.len() <= usize::MAX,
        BV::List(l) => d < max_depth() && forall|i: int| 0 <= i < l.len() ==> levels_ok(#[trigger] l[i], d + 1),
        BV::Dict(m) => d < max_depth() && forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> levels_ok(m[k], d + 1) && encode_utf8(k).len() <= usize::MAX,
        BV::Nothing => false,
    }
}
pub open spec fn at(s: Seq<u8>, i: int, t: Seq<u8>) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len() as int) == t }
pub proof fn lemma_at_sub(s: Seq<u8>, i: int, a: Seq<u8>, b: Seq<u8>) requires at(s, i, a + b) ensures at(s, i, a), at(s, i + a.len(), b), {
    let t = a + b;
    assert forall|k: int| 0 <= k < a.len() implies s[i + k] == a[k] by { assert(s.subrange(i, i + t.len() as int)[k] == t[k]); }
    assert forall|k: int| 0 <= k < b.len() implies s[i + a.len() + k] == b[k] by { assert(s.subrange(i, i + t.len() as int)[a.len() + k] == t[a.len() + k]); }
    assert(s.subrange(i, i + a.len() as int) =~= a);
    assert(s.subrange(i + a.len(), i + a.len() + b.len() as int) =~= b);
}
pub proof fn lemma_number_at(s: Seq<u8>, i: int, n: nat, stop: u8)
    requires at(s, i, asc(dec(n)) + seq![stop]), !is_dig(stop), n <= usize::MAX
    ensures number_at(s, i) == Some((n, i + asc(dec(n)).len())), s[i + asc(dec(n)).len()] == stop, asc(dec(n)).len() > 0, is_dig(s[i])
{
    let a = asc(dec(n));
    lemma_dec(n); lemma_digits_utf8(dec(n));
    lemma_at_sub(s, i, a, seq![stop]);
    let e = i + a.len();
    assert(s.subrange(e, e + 1)[0] == stop);
    assert forall|k: int| i <= k < e implies is_dig(#[trigger] s[k]) by { assert(s.subrange(i, e)[k - i] == a[k - i]); }
    lemma_dig_end_is(s, i, e);
}
pub proof fn lemma_dec_str(s: Seq<u8>, i: int, b: Seq<u8>)
    requires at(s, i, enc_bytes(b)), b.len() <= usize::MAX
    ensures dec_str(s, i) == Some((BV::Str(b), i + enc_bytes(b).len())), is_dig(s[i]), i < s.len(), enc_bytes(b).len() > 0
{
    let a = asc(dec(b.len()));
    lemma_at_sub(s, i, a + seq![58u8], b);
    lemma_number_at(s, i, b.len(), 58);
}
pub proof fn lemma_dec_at(s: Seq<u8>, i: int, d: nat, v: BV)
    requires levels_ok(v, d), at(s, i, benc(v)),
    ensures dec_at(s, i, d) == Some((v, i + benc(v).len())), benc(v).len() > 0, s[i] != 101, i < s.len(),
    decreases v, 0nat
{
    match v {
        BV::Int(n) => {
            let a = asc(dec(n));
            assert(enc_nat(n) =~= seq![105u8] + (a + seq![101u8]));
            lemma_at_sub(s, i, seq![105u8], a + seq![101u8]);
            assert(s.subrange(i, i + 1)[0] == 105);
            lemma_number_at(s, i + 1, n, 101);
        }
        BV::Str(b) => { lemma_dec_str(s, i, b); }
        BV::List(l) => {
            let parts = benc_seq(l);
            assert(enc_list(parts) =~= seq![108u8] + (flat(parts) + seq![101u8]));
            lemma_at_sub(s, i, seq![108u8], flat(parts) + seq![101u8]);
            assert(s.subrange(i, i + 1)[0] == 108);
            assert(l.skip(0) =~= l); assert(parts.skip(0) =~= parts);
            lemma_dec_list(s, i + 1, d + 1, l, parts, 0);
            assert(l.take(0) =~= Seq::empty());
        }
        BV::Dict(m) => {
            let em = benc_map(m);
            assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies levels_ok(m[k], d + 1) && encode_utf8(k).len() <= usize::MAX by {}
            assert(em.dom() =~= m.dom());
            let keys = sorted_keys(m.dom());
            lemma_sorted_keys_exist(m.dom());
            assert(enc_dict(em) =~= seq![100u8] + (entries(keys, em) + seq![101u8]));
            lemma_at_sub(s, i, seq![100u8], entries(keys, em) + seq![101u8]);
            assert(s.subrange(i, i + 1)[0] == 100);
            assert(keys.skip(0) =~= keys); 
            lemma_dec_dict(s, i + 1, d + 1, m, em, keys, 0, Map::empty());
        }
        BV::Nothing => {}
    }
}
pub proof fn lemma_flat_first(p: Seq<Seq<u8>>) requires p.len() > 0 ensures flat(p) == p[0] + flat(p.skip(1)) decreases p.len() {
    if p.len() == 1 { assert(p.drop_last() =~= Seq::empty()); assert(p.skip(1) =~= Seq::empty()); assert(flat(p.drop_last()) =~= Seq::empty()); assert(flat(p) =~= p[0] + flat(p.skip(1))); }
    else { lemma_flat_first(p.drop_last()); assert(p.drop_last().skip(1) =~= p.skip(1).drop_last()); assert(flat(p) =~= p[0] + flat(p.skip(1))); }
}
proof fn lemma_dec_list(s: Seq<u8>, i: int, d: nat, l: Seq<BV>, parts: Seq<Seq<u8>>, n: nat)
    requires parts.len() == l.len(), n <= l.len(), forall|k: int| 0 <= k < l.len() ==> #[trigger] parts[k] == benc(l[k]),
        forall|k: int| 0 <= k < l.len() ==> levels_ok(#[trigger] l[k], d),
        at(s, i, flat(parts.skip(n as int)) + seq![101u8]),
    ensures dec_list(s, i, d, l.take(n as int)) == Some((BV::List(l), i + flat(parts.skip(n as int)).len() + 1))
    decreases l, l.len() - n + 1
{
    let f = flat(parts.skip(n as int));
    if n == l.len() {
        assert(f =~= Seq::empty());
        lemma_at_sub(s, i, f, seq![101u8]);
        assert(s.subrange(i, i + 1)[0] == 101);
        assert(l.take(n as int) =~= l);
    } else {
        let p = parts.skip(n as int);
        lemma_flat_first(p);
        assert(p.skip(1) =~= parts.skip(n as int + 1));
        let rest = flat(parts.skip(n as int + 1));
        let v = l[n as int];
        assert(parts[n as int] == benc(v)); assert(levels_ok(l[n as int], d));
        assert(p[0] == benc(v));
        assert(f + seq![101u8] =~= benc(v) + (rest + seq![101u8]));
        lemma_at_sub(s, i, benc(v), rest + seq![101u8]);
        lemma_dec_at(s, i, d, v);
        lemma_dec_list(s, i + benc(v).len(), d, l, parts, n + 1);
        assert(l.take(n as int).push(v) =~= l.take(n as int + 1));
    }
}
pub proof fn lemma_entries_first(k: Seq<Seq<char>>, m: Map<Seq<char>, Seq<u8>>) requires k.len() > 0 ensures entries(k, m) == enc_key(k[0]) + m[k[0]] + entries(k.skip(1), m) decreases k.len() {
    if k.len() == 1 { assert(k.drop_last() =~= Seq::empty()); assert(k.skip(1) =~= Seq::empty()); assert(entries(k.drop_last(), m) =~= Seq::empty()); assert(entries(k, m) =~= enc_key(k[0]) + m[k[0]] + entries(k.skip(1), m)); }
    else { lemma_entries_first(k.drop_last(), m); assert(k.drop_last().skip(1) =~= k.skip(1).drop_last()); assert(entries(k, m) =~= enc_key(k[0]) + m[k[0]] + entries(k.skip(1), m)); }
}
proof fn lemma_dec_dict(s: Seq<u8>, i: int, d: nat, m: Map<Seq<char>, BV>, em: Map<Seq<char>, Seq<u8>>, keys: Seq<Seq<char>>, n: nat, acc: Map<Seq<char>, BV>)
    requires n <= keys.len(), keys_of(keys, m.dom()), em.dom() == m.dom(), forall|k: Seq<char>| m.dom().contains(k) ==> #[trigger] em[k] == benc(m[k]),
        forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> levels_ok(m[k], d) && encode_utf8(k).len() <= usize::MAX,
        at(s, i, entries(keys.skip(n as int), em) + seq![101u8]),
        forall|k: Seq<char>| #[trigger] acc.dom().contains(k) <==> keys.take(n as int).contains(k),
        forall|k: Seq<char>| #[trigger] acc.dom().contains(k) ==> acc[k] == m[k],
    ensures dec_dict(s, i, d, acc) == Some((BV::Dict(m), i + entries(keys.skip(n as int), em).len() + 1))
    decreases m, keys.len() - n + 1
{
    let f = entries(keys.skip(n as int), em);
    if n == keys.len() {
        assert(f =~= Seq::empty());
        lemma_at_sub(s, i, f, seq![101u8]);
        assert(s.subrange(i, i + 1)[0] == 101);
        assert(keys.take(n as int) =~= keys);
        assert(acc =~= m);
    } else {
        let p = keys.skip(n as int);
        lemma_entries_first(p, em);
        assert(p.skip(1) =~= keys.skip(n as int + 1));
        let k = keys[n as int];
        assert(p[0] == k); assert(keys.contains(k)); assert(m.dom().contains(k));
        let v = m[k];
        assert(em[k] == benc(v)); assert(levels_ok(m[k], d));
        let kb = encode_utf8(k);
        let rest = entries(keys.skip(n as int + 1), em);
        assert(f + seq![101u8] =~= enc_key(k) + (benc(v) + (rest + seq![101u8])));
        lemma_at_sub(s, i, enc_key(k), benc(v) + (rest + seq![101u8]));
        lemma_dec_str(s, i, kb);
        let j = i + enc_key(k).len();
        lemma_at_sub(s, j, benc(v), rest + seq![101u8]);
        lemma_dec_at(s, j, d, v);
        vstd::utf8::encode_utf8_valid_utf8(k); vstd::utf8::encode_utf8_decode_utf8(k);
        let acc2 = acc.insert(k, v);
        assert forall|x: Seq<char>| #[trigger] acc2.dom().contains(x) <==> keys.take(n as int + 1).contains(x) by {
            let t = keys.take(n as int + 1); let t0 = keys.take(n as int);
            if t.contains(x) { let a = choose|a: int| 0 <= a < t.len() && t[a] == x; if a < n { assert(t0[a] == x); assert(t0.contains(x)); } else { assert(x == k); } }
            if acc2.dom().contains(x) { if x == k { assert(t[n as int] == x); } else { assert(t0.contains(x)); let a = choose|a: int| 0 <= a < t0.len() && t0[a] == x; assert(t[a] == x); } }
        }
        lemma_dec_dict(s, j + benc(v).len(), d, m, em, keys, n + 1, acc2);
    }
}
// C06: decoding an encoding gives the value back, and consumes exactly the encoding
pub proof fn bencode_round_trip(v: BV, rest: Seq<u8>)
    requires levels_ok(v, 0)
    ensures dec_at(benc(v) + rest, 0, 0) == Some((v, benc(v).len() as int))
{
    let s = benc(v) + rest;
    assert(s.subrange(0, benc(v).len() as int) =~= benc(v));
    lemma_dec_at(s, 0, 0, v);
}
// C06: two values never share an encoding
pub proof fn bencode_injective(v: BV, w: BV)
    requires levels_ok(v, 0), levels_ok(w, 0), benc(v) == benc(w)
    ensures v == w
{
    bencode_round_trip(v, Seq::empty()); bencode_round_trip(w, Seq::empty());
}
// C07: decoding never reads past the end
pub proof fn lemma_dec_bounds(s: Seq<u8>, i: int, d: nat)
    requires 0 <= i <= s.len()
    ensures dec_at(s, i, d) is Some ==> i <= dec_at(s, i, d)->Some_0.1 <= s.len(), dec_at(s, i, d) is Some && i < s.len() ==> i < dec_at(s, i, d)->Some_0.1,
    decreases s.len() - i, 0nat
{
    if d >= max_depth() || i >= s.len() { }
    else if s[i] == 105 { lemma_dig_end(s, i + 1); }
    else if s[i] == 108 { lemma_dec_list_bounds(s, i + 1, d + 1, Seq::empty()); }
    else if s[i] == 100 { lemma_dec_dict_bounds(s, i + 1, d + 1, Map::empty()); }
    else { lemma_dig_end(s, i); }
}
proof fn lemma_dec_list_bounds(s: Seq<u8>, i: int, d: nat, acc: Seq<BV>)
    requires 0 <= i <= s.len()
    ensures dec_list(s, i, d, acc) is Some ==> i < dec_list(s, i, d, acc)->Some_0.1 <= s.len()
    decreases s.len() - i, 1nat
{
    if i < s.len() && s[i] != 101 { lemma_dec_bounds(s, i, d); match dec_at(s, i, d) { Some((v, j)) => { if i < j <= s.len() { lemma_dec_list_bounds(s, j, d, acc.push(v)); } } None => {} } }
}
proof fn lemma_dec_dict_bounds(s: Seq<u8>, i: int, d: nat, acc: Map<Seq<char>, BV>)
    requires 0 <= i <= s.len()
    ensures dec_dict(s, i, d, acc) is Some ==> i < dec_dict(s, i, d, acc)->Some_0.1 <= s.len()
    decreases s.len() - i, 1nat
{
    if i < s.len() && s[i] != 101 {
        match dec_str(s, i) { Some((BV::Str(k), j)) => { if i < j <= s.len() && valid_utf8(k) { match dec_at(s, j, d) {
            Some((v, l)) => { if j <= l <= s.len() { lemma_dec_dict_bounds(s, l, d, acc.insert(decode_utf8(k), v)); } } None => {} } } } _ => {} }
    }
}
}
