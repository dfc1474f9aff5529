//@ module bencode::encode
//@ prelude
use crate::vp_benc::*;
use crate::vp_ext::exts::{permuted, is_perm};
use crate::vp_ext::{pairs_of, str_lt, encode_utf8, dec, VpKey};
pub open spec fn encs<T: Encode>(s: Seq<T>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].enc()) }
pub open spec fn enc_map<T: Encode>(m: Map<Seq<char>, T>) -> Map<Seq<char>, Seq<u8>> { Map::new(m.dom(), |k: Seq<char>| m[k].enc()) }
pub open spec fn enc_entry(k: Seq<char>, v: Seq<u8>) -> Seq<u8> { if v.len() == 0 || k.len() == 0 { Seq::empty() } else { enc_key(k) + v } }
pub open spec fn keys<T>(r: Seq<(&String, &T)>) -> Seq<Seq<char>> { Seq::new(r.len(), |i: int| r[i].0@) }
pub proof fn lemma_sorted_pairs<T: Encode>(r: Seq<(&String, &T)>, s: Seq<(&String, &T)>, m: Map<Seq<char>, T>)
    requires pairs_of(r, m), permuted(r, s), forall|i: int, j: int| 0 <= i < j < s.len() ==> !str_lt((#[trigger] s[j]).0@, (#[trigger] s[i]).0@)
    ensures keys(s) == sorted_keys(m.dom()), forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && m[s[i].0@] == *s[i].1,
{
    let p = choose|p: Seq<int>| p.len() == r.len() && #[trigger] is_perm(p) && r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == r[p[i]];
    assert forall|i: int| 0 <= i < s.len() implies m.dom().contains((#[trigger] s[i]).0@) && m[s[i].0@] == *s[i].1 by { assert(r[p[i]].0.kv() == s[i].0@); }
    let k = keys(s);
    assert forall|i: int, j: int| 0 <= i < j < k.len() implies str_lt(#[trigger] k[i], #[trigger] k[j]) by {
        assert(!str_lt(s[j].0@, s[i].0@));
        let a = p[i]; let b = p[j];
        assert(a != b);
        assert(s[i] == r[a]); assert(s[j] == r[b]);
        if a < b { assert(r[a].0.kv() != r[b].0.kv()); } else { assert(r[b].0.kv() != r[a].0.kv()); }
        lemma_str_lt_total(k[i], k[j]);
    }
    assert forall|x: Seq<char>| #[trigger] k.contains(x) <==> m.dom().contains(x) by {
        if k.contains(x) { let i = choose|i: int| 0 <= i < k.len() && k[i] == x; assert(m.dom().contains(s[i].0@)); }
        if m.dom().contains(x) { let a = choose|a: int| 0 <= a < r.len() && (#[trigger] r[a]).0.kv() == x; assert(p.contains(a)); let i = choose|i: int| 0 <= i < p.len() && p[i] == a; assert(s[i] == r[p[i]]); assert(k[i] == x); }
    }
    lemma_sorted_keys(k, m.dom());
}
pub proof fn lemma_fmt_str(n: nat, s: Seq<char>) ensures encode_utf8(Seq::<char>::empty() + dec(n) + ":"@ + s) == enc_bytes2(n, encode_utf8(s)) {
    reveal_strlit(":");
    vstd::utf8::is_ascii_chars_encode_utf8(":"@);
    assert(encode_utf8(":"@) =~= seq![58u8]);
    assert(Seq::<char>::empty() + dec(n) =~= dec(n));
    vstd::utf8::encode_utf8_concat(dec(n), ":"@);
    vstd::utf8::encode_utf8_concat(dec(n) + ":"@, s);
}
pub open spec fn enc_bytes2(n: nat, b: Seq<u8>) -> Seq<u8> { asc(dec(n)) + seq![58u8] + b }
pub proof fn lemma_fmt_int(n: nat) ensures encode_utf8(Seq::<char>::empty() + "i"@ + dec(n) + "e"@) == enc_nat(n) {
    reveal_strlit("i"); reveal_strlit("e");
    vstd::utf8::is_ascii_chars_encode_utf8("i"@); vstd::utf8::is_ascii_chars_encode_utf8("e"@);
    assert(encode_utf8("i"@) =~= seq![105u8]); assert(encode_utf8("e"@) =~= seq![101u8]);
    assert(Seq::<char>::empty() + "i"@ =~= "i"@);
    vstd::utf8::encode_utf8_concat("i"@, dec(n));
    vstd::utf8::encode_utf8_concat("i"@ + dec(n), "e"@);
}
//@ trait Encode
    spec fn enc(&self) -> Seq<u8>;
//@ fn Encode::encode() -> r
    ensures r@ == self.enc()
//@ impl Encode@String
    open spec fn enc(&self) -> Seq<u8> { enc_bytes(encode_utf8(self@)) }
//@ fn Encode@String::encode() -> r
//@ entry
proof { lemma_fmt_str(encode_utf8(self@).len(), self@); }
//@ impl Encode@&str
    open spec fn enc(&self) -> Seq<u8> { enc_bytes(encode_utf8(self@)) }
//@ fn Encode@&str::encode() -> r
//@ entry
proof { lemma_fmt_str(encode_utf8(self@).len(), self@); }
//@ impl Encode@usize
    open spec fn enc(&self) -> Seq<u8> { enc_nat(*self as nat) }
//@ fn Encode@usize::encode() -> r
//@ entry
proof { lemma_fmt_int(*self as nat); }
//@ impl Encode@Vec<u8>
    open spec fn enc(&self) -> Seq<u8> { enc_bytes(self@) }
//@ fn Encode@Vec<u8>::encode() -> r
//@ impl Encode@Vec<T>
    open spec fn enc(&self) -> Seq<u8> { enc_list(encs(self@)) }
//@ fn Encode@Vec<T>::encode() -> r
//@ locals acc el
//@ loop 0 for it
    invariant acc@ == seq![108u8] + flat(encs(self@.take(it.index@ as int))),
//@ before_loop 0
proof { assert(encs(self@.take(0)) =~= Seq::empty()); assert(acc@ =~= seq![108u8] + flat(encs(self@.take(0)))); }
//@ loop_end 0
proof {
    let a = encs(self@.take(it.index@ as int)); let b = encs(self@.take(it.index@ as int + 1));
    assert(b.drop_last() =~= a); assert(b.last() == el.enc());
    assert(acc@ =~= seq![108u8] + flat(b));
}
//@ after_loop 0
proof { assert(self@.take(self@.len() as int) =~= self@); }
//@ impl Encode@HashMap<String,T>
    open spec fn enc(&self) -> Seq<u8> { enc_dict(enc_map(self@)) }
//@ fn Encode@HashMap<String,T>::encode() -> r
//@ locals items a b acc key value
//@ closure 0 |a: &(&String, &T), b: &(&String, &T)| -> (o: core::cmp::Ordering)
    ensures (o == core::cmp::Ordering::Greater) == str_lt(b.0@, a.0@)
//@ at after items.
proof { lemma_sorted_pairs(r0, items@, self@); }
let ghost em = enc_map(self@); let ghost ks = sorted_keys(self@.dom());
//@ at items.
let ghost r0 = items@;
//@ loop 0 for it
    invariant acc@ == seq![100u8] + entries(ks.take(it.index@ as int), em), ks == keys(its), it.seq() == its, em == enc_map(self@),
       forall|i: int| 0 <= i < its.len() ==> self@.dom().contains((#[trigger] its[i]).0@) && self@[its[i].0@] == *its[i].1,
//@ before_loop 0
let ghost its = items@;
proof { assert(keys(its) =~= ks); assert(ks.take(0) =~= Seq::empty()); assert(acc@ =~= seq![100u8] + entries(ks.take(0), em)); }
//@ loop_end 0
proof {
    let n = it.index@ as int; let a = ks.take(n); let b = ks.take(n + 1);
    assert(b.drop_last() =~= a); assert(b.last() == key@); assert(em[key@] == value.enc());
    assert(acc@ =~= seq![100u8] + entries(b, em));
}
//@ after_loop 0
proof { assert(ks.take(ks.len() as int) =~= ks); assert(em.dom() =~= self@.dom()); }
//@ impl Encode@Option<T>
    open spec fn enc(&self) -> Seq<u8> { match self { Some(v) => v.enc(), None => Seq::empty() } }
//@ fn Encode@Option<T>::encode() -> r
//@ fn encode_dict_entry(key, value) -> r
    ensures r@ == enc_entry(key@, value.enc())
