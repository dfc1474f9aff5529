//@ module bencode::metainfo
//@ prelude
use crate::vp_benc::*;
pub open spec fn mv(m: Metainfo) -> BV decreases m via mv_dec {
    match m {
        Metainfo::Integer(n) => BV::Int(n as nat),
        Metainfo::String(b) => BV::Str(b@),
        Metainfo::List(l) => BV::List(Seq::new(l@.len(), |i: int| if 0 <= i < l@.len() { mv(l@[i]) } else { BV::Nothing })),
        Metainfo::Dictionary(d) => BV::Dict(Map::new(d@.dom(), |k: Seq<char>| if d@.dom().contains(k) { mv(d@[k]) } else { BV::Nothing })),
        Metainfo::Nothing() => BV::Nothing,
    }
}
#[via_fn]
proof fn mv_dec(m: Metainfo) { 
    if let Metainfo::Dictionary(d) = m { crate::vp_ext::ax_hashmap_decreases(d);
      assert forall|k: Seq<char>| d@.dom().contains(k) implies decreases_to!(m => #[trigger] d@[k]) by {  assert(decreases_to!(m => d)); assert(decreases_to!(d@ => d@[k])); } }
}
pub open spec fn mv_seq(l: Seq<Metainfo>) -> Seq<BV> { Seq::new(l.len(), |i: int| mv(l[i])) }
pub open spec fn mv_map(d: Map<Seq<char>, Metainfo>) -> Map<Seq<char>, BV> { Map::new(d.dom(), |k: Seq<char>| mv(d[k])) }
pub proof fn lemma_mv_list(l: Vec<Metainfo>) ensures mv(Metainfo::List(l)) == BV::List(mv_seq(l@)) {
    assert(mv(Metainfo::List(l))->List_0 =~= mv_seq(l@));
}
pub proof fn lemma_mv_dict(d: HashMap<String, Metainfo>) ensures mv(Metainfo::Dictionary(d)) == BV::Dict(mv_map(d@)) {
    assert(mv(Metainfo::Dictionary(d))->Dict_0 =~= mv_map(d@));
}
// text of a value that is a string
pub open spec fn bstr(v: BV) -> Option<Seq<char>> { match v { BV::Str(b) => if crate::vp_ext::valid_utf8(b) { Some(crate::vp_ext::decode_utf8(b)) } else { None }, _ => None } }
pub open spec fn bget(v: BV, k: Seq<char>) -> Option<BV> { match v { BV::Dict(m) => if m.dom().contains(k) { Some(m[k]) } else { None }, _ => None } }
pub open spec fn bint(v: BV) -> Option<nat> { match v { BV::Int(n) => Some(n), _ => None } }
//@ fn Metainfo::get_bytes_content() -> r
    ensures match mv(*self) { BV::Str(b) => r is Ok && r->Ok_0@ == b, _ => r is Err },
//@ fn Metainfo::get_string_content() -> r
    ensures match bstr(mv(*self)) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err },
//@ entry
proof { if *self is String && crate::vp_ext::valid_utf8(self->String_0@) { crate::vp_ext::ax_utf8(self->String_0@); } }
//@ fn Metainfo::get_integer_content() -> r
    ensures match mv(*self) { BV::Int(n) => r is Ok && r->Ok_0 as nat == n, _ => r is Err },
//@ fn Metainfo::get_list_content() -> r
    ensures self is List ==> r is Ok && *r->Ok_0 == self->List_0, !(self is List) ==> r is Err,
//@ fn Metainfo::get_dict_content() -> r
    ensures self is Dictionary ==> r is Ok && *r->Ok_0 == self->Dictionary_0, !(self is Dictionary) ==> r is Err,
//@ fn Metainfo::get_value_from_dict(key) -> r
    ensures match bget(mv(*self), key@) { Some(v) => r is Ok && mv(*r->Ok_0) == v && self is Dictionary && *r->Ok_0 == self->Dictionary_0@[key@], None => r is Err },
//@ fn Metainfo::get_bytes_from_dict(key) -> r
    ensures match bget(mv(*self), key@) { Some(BV::Str(b)) => r is Ok && r->Ok_0@ == b, _ => r is Err },
//@ fn Metainfo::get_string_from_dict(key) -> r
    ensures match bget(mv(*self), key@) { Some(v) => match bstr(v) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err }, None => r is Err },
//@ fn Metainfo::get_integer_from_dict(key) -> r
    ensures match bget(mv(*self), key@) { Some(BV::Int(n)) => r is Ok && r->Ok_0 as nat == n, _ => r is Err },
//@ fn Metainfo::get_list_from_dict(key) -> r
    ensures match bget(mv(*self), key@) {
        Some(BV::List(l)) => r is Ok && mv_seq(r->Ok_0@) == l && self is Dictionary && self->Dictionary_0@[key@] is List && *r->Ok_0 == self->Dictionary_0@[key@]->List_0,
        _ => r is Err },
//@ entry
proof { if *self is Dictionary && self->Dictionary_0@.dom().contains(key@) && self->Dictionary_0@[key@] is List { lemma_mv_list(self->Dictionary_0@[key@]->List_0); }
  if *self is Dictionary { lemma_mv_dict(self->Dictionary_0); } }

//@ module bencode::decode
//@ prelude
use crate::vp_benc::*;
use crate::bencode::metainfo::{mv, mv_seq, mv_map, lemma_mv_list, lemma_mv_dict};
use crate::vp_ext::{valid_utf8, decode_utf8, encode_utf8};
//@ impl Decoder
pub open spec fn wf(&self) -> bool { self.current <= self.contents@.len() && self.depth <= MAX_DEPTH && MAX_DEPTH as nat == max_depth() }
pub open spec fn same(&self, o: &Decoder) -> bool { self.contents == o.contents && self.depth == o.depth && self.wf() }
//@ fn Decoder::init(source) -> r
    ensures r.wf(), r.current == 0, r.depth == 0, r.contents == source,
//@ fn Decoder::advance() -> r
    requires old(self).current < old(self).contents.len(), old(self).wf()
    ensures final(self).same(old(self)), final(self).current == old(self).current + 1, r == final(self).current,
//@ fn Decoder::get_current_byte() -> r
    ensures r is Ok <==> self.current < self.contents@.len(), r is Ok ==> r->Ok_0 == self.contents@[self.current as int], r is Ok ==> self.current < 0x7fff_ffff_ffff_ffff,
//@ entry
proof { crate::vp_ext::vp_axioms::ax_vec_len(self.contents); }
//@ fn Decoder::get_consecutive_digits() -> r
    requires old(self).wf(),
    ensures final(self).same(old(self)), final(self).current >= old(self).current,
        match number_at(old(self).contents@, old(self).current as int) { Some((n, e)) => r is Ok && r->Ok_0 as nat == n && final(self).current == e, None => r is Err },
//@ locals start end string_integer result result
//@ entry
let ghost s0 = self.contents@; let ghost i0 = self.current as int;
proof { lemma_dig_end(s0, i0); }
//@ loop 0 while
    invariant self.same(old(self)), s0 == self.contents@, start == i0, i0 <= self.current, i0 == old(self).current,
        dig_end(s0, i0) == dig_end(s0, self.current as int),
        forall|k: int| i0 <= k < self.current ==> is_dig(#[trigger] s0[k]),
    ensures self.current < s0.len(), !is_dig(s0[self.current as int]),
    decreases s0.len() - self.current,
//@ after_loop 0
proof { lemma_dig_end_is(s0, i0, self.current as int); 
        let b = s0.subrange(i0, self.current as int);
        assert forall|i: int| 0 <= i < b.len() implies is_dig(#[trigger] b[i]) by { assert(is_dig(s0[i0 + i])); }
        let c = lemma_digits_valid(b); 
        crate::vp_ext::exts::ax_parse_usize(c);
        assert forall|x: Seq<char>| #[trigger] encode_utf8(x) == b implies x == c by { lemma_utf8_inj(x, c); }
}
//@ fn Decoder::parse_integer() -> r
    requires old(self).wf(), old(self).current < old(self).contents@.len(),
    ensures final(self).same(old(self)), final(self).current > old(self).current,
        match dec_int(old(self).contents@, old(self).current as int) { Some((v, e)) => r is Ok && mv(r->Ok_0) == v && final(self).current == e, None => r is Err },
//@ entry
proof { lemma_dig_end(self.contents@, self.current as int + 1); }
//@ fn Decoder::parse_string() -> r
    requires old(self).wf(),
    ensures final(self).same(old(self)), final(self).current >= old(self).current,
        match dec_str(old(self).contents@, old(self).current as int) { Some((v, e)) => r is Ok && mv(r->Ok_0) == v && final(self).current == e && final(self).current > old(self).current, None => r is Err },
//@ entry
proof { lemma_dig_end(self.contents@, self.current as int); }
//@ fn Decoder::parse_list() -> r
    requires old(self).wf(), old(self).current < old(self).contents@.len(),
    ensures final(self).same(old(self)), final(self).current > old(self).current,
        match dec_list(old(self).contents@, old(self).current + 1, old(self).depth as nat, Seq::empty()) { Some((v, e)) => r is Ok && mv(r->Ok_0) == v && final(self).current == e, None => r is Err },
    decreases old(self).contents@.len() - old(self).current, 0nat
//@ locals list
//@ entry
let ghost s0 = self.contents@;
//@ loop 0 while
    invariant self.same(old(self)), s0 == self.contents@, self.current > old(self).current, s0 == old(self).contents@,
        dec_list(s0, old(self).current + 1, old(self).depth as nat, Seq::empty()) == dec_list(s0, self.current as int, old(self).depth as nat, mv_seq(list@)),
    ensures self.current < s0.len(), s0[self.current as int] == 101,
    decreases s0.len() - self.current,
//@ before_loop 0
proof { assert(mv_seq(list@) =~= Seq::empty()); }
//@ loop_entry 0
let ghost l0 = list@; let ghost c0 = self.current;
proof { lemma_dec_bounds(s0, self.current as int, self.depth as nat); }
//@ loop_end 0
proof { assert(mv_seq(list@) =~= mv_seq(l0).push(mv(list@.last()))); }
//@ after_loop 0
proof { lemma_mv_list(list); }
//@ fn Decoder::parse_dictionary() -> r
    requires old(self).wf(), old(self).current < old(self).contents@.len(),
    ensures final(self).same(old(self)), final(self).current > old(self).current,
        match dec_dict(old(self).contents@, old(self).current + 1, old(self).depth as nat, Map::empty()) { Some((v, e)) => r is Ok && mv(r->Ok_0) == v && final(self).current == e, None => r is Err },
    decreases old(self).contents@.len() - old(self).current, 0nat
//@ locals dictionary key raw_key value
//@ entry
let ghost s0 = self.contents@;
//@ loop 0 while
    invariant self.same(old(self)), s0 == self.contents@, self.current > old(self).current, s0 == old(self).contents@,
        dec_dict(s0, old(self).current + 1, old(self).depth as nat, Map::empty()) == dec_dict(s0, self.current as int, old(self).depth as nat, mv_map(dictionary@)),
    ensures self.current < s0.len(), s0[self.current as int] == 101,
    decreases s0.len() - self.current,
//@ before_loop 0
proof { assert(mv_map(dictionary@) =~= Map::empty()); }
//@ loop_entry 0
let ghost d0 = dictionary@; let ghost c0 = self.current;
proof { if let Some((BV::Str(k), j)) = dec_str(s0, c0 as int) { lemma_dig_end(s0, c0 as int); lemma_dec_bounds(s0, j, self.depth as nat); if valid_utf8(k) { crate::vp_ext::ax_utf8(k); } } }
//@ loop_end 0
proof { assert(mv_map(dictionary@) =~= mv_map(d0).insert(key@, mv(value))); }
//@ after_loop 0
proof { lemma_mv_dict(dictionary); }
//@ fn Decoder::decode() -> r
    requires old(self).wf(),
    ensures final(self).same(old(self)), final(self).current >= old(self).current,
        match dec_at(old(self).contents@, old(self).current as int, old(self).depth as nat) { Some((v, e)) => r is Ok && mv(r->Ok_0) == v && final(self).current == e, None => r is Err },
    decreases old(self).contents@.len() - old(self).current, 1nat
//@ fn Decoder::get_total_parsed_bytes() -> r
    ensures r == self.current
