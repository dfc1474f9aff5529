//@ module torrent::file
//@ prelude
use crate::vp_benc::*;
use crate::vp_ext::{encode_utf8, str_lt, bytes_lt};
use crate::bencode::metainfo::{mv, mv_seq, bget, bint, bstr};
// a file of a torrent: the names of its folders and its own, and how many bytes it has
pub struct FileView { pub path: Seq<Seq<char>>, pub length: nat }
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn vstrs(v: Vec<String>) -> Seq<Seq<char>> { strs(v@) }
pub open spec fn vfviews(v: Vec<File>) -> Seq<FileView> { fviews(v@) }
pub open spec fn fviews(v: Seq<File>) -> Seq<FileView> { Seq::new(v.len(), |i: int| v[i].fv()) }
// a name that stays inside the folder it is put in
pub open spec fn safe_name(c: Seq<char>) -> bool {
    &&& c.len() > 0 && c != "."@ && c != ".."@
    &&& forall|i: int| 0 <= i < encode_utf8(c).len() ==> (#[trigger] encode_utf8(c)[i]) != 47 && encode_utf8(c)[i] != 92 && encode_utf8(c)[i] != 0
}
pub open spec fn safe_path(p: Seq<Seq<char>>) -> bool { p.len() > 0 && forall|i: int| 0 <= i < p.len() ==> safe_name(#[trigger] p[i]) }
// the strings of a list of values, if all of them are strings
pub open spec fn all_strs(l: Seq<BV>) -> Option<Seq<Seq<char>>> {
    if forall|i: int| 0 <= i < l.len() ==> bstr(#[trigger] l[i]) is Some { Some(Seq::new(l.len(), |i: int| bstr(l[i])->Some_0)) } else { None }
}
pub open spec fn file_of(v: BV) -> Option<FileView> {
    match bget(v, "length"@) { Some(BV::Int(n)) => match bget(v, "path"@) { Some(BV::List(l)) => match all_strs(l) { Some(p) => Some(FileView { path: p, length: n }), None => None }, _ => None }, _ => None }
}
pub open spec fn str_bv(s: Seq<char>) -> BV { BV::Str(encode_utf8(s)) }
pub open spec fn file_map(f: FileView) -> Map<Seq<char>, BV> {
    Map::empty().insert("length"@, BV::Int(f.length)).insert("path"@, BV::List(Seq::new(f.path.len(), |i: int| str_bv(f.path[i]))))
}
pub open spec fn file_bv(f: FileView) -> BV { BV::Dict(file_map(f)) }
pub proof fn lemma_bytes_lt_at(a: Seq<u8>, b: Seq<u8>, j: int)
    requires 0 <= j < a.len(), j < b.len(), a[j] < b[j], forall|i: int| 0 <= i < j ==> a[i] == b[i]
    ensures bytes_lt(a, b) decreases j
{ if j > 0 { lemma_bytes_lt_at(a.drop_first(), b.drop_first(), j - 1); } }
pub proof fn lemma_lit_lt(a: Seq<char>, b: Seq<char>, j: int)
    requires vstd::utf8::is_ascii_chars(a), vstd::utf8::is_ascii_chars(b), 0 <= j < a.len(), j < b.len(), (a[j] as u32) < (b[j] as u32), forall|i: int| 0 <= i < j ==> a[i] == b[i]
    ensures str_lt(a, b)
{ vstd::utf8::is_ascii_chars_encode_utf8(a); vstd::utf8::is_ascii_chars_encode_utf8(b); lemma_bytes_lt_at(encode_utf8(a), encode_utf8(b), j); }
pub proof fn lemma_file_enc(f: FileView, e: Seq<u8>)
    requires e == seq![100u8] + (enc_key("length"@) + enc_nat(f.length)) + (enc_key("path"@) + enc_list(Seq::new(f.path.len(), |i: int| enc_bytes(encode_utf8(f.path[i]))))) + seq![101u8]
    ensures benc(file_bv(f)) == e
{
    reveal_strlit("length"); reveal_strlit("path");
    lemma_lit_lt("length"@, "path"@, 0);
    let m = file_map(f); let k = seq!["length"@, "path"@];
    assert(k[0] == "length"@ && k[1] == "path"@);
    assert forall|x: Seq<char>| #[trigger] k.contains(x) <==> m.dom().contains(x) by { if m.dom().contains(x) { if x == "length"@ { assert(k[0] == x); } else { assert(k[1] == x); } } }
    assert(ordered(k));
    lemma_sorted_keys(k, m.dom());
    let em = benc_map(m);
    assert(em.dom() =~= m.dom());
    assert(k.drop_last() =~= seq!["length"@]); assert(k.drop_last().drop_last() =~= Seq::empty());
    let l = Seq::new(f.path.len(), |i: int| str_bv(f.path[i]));
    assert(benc_seq(l) =~= Seq::new(f.path.len(), |i: int| enc_bytes(encode_utf8(f.path[i]))));
    assert("length"@ != "path"@);
    assert(em["length"@] == enc_nat(f.length));
    assert(em["path"@] == enc_list(benc_seq(l)));
    assert(entries(k.drop_last().drop_last(), em) =~= Seq::empty());
    assert(entries(k.drop_last(), em) =~= enc_key("length"@) + enc_nat(f.length));
    assert(benc(file_bv(f)) =~= e);
}
//@ impl File
    pub open spec fn fv(&self) -> FileView { FileView { path: strs(self.path@), length: self.length as nat } }
//@ fn File::from_metainfo(file) -> r
    ensures match file_of(mv(*file)) { Some(f) => r is Ok && r->Ok_0.fv() == f, None => r is Err },
//@ locals file_length file_path_metainfo file_path a path_value
//@ loop 0 for it
    invariant it.seq().len() == file_path_metainfo@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == file_path_metainfo@[i],
        vstrs(file_path).len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> bstr(mv(#[trigger] file_path_metainfo@[i])) == Some(vstrs(file_path)[i]),
        bget(mv(*file), "path"@) == Some(BV::List(mv_seq(file_path_metainfo@))), bget(mv(*file), "length"@) == Some(BV::Int(file_length as nat)),
//@ loop_entry 0
proof { assert(mv_seq(file_path_metainfo@)[it.index@ as int] == mv(*a)); }
//@ after_loop 0
proof {
    let l = mv_seq(file_path_metainfo@);
    assert forall|i: int| 0 <= i < l.len() implies bstr(#[trigger] l[i]) == Some(vstrs(file_path)[i]) by { assert(bstr(mv(file_path_metainfo@[i])) == Some(vstrs(file_path)[i])); }
    assert(all_strs(l)->Some_0 =~= strs(file_path@));
}
//@ fn File::new(path, length) -> r
    ensures r.path == path, r.length == length,
//@ fn File::get_length() -> r
    ensures r == self.length
//@ fn File::get_path() -> r
    ensures r@ == self.path@
//@ fn File::is_path_safe() -> r
    ensures r == safe_path(self.fv().path)
//@ locals component
//@ loop 0 for it
    invariant it.seq().len() == self.path@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.path@[i],
        forall|i: int| 0 <= i < it.index@ ==> safe_name(#[trigger] self.fv().path[i]),
//@ loop_entry 0
proof { assert(self.fv().path[it.index@ as int] == component@); }
//@ fn is_component_safe(component) -> r
    ensures r == safe_name(component@)
//@ locals byte
//@ loop 0 for it
    invariant it.seq().len() == encode_utf8(component@).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == encode_utf8(component@)[i],
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] encode_utf8(component@)[i]) != 47 && encode_utf8(component@)[i] != 92 && encode_utf8(component@)[i] != 0,
//@ loop_entry 0
proof { assert(*byte == encode_utf8(component@)[it.index@ as int]); }
//@ impl Encode@File
    open spec fn enc(&self) -> Seq<u8> { benc(file_bv(self.fv())) }
//@ fn Encode@File::encode() -> r
//@ exit
proof {
    reveal_strlit("d"); reveal_strlit("e"); vstd::utf8::is_ascii_chars_encode_utf8("d"@); vstd::utf8::is_ascii_chars_encode_utf8("e"@);
    reveal_strlit("length"); reveal_strlit("path");
    assert(encode_utf8("d"@) =~= seq![100u8]); assert(encode_utf8("e"@) =~= seq![101u8]);
    assert(crate::bencode::encode::encs(self.path@) =~= Seq::new(self.fv().path.len(), |i: int| enc_bytes(encode_utf8(self.fv().path[i]))));
    lemma_file_enc(self.fv(), vp_ret@);
}

//@ module torrent::info
//@ prelude
use crate::vp_benc::*;
use crate::vp_ext::{encode_utf8, str_lt, sum_seq, VpSum, valid_utf8, decode_utf8};
use crate::vp_ext::sha1::sha1_of;
use crate::vp_ext::exts::{ceil_div, VpStep};
use crate::bencode::metainfo::{mv, mv_seq, bget, bint, bstr};
use crate::bencode::encode::{encs, enc_entry};
use crate::torrent::file::{FileView, fviews, vfviews, file_of, file_bv, file_map, safe_path, strs, lemma_lit_lt, str_bv};
// the metadata of a torrent
pub struct InfoView { pub files: Option<Seq<FileView>>, pub length: Option<nat>, pub name: Seq<char>, pub piece_length: nat, pub pieces: Seq<u8> }
pub open spec fn all_files(l: Seq<BV>) -> Option<Seq<FileView>> {
    if forall|i: int| 0 <= i < l.len() ==> file_of(#[trigger] l[i]) is Some { Some(Seq::new(l.len(), |i: int| file_of(l[i])->Some_0)) } else { None }
}
pub open spec fn get_str(v: BV, k: Seq<char>) -> Option<Seq<char>> { match bget(v, k) { Some(x) => bstr(x), None => None } }
pub open spec fn get_int(v: BV, k: Seq<char>) -> Option<nat> { match bget(v, k) { Some(BV::Int(n)) => Some(n), _ => None } }
pub open spec fn get_bytes(v: BV, k: Seq<char>) -> Option<Seq<u8>> { match bget(v, k) { Some(BV::Str(b)) => Some(b), _ => None } }
// the metadata a bencoded value states, before any check of consistency
pub open spec fn info_of(v: BV) -> Option<InfoView> {
    if get_bytes(v, "pieces"@) is None || get_int(v, "piece length"@) is None || get_str(v, "name"@) is None { None }
    else if bget(v, "files"@) is Some && bget(v, "files"@)->Some_0 is List && all_files(bget(v, "files"@)->Some_0->List_0) is None { None }
    else { Some(InfoView {
        files: if bget(v, "files"@) is Some && bget(v, "files"@)->Some_0 is List { all_files(bget(v, "files"@)->Some_0->List_0) } else { None },
        length: get_int(v, "length"@), name: get_str(v, "name"@)->Some_0, piece_length: get_int(v, "piece length"@)->Some_0, pieces: get_bytes(v, "pieces"@)->Some_0 }) }
}
pub open spec fn lens(f: Seq<FileView>) -> nat decreases f.len() { if f.len() == 0 { 0 } else { lens(f.drop_last()) + f.last().length } }
impl InfoView {
    // the files the pieces are spread over: those listed, or one file with the name of the torrent
    pub open spec fn the_files(&self) -> Seq<FileView> {
        match self.files { Some(f) => f, None => seq![FileView { path: seq![self.name], length: self.length->Some_0 }] }
    }
    pub open spec fn total(&self) -> nat { lens(self.the_files()) }
    pub open spec fn count(&self) -> nat { ceil_div(self.total(), self.piece_length) }
    // what the rest of the client relies on
    pub open spec fn valid(&self) -> bool {
        &&& 1 <= self.piece_length <= 0xffff_ffff
        &&& self.files is Some || self.length is Some
        &&& forall|i: int| 0 <= i < self.the_files().len() ==> safe_path((#[trigger] self.the_files()[i]).path)
        &&& self.total() <= 0x7fff_ffff_ffff_ffff
        &&& self.pieces.len() == 20 * self.count()
        &&& self.count() <= 0xffff_ffff
    }
    pub open spec fn hash_at(&self, i: int) -> Seq<u8> { self.pieces.subrange(20 * i, 20 * i + 20) }
    pub open spec fn hash(&self) -> Seq<u8> { sha1_of(benc(info_bv(*self))) }
}
pub open spec fn info_map0(f: InfoView) -> Map<Seq<char>, BV> { match f.files { Some(l) => Map::empty().insert("files"@, BV::List(Seq::new(l.len(), |i: int| file_bv(l[i])))), None => Map::empty() } }
pub open spec fn info_map1(f: InfoView) -> Map<Seq<char>, BV> { match f.length { Some(n) => info_map0(f).insert("length"@, BV::Int(n)), None => info_map0(f) } }
pub open spec fn info_map(f: InfoView) -> Map<Seq<char>, BV> {
    info_map1(f).insert("name"@, str_bv(f.name)).insert("piece length"@, BV::Int(f.piece_length)).insert("pieces"@, BV::Str(f.pieces))
}
pub open spec fn info_bv(f: InfoView) -> BV { BV::Dict(info_map(f)) }
pub open spec fn below(k: Seq<Seq<char>>, x: Seq<char>) -> bool { forall|i: int| 0 <= i < k.len() ==> str_lt(#[trigger] k[i], x) }
pub proof fn lemma_push_key(k: Seq<Seq<char>>, x: Seq<char>, y: Seq<char>, em: Map<Seq<char>, Seq<u8>>)
    requires ordered(k), below(k, x), str_lt(x, y)
    ensures ordered(k.push(x)), below(k.push(x), y), entries(k.push(x), em) == entries(k, em) + (enc_key(x) + em[x])
{
    let q = k.push(x);
    assert(q.drop_last() =~= k);
    assert forall|i: int| 0 <= i < q.len() implies str_lt(#[trigger] q[i], y) by { if i < k.len() { lemma_str_lt_trans(k[i], x, y); } }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies str_lt(#[trigger] q[i], #[trigger] q[j]) by { if j < k.len() { assert(str_lt(k[i], k[j])); } else { assert(str_lt(k[i], x)); } }
}
pub proof fn lemma_below(k: Seq<Seq<char>>, x: Seq<char>, y: Seq<char>) requires below(k, x), str_lt(x, y) ensures below(k, y) {
    assert forall|i: int| 0 <= i < k.len() implies str_lt(#[trigger] k[i], y) by { lemma_str_lt_trans(k[i], x, y); }
}
pub proof fn lemma_assoc7(d: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, e: Seq<u8>, f: Seq<u8>, g: Seq<u8>) ensures d + (a + b + c + e + f) + g == d + a + b + c + e + f + g {
    assert(d + (a + b + c + e + f) + g =~= d + a + b + c + e + f + g);
}
pub open spec fn part(k: Seq<char>, e: Option<Seq<u8>>) -> Seq<u8> { match e { Some(v) => enc_key(k) + v, None => Seq::empty() } }
pub proof fn lemma_key_order()
    ensures str_lt("files"@, "length"@), str_lt("length"@, "name"@), str_lt("name"@, "piece length"@), str_lt("piece length"@, "pieces"@), str_lt("pieces"@, "z"@)
{
    reveal_strlit("files"); reveal_strlit("length"); reveal_strlit("name"); reveal_strlit("piece length"); reveal_strlit("pieces"); reveal_strlit("z");
    lemma_lit_lt("files"@, "length"@, 0); lemma_lit_lt("length"@, "name"@, 0); lemma_lit_lt("name"@, "piece length"@, 0); lemma_lit_lt("piece length"@, "pieces"@, 5); lemma_lit_lt("pieces"@, "z"@, 0);
}
pub open spec fn opt_push(k: Seq<Seq<char>>, x: Seq<char>, b: bool) -> Seq<Seq<char>> { if b { k.push(x) } else { k } }
pub open spec fn info_keys(f: InfoView) -> Seq<Seq<char>> {
    opt_push(opt_push(Seq::empty(), "files"@, f.files is Some), "length"@, f.length is Some).push("name"@).push("piece length"@).push("pieces"@)
}
pub proof fn lemma_contains_push(k: Seq<Seq<char>>, y: Seq<char>, x: Seq<char>) ensures k.push(y).contains(x) == (k.contains(x) || x == y) {
    if k.contains(x) { let i = choose|i: int| 0 <= i < k.len() && k[i] == x; assert(k.push(y)[i] == x); }
    if x == y { assert(k.push(y)[k.len() as int] == x); }
}
pub proof fn lemma_info_enc(f: InfoView)
    ensures benc(info_bv(f)) == seq![100u8]
        + part("files"@, match f.files { Some(l) => Some(enc_list(Seq::new(l.len(), |i: int| benc(file_bv(l[i]))))), None => None })
        + part("length"@, match f.length { Some(n) => Some(enc_nat(n)), None => None })
        + (enc_key("name"@) + enc_bytes(encode_utf8(f.name))) + (enc_key("piece length"@) + enc_nat(f.piece_length)) + (enc_key("pieces"@) + enc_bytes(f.pieces))
        + seq![101u8]
{
    lemma_key_order();
    lemma_str_lt_trans("files"@, "length"@, "name"@); lemma_str_lt_trans("length"@, "name"@, "piece length"@); lemma_str_lt_trans("name"@, "piece length"@, "pieces"@);
    lemma_str_lt_trans("files"@, "name"@, "piece length"@); lemma_str_lt_trans("length"@, "piece length"@, "pieces"@); lemma_str_lt_trans("files"@, "piece length"@, "pieces"@);
    lemma_str_lt_irrefl("files"@); lemma_str_lt_irrefl("length"@); lemma_str_lt_irrefl("name"@); lemma_str_lt_irrefl("piece length"@);
    let m = info_map(f); let em = benc_map(m);
    let k0 = Seq::<Seq<char>>::empty(); let k1 = opt_push(k0, "files"@, f.files is Some); let k2 = opt_push(k1, "length"@, f.length is Some);
    let k3 = k2.push("name"@); let k4 = k3.push("piece length"@); let k5 = k4.push("pieces"@);
    assert(ordered(k0) && below(k0, "files"@));
    if f.files is Some { lemma_push_key(k0, "files"@, "length"@, em); } else { lemma_below(k0, "files"@, "length"@); }
    if f.length is Some { lemma_push_key(k1, "length"@, "name"@, em); } else { lemma_below(k1, "length"@, "name"@); }
    lemma_push_key(k2, "name"@, "piece length"@, em);
    lemma_push_key(k3, "piece length"@, "pieces"@, em);
    lemma_push_key(k4, "pieces"@, "z"@, em);
    assert forall|x: Seq<char>| #[trigger] k5.contains(x) <==> m.dom().contains(x) by {
        lemma_contains_push(k0, "files"@, x); lemma_contains_push(k1, "length"@, x); lemma_contains_push(k2, "name"@, x); lemma_contains_push(k3, "piece length"@, x); lemma_contains_push(k4, "pieces"@, x);
    }
    assert(em.dom() =~= m.dom());
    lemma_sorted_keys(k5, m.dom());
    if f.files is Some { let l = f.files->Some_0; let b = Seq::new(l.len(), |i: int| file_bv(l[i])); assert(m["files"@] == BV::List(b)); assert(benc_seq(b) =~= Seq::new(l.len(), |i: int| benc(file_bv(l[i])))); }
    if f.length is Some { assert(m["length"@] == BV::Int(f.length->Some_0)); }
    assert(m["name"@] == str_bv(f.name)); assert(m["piece length"@] == BV::Int(f.piece_length)); assert(m["pieces"@] == BV::Str(f.pieces));
    assert(entries(k0, em) =~= Seq::empty());
    let p1 = part("files"@, match f.files { Some(l) => Some(enc_list(Seq::new(l.len(), |i: int| benc(file_bv(l[i]))))), None => None });
    let p2 = part("length"@, match f.length { Some(n) => Some(enc_nat(n)), None => None });
    assert(entries(k1, em) =~= p1);
    assert(entries(k2, em) =~= p1 + p2);
    let q3 = enc_key("name"@) + enc_bytes(encode_utf8(f.name)); let q4 = enc_key("piece length"@) + enc_nat(f.piece_length); let q5 = enc_key("pieces"@) + enc_bytes(f.pieces);
    assert(em["name"@] == enc_bytes(encode_utf8(f.name))); assert(em["piece length"@] == enc_nat(f.piece_length)); assert(em["pieces"@] == enc_bytes(f.pieces));
    assert(entries(k5, em) == p1 + p2 + q3 + q4 + q5);
    lemma_assoc7(seq![100u8], p1, p2, q3, q4, q5, seq![101u8]);
}
// A standard info dictionary: only the keys of the original protocol, each of its type.
pub open spec fn std_str(v: BV) -> bool { v is Str && valid_utf8(v->Str_0) }
pub open spec fn std_file(v: BV) -> bool {
    &&& v is Dict && v->Dict_0.dom() =~= set!["length"@, "path"@]
    &&& v->Dict_0["length"@] is Int && v->Dict_0["path"@] is List && forall|i: int| 0 <= i < v->Dict_0["path"@]->List_0.len() ==> std_str(#[trigger] v->Dict_0["path"@]->List_0[i])
}
pub open spec fn std_info(v: BV) -> bool {
    &&& v is Dict && v->Dict_0.dom().subset_of(set!["files"@, "length"@, "name"@, "piece length"@, "pieces"@])
    &&& v->Dict_0.dom().contains("name"@) && std_str(v->Dict_0["name"@])
    &&& v->Dict_0.dom().contains("piece length"@) && v->Dict_0["piece length"@] is Int
    &&& v->Dict_0.dom().contains("pieces"@) && v->Dict_0["pieces"@] is Str
    &&& v->Dict_0.dom().contains("length"@) ==> v->Dict_0["length"@] is Int
    &&& v->Dict_0.dom().contains("files"@) ==> v->Dict_0["files"@] is List && forall|i: int| 0 <= i < v->Dict_0["files"@]->List_0.len() ==> std_file(#[trigger] v->Dict_0["files"@]->List_0[i])
}
proof fn lemma_std_str(v: BV) requires std_str(v) ensures bstr(v) is Some, str_bv(bstr(v)->Some_0) == v { crate::vp_ext::ax_utf8(v->Str_0); }
proof fn lemma_std_file(v: BV) requires std_file(v) ensures file_of(v) is Some, file_bv(file_of(v)->Some_0) == v {
    let l = v->Dict_0["path"@]->List_0;
    reveal_strlit("length"); reveal_strlit("path");
    assert("length"@ != "path"@) by { assert("length"@.len() != "path"@.len()); }
    assert forall|i: int| 0 <= i < l.len() implies bstr(#[trigger] l[i]) is Some && str_bv(bstr(l[i])->Some_0) == l[i] by { assert(std_str(v->Dict_0["path"@]->List_0[i])); lemma_std_str(l[i]); }
    let f = file_of(v)->Some_0;
    assert(Seq::new(f.path.len(), |i: int| str_bv(f.path[i])) =~= l);
    assert(file_map(f) =~= v->Dict_0);
}
// reading and writing again a standard info dictionary gives the same value, and so the same hash
pub proof fn info_hash_identity(v: BV) requires std_info(v) ensures info_of(v) is Some, info_bv(info_of(v)->Some_0) == v, info_of(v)->Some_0.hash() == sha1_of(benc(v)) {
    lemma_std_str(v->Dict_0["name"@]);
    reveal_strlit("files"); reveal_strlit("length"); reveal_strlit("name"); reveal_strlit("piece length"); reveal_strlit("pieces");
    lemma_key_order();
    lemma_str_lt_irrefl("files"@); lemma_str_lt_irrefl("length"@); lemma_str_lt_irrefl("name"@); lemma_str_lt_irrefl("piece length"@);
    if v->Dict_0.dom().contains("files"@) {
        let l = v->Dict_0["files"@]->List_0;
        assert forall|i: int| 0 <= i < l.len() implies file_of(#[trigger] l[i]) is Some && file_bv(file_of(l[i])->Some_0) == l[i] by { assert(std_file(v->Dict_0["files"@]->List_0[i])); lemma_std_file(l[i]); }
        let f = all_files(l)->Some_0;
        assert(Seq::new(f.len(), |i: int| file_bv(f[i])) =~= l);
    }
    assert("files"@.len() == 5 && "length"@.len() == 6 && "name"@.len() == 4 && "piece length"@.len() == 12 && "pieces"@.len() == 6 && "length"@[0] != "pieces"@[0]);
    let f = info_of(v)->Some_0;
    assert(info_map(f).dom() =~= v->Dict_0.dom());
    assert(info_map(f) =~= v->Dict_0);
}
pub proof fn lemma_lens_sum(f: Seq<crate::torrent::file::File>, s: Seq<usize>)
    requires f.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == f[i].length
    ensures sum_seq(s) == lens(fviews(f)) decreases f.len()
{ if f.len() > 0 { lemma_lens_sum(f.drop_last(), s.drop_last()); assert(fviews(f).drop_last() =~= fviews(f.drop_last())); } }
pub proof fn lemma_one(f: FileView) ensures lens(seq![f]) == f.length { assert(seq![f].drop_last() =~= Seq::empty()); assert(lens(Seq::<FileView>::empty()) == 0); }
pub proof fn lemma_lens_mono(f: Seq<FileView>, i: int) requires 0 <= i < f.len() ensures lens(f.take(i)) + f[i].length <= lens(f) decreases f.len()
{ if i == f.len() - 1 { assert(f.take(i) =~= f.drop_last()); } else { lemma_lens_mono(f.drop_last(), i); assert(f.drop_last().take(i) =~= f.take(i)); } }
// the metadata a file keeps, where it can be read and is valid
pub open spec fn kept(w: &crate::vp_ext::World, path: Seq<char>) -> Option<InfoView> {
    match crate::vp_ext::fs::text_at(w, path) {
        Some(t) => match crate::vp_ext::serde_json::value_of::<Info>(t) { Some(i) => if i.iv().valid() { Some(i.iv()) } else { None }, None => None },
        None => None,
    }
}
//@ impl Info
    pub open spec fn iv(&self) -> InfoView {
        InfoView { files: match self.files { Some(f) => Some(fviews(f@)), None => None }, length: match self.length { Some(n) => Some(n as nat), None => None }, name: self.name@, piece_length: self.piece_length as nat, pieces: self.pieces@ }
    }
//@ fn Info::from_bytes(bytes) -> r
    ensures r is Ok ==> dec_at(bytes@, 0, 0) is Some && info_of(dec_at(bytes@, 0, 0)->Some_0.0) == Some(r->Ok_0.iv()) && r->Ok_0.iv().valid(),
        dec_at(bytes@, 0, 0) is Some && info_of(dec_at(bytes@, 0, 0)->Some_0.0) is Some && info_of(dec_at(bytes@, 0, 0)->Some_0.0)->Some_0.valid() ==> r is Ok,
//@ fn Info::from_metainfo(a) -> r
    ensures r is Ok ==> info_of(mv(*a)) == Some(r->Ok_0.iv()) && r->Ok_0.iv().valid(),
        info_of(mv(*a)) is Some && info_of(mv(*a))->Some_0.valid() ==> r is Ok,
//@ locals pieces piece_length name length files elements files element
//@ loop 0 for it
    invariant it.seq().len() == elements@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == elements@[i],
        vfviews(files).len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> file_of(mv(#[trigger] elements@[i])) == Some(vfviews(files)[i]),
        bget(mv(*a), "files"@) == Some(BV::List(mv_seq(elements@))), get_bytes(mv(*a), "pieces"@) is Some, get_int(mv(*a), "piece length"@) is Some, get_str(mv(*a), "name"@) is Some,
//@ loop_entry 0
proof { assert(mv_seq(elements@)[it.index@ as int] == mv(*element)); }
//@ after_loop 0
proof {
    let l = mv_seq(elements@);
    assert forall|i: int| 0 <= i < l.len() implies file_of(#[trigger] l[i]) == Some(vfviews(files)[i]) by { assert(file_of(mv(elements@[i])) == Some(vfviews(files)[i])); }
    assert(all_files(l)->Some_0 =~= fviews(files@));
}
//@ fn Info::validate() -> r
    ensures r is Ok <==> self.iv().valid(), r is Ok ==> r->Ok_0 == self,
//@ locals total_length file piece_count
//@ loop 0 for it
    invariant it.seq().len() == self.iv().the_files().len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).fv() == self.iv().the_files()[i],
        total_length as nat == lens(self.iv().the_files().take(it.index@ as int)), total_length <= i64::MAX,
        forall|i: int| 0 <= i < it.index@ ==> safe_path((#[trigger] self.iv().the_files()[i]).path),
//@ before_loop 0
proof { assert(self.iv().the_files().take(0) =~= Seq::empty()); }
//@ loop_entry 0
proof {
    let f = self.iv().the_files(); let n = it.index@ as int;
    assert(file.fv() == f[n]);
    lemma_lens_mono(f, n);
    assert(f.take(n + 1).drop_last() =~= f.take(n));
}
//@ after_loop 0
proof { assert(self.iv().the_files().take(self.iv().the_files().len() as int) =~= self.iv().the_files()); }
//@ fn Info::get_piece(index) -> r
    requires index < self.pieces.len() / 20
    ensures r@ == self.iv().hash_at(index as int)
//@ fn Info::verify_piece(piece, piece_idx) -> r
    requires piece_idx < self.pieces.len() / 20
    ensures r == (sha1_of(piece@) == self.iv().hash_at(piece_idx as int))
//@ fn Info::get_piece_length() -> r
    ensures r == self.piece_length
//@ fn Info::get_total_length() -> r
    requires self.files is Some || self.length is Some, self.iv().total() <= usize::MAX
    ensures r as nat == self.iv().total()
//@ entry
proof {
    if self.files is Some { let f = self.files->Some_0@;
        assert forall|s: Seq<usize>| s.len() == f.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == f[i].length) implies #[trigger] sum_seq(s) == lens(fviews(f)) by { lemma_lens_sum(f, s); }
    } else { lemma_one(self.iv().the_files()[0]); }
}
//@ closure 0 |file: &File| -> (n: usize)
    ensures n == file.length
//@ fn Info::get_files() -> r
    ensures r is Ok <==> (self.files is Some || self.length is Some), r is Ok ==> vfviews(r->Ok_0) == self.iv().the_files()
//@ locals files length file
//@ exit
proof { if vp_ret is Ok {
    if self.files is None { assert(vfviews(vp_ret->Ok_0)[0].path =~= seq![self.name@]); }
    assert(vfviews(vp_ret->Ok_0) =~= self.iv().the_files()); } }
//@ fn Info::compute_info_hash() -> r
    ensures r@ == self.iv().hash()
//@ fn Info::from_file(file_path) -> r
    ensures *final(vp_w) == *old(vp_w), r is Ok ==> r->Ok_0.iv().valid(),
        r is Ok <==> kept(old(vp_w), file_path@) is Some, r is Ok ==> r->Ok_0.iv() == kept(old(vp_w), file_path@)->Some_0
//@ entry
proof { reveal_strlit(""); }
//@ fn Info::save(file_path) -> r
    requires file_path@.len() > 0, old(vp_w).dirs().contains(crate::vp_ext::path::parent_of(file_path@))
    ensures final(vp_w).truncated() == old(vp_w).truncated().insert(file_path@), final(vp_w).saved() == old(vp_w).saved().push((file_path@, crate::vp_ext::serde_json::text_of(*self))), final(vp_w).writes() == old(vp_w).writes(),
        final(vp_w).dirs() == old(vp_w).dirs(), final(vp_w).sends() == old(vp_w).sends(), final(vp_w).udp() == old(vp_w).udp(),
//@ impl Encode@Info
    open spec fn enc(&self) -> Seq<u8> { benc(info_bv(self.iv())) }
//@ fn Encode@Info::encode() -> r
//@ exit
proof {
    let f = self.iv();
    reveal_strlit("d"); reveal_strlit("e"); vstd::utf8::is_ascii_chars_encode_utf8("d"@); vstd::utf8::is_ascii_chars_encode_utf8("e"@);
    reveal_strlit("files"); reveal_strlit("length"); reveal_strlit("name"); reveal_strlit("piece length"); reveal_strlit("pieces");
    assert(encode_utf8("d"@) =~= seq![100u8]); assert(encode_utf8("e"@) =~= seq![101u8]);
    if self.files is Some { let l = self.files->Some_0@; assert(encs(l) =~= Seq::new(l.len(), |i: int| benc(file_bv(f.files->Some_0[i])))); }
    assert(enc_entry("files"@, self.files.enc()) =~= part("files"@, match f.files { Some(l) => Some(enc_list(Seq::new(l.len(), |i: int| benc(file_bv(l[i]))))), None => None }));
    assert(enc_entry("length"@, self.length.enc()) =~= part("length"@, match f.length { Some(n) => Some(enc_nat(n)), None => None }));
    assert(enc_entry("name"@, self.name.enc()) =~= enc_key("name"@) + enc_bytes(encode_utf8(f.name)));
    assert(enc_entry("piece length"@, self.piece_length.enc()) =~= enc_key("piece length"@) + enc_nat(f.piece_length));
    assert(enc_entry("pieces"@, self.pieces.enc()) =~= enc_key("pieces"@) + enc_bytes(f.pieces));
    lemma_info_enc(f);
}
