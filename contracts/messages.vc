//@ module messages::bitfield
//@ prelude
// bit k of a bit field: the high bit of the first byte is piece 0
pub open spec fn bit_at(b: Seq<u8>, k: int) -> bool { (b[k / 8] as nat / pow2((7 - k % 8) as nat)) % 2 == 1 }
pub open spec fn pow2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) } }
pub proof fn lemma_mask(byte: u8, o: int) requires 0 <= o < 8 ensures (((128u8 >> (o as u8)) & byte) > 0) == ((byte as nat / pow2((7 - o) as nat)) % 2 == 1), ((128u8 >> (o as i32)) == (128u8 >> (o as u8))), 
{
    reveal_with_fuel(pow2, 9);
    assert(((128u8 >> 0u8) & byte > 0) == ((byte / 128) % 2 == 1)) by (bit_vector);
    assert(((128u8 >> 1u8) & byte > 0) == ((byte / 64) % 2 == 1)) by (bit_vector);
    assert(((128u8 >> 2u8) & byte > 0) == ((byte / 32) % 2 == 1)) by (bit_vector);
    assert(((128u8 >> 3u8) & byte > 0) == ((byte / 16) % 2 == 1)) by (bit_vector);
    assert(((128u8 >> 4u8) & byte > 0) == ((byte / 8) % 2 == 1)) by (bit_vector);
    assert(((128u8 >> 5u8) & byte > 0) == ((byte / 4) % 2 == 1)) by (bit_vector);
    assert(((128u8 >> 6u8) & byte > 0) == ((byte / 2) % 2 == 1)) by (bit_vector);
    assert(((128u8 >> 7u8) & byte > 0) == ((byte / 1) % 2 == 1)) by (bit_vector);
    assert((128u8 >> 0i32) == (128u8 >> 0u8) && (128u8 >> 1i32) == (128u8 >> 1u8) && (128u8 >> 2i32) == (128u8 >> 2u8) && (128u8 >> 3i32) == (128u8 >> 3u8) && (128u8 >> 4i32) == (128u8 >> 4u8) && (128u8 >> 5i32) == (128u8 >> 5u8) && (128u8 >> 6i32) == (128u8 >> 6u8) && (128u8 >> 7i32) == (128u8 >> 7u8)) by (bit_vector);
}
//@ fn BitfieldMessage::from_bytes(bytes) -> r
    ensures r.bitfield@ == bytes@
//@ fn BitfieldMessage::get_bitfield() -> r
    ensures r@ == self.bitfield@
//@ fn BitfieldMessage::as_bytes() -> r
    ensures r@ == self.bitfield@
//@ fn BitfieldMessage::get_bitfield_as_bit_vector() -> r
    ensures r@.len() == 8 * self.bitfield@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == bit_at(self.bitfield@, k)
//@ locals bin_vector byte offset mask
//@ loop 0 for it
    invariant it.seq().len() == self.bitfield@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.bitfield@[i],
        bin_vector@.len() == 8 * it.index@, forall|k: int| 0 <= k < bin_vector@.len() ==> #[trigger] bin_vector@[k] == bit_at(self.bitfield@, k),
//@ loop_entry 0
let ghost n = it.index@ as int;
proof { assert(*byte == self.bitfield@[n]); }
//@ loop 1 for jt
    invariant bin_vector@.len() == 8 * n + jt.index@, forall|k: int| 0 <= k < bin_vector@.len() ==> #[trigger] bin_vector@[k] == bit_at(self.bitfield@, k),
        *byte == self.bitfield@[n],
//@ loop_entry 1
proof {
    let k = 8 * n + jt.index@;
    assert(k / 8 == n && k % 8 == jt.index@);
    lemma_mask(*byte, jt.index@ as int);
}

//@ module messages::handshake
//@ prelude
use crate::vp_ext::encode_utf8;
// the only handshake this client speaks: extension protocol bit set
pub open spec fn handshake_start() -> Seq<u8> { seq![19u8] + encode_utf8("BitTorrent protocol"@) + seq![0u8, 0u8, 0u8, 0u8, 0u8, 16u8, 0u8, 0u8] }
//@ impl HandshakeMessage
    pub open spec fn wire(&self) -> Seq<u8> { seq![self.protocol_identifier_length] + self.protocol_identifier@ + self.reserved_bytes@ + self.info_hash@ + self.peer_id@ }
//@ fn HandshakeMessage::new(info_hash, peer_id) -> r
    ensures r.wire() == handshake_start() + info_hash@ + encode_utf8(peer_id@)
//@ fn HandshakeMessage::from_bytes(bytes) -> r
    requires bytes@.len() >= 68
    ensures r.info_hash@ == bytes@.subrange(28, 48), r.peer_id@ == bytes@.subrange(48, 68), r.wire() =~= bytes@.take(68)
//@ fn HandshakeMessage::get_info_hash() -> r
    ensures r@ == self.info_hash@
//@ fn HandshakeMessage::as_bytes() -> r
    ensures r@ == self.wire()

//@ module messages::interested
//@ fn InterestedMessage::as_bytes() -> r
    ensures r@.len() == 0
//@ fn InterestedMessage::from_bytes() -> r

//@ module messages::request
//@ prelude
use crate::vp_ext::{be32, un_be32};
//@ fn RequestMessage::new(piece_index, block_index, block_data) -> r
    ensures r.piece_index == piece_index, r.block_index == block_index, r.block_data == block_data
//@ fn RequestMessage::from_bytes(bytes) -> r
    requires bytes@.len() >= 8
    ensures r.piece_index as nat == un_be32(bytes@.take(4)), r.block_index as nat == un_be32(bytes@.subrange(4, 8)), r.block_data@ == bytes@.skip(8)
//@ fn RequestMessage::get_block_data() -> r
    ensures r@ == self.block_data@
//@ fn RequestMessage::as_bytes() -> r
    ensures r@ == be32(self.piece_index as nat) + be32(self.block_index as nat) + self.block_data@

//@ module messages::extension
//@ prelude
use crate::vp_benc::*;
use crate::vp_ext::{pairs_of, encode_utf8, VpKey};
use crate::bencode::metainfo::{mv, mv_map, bget, lemma_mv_dict};
use crate::torrent::info::get_int;
use crate::bencode::encode::enc_map;
// what an extension message states
pub struct ExtView { pub id: u8, pub msg_type: Option<nat>, pub metadata_size: Option<nat>, pub piece: Option<nat>, pub extensions: Map<Seq<char>, u8>, pub data: Seq<u8> }
pub open spec fn onat(n: Option<usize>) -> Option<nat> { match n { Some(x) => Some(x as nat), None => None } }
// the extensions a peer supports: the integer entries, with the low 8 bits of their value
pub open spec fn exts_of(m: Map<Seq<char>, BV>) -> Map<Seq<char>, u8> { Map::new(m.dom().filter(|k: Seq<char>| m[k] is Int), |k: Seq<char>| (m[k]->Int_0 % 256) as u8) }
pub open spec fn ext_map(v: BV) -> Map<Seq<char>, u8> { match bget(v, "m"@) { Some(BV::Dict(m)) => exts_of(m), _ => Map::empty() } }
pub open spec fn ext_of(b: Seq<u8>) -> Option<ExtView> {
    match dec_at(b.skip(1), 0, 0) {
        Some((v, e)) => Some(ExtView { id: b[0], msg_type: get_int(v, "msg_type"@), metadata_size: get_int(v, "metadata_size"@), piece: get_int(v, "piece"@), extensions: ext_map(v), data: b.skip(e + 1) }),
        None => None,
    }
}
pub proof fn lemma_low_byte() ensures forall|v: usize| #[trigger] (v as u8) == ((v as nat) % 256) as u8 {
    assert forall|v: usize| #[trigger] (v as u8) == ((v as nat) % 256) as u8 by { assert((v as u8) == ((v % 256) as u8)) by (bit_vector); }
}
pub open spec fn fields0(e: ExtView) -> Map<Seq<char>, usize> { match e.piece { Some(n) => Map::empty().insert("piece"@, n as usize), None => Map::empty() } }
pub open spec fn fields(e: ExtView) -> Map<Seq<char>, usize> { match e.msg_type { Some(n) => fields0(e).insert("msg_type"@, n as usize), None => fields0(e) } }
pub open spec fn ext_wire(e: ExtView) -> Seq<u8> { seq![e.id] + enc_dict(enc_map(fields(e))) }
//@ impl ExtensionMessage
    pub open spec fn xv(&self) -> ExtView { ExtView { id: self.id, msg_type: onat(self.msg_type), metadata_size: onat(self.metadata_size), piece: onat(self.piece), extensions: self.extensions@, data: self.data@ } }
//@ fn ExtensionMessage::from_bytes(bytes) -> r
    requires bytes@.len() >= 1
    ensures match ext_of(bytes@) { Some(x) => r is Ok && r->Ok_0.xv() == x, None => r is Err }
//@ locals decoder content value err default extensions e e
//@ closure 0 |e: &Metainfo| -> (o: Result<&HashMap<String, Metainfo>, crate::bencode::metainfo::MetainfoError>)
    ensures e is Dictionary ==> o is Ok && *o->Ok_0 == e->Dictionary_0, !(e is Dictionary) ==> o is Err
//@ closure 1 |e| -> (o: &HashMap<String, Metainfo>)
    ensures match e { Ok(d) => o == d, Err(_) => o@ == Map::<Seq<char>, Metainfo>::empty() }
//@ entry
proof {
    lemma_dec_bounds(bytes@.skip(1), 0, 0);
    assert forall|d: HashMap<String, Metainfo>| true implies #[trigger] mv(Metainfo::Dictionary(d)) == BV::Dict(mv_map(d@)) by { lemma_mv_dict(d); }
    assert(exts_of(Map::empty()) =~= Map::empty());
}
//@ exit
proof {
    let x = vp_ret->Ok_0;
    let v = mv(content); let e = decoder.current as int;
    assert(dec_at(bytes@.skip(1), 0, 0) == Some((v, e)));
    assert(x.data@ =~= bytes@.skip(e + 1));
    assert(x.extensions@ =~= ext_map(v));
    assert(onat(x.piece) == get_int(v, "piece"@));
    assert(onat(x.msg_type) == get_int(v, "msg_type"@));
    assert(onat(x.metadata_size) == get_int(v, "metadata_size"@));
}
//@ fn ExtensionMessage::get_metadata_size() -> r
    ensures r == self.metadata_size
//@ fn ExtensionMessage::get_data() -> r
    ensures r@ == self.data@
//@ fn ExtensionMessage::get_extensions() -> r
    ensures *r == self.extensions
//@ fn ExtensionMessage::is_handshake() -> r
    ensures r == (self.metadata_size is Some)
//@ fn ExtensionMessage::is_data() -> r
    ensures r == (self.msg_type == Some(1usize))
//@ fn ExtensionMessage::as_bytes() -> r
    ensures r@ == ext_wire(self.xv())
//@ entry
proof {
    reveal_strlit("piece"); reveal_strlit("msg_type"); assert("piece"@.len() != "msg_type"@.len());
    assert forall|m: Map<Seq<char>, usize>, k: Seq<char>, v: usize, l: Seq<char>, w: usize| k != l implies #[trigger] m.insert(k, v).insert(l, w) == m.insert(l, w).insert(k, v) by { assert(m.insert(k, v).insert(l, w) =~= m.insert(l, w).insert(k, v)); }
}
//@ fn build_extensions_map(metainfo_map) -> r
    ensures r@ =~= exts_of(mv_map(metainfo_map@))
//@ locals extension key metainfo_value value
//@ loop 0 for it
    invariant pairs_of(it.seq(), metainfo_map@),
        forall|k: Seq<char>| extension@.dom().contains(k) ==> #[trigger] exts_of(mv_map(metainfo_map@)).dom().contains(k) && extension@[k] == exts_of(mv_map(metainfo_map@))[k],
        forall|i: int| 0 <= i < it.index@ && exts_of(mv_map(metainfo_map@)).dom().contains((#[trigger] it.seq()[i]).0.kv()) ==> extension@.dom().contains(it.seq()[i].0.kv()),
//@ loop_entry 0
proof { lemma_low_byte(); }

//@ module messages
//@ prelude
use crate::vp_ext::{be32, un_be32, encode_utf8, dec};
use crate::vp_benc::*;
use crate::messages::extension::{ext_of, ext_wire, ExtView, fields, fields0};
use crate::bencode::encode::{Encode, enc_map};
use crate::torrent::info::get_int;
use crate::messages::handshake::handshake_start;
// which bodies are understood, by message id
pub open spec fn parses(b: Seq<u8>, id: u8) -> bool {
    if id == 6 || id == 7 { b.len() >= 8 } else if id == 19 { b.len() >= 68 } else if id == 20 { b.len() >= 1 && ext_of(b) is Some } else { true }
}
// what they say
pub open spec fn content_of(c: ContentType, b: Seq<u8>, id: u8) -> bool {
    if id == 6 || id == 7 { c is Request && c->Request_0.piece_index as nat == un_be32(b.take(4)) && c->Request_0.block_index as nat == un_be32(b.subrange(4, 8)) && c->Request_0.block_data@ == b.skip(8) }
    else if id == 19 { c is Handshake && c->Handshake_0.info_hash@ == b.subrange(28, 48) && c->Handshake_0.peer_id@ == b.subrange(48, 68) }
    else if id == 20 { c is Extension && Some(c->Extension_0.xv()) == ext_of(b) }
    else if id == 5 { c is Bitfield && c->Bitfield_0.bitfield@ == b }
    else if id == 2 { c is Interested } else { c is Nothing }
}
// d8:msg_typei0e5:piecei<index>ee
pub open spec fn metadata_text(n: nat) -> Seq<u8> { encode_utf8("d8:msg_typei0e5:piecei"@) + encode_utf8(dec(n)) + encode_utf8("ee"@) }
// the request for one block of metadata, as a value
pub open spec fn metadata_map(n: nat) -> Map<Seq<char>, BV> { Map::empty().insert("msg_type"@, BV::Int(0)).insert("piece"@, BV::Int(n)) }
pub open spec fn metadata_request(n: nat) -> BV { BV::Dict(metadata_map(n)) }
pub open spec fn pow10(k: nat) -> nat decreases k { if k == 0 { 1 } else { 10 * pow10((k - 1) as nat) } }
pub proof fn lemma_dec_len(n: nat, k: nat) requires n < pow10(k), k >= 1 ensures dec(n).len() <= k decreases k {
    if n >= 10 { assert(k > 1) by { if k == 1 { reveal_with_fuel(pow10, 2); } } lemma_dec_len(n / 10, (k - 1) as nat); assert(dec(n) == dec(n / 10).push(crate::vp_ext::digit(n % 10))); }
}
pub proof fn lemma_cat_text(l: Seq<u8>, d: Seq<u8>, r: Seq<u8>, a: Seq<u8>, k1: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires l == (a + k1) + b, r == c
    ensures (a + (k1 + (b + d))) + c =~= l + d + r
{ }
// the texts this request is made of, as bytes
pub proof fn lemma_metadata_bytes()
    ensures enc_key("msg_type"@) == seq![56u8, 58u8, 109u8, 115u8, 103u8, 95u8, 116u8, 121u8, 112u8, 101u8],
        enc_key("piece"@) == seq![53u8, 58u8, 112u8, 105u8, 101u8, 99u8, 101u8],
        enc_nat(0) == seq![105u8, 48u8, 101u8],
        encode_utf8("d8:msg_typei0e5:piecei"@) == seq![100u8, 56u8, 58u8, 109u8, 115u8, 103u8, 95u8, 116u8, 121u8, 112u8, 101u8, 105u8, 48u8, 101u8, 53u8, 58u8, 112u8, 105u8, 101u8, 99u8, 101u8, 105u8],
        encode_utf8("ee"@) == seq![101u8, 101u8],
        encode_utf8("msg_type"@).len() == 8, encode_utf8("piece"@).len() == 5,
        crate::vp_ext::str_lt("msg_type"@, "piece"@), "msg_type"@ != "piece"@,
{
    let k1 = "msg_type"@; let k2 = "piece"@;
    reveal_strlit("msg_type"); reveal_strlit("piece"); reveal_strlit("d8:msg_typei0e5:piecei"); reveal_strlit("ee");
    crate::torrent::file::lemma_lit_lt(k1, k2, 0);
    reveal_with_fuel(dec, 2);
    vstd::utf8::is_ascii_chars_encode_utf8(k1); vstd::utf8::is_ascii_chars_encode_utf8(k2);
    vstd::utf8::is_ascii_chars_encode_utf8("d8:msg_typei0e5:piecei"@); vstd::utf8::is_ascii_chars_encode_utf8("ee"@);
    vstd::utf8::is_ascii_chars_encode_utf8(dec(8)); vstd::utf8::is_ascii_chars_encode_utf8(dec(5)); vstd::utf8::is_ascii_chars_encode_utf8(dec(0));
    assert(asc(dec(8)) =~= seq![56u8]); assert(asc(dec(5)) =~= seq![53u8]); assert(asc(dec(0)) =~= seq![48u8]);
    assert(encode_utf8(k1) =~= seq![109u8, 115u8, 103u8, 95u8, 116u8, 121u8, 112u8, 101u8]);
    assert(encode_utf8(k2) =~= seq![112u8, 105u8, 101u8, 99u8, 101u8]);
    assert(enc_key(k1) =~= seq![56u8, 58u8, 109u8, 115u8, 103u8, 95u8, 116u8, 121u8, 112u8, 101u8]);
    assert(enc_key(k2) =~= seq![53u8, 58u8, 112u8, 105u8, 101u8, 99u8, 101u8]);
    assert(enc_nat(0) =~= seq![105u8, 48u8, 101u8]);
    assert(encode_utf8("d8:msg_typei0e5:piecei"@) =~= seq![100u8, 56u8, 58u8, 109u8, 115u8, 103u8, 95u8, 116u8, 121u8, 112u8, 101u8, 105u8, 48u8, 101u8, 53u8, 58u8, 112u8, 105u8, 101u8, 99u8, 101u8, 105u8]);
    assert(encode_utf8("ee"@) =~= seq![101u8, 101u8]);
    assert(k1 != k2) by { assert(k1.len() != k2.len()); }
}
pub proof fn lemma_metadata_entries(n: nat)
    ensures enc_dict(benc_map(metadata_map(n))) == seq![100u8] + ((enc_key("msg_type"@) + enc_nat(0)) + (enc_key("piece"@) + enc_nat(n))) + seq![101u8],
{
    lemma_metadata_bytes();
    let m = metadata_map(n); let em = benc_map(m);
    let k1 = "msg_type"@; let k2 = "piece"@; let ks = seq![k1, k2];
    lemma_str_lt_irrefl(k1);
    assert(ordered(ks));
    assert forall|x: Seq<char>| #[trigger] ks.contains(x) <==> m.dom().contains(x) by { if x == k1 { assert(ks[0] == x); } if x == k2 { assert(ks[1] == x); } }
    lemma_sorted_keys(ks, m.dom());
    assert(em.dom() =~= m.dom());
    assert(em[k1] == enc_nat(0)); assert(em[k2] == enc_nat(n));
    assert(ks.drop_last() =~= seq![k1]); assert(seq![k1].drop_last() =~= Seq::empty());
    let e0 = Seq::<u8>::empty();
    assert(entries(seq![k1].drop_last(), em) =~= e0);
    let p1 = enc_key(k1) + enc_nat(0); let p2 = enc_key(k2) + enc_nat(n);
    assert(entries(seq![k1], em) == e0 + p1);
    assert(e0 + p1 =~= p1);
    assert(entries(ks, em) == p1 + p2);
}
pub proof fn lemma_metadata_len(n: nat) requires n <= usize::MAX ensures asc(dec(n)).len() <= 20 {
    reveal_with_fuel(pow10, 21);
    lemma_dec_len(n, 20);
    lemma_dec(n);
    lemma_digits_utf8(dec(n));
}
pub proof fn lemma_metadata(n: nat)
    requires n <= usize::MAX
    ensures benc(metadata_request(n)) == metadata_text(n), levels_ok(metadata_request(n), 0), metadata_text(n).len() <= 44,
        forall|e: ExtView| e.msg_type == Some(0nat) && e.piece == Some(n) ==> #[trigger] ext_wire(e) == seq![e.id] + metadata_text(n),
        get_int(metadata_request(n), "piece"@) == Some(n), get_int(metadata_request(n), "msg_type"@) == Some(0nat),
{
    let m = metadata_map(n); let em = benc_map(m);
    let k1 = "msg_type"@; let k2 = "piece"@;
    lemma_metadata_bytes();
    lemma_metadata_entries(n);
    lemma_metadata_len(n);
    let dn = asc(dec(n));
    let l = encode_utf8("d8:msg_typei0e5:piecei"@);
    let p1 = enc_key(k1) + enc_nat(0); let p2 = enc_key(k2) + enc_nat(n);
    assert(p1 =~= seq![56u8, 58u8, 109u8, 115u8, 103u8, 95u8, 116u8, 121u8, 112u8, 101u8, 105u8, 48u8, 101u8]);
    assert(p2 =~= seq![53u8, 58u8, 112u8, 105u8, 101u8, 99u8, 101u8, 105u8] + dn + seq![101u8]);
    assert(l =~= seq![100u8] + p1 + seq![53u8, 58u8, 112u8, 105u8, 101u8, 99u8, 101u8, 105u8]);
    assert(enc_dict(em) =~= l + dn + seq![101u8, 101u8]);
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies levels_ok(m[k], 1) && encode_utf8(k).len() <= usize::MAX by { assert(levels_ok(BV::Int(0), 1)); assert(levels_ok(BV::Int(n), 1)); assert(k == k1 || k == k2); if k == k1 { assert(m[k] == BV::Int(0)); } else { assert(m[k] == BV::Int(n)); } }
    assert forall|e: ExtView| e.msg_type == Some(0nat) && e.piece == Some(n) implies #[trigger] ext_wire(e) == seq![e.id] + metadata_text(n) by {
        let f = fields(e);
        assert(enc_map(f) =~= em) by { assert(f.dom() =~= m.dom()); assert(f[k1].enc() == enc_nat(0)); assert(f[k2].enc() == enc_nat(n)); }
    }
}
//@ impl Message
pub open spec fn is_request_message_spec(m: &Message) -> bool { m.content is Request }
pub open spec fn is_extension_data_message_spec(m: &Message) -> bool { m.content is Extension && m.content->Extension_0.msg_type == Some(1usize) }
    // the bytes that carry this message
    pub open spec fn wire(&self) -> Seq<u8> {
        match self.content {
            ContentType::Handshake(h) => h.wire(),
            _ => be32(self.length as nat) + seq![self.id] + self.body(),
        }
    }
    pub open spec fn body(&self) -> Seq<u8> {
        match self.content {
            ContentType::Extension(e) => ext_wire(e.xv()),
            ContentType::Request(q) => be32(q.piece_index as nat) + be32(q.block_index as nat) + q.block_data@,
            ContentType::Bitfield(b) => b.bitfield@,
            _ => Seq::empty(),
        }
    }
    // the payload a download collects from this message
    pub open spec fn payload(&self) -> Seq<u8> {
        match self.content {
            ContentType::Extension(e) => e.data@,
            ContentType::Request(q) => q.block_data@,
            ContentType::Bitfield(b) => b.bitfield@,
            _ => Seq::empty(),
        }
    }
//@ fn Message::new(content, length, id) -> r
    ensures r == (Message { id, length, content })
//@ fn Message::get_id() -> r
    ensures r == self.id
//@ fn Message::get_content() -> r
    ensures *r == self.content
//@ fn Message::get_content_data() -> r
    ensures r@ == self.payload()
//@ fn Message::as_bytes() -> r
    ensures r@ == self.wire()
//@ fn Message::is_extension_data_message() -> r
    ensures r == Self::is_extension_data_message_spec(self)
//@ fn Message::is_request_message() -> r
    ensures r == Self::is_request_message_spec(self)
//@ fn Message::new_raw(body, length, id) -> r
    ensures r is Ok <==> parses(body@, id), r is Ok ==> r->Ok_0.id == id && r->Ok_0.length == length && content_of(r->Ok_0.content, body@, id)
//@ fn new_interested() -> r
    ensures r.wire() =~= be32(1) + seq![2u8]
//@ fn new_request(piece_index, block_offset, block_length) -> r
    ensures r.wire() =~= be32(13) + seq![6u8] + be32(piece_index as nat) + be32(block_offset as nat) + be32(block_length as nat)
//@ fn new_metadata(extension_id, index) -> r
    ensures r.wire() =~= be32(metadata_text(index as nat).len() + 2) + seq![20u8] + seq![extension_id] + metadata_text(index as nat)
//@ entry
proof {
    let n = index as nat; let t = metadata_text(n);
    lemma_metadata(n);
    bencode_round_trip(metadata_request(n), Seq::empty());
    assert(t + Seq::empty() =~= t);
    assert forall|v: Seq<u8>| v.len() == 1 implies (#[trigger] (v + t)).skip(1) == t && (v + t)[0] == v[0] by { assert((v + t).skip(1) =~= t); }
    vstd::utf8::encode_utf8_concat("d8:msg_typei0e5:piecei"@, dec(n));
    vstd::utf8::encode_utf8_concat("d8:msg_typei0e5:piecei"@ + dec(n), "ee"@);
    assert(Seq::<char>::empty() + "d8:msg_typei0e5:piecei"@ =~= "d8:msg_typei0e5:piecei"@);
}
//@ fn new_handshake(info_hash, peer_id) -> r
    ensures r.wire() =~= handshake_start() + info_hash@ + encode_utf8(peer_id@)
