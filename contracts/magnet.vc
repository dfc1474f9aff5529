//@ module torrent::magnet
//@ prelude
use crate::vp_ext::encode_utf8;
pub open spec fn hex_char(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 70 || 97 <= b <= 102 }
pub open spec fn b32_char(b: u8) -> bool { 50 <= b <= 55 || 65 <= b <= 90 || 97 <= b <= 122 }
pub open spec fn hex_val(b: u8) -> int { if b <= 57 { b - 48 } else if b <= 70 { b - 55 } else { b - 87 } }
pub open spec fn unhex(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len() / 2, |i: int| (hex_val(s[2 * i]) * 16 + hex_val(s[2 * i + 1])) as u8) }
pub open spec fn start() -> Seq<u8> { encode_utf8("magnet:?xt=urn:btih:"@) }
pub open spec fn ends(m: Seq<u8>, e: int) -> bool { m.len() == e || m.len() > e && m[e] == 38 }
pub open spec fn is_hex_magnet(m: Seq<u8>) -> bool { m.len() >= 60 && m.take(20) == start() && ends(m, 60) && forall|i: int| 20 <= i < 60 ==> hex_char(#[trigger] m[i]) }
pub open spec fn is_b32_magnet(m: Seq<u8>) -> bool { m.len() >= 52 && m.take(20) == start() && ends(m, 52) && forall|i: int| 20 <= i < 52 ==> b32_char(#[trigger] m[i]) }
pub proof fn lemma_bits(a: u8, b: u8) requires a < 16, b < 16 ensures ((a << 4) | b) == a * 16 + b {
    assert(((a << 4) | b) == add(mul(a, 16), b)) by (bit_vector) requires a < 16u8, b < 16u8;
}
// the info hash of a link, if it is one
pub open spec fn link_hash(m: Seq<u8>) -> Option<Seq<u8>> { if is_hex_magnet(m) { Some(unhex(m.subrange(20, 60))) } else if is_b32_magnet(m) { Some(m.subrange(20, 52)) } else { None } }
//@ fn Magnet::get_info_hash() -> r
    ensures r@ == self.info_hash@
//@ fn verify_info_hash(magnet_uri) -> r
    ensures r == !(magnet_uri@.len() >= 52 && magnet_uri@.take(20) == start())
//@ entry
proof {
    reveal_strlit("magnet:?xt=urn:btih:"); vstd::utf8::is_ascii_chars_encode_utf8("magnet:?xt=urn:btih:"@);
    assert(start().len() == 20);
    assert forall|n: Seq<u8>| n.len() == 20 && (forall|i: int| 0 <= i < 20 ==> #[trigger] n[i] == start()[i]) implies
        #[trigger] crate::vp_ext::prefix(n, magnet_uri@) == (magnet_uri@.len() >= 20 && magnet_uri@.take(20) == start()) by { assert(n =~= start()); }
}
//@ fn byte_to_hex(byte) -> r
    requires hex_char(byte)
    ensures r as int == hex_val(byte), r < 16
//@ fn hex_decode(info_hash_hex_encoded) -> r
    requires forall|i: int| 0 <= i < info_hash_hex_encoded@.len() ==> hex_char(#[trigger] info_hash_hex_encoded@[i]), 
    ensures r@ =~= unhex(info_hash_hex_encoded@)
//@ closure 0 |chunk: &[u8]| -> (o: u8)
    requires chunk@.len() == 2, hex_char(chunk@[0]), hex_char(chunk@[1])
    ensures o as int == hex_val(chunk@[0]) * 16 + hex_val(chunk@[1])
//@ closure_entry 0
proof {
    assert forall|x: u8, y: u8| x < 16 && y < 16 implies #[trigger] ((x << 4) | y) == x * 16 + y by { lemma_bits(x, y); }
}
//@ fn is_hex(byte) -> r
    ensures r == hex_char(byte)
//@ fn is_base32(byte) -> r
    ensures r == b32_char(byte)
//@ fn is_hex_encoded(bytes) -> r
    ensures r == forall|i: int| 0 <= i < bytes@.len() ==> hex_char(#[trigger] bytes@[i])
//@ locals byte
//@ loop 0 for it
    invariant it.seq().len() == bytes@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == bytes@[i],
        forall|i: int| 0 <= i < it.index@ ==> hex_char(#[trigger] bytes@[i]),
//@ loop_entry 0
proof { assert(*byte == bytes@[it.index@ as int]); }
//@ fn is_base32_encoded(bytes) -> r
    ensures r == forall|i: int| 0 <= i < bytes@.len() ==> b32_char(#[trigger] bytes@[i])
//@ locals byte
//@ loop 0 for it
    invariant it.seq().len() == bytes@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == bytes@[i],
        forall|i: int| 0 <= i < it.index@ ==> b32_char(#[trigger] bytes@[i]),
//@ loop_entry 0
proof { assert(*byte == bytes@[it.index@ as int]); }
//@ fn ends_at(magnet_uri, end) -> r
    ensures r == ends(magnet_uri@, end as int)
//@ fn parse_info_hash(magnet_uri) -> r
    requires magnet_uri@.len() >= 52, magnet_uri@.take(20) == start()
    ensures r is Ok <==> is_hex_magnet(magnet_uri@) || is_b32_magnet(magnet_uri@),
        r is Ok && is_hex_magnet(magnet_uri@) ==> r->Ok_0@ == unhex(magnet_uri@.subrange(20, 60)),
        r is Ok && !is_hex_magnet(magnet_uri@) ==> r->Ok_0@ == magnet_uri@.subrange(20, 52),
//@ entry
proof {
    let m = magnet_uri@;
    if m.len() >= 60 { let s = m.subrange(20, 60);
        assert forall|i: int| 0 <= i < 40 implies #[trigger] s[i] == m[20 + i] by {}
        assert((forall|i: int| 0 <= i < s.len() ==> hex_char(#[trigger] s[i])) == (forall|i: int| 20 <= i < 60 ==> hex_char(#[trigger] m[i]))) by {
            if forall|i: int| 0 <= i < s.len() ==> hex_char(#[trigger] s[i]) { assert forall|i: int| 20 <= i < 60 implies hex_char(#[trigger] m[i]) by { assert(hex_char(s[i - 20])); } }
        }
    }
    let s = m.subrange(20, 52);
    assert((forall|i: int| 0 <= i < s.len() ==> b32_char(#[trigger] s[i])) == (forall|i: int| 20 <= i < 52 ==> b32_char(#[trigger] m[i]))) by {
        if forall|i: int| 0 <= i < s.len() ==> b32_char(#[trigger] s[i]) { assert forall|i: int| 20 <= i < 52 implies b32_char(#[trigger] m[i]) by { assert(b32_char(s[i - 20])); } }
    }
}
//@ fn parse_magnet(magnet_uri) -> r
    ensures r is Ok <==> is_hex_magnet(magnet_uri@) || is_b32_magnet(magnet_uri@),
        r is Ok && is_hex_magnet(magnet_uri@) ==> r->Ok_0.info_hash@ == unhex(magnet_uri@.subrange(20, 60)),
        r is Ok && !is_hex_magnet(magnet_uri@) ==> r->Ok_0.info_hash@ == magnet_uri@.subrange(20, 52),

//@ module peer::piece_pool
//@ prelude
// all pieces of a torrent, in order
pub open spec fn all_pieces(n: nat) -> Seq<usize> { Seq::new(n, |i: int| i as usize) }
//@ impl PiecePool
    // the pieces that wait, in the order they will be handed out
    pub open spec fn waiting(&self) -> Seq<usize> { self.0.v.v@ }
//@ fn PiecePool::new(count) -> r
    ensures r.waiting() == all_pieces(count as nat)
//@ locals queue i
//@ loop 0 for it
    invariant queue@ =~= all_pieces(it.index@ as nat)
//@ fn PiecePool::pop() -> r
    ensures match r { Some(p) => old(self).waiting().len() > 0 && p == old(self).waiting()[0] && final(self).waiting() == old(self).waiting().skip(1), None => old(self).waiting().len() == 0 && final(self).waiting() == old(self).waiting() }
//@ fn PiecePool::insert(piece) -> r
    ensures final(self).waiting() == old(self).waiting().push(piece)
//@ fn PiecePool::pool() -> r
    ensures *r == old(self).0, *final(r) == final(self).0

//@ module common::generator
//@ prelude
use crate::vp_ext::rand::is_alnum;
pub open spec fn is_peer_id(s: Seq<char>) -> bool { s.len() == 20 && forall|i: int| 0 <= i < 20 ==> is_alnum(#[trigger] s[i]) }
//@ fn generate_peer_id() -> r
    ensures is_peer_id(r@)
