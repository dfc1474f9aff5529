//@ module peer
//@ prelude
use crate::vp_ext::encode_utf8;
use crate::vp_ext::io::VpStream;
use crate::common::generator::is_peer_id;
use crate::messages::{parses, content_of};
use crate::messages::bitfield::bit_at;
use crate::peer::stream::{wrote, read_step, same_out, kept, took, frame_of, has_frame, frame_size, frame_body, frame_id, frame_length, keep_alive, extended_handshake_message};
// the protocol state of a connection
pub struct PeerView { pub id: Seq<char>, pub choked: bool, pub active: bool, pub bitfield: Seq<bool>, pub metadata_size: nat, pub extensions: Map<Seq<char>, u8>, pub info_hash: Seq<u8> }
pub open spec fn bits(b: Seq<u8>) -> Seq<bool> { Seq::new(8 * b.len(), |k: int| bit_at(b, k)) }
// the effect of one received message on it
pub open spec fn apply(p: PeerView, id: u8, c: ContentType) -> PeerView {
    if id == 0 { PeerView { choked: true, ..p } }
    else if id == 1 { PeerView { choked: false, ..p } }
    else if id == 2 || id == 5 || id == 19 || id == 20 {
        match c {
            ContentType::Bitfield(b) => PeerView { bitfield: bits(b.bitfield@), ..p },
            ContentType::Extension(e) => match e.metadata_size { Some(n) => PeerView { metadata_size: n as nat, extensions: e.extensions@, ..p }, None => p },
            ContentType::Handshake(h) => PeerView { active: h.info_hash@ == p.info_hash, ..p },
            _ => p,
        }
    } else { p }
}
//@ impl Peer
    pub open spec fn pv(&self) -> PeerView { PeerView { id: self.id@, choked: self.choked, active: self.active, bitfield: self.bitfield@, metadata_size: self.metadata_size as nat, extensions: self.extensions@, info_hash: self.info_hash@ } }
    // one step of reading messages from the peer
    pub open spec fn read_from(a: &Peer, b: &Peer, r: Option<Message>) -> bool {
        &&& a.pv() == b.pv()
        &&& exists|f: Option<(Seq<u8>, u8, nat)>| #[trigger] read_step(&a.stream, &b.stream, f) && match f {
            Some(x) => if parses(x.0, x.1) { r is Some && r->Some_0.id == x.1 && r->Some_0.length as nat == x.2 && content_of(r->Some_0.content, x.0, x.1) } else { r is None },
            None => r is None,
        }
    }
//@ fn Peer::new(stream, info_hash) -> r
    ensures r.pv() == (PeerView { id: r.id@, choked: true, active: false, bitfield: Seq::empty(), metadata_size: 0, extensions: Map::empty(), info_hash: info_hash@ }), is_peer_id(r.id@), r.stream == stream
//@ fn Peer::is_choked() -> r
    ensures r == self.choked
//@ fn Peer::get_info_hash() -> r
    ensures r@ == self.info_hash@
//@ fn Peer::is_active() -> r
    ensures r == self.active
//@ fn Peer::is_ready() -> r
    ensures r == (self.metadata_size != 0 && !self.choked)
//@ fn Peer::get_peer_id() -> r
    ensures r@ == self.id@
//@ fn Peer::get_metadata_size() -> r
    ensures r == self.metadata_size
//@ fn Peer::find_extension_id(name) -> r
    ensures r == if self.extensions@.dom().contains(name@) { Some(self.extensions@[name@]) } else { None }
//@ fn Peer::apply_message(message) -> r
    ensures final(self).pv() == apply(old(self).pv(), message.id, message.content), final(self).stream == old(self).stream
//@ fn Peer::apply_content(message) -> r
    ensures final(self).pv() == apply(old(self).pv(), 20, message.content), final(self).stream == old(self).stream
//@ exit
proof { if message.content is Bitfield { assert(self.bitfield@ =~= bits(message.content->Bitfield_0.bitfield@)); } }
//@ fn Peer::read_message() -> r
    ensures Self::read_from(old(self), final(self), r)
//@ fn Peer::send_message(message) -> r
    ensures final(self).pv() == old(self).pv(), wrote(&old(self).stream, &final(self).stream, message.wire())
//@ fn Peer::send_metadata_handshake_request() -> r
    ensures final(self).pv() == old(self).pv(), wrote(&old(self).stream, &final(self).stream, extended_handshake_message()), r is Err ==> final(self).stream.broken()
