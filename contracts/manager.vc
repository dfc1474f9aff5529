//@ module peer::manager
//@ prelude
use crate::peer::{PeerView, apply};
use crate::messages::{Message, ContentType};
use crate::messages::handshake::handshake_start;
use crate::peer::stream::{extended_handshake_message, frame_size, wrote};
use crate::peer::download::{in_torrent, after, whole, received, state, got, Ev, piece_len, block_count, asks_block, asks_info, is_block, is_metadata, gave_up, downloaded, with, lemma_block};
use crate::vp_ext::{encode_utf8, be32};
use crate::vp_ext::net::{address, reachable};
use crate::common::generator::is_peer_id;
use crate::vp_benc::dec_at;
use crate::torrent::info::{InfoView, info_of};
use crate::vp_ext::io::VpStream;
pub open spec fn hello(p: PeerView) -> Seq<u8> { handshake_start() + p.info_hash + encode_utf8(p.id) }
pub open spec fn interest() -> Seq<u8> { be32(1) + seq![2u8] + extended_handshake_message() }
// the peer answered our handshake with one for the same torrent
pub open spec fn answered(hash: Seq<u8>, t: Seq<Ev>) -> bool { t.len() > 0 && t[0] is Got && t[0]->Got_0.content is Handshake && t[0]->Got_0.content->Handshake_0.info_hash@ == hash }
pub open spec fn wrote_some(a: &Peer, b: &Peer, s: Seq<u8>) -> bool { b.stream.broken() || b.stream.sent() == a.stream.sent() + s }
// the events t (messages only) and n frames of input explain the state
#[verifier::opaque]
pub open spec fn heard(a: &Peer, b: &Peer, t: Seq<Ev>, n: nat) -> bool {
    b.pv() == state(a.pv(), t) && whole(a.stream.inp(), n) && b.stream.inp() == after(a.stream.inp(), n) && received(a.stream.inp(), n, got(t))
}
// the introduction: handshake first, everything else only once the answer was one for the same torrent
pub open spec fn introduced(a: &Peer, b: &Peer, t: Seq<Ev>, n: nat, ok: bool) -> bool {
    &&& heard(a, b, t, n)
    &&& wrote_some(a, b, hello(a.pv())) || (answered(a.pv().info_hash, t) && wrote_some(a, b, hello(a.pv()) + interest()))
    &&& ok ==> b.pv().metadata_size != 0 && !b.pv().choked && answered(a.pv().info_hash, t) && wrote_some(a, b, hello(a.pv()) + interest())
}
// one reading step: a message is read and applied, or nothing is
pub open spec fn stepped(b0: &Peer, b2: &Peer) -> bool {
    exists|b1: Peer, m: Option<Message>| #[trigger] Peer::read_from(b0, &b1, m) && b2.stream == b1.stream && match m { Some(x) => b2.pv() == apply(b1.pv(), x.id, x.content), None => b2.pv() == b1.pv() }
}
pub proof fn lemma_stepped(a: &Peer, b0: &Peer, b2: &Peer, t: Seq<Ev>, n: nat) -> (r: (Seq<Ev>, nat))
    requires heard(a, b0, t, n), stepped(b0, b2)
    ensures heard(a, b2, r.0, r.1), t.len() > 0 ==> r.0.len() > 0 && r.0[0] == t[0], !a.pv().active && t.len() == 0 && b2.pv().active ==> answered(a.pv().info_hash, r.0),
        b2.stream.sent() == b0.stream.sent(), b2.stream.broken() == b0.stream.broken()
{
    reveal(heard);
    let (b1, m) = choose|b1: Peer, m: Option<Message>| #[trigger] Peer::read_from(b0, &b1, m) && b2.stream == b1.stream && match m { Some(x) => b2.pv() == apply(b1.pv(), x.id, x.content), None => b2.pv() == b1.pv() };
    let t2 = with(t, m);
    if m is Some { assert(t2.drop_last() =~= t); assert(got(t2).drop_last() =~= got(t)); assert(t2[t2.len() - 1] == Ev::Got(m->Some_0)); }
    let r = b0.stream.inp();
    assert(after(a.stream.inp(), n + 1) == r.skip(frame_size(r) as int));
    if crate::peer::stream::kept(&b0.stream, &b1.stream) && m is None && b1.stream.inp() == b0.stream.inp() {
        assert(heard(a, b2, t2, n));
        (t2, n)
    } else {
        assert(heard(a, b2, t2, n + 1));
        (t2, n + 1)
    }
}
pub proof fn lemma_same(a: &Peer, b: &Peer, c: &Peer, t: Seq<Ev>, n: nat)
    requires heard(a, b, t, n), c.pv() == b.pv(), c.stream.inp() == b.stream.inp() ensures heard(a, c, t, n) { reveal(heard); }
pub proof fn lemma_start(a: &Peer, b: &Peer)
    requires b.pv() == a.pv(), wrote(&a.stream, &b.stream, hello(a.pv())) ensures heard(a, b, Seq::empty(), 0), wrote_some(a, b, hello(a.pv())) { reveal(heard); }
pub proof fn lemma_asked(a: &Peer, b: &Peer, c: &Peer, d: &Peer)
    requires wrote_some(a, b, hello(a.pv())), wrote(&b.stream, &c.stream, be32(1) + seq![2u8]), wrote(&c.stream, &d.stream, extended_handshake_message()) ensures wrote_some(a, d, hello(a.pv()) + interest())
{
    assert(a.stream.sent() + (hello(a.pv()) + interest()) =~= a.stream.sent() + hello(a.pv()) + (be32(1) + seq![2u8]) + extended_handshake_message());
}
pub proof fn lemma_count(pl: nat, total: nat, i: nat)
    requires pl > 0 ensures i < crate::vp_ext::exts::ceil_div(total, pl) ==> pl * i < total
{ lemma_block(pl, total, i); assert(i * pl == pl * i) by (nonlinear_arith); }
// a fresh connection to that endpoint, for that torrent
pub open spec fn fresh(ep: Seq<char>, hash: Seq<u8>, a: &Peer) -> bool {
    a.stream is Tcp && a.stream->Tcp_0.addr() == address(ep) && a.stream.sent() == Seq::<u8>::empty() && !a.stream.broken()
        && a.pv().info_hash == hash && !a.pv().active && a.pv().choked && is_peer_id(a.pv().id)
}
// the peer did not accept the connection, did not answer for this torrent, or did not get ready
pub open spec fn refused(ep: Seq<char>, hash: Seq<u8>) -> bool {
    !reachable(ep) || exists|a: Peer, b: Peer, t: Seq<Ev>, n: nat| fresh(ep, hash, &a) && #[trigger] introduced(&a, &b, t, n, false)
        && (!b.pv().active || b.stream.broken() || b.pv().metadata_size == 0 || b.pv().choked)
}
pub open spec fn read_info(c: Seq<u8>) -> Option<InfoView> { match dec_at(c, 0, 0) { Some((v, e)) => info_of(v), None => None } }
pub open spec fn acceptable(c: Seq<u8>, hash: Seq<u8>) -> bool { read_info(c) is Some && read_info(c)->Some_0.valid() && read_info(c)->Some_0.hash() == hash }
// what a session for the metadata ends with: all of it arrived, or the peer stopped
pub open spec fn info_fetched(ep: Seq<char>, hash: Seq<u8>, i: InfoView) -> bool {
    exists|a: Peer, b: Peer, c: Peer, t: Seq<Ev>, n: nat, d: Seq<u8>| fresh(ep, hash, &a) && #[trigger] introduced(&a, &b, t, n, true)
        && #[trigger] downloaded(&b, &c, is_metadata(), block_count(16384, b.pv().metadata_size), asks_info(), d) && acceptable(d, hash) && read_info(d) == Some(i)
}
pub open spec fn info_spoiled(ep: Seq<char>, hash: Seq<u8>) -> bool {
    exists|a: Peer, b: Peer, c: Peer, t: Seq<Ev>, n: nat, d: Seq<u8>| fresh(ep, hash, &a) && #[trigger] introduced(&a, &b, t, n, true)
        && #[trigger] downloaded(&b, &c, is_metadata(), block_count(16384, b.pv().metadata_size), asks_info(), d) && !acceptable(d, hash)
}
pub open spec fn info_stopped(ep: Seq<char>, hash: Seq<u8>) -> bool {
    exists|a: Peer, b: Peer, c: Peer, t: Seq<Ev>, n: nat| fresh(ep, hash, &a) && #[trigger] introduced(&a, &b, t, n, true)
        && #[trigger] gave_up(&b, &c, is_metadata(), block_count(16384, b.pv().metadata_size), asks_info())
}
// the same for a piece
pub open spec fn piece_fetched(ep: Seq<char>, i: InfoView, idx: nat, d: Seq<u8>) -> bool {
    exists|a: Peer, b: Peer, c: Peer, t: Seq<Ev>, n: nat| fresh(ep, i.hash(), &a) && #[trigger] introduced(&a, &b, t, n, true)
        && #[trigger] downloaded(&b, &c, is_block(), block_count(16384, piece_len(i.piece_length, idx, i.total())), asks_block(16384, i.piece_length, idx, i.total()), d)
}
pub open spec fn piece_stopped(ep: Seq<char>, i: InfoView, idx: nat) -> bool {
    exists|a: Peer, b: Peer, c: Peer, t: Seq<Ev>, n: nat| fresh(ep, i.hash(), &a) && #[trigger] introduced(&a, &b, t, n, true)
        && #[trigger] gave_up(&b, &c, is_block(), block_count(16384, piece_len(i.piece_length, idx, i.total())), asks_block(16384, i.piece_length, idx, i.total()))
}
pub open spec fn piece_spoiled(ep: Seq<char>, i: InfoView, idx: nat) -> bool {
    exists|a: Peer, b: Peer, c: Peer, t: Seq<Ev>, n: nat, d: Seq<u8>| fresh(ep, i.hash(), &a) && #[trigger] introduced(&a, &b, t, n, true)
        && #[trigger] downloaded(&b, &c, is_block(), block_count(16384, piece_len(i.piece_length, idx, i.total())), asks_block(16384, i.piece_length, idx, i.total()), d)
        && crate::vp_ext::sha1::sha1_of(d) != i.hash_at(idx as int)
}
pub open spec fn no_metadata(ep: Seq<char>, hash: Seq<u8>) -> bool { refused(ep, hash) || info_stopped(ep, hash) || info_spoiled(ep, hash) }
pub open spec fn no_piece(ep: Seq<char>, i: InfoView, idx: nat) -> bool { refused(ep, i.hash()) || piece_stopped(ep, i, idx) || piece_spoiled(ep, i, idx) }
//@ fn get_info(info_hash, endpoint) -> r
    requires crate::vp_ext::net::is_socket_addr(endpoint@)
    ensures r is Ok ==> r->Ok_0.iv().valid() && r->Ok_0.iv().hash() == info_hash@ && info_fetched(endpoint@, info_hash@, r->Ok_0.iv()),
        r is Err ==> no_metadata(endpoint@, info_hash@)
//@ fn download(endpoint, info, piece_idx) -> r
    requires info.iv().valid(), piece_idx < info.iv().count(), crate::vp_ext::net::is_socket_addr(endpoint@)
    ensures r is Ok ==> crate::vp_ext::sha1::sha1_of(r->Ok_0@) == info.iv().hash_at(piece_idx as int) && piece_fetched(endpoint@, info.iv(), piece_idx as nat, r->Ok_0@),
        r is Err ==> no_piece(endpoint@, info.iv(), piece_idx as nat)
//@ entry
proof { lemma_count(info.iv().piece_length, info.iv().total(), piece_idx as nat); }
//@ fn init_peer(peer) -> r
    requires !old(peer).pv().active
    ensures r is Ok ==> (exists|t: Seq<Ev>, n: nat| #[trigger] introduced(old(peer), final(peer), t, n, true)),
        exists|t: Seq<Ev>, n: nat| #[trigger] introduced(old(peer), final(peer), t, n, false),
        r is Err ==> !final(peer).pv().active || final(peer).stream.broken() || final(peer).pv().metadata_size == 0 || final(peer).pv().choked
//@ locals message message
//@ entry
hide(Peer::read_from);
let ghost a = *peer;
//@ at after peer.send_message(new_handshake
let ghost b0 = *peer;
proof { assert(wrote(&a.stream, &b0.stream, hello(a.pv()))); lemma_start(&a, &b0); }
//@ at if !peer.is_active()
let ghost mut t: Seq<Ev> = Seq::empty();
let ghost mut n: nat = 0;
let ghost b2 = *peer;
proof {
    assert(stepped(&b0, peer));
    let r = lemma_stepped(&a, &b0, peer, t, n);
    t = r.0; n = r.1;
    if !b2.pv().active { assert(introduced(&a, peer, t, n, false)); }
}
//@ at after peer.send_message(new_interested
let ghost b3 = *peer;
proof {
    lemma_same(&a, &b2, &b3, t, n);
    assert forall|p: Peer| p.pv() == b3.pv() && p.stream.inp() == b3.stream.inp() && (#[trigger] p.stream.broken()) implies introduced(&a, &p, t, n, false) by { lemma_same(&a, &b3, &p, t, n); }
}
//@ at for _ in 0..10
proof { lemma_asked(&a, &b2, &b3, peer); lemma_same(&a, &b3, peer, t, n); assert(introduced(&a, peer, t, n, false)); }
//@ loop 0 for it
    invariant it.seq().len() > 0, it.index@ > 0 ==> peer.pv().metadata_size == 0 || peer.pv().choked,
     heard(&a, peer, t, n), answered(a.pv().info_hash, t), introduced(&a, peer, t, n, false), wrote_some(&a, peer, hello(a.pv()) + interest()), a.pv() == old(peer).pv(), a == *old(peer)
//@ loop_entry 0
let ghost c0 = *peer;
//@ at if peer.is_ready()
proof {
    assert(stepped(&c0, peer));
    let r = lemma_stepped(&a, &c0, peer, t, n);
    t = r.0; n = r.1;
    assert(introduced(&a, peer, t, n, false));
    if peer.pv().metadata_size != 0 && !peer.pv().choked { assert(introduced(&a, peer, t, n, true)); }
}
//@ fn Context::new(peer_id, piece_idx, endpoint) -> r
//@ fn track_progress(event_type, ctx)
