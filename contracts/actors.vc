//@ module actors::messages
//@ prelude
use crate::torrent::file::{vfviews, safe_path};
use crate::torrent::info::lens;
use crate::vp_ext::net::is_socket_addr;
//@ impl Message@PeerFound
    open spec fn msg_ok(&self) -> bool { is_socket_addr(self.peer.text()) }
//@ impl Message@PieceDownloadSuccessfull
    open spec fn msg_ok(&self) -> bool { is_socket_addr(self.endpoint@) }
//@ impl Message@PieceDownloadFailed
    open spec fn msg_ok(&self) -> bool { is_socket_addr(self.endpoint@) }
//@ impl Message@PieceReady
    open spec fn msg_ok(&self) -> bool {
        &&& lens(vfviews(self.files)) <= usize::MAX && self.piece_idx * self.piece_length + self.piece@.len() <= usize::MAX
        &&& forall|i: int| 0 <= i < vfviews(self.files).len() ==> safe_path((#[trigger] vfviews(self.files)[i]).path)
    }
//@ impl Message@PieceRequested
    open spec fn msg_ok(&self) -> bool { self.info.iv().valid() && self.piece_idx < self.info.iv().count() && is_socket_addr(self.endpoint@) }

//@ module actors::connection
//@ prelude
use crate::vp_ext::{SendEv, World, same_fs};
use crate::vp_ext::sha1::sha1_of;
use crate::vp_msg::MsgView;
use crate::peer::manager::{piece_fetched, no_piece};
// what becomes of a request: exactly one report, to the torrent that asked, about the piece and the peer of the request
pub open spec fn report(q: PieceRequested, e: SendEv) -> bool {
    e.sure && e.to == q.torrent_actor.id() && match e.msg {
        MsgView::PieceDownloadSuccessfull(m) => m.endpoint@ == q.endpoint@ && m.piece_idx == q.piece_idx && sha1_of(m.piece@) == q.info.iv().hash_at(q.piece_idx as int),
        MsgView::PieceDownloadFailed(m) => m.endpoint@ == q.endpoint@ && m.piece_idx == q.piece_idx,
        _ => false,
    }
}
// a success is a piece that was fetched from that peer, a failure means that the peer did not deliver it
pub open spec fn truthful(q: PieceRequested, e: SendEv) -> bool {
    match e.msg {
        MsgView::PieceDownloadSuccessfull(m) => piece_fetched(q.endpoint@, q.info.iv(), q.piece_idx as nat, m.piece@),
        MsgView::PieceDownloadFailed(m) => no_piece(q.endpoint@, q.info.iv(), q.piece_idx as nat),
        _ => false,
    }
}
//@ fn ConnectionActor::handle_PieceRequested(msg, _ctx) -> r
    requires msg.msg_ok()
    ensures final(vp_w).sends().len() == old(vp_w).sends().len() + 1, final(vp_w).sends().drop_last() == old(vp_w).sends(), report(msg, final(vp_w).sends().last()), truthful(msg, final(vp_w).sends().last()),
        same_fs(old(vp_w), final(vp_w)), final(vp_w).udp() == old(vp_w).udp()
//@ exit
proof { assert(vp_w.sends().drop_last() =~= old(vp_w).sends()); }
// nothing happens when the actor starts or stops
//@ fn Actor@ConnectionActor::started(_ctx) ; world
    ensures *final(self) == *old(self), *final(vp_w) == *old(vp_w)
//@ fn Actor@ConnectionActor::stopped(_ctx) ; world
    ensures *final(self) == *old(self), *final(vp_w) == *old(vp_w)

//@ module actors::writer
//@ prelude
use crate::torrent::file::vfviews;
use crate::torrent::writer::piece_written;
//@ fn WriterActor::handle_PieceReady(msg, _ctx) -> r
    requires msg.msg_ok()
    ensures old(vp_w).writes().is_prefix_of(final(vp_w).writes()),
        piece_written(final(vp_w).writes().skip(old(vp_w).writes().len() as int), vfviews(msg.files), msg.piece_idx * msg.piece_length, msg.piece@),
        final(vp_w).truncated() == old(vp_w).truncated(), final(vp_w).saved() == old(vp_w).saved(), final(vp_w).sends() == old(vp_w).sends(), final(vp_w).udp() == old(vp_w).udp(),
// nothing happens when the actor starts or stops
//@ fn Actor@WriterActor::started(_ctx) ; world
    ensures *final(self) == *old(self), *final(vp_w) == *old(vp_w)
//@ fn Actor@WriterActor::stopped(_ctx) ; world
    ensures *final(self) == *old(self), *final(vp_w) == *old(vp_w)

//@ module actors::torrent
//@ prelude
use crate::vp_ext::sha1::sha1_of;
use crate::vp_ext::{SendEv, World, same_fs};
use crate::vp_ext::net::is_socket_addr;
use crate::vp_ext::urlencoding::pct;
use crate::vp_msg::MsgView;
use crate::torrent::info::{InfoView, lens};
use crate::torrent::file::{vfviews, safe_path};
use crate::peer::piece_pool::all_pieces;
use crate::actors::connection::report;
// what the torrent knows about a peer
pub struct Record { pub endpoint: Seq<char>, pub downloaded: nat, pub failed: nat }
pub open spec fn recs(p: Seq<Peer>) -> Seq<Record> { Seq::new(p.len(), |i: int| p[i].rec()) }
pub open spec fn vrecs(v: Vec<Peer>) -> Seq<Record> { recs(v@) }
pub open spec fn bump_failed(r: Record, e: Seq<char>) -> Record { if r.endpoint == e { Record { failed: r.failed + 1, ..r } } else { r } }
pub open spec fn bump_downloaded(r: Record, e: Seq<char>) -> Record { if r.endpoint == e { Record { downloaded: r.downloaded + 1, ..r } } else { r } }
pub open spec fn with_failed(p: Seq<Record>, e: Seq<char>) -> Seq<Record> { Seq::new(p.len(), |i: int| bump_failed(p[i], e)) }
pub open spec fn with_downloaded(p: Seq<Record>, e: Seq<char>) -> Seq<Record> { Seq::new(p.len(), |i: int| bump_downloaded(p[i], e)) }
pub open spec fn all_failed(p: Seq<Record>, n: nat) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).failed >= n }
// a peer to ask next: one with few failures if there is one
pub open spec fn suitable(p: Seq<Record>, e: Seq<char>) -> bool {
    exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).endpoint == e && (p[i].failed < 2 || all_failed(p, 2) && (p[i].failed < 4 || all_failed(p, 4)))
}
// the same peers in another order
pub open spec fn shuffled(a: Seq<Peer>, b: Seq<Peer>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])
    &&& forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])
}
pub proof fn lemma_pick(a: Seq<Peer>, b: Seq<Peer>, j: int)
    requires shuffled(a, b), 0 <= j < b.len() ensures exists|i: int| 0 <= i < a.len() && #[trigger] recs(a)[i] == b[j].rec()
{ assert(a.contains(b[j])); let i = choose|i: int| 0 <= i < a.len() && a[i] == b[j]; assert(recs(a)[i] == b[j].rec()); }
pub proof fn lemma_none(a: Seq<Peer>, b: Seq<Peer>, n: nat)
    requires shuffled(a, b), forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).piece_failed >= n ensures all_failed(recs(a), n)
{ assert forall|i: int| 0 <= i < a.len() implies (#[trigger] recs(a)[i]).failed >= n by { assert(b.contains(a[i])); } }
// what a torrent knows: its metadata once found, its peers, the pieces that wait to be requested
pub struct TorrentView { pub hash: Seq<u8>, pub info: Option<InfoView>, pub peers: Seq<Record>, pub waiting: Option<Seq<usize>>, pub initiated: bool }
pub open spec fn in_range(q: Seq<usize>, n: nat) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]) < n }
pub open spec fn addresses(p: Seq<Record>) -> bool { forall|i: int| 0 <= i < p.len() ==> is_socket_addr((#[trigger] p[i]).endpoint) }
pub open spec fn knows(p: Seq<Record>, e: Seq<char>) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).endpoint == e }
// no counter is at its limit
pub open spec fn few(p: Seq<Record>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).failed < usize::MAX && p[i].downloaded < usize::MAX }
impl TorrentView {
    pub open spec fn wf(&self) -> bool {
        &&& self.info is Some <==> self.waiting is Some
        &&& self.info is Some ==> self.info->Some_0.valid() && self.info->Some_0.hash() == self.hash && self.peers.len() > 0 && in_range(self.waiting->Some_0, self.info->Some_0.count())
        &&& addresses(self.peers)
        &&& self.hash.len() >= 20
    }
}
pub proof fn lemma_wf(t: TorrentView, e: Seq<char>)
    requires t.wf()
    ensures with_failed(t.peers, e).len() == t.peers.len(), with_downloaded(t.peers, e).len() == t.peers.len(), addresses(with_failed(t.peers, e)), addresses(with_downloaded(t.peers, e)), t.waiting is Some ==> forall|k: int| 0 <= k <= t.waiting->Some_0.len() ==> in_range(#[trigger] t.waiting->Some_0.skip(k), t.info->Some_0.count())
{
    assert forall|i: int| 0 <= i < t.peers.len() implies is_socket_addr((#[trigger] with_failed(t.peers, e)[i]).endpoint) by { assert(is_socket_addr(t.peers[i].endpoint)); }
    assert forall|i: int| 0 <= i < t.peers.len() implies is_socket_addr((#[trigger] with_downloaded(t.peers, e)[i]).endpoint) by { assert(is_socket_addr(t.peers[i].endpoint)); }
}
// whoever is suitable is one of the peers
pub proof fn lemma_suitable(p: Seq<Record>) requires addresses(p) ensures forall|e: Seq<char>| #[trigger] suitable(p, e) ==> is_socket_addr(e) && knows(p, e) {
    assert forall|e: Seq<char>| #[trigger] suitable(p, e) implies is_socket_addr(e) && knows(p, e) by {
        let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).endpoint == e && (p[i].failed < 2 || all_failed(p, 2) && (p[i].failed < 4 || all_failed(p, 4)));
        assert(is_socket_addr(p[i].endpoint));
    }
}
pub proof fn lemma_seqs()
    ensures forall|p: Seq<Peer>| #[trigger] recs(p).len() == p.len(), forall|p: Seq<Peer>, x: Peer| #[trigger] recs(p.push(x)) == recs(p).push(x.rec()),
        forall|q: Seq<usize>, k: int| 0 <= k < q.len() ==> #[trigger] q.skip(k).skip(1) == q.skip(k + 1), forall|q: Seq<usize>| #[trigger] q.skip(0) == q,
        forall|s: Seq<SendEv>, x: SendEv, k: int| 0 <= k <= s.len() ==> #[trigger] s.push(x).skip(k) == s.skip(k).push(x),
        forall|n: nat| n <= usize::MAX ==> #[trigger] in_range(all_pieces(n), n),
        forall|p: Seq<Record>, x: Record| addresses(p) && is_socket_addr(x.endpoint) ==> #[trigger] addresses(p.push(x)),
{
    assert forall|p: Seq<Peer>, x: Peer| #[trigger] recs(p.push(x)) == recs(p).push(x.rec()) by { assert(recs(p.push(x)) =~= recs(p).push(x.rec())); }
    assert forall|q: Seq<usize>, k: int| 0 <= k < q.len() implies #[trigger] q.skip(k).skip(1) == q.skip(k + 1) by { assert(q.skip(k).skip(1) =~= q.skip(k + 1)); }
    assert forall|q: Seq<usize>| #[trigger] q.skip(0) == q by { assert(q.skip(0) =~= q); }
    assert forall|s: Seq<SendEv>, x: SendEv, k: int| 0 <= k <= s.len() implies #[trigger] s.push(x).skip(k) == s.skip(k).push(x) by { assert(s.push(x).skip(k) =~= s.skip(k).push(x)); }
    assert forall|p: Seq<Record>, x: Record| addresses(p) && is_socket_addr(x.endpoint) implies #[trigger] addresses(p.push(x)) by {
        assert forall|i: int| 0 <= i < p.push(x).len() implies is_socket_addr((#[trigger] p.push(x)[i]).endpoint) by { if i < p.len() { assert(is_socket_addr(p[i].endpoint)); } }
    }
}
// the only file that may be written is the cache of the metadata in the folder downloads
pub open spec fn cache_path(h: Seq<u8>) -> Seq<char> { "./downloads/"@ + pct(h) }
pub open spec fn cache_only(a: &World, b: &World, h: Seq<u8>) -> bool {
    &&& a.writes() == b.writes() && a.udp() == b.udp()
    &&& b.truncated() == a.truncated() || b.truncated() == a.truncated().insert(cache_path(h))
    &&& b.saved() == a.saved() || (b.saved().len() == a.saved().len() + 1 && b.saved() == a.saved().push(b.saved().last()) && b.saved().last().0 == cache_path(h))
    &&& b.dirs() == a.dirs() || b.dirs() == a.dirs().insert("./downloads"@)
}
// the folder downloads holds the metadata the identifier stands for
pub open spec fn usable(w: &World, h: Seq<u8>) -> bool { match crate::torrent::info::kept(w, cache_path(h)) { Some(i) => i.hash() == h, None => false } }
pub struct Ids { pub me: int, pub connections: int, pub writers: int }
pub proof fn lemma_push() ensures forall|s: Seq<SendEv>, x: SendEv, k: int| 0 <= k <= s.len() ==> #[trigger] s.push(x).skip(k) == s.skip(k).push(x), forall|s: Seq<SendEv>| (#[trigger] s.skip(s.len() as int)).len() == 0
{ assert forall|s: Seq<SendEv>, x: SendEv, k: int| 0 <= k <= s.len() implies #[trigger] s.push(x).skip(k) == s.skip(k).push(x) by { assert(s.push(x).skip(k) =~= s.skip(k).push(x)); } }
// the messages sent by a handler
pub open spec fn news(a: &World, b: &World) -> Seq<SendEv> { b.sends().skip(a.sends().len() as int) }
pub open spec fn only_sends(a: &World, b: &World) -> bool { a.sends().is_prefix_of(b.sends()) && same_fs(a, b) && a.udp() == b.udp() }
pub proof fn lemma_fits(info: InfoView, idx: nat)
    requires info.valid(), idx < info.count() ensures idx * info.piece_length < info.total(), idx * info.piece_length <= 0x7fff_ffff_ffff_ffff
{ crate::peer::manager::lemma_count(info.piece_length, info.total(), idx); assert(idx * info.piece_length == info.piece_length * idx) by (nonlinear_arith); }
pub proof fn lemma_few(p: Seq<Peer>) requires few(recs(p)) ensures forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).piece_failed < usize::MAX && p[i].piece_downloaded < usize::MAX
{ assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).piece_failed < usize::MAX && p[i].piece_downloaded < usize::MAX by { assert(recs(p)[i].failed < usize::MAX); } }
// a request of piece idx from peer e, to one of the download workers
pub open spec fn asks(e: SendEv, ids: Ids, info: InfoView, idx: usize, ep: Seq<char>) -> bool {
    e.sure && e.to == ids.connections && e.msg is PieceRequested && e.msg->PieceRequested_0.info.iv() == info && e.msg->PieceRequested_0.piece_idx == idx
        && e.msg->PieceRequested_0.endpoint@ == ep && e.msg->PieceRequested_0.torrent_actor.id() == ids.me
}
// the same, from a peer that is suitable
pub open spec fn started(e: SendEv, p: Seq<Record>, ids: Ids, info: InfoView, idx: usize) -> bool {
    suitable(p, e.msg->PieceRequested_0.endpoint@) && asks(e, ids, info, idx, e.msg->PieceRequested_0.endpoint@)
}
// the piece is handed to the writer with the files and the piece length of the torrent
pub open spec fn stores(e: SendEv, ids: Ids, info: InfoView, idx: usize, piece: Seq<u8>) -> bool {
    e.sure && e.to == ids.writers && e.msg is PieceReady && e.msg->PieceReady_0.piece@ == piece && e.msg->PieceReady_0.piece_idx == idx
        && vfviews(e.msg->PieceReady_0.files) == info.the_files() && e.msg->PieceReady_0.piece_length as nat == info.piece_length
}
// a piece arrived: it is handed to the writer, and its peer gets the next waiting piece
pub open spec fn on_success(a: TorrentView, b: TorrentView, ids: Ids, ep: Seq<char>, idx: usize, piece: Seq<u8>, es: Seq<SendEv>) -> bool {
    let q = a.waiting->Some_0;
    &&& b.peers == with_downloaded(a.peers, ep)
    &&& es.len() > 0 && stores(es[0], ids, a.info->Some_0, idx, piece)
    &&& if q.len() > 0 { b == (TorrentView { peers: b.peers, waiting: Some(q.skip(1)), ..a }) && es.len() == 2 && asks(es[1], ids, a.info->Some_0, q[0], ep) }
        else { b == (TorrentView { peers: b.peers, ..a }) && es.len() == 1 }
}
// a piece failed: it waits behind the others, and the first one is requested from a suitable peer
pub open spec fn on_failure(a: TorrentView, b: TorrentView, ids: Ids, ep: Seq<char>, idx: usize, es: Seq<SendEv>) -> bool {
    let q = a.waiting->Some_0.push(idx);
    &&& b.peers == with_failed(a.peers, ep)
    &&& b == (TorrentView { peers: b.peers, waiting: Some(q.skip(1)), ..a })
    &&& es.len() == 1 && started(es[0], b.peers, ids, a.info->Some_0, q[0])
}
pub open spec fn at_most(n: nat, m: nat) -> nat { if n <= m { n } else { m } }
// a peer was found: without metadata it is asked for it; with metadata and enough peers the first pieces are requested, once
pub open spec fn on_found(a: TorrentView, b: TorrentView, ids: Ids, ep: Seq<char>, es: Seq<SendEv>) -> bool {
    &&& b.peers == a.peers.push(Record { endpoint: ep, downloaded: 0, failed: 0 })
    &&& match a.info {
        None => es.len() == 0 && (b == (TorrentView { peers: b.peers, ..a }) || (b.info is Some && b == (TorrentView { peers: b.peers, info: b.info, waiting: b.waiting, ..a })
            && b.info->Some_0.valid() && b.info->Some_0.hash() == a.hash && b.waiting == Some(all_pieces(b.info->Some_0.count())))),
        Some(info) => {
            let q = a.waiting->Some_0;
            &&& es.len() == if b.peers.len() > 10 && !a.initiated { at_most(q.len(), 5) } else { 0 }
            &&& b == (TorrentView { peers: b.peers, waiting: Some(q.skip(es.len() as int)), initiated: a.initiated || es.len() > 0, ..a })
            &&& forall|i: int| 0 <= i < es.len() ==> started(#[trigger] es[i], b.peers, ids, info, q[i])
        },
    }
}
// ---- the whole of a torrent: its actor, the requests that are not reported yet, the pieces that were handed to the writer
pub struct Sys { pub t: TorrentView, pub flight: Seq<PieceRequested>, pub stored: Seq<PieceReady>, pub steps: nat }
pub open spec fn requests(es: Seq<SendEv>) -> Seq<PieceRequested> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else if es.last().msg is PieceRequested { requests(es.drop_last()).push(es.last().msg->PieceRequested_0) } else { requests(es.drop_last()) }
}
pub open spec fn readies(es: Seq<SendEv>) -> Seq<PieceReady> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else if es.last().msg is PieceReady { readies(es.drop_last()).push(es.last().msg->PieceReady_0) } else { readies(es.drop_last()) }
}
// the report on a request reaches the torrent
pub open spec fn reported(a: Sys, b: Sys, ids: Ids, k: int, e: SendEv, es: Seq<SendEv>) -> bool {
    &&& 0 <= k < a.flight.len() && report(a.flight[k], e) && b.flight == a.flight.remove(k) + requests(es)
    &&& match e.msg {
        MsgView::PieceDownloadSuccessfull(m) => on_success(a.t, b.t, ids, m.endpoint@, m.piece_idx, m.piece@, es),
        MsgView::PieceDownloadFailed(m) => on_failure(a.t, b.t, ids, m.endpoint@, m.piece_idx, es),
        _ => false,
    }
}
pub open spec fn found(a: Sys, b: Sys, ids: Ids, ep: Seq<char>, es: Seq<SendEv>) -> bool {
    is_socket_addr(ep) && on_found(a.t, b.t, ids, ep, es) && b.flight == a.flight + requests(es)
}
// one message is handled, in whatever order they arrive
pub open spec fn counted(a: Sys, b: Sys, es: Seq<SendEv>) -> bool { b.steps == a.steps + 1 && b.stored == a.stored + readies(es) }
pub open spec fn next(a: Sys, b: Sys, ids: Ids) -> bool {
    (exists|ep: Seq<char>, es: Seq<SendEv>| counted(a, b, es) && #[trigger] found(a, b, ids, ep, es))
    || (exists|k: int, e: SendEv, es: Seq<SendEv>| counted(a, b, es) && #[trigger] reported(a, b, ids, k, e, es))
}
pub open spec fn initial(a: Sys, h: Seq<u8>) -> bool {
    a == (Sys { t: TorrentView { hash: h, info: None, peers: Seq::empty(), waiting: None, initiated: false }, flight: Seq::empty(), stored: Seq::empty(), steps: 0 })
}
pub open spec fn history(tr: Seq<Sys>, h: Seq<u8>, ids: Ids) -> bool { tr.len() > 0 && h.len() >= 20 && initial(tr[0], h) && forall|i: int| 0 <= i < tr.len() - 1 ==> next(#[trigger] tr[i], tr[i + 1], ids) }
// how often x occurs
pub open spec fn occ(s: Seq<usize>, x: usize) -> nat decreases s.len() { if s.len() == 0 { 0 } else { occ(s.drop_last(), x) + if s.last() == x { 1nat } else { 0 } } }
pub open spec fn idx_q(s: Seq<PieceRequested>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].piece_idx) }
pub open spec fn idx_r(s: Seq<PieceReady>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].piece_idx) }
// every piece is in exactly one place
pub open spec fn accounted(s: Sys) -> bool {
    forall|x: usize| occ(s.t.waiting->Some_0, x) + occ(idx_q(s.flight), x) + #[trigger] occ(idx_r(s.stored), x) == if x < s.t.info->Some_0.count() { 1nat } else { 0 }
}
pub open spec fn asked_right(q: PieceRequested, t: TorrentView, ids: Ids) -> bool { q.info.iv() == t.info->Some_0 && q.torrent_actor.id() == ids.me && knows(t.peers, q.endpoint@) && q.piece_idx < t.info->Some_0.count() }
pub open spec fn stored_right(r: PieceReady, t: TorrentView) -> bool { sha1_of(r.piece@) == t.info->Some_0.hash_at(r.piece_idx as int) && vfviews(r.files) == t.info->Some_0.the_files() && r.piece_length == t.info->Some_0.piece_length && r.piece_idx < t.info->Some_0.count() }
pub open spec fn low(p: Seq<Record>, n: nat) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).failed <= n && p[i].downloaded <= n }
pub open spec fn inv(s: Sys, h: Seq<u8>, ids: Ids) -> bool {
    &&& s.t.wf() && s.t.hash == h && low(s.t.peers, s.steps)
    &&& s.t.info is None ==> s.flight.len() == 0 && s.stored.len() == 0
    &&& s.t.info is Some ==> accounted(s) && (forall|i: int| 0 <= i < s.flight.len() ==> asked_right(#[trigger] s.flight[i], s.t, ids)) && (forall|i: int| 0 <= i < s.stored.len() ==> stored_right(#[trigger] s.stored[i], s.t))
}
pub proof fn lemma_occ_add(a: Seq<usize>, b: Seq<usize>, x: usize) ensures occ(a + b, x) == occ(a, x) + occ(b, x) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_occ_add(a, b.drop_last(), x); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lemma_occ_one(v: usize, x: usize) ensures occ(seq![v], x) == if v == x { 1nat } else { 0 } { reveal_with_fuel(occ, 2); assert(seq![v].drop_last() =~= Seq::empty()); }
pub proof fn lemma_occ_cut(s: Seq<usize>, k: int, x: usize) requires 0 <= k <= s.len() ensures occ(s, x) == occ(s.take(k), x) + occ(s.skip(k), x) { lemma_occ_add(s.take(k), s.skip(k), x); assert(s.take(k) + s.skip(k) =~= s); }
pub proof fn lemma_occ_remove(s: Seq<usize>, k: int, x: usize) requires 0 <= k < s.len() ensures occ(s, x) == occ(s.remove(k), x) + if s[k] == x { 1nat } else { 0 } {
    lemma_occ_cut(s, k, x); lemma_occ_cut(s.skip(k), 1, x); assert(s.skip(k).take(1) =~= seq![s[k]]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); lemma_occ_one(s[k], x);
    assert(s.remove(k) =~= s.take(k) + s.skip(k + 1)); lemma_occ_add(s.take(k), s.skip(k + 1), x);
}
pub proof fn lemma_occ_all(n: nat, x: usize) requires n <= usize::MAX ensures occ(all_pieces(n), x) == if x < n { 1nat } else { 0 } decreases n {
    if n > 0 { lemma_occ_all((n - 1) as nat, x); assert(all_pieces(n).drop_last() =~= all_pieces((n - 1) as nat)); }
}
pub proof fn lemma_idx(a: Seq<PieceRequested>, b: Seq<PieceRequested>, k: int)
    ensures idx_q(a + b) =~= idx_q(a) + idx_q(b), 0 <= k < a.len() ==> idx_q(a.remove(k)) =~= idx_q(a).remove(k) {}
// requests that were started: they carry the first waiting pieces
pub proof fn lemma_started(es: Seq<SendEv>, p: Seq<Record>, ids: Ids, info: InfoView, q: Seq<usize>)
    requires es.len() <= q.len(), forall|i: int| 0 <= i < es.len() ==> started(#[trigger] es[i], p, ids, info, q[i]), addresses(p)
    ensures readies(es).len() == 0, requests(es).len() == es.len(), idx_q(requests(es)) =~= q.take(es.len() as int), forall|i: int| 0 <= i < es.len() ==> (#[trigger] requests(es)[i]).info.iv() == info && requests(es)[i].torrent_actor.id() == ids.me && knows(p, requests(es)[i].endpoint@) && requests(es)[i].piece_idx == q[i]
    decreases es.len()
{
    if es.len() > 0 {
        let n = es.len() - 1; lemma_started(es.drop_last(), p, ids, info, q); lemma_suitable(p);
        assert(started(es[n], p, ids, info, q[n]));
        assert(requests(es) == requests(es.drop_last()).push(es[n].msg->PieceRequested_0));
        assert forall|i: int| 0 <= i < es.len() implies (#[trigger] requests(es)[i]).info.iv() == info && requests(es)[i].torrent_actor.id() == ids.me && knows(p, requests(es)[i].endpoint@) && requests(es)[i].piece_idx == q[i] by { if i < n { assert(requests(es)[i] == requests(es.drop_last())[i]); } }
    }
}
pub proof fn lemma_knows(p: Seq<Record>, e: Seq<char>, ep: Seq<char>) requires knows(p, e) ensures knows(with_failed(p, ep), e), knows(with_downloaded(p, ep), e), forall|r: Record| #[trigger] knows(p.push(r), e) {
    let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).endpoint == e;
    assert(with_failed(p, ep)[i].endpoint == e); assert(with_downloaded(p, ep)[i].endpoint == e);
    assert forall|r: Record| #[trigger] knows(p.push(r), e) by { assert(p.push(r)[i].endpoint == e); }
}
pub proof fn lemma_low(p: Seq<Record>, n: nat, ep: Seq<char>) requires low(p, n) ensures low(with_failed(p, ep), n + 1), low(with_downloaded(p, ep), n + 1), low(p.push(Record { endpoint: ep, downloaded: 0, failed: 0 }), n + 1) {
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] with_failed(p, ep)[i]).failed <= n + 1 && with_failed(p, ep)[i].downloaded <= n + 1 by { assert(p[i].failed <= n); }
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] with_downloaded(p, ep)[i]).failed <= n + 1 && with_downloaded(p, ep)[i].downloaded <= n + 1 by { assert(p[i].failed <= n); }
}
// a found peer keeps the books balanced
pub proof fn step_found(a: Sys, b: Sys, ids: Ids, h: Seq<u8>, ep: Seq<char>, es: Seq<SendEv>)
    requires inv(a, h, ids), counted(a, b, es), found(a, b, ids, ep, es) ensures inv(b, h, ids)
{
    lemma_seqs(); lemma_low(a.t.peers, a.steps, ep); lemma_wf(a.t, ep);
    match a.t.info {
        None => {
            assert(b.flight =~= Seq::empty()); assert(b.stored =~= Seq::empty());
            if b.t.info is Some {
                assert(b.t.info->Some_0.count() <= usize::MAX);
                assert forall|x: usize| occ(b.t.waiting->Some_0, x) + occ(idx_q(b.flight), x) + #[trigger] occ(idx_r(b.stored), x) == if x < b.t.info->Some_0.count() { 1nat } else { 0 } by { lemma_occ_all(b.t.info->Some_0.count(), x); }
            }
        },
        Some(info) => {
            let q = a.t.waiting->Some_0; let n = es.len() as int;
            lemma_started(es, b.t.peers, ids, info, q); lemma_idx(a.flight, requests(es), 0); assert(b.stored =~= a.stored);
            assert forall|x: usize| occ(b.t.waiting->Some_0, x) + occ(idx_q(b.flight), x) + #[trigger] occ(idx_r(b.stored), x) == if x < info.count() { 1nat } else { 0 } by {
                lemma_occ_cut(q, n, x); lemma_occ_add(idx_q(a.flight), idx_q(requests(es)), x); assert(occ(idx_r(a.stored), x) >= 0);
            }
            assert forall|i: int| 0 <= i < b.flight.len() implies asked_right(#[trigger] b.flight[i], b.t, ids) by {
                if i < a.flight.len() { assert(asked_right(a.flight[i], a.t, ids)); lemma_knows(a.t.peers, a.flight[i].endpoint@, ep); assert(b.flight[i] == a.flight[i]); }
                else { assert(b.flight[i] == requests(es)[i - a.flight.len()]); assert(q[i - a.flight.len()] < info.count()); }
            }
        },
    }
}
// so does a report
pub proof fn step_reported(a: Sys, b: Sys, ids: Ids, h: Seq<u8>, k: int, e: SendEv, es: Seq<SendEv>)
    requires inv(a, h, ids), counted(a, b, es), reported(a, b, ids, k, e, es) ensures inv(b, h, ids)
{
    let f = a.flight[k]; let info = a.t.info->Some_0; let q = a.t.waiting->Some_0; let x0 = f.piece_idx; let rest = a.flight.remove(k);
    assert(asked_right(f, a.t, ids)); lemma_seqs(); lemma_low(a.t.peers, a.steps, f.endpoint@); lemma_wf(a.t, f.endpoint@); lemma_idx(a.flight, Seq::empty(), k); lemma_idx(rest, requests(es), 0);
    lemma_knows(a.t.peers, f.endpoint@, f.endpoint@);
    assert(b.t.info == a.t.info);
    assert(q.skip(0) =~= q);
    let qq = q.push(x0); assert(qq.skip(1).len() == q.len()); assert(in_range(qq, info.count())); assert(in_range(qq.skip(1), info.count())); assert(addresses(b.t.peers));
    assert(b.t.wf());
    reveal_with_fuel(requests, 3); reveal_with_fuel(readies, 3);
    if e.msg is PieceDownloadSuccessfull {
        let m = e.msg->PieceDownloadSuccessfull_0;
        let r = es[0].msg->PieceReady_0;
        let left: Seq<usize> = if q.len() > 0 { q.skip(1) } else { q };
        if q.len() > 0 {
            assert(es.drop_last() =~= seq![es[0]]); assert(es.drop_last().drop_last() =~= Seq::empty());
            assert(requests(es) =~= seq![es[1].msg->PieceRequested_0]); assert(idx_q(requests(es)) =~= seq![q[0]]);
        } else { assert(es.drop_last() =~= Seq::empty()); assert(requests(es) =~= Seq::empty()); assert(idx_q(requests(es)) =~= Seq::empty()); }
        assert(readies(es) =~= seq![r]);
        assert(idx_r(b.stored) =~= idx_r(a.stored) + seq![x0]);
        assert forall|x: usize| occ(b.t.waiting->Some_0, x) + occ(idx_q(b.flight), x) + #[trigger] occ(idx_r(b.stored), x) == if x < info.count() { 1nat } else { 0 } by {
            lemma_occ_remove(idx_q(a.flight), k, x); lemma_occ_add(idx_q(rest), idx_q(requests(es)), x); lemma_occ_add(idx_r(a.stored), seq![x0], x); lemma_occ_one(x0, x);
            if q.len() > 0 { lemma_occ_cut(q, 1, x); assert(q.take(1) =~= seq![q[0]]); lemma_occ_one(q[0], x); }
            assert(occ(idx_r(a.stored), x) >= 0);
        }
        assert forall|i: int| 0 <= i < b.stored.len() implies stored_right(#[trigger] b.stored[i], b.t) by {
            if i < a.stored.len() { assert(b.stored[i] == a.stored[i]); } else { assert(b.stored[i] == r); assert(r.piece@ == m.piece@); }
        }
    } else {
        assert(es.drop_last() =~= Seq::empty()); assert(readies(es) =~= Seq::empty()); assert(b.stored =~= a.stored);
        let s = es[0].msg->PieceRequested_0;
        assert(started(es[0], b.t.peers, ids, info, qq[0]));
        assert(requests(es) =~= seq![s]); assert(idx_q(requests(es)) =~= seq![qq[0]]);
        assert forall|x: usize| occ(b.t.waiting->Some_0, x) + occ(idx_q(b.flight), x) + #[trigger] occ(idx_r(b.stored), x) == if x < info.count() { 1nat } else { 0 } by {
            lemma_occ_remove(idx_q(a.flight), k, x); lemma_occ_add(idx_q(rest), idx_q(requests(es)), x); lemma_occ_one(x0, x);
            lemma_occ_cut(qq, 1, x); assert(qq.take(1) =~= seq![qq[0]]); lemma_occ_one(qq[0], x);
            assert(qq =~= q + seq![x0]); lemma_occ_add(q, seq![x0], x);
            assert(occ(idx_r(a.stored), x) >= 0);
        }
        lemma_suitable(b.t.peers);
    }
    assert forall|i: int| 0 <= i < b.flight.len() implies asked_right(#[trigger] b.flight[i], b.t, ids) by {
        if i < rest.len() { assert(b.flight[i] == rest[i]); let j = if i < k { i } else { i + 1 }; assert(rest[i] == a.flight[j]); assert(asked_right(a.flight[j], a.t, ids)); lemma_knows(a.t.peers, a.flight[j].endpoint@, f.endpoint@); }
        else { assert(b.flight[i] == requests(es)[i - rest.len()]); }
    }
}
// whatever the order of the messages: every piece waits, is requested or is stored - exactly one of these - and whatever is stored was verified
pub proof fn pieces_accounted(tr: Seq<Sys>, h: Seq<u8>, ids: Ids, n: int)
    requires history(tr, h, ids), 0 <= n < tr.len() ensures inv(tr[n], h, ids), tr[n].steps == n decreases n
{
    if n == 0 { assert(addresses(tr[0].t.peers)); } else {
        pieces_accounted(tr, h, ids, n - 1);
        let a = tr[n - 1]; let b = tr[n]; assert(next(a, tr[n - 1 + 1], ids));
        if exists|ep: Seq<char>, es: Seq<SendEv>| counted(a, b, es) && #[trigger] found(a, b, ids, ep, es) {
            let (ep, es) = choose|ep: Seq<char>, es: Seq<SendEv>| counted(a, b, es) && #[trigger] found(a, b, ids, ep, es); step_found(a, b, ids, h, ep, es);
        } else {
            let (k, e, es) = choose|k: int, e: SendEv, es: Seq<SendEv>| counted(a, b, es) && #[trigger] reported(a, b, ids, k, e, es); step_reported(a, b, ids, h, k, e, es);
        }
    }
}
// and the handlers can be called: what they require holds whenever a message of the torrent reaches it
pub proof fn handlers_ready(s: Sys, h: Seq<u8>, ids: Ids, k: int) requires inv(s, h, ids), s.steps < usize::MAX
    ensures s.t.wf(), few(s.t.peers), 0 <= k < s.flight.len() ==> s.t.info is Some && s.flight[k].piece_idx < s.t.info->Some_0.count() && is_socket_addr(s.flight[k].endpoint@)
{
    assert forall|i: int| 0 <= i < s.t.peers.len() implies (#[trigger] s.t.peers[i]).failed < usize::MAX && s.t.peers[i].downloaded < usize::MAX by { assert(s.t.peers[i].failed <= s.steps); }
    if 0 <= k < s.flight.len() { assert(asked_right(s.flight[k], s.t, ids)); let e = s.flight[k].endpoint@; let i = choose|i: int| 0 <= i < s.t.peers.len() && (#[trigger] s.t.peers[i]).endpoint == e; assert(is_socket_addr(s.t.peers[i].endpoint)); }
}
//@ impl TorrentActor
    pub open spec fn tv(&self) -> TorrentView {
        TorrentView { hash: self.info_hash@, info: match self.info { Some(i) => Some(i.iv()), None => None }, peers: vrecs(self.peers), waiting: match self.piece_available_pool { Some(p) => Some(p.waiting()), None => None }, initiated: self.initiated }
    }
    pub open spec fn ids(&self, me: int) -> Ids { Ids { me, connections: self.connections_pool.id(), writers: self.writers_pool.id() } }
//@ fn TorrentActor::new(info_hash) -> r
    requires info_hash@.len() >= 20
    ensures r.tv() == (TorrentView { hash: info_hash@, info: None, peers: Seq::empty(), waiting: None, initiated: false }), r.tv().wf()
//@ exit
proof { assert(vp_ret.tv().peers =~= Seq::empty()); }
//@ fn TorrentActor::handle_PieceDownloadSuccessfull(msg, ctx) -> r
    requires old(self).tv().wf(), few(old(self).tv().peers), old(self).tv().info is Some, msg.piece_idx < old(self).tv().info->Some_0.count(), msg.msg_ok()
    ensures only_sends(old(vp_w), final(vp_w)), on_success(old(self).tv(), final(self).tv(), old(self).ids(old(ctx).id()), msg.endpoint@, msg.piece_idx, msg.piece@, news(old(vp_w), final(vp_w))),
        final(self).tv().wf(), final(self).ids(0) == old(self).ids(0), final(ctx).id() == old(ctx).id(),
//@ entry
proof { lemma_fits(self.tv().info->Some_0, msg.piece_idx as nat); lemma_few(self.peers@); lemma_wf(self.tv(), msg.endpoint@); crate::vp_ext::vp_axioms::ax_vec_len(msg.piece); }
//@ fn TorrentActor::handle_PieceDownloadFailed(msg, ctx) -> r
    requires old(self).tv().wf(), few(old(self).tv().peers), old(self).tv().info is Some, msg.piece_idx < old(self).tv().info->Some_0.count(), msg.msg_ok()
    ensures only_sends(old(vp_w), final(vp_w)), on_failure(old(self).tv(), final(self).tv(), old(self).ids(old(ctx).id()), msg.endpoint@, msg.piece_idx, news(old(vp_w), final(vp_w))),
        final(self).tv().wf(), final(self).ids(0) == old(self).ids(0), final(ctx).id() == old(ctx).id(),
//@ entry
proof {
    lemma_few(self.peers@); lemma_wf(self.tv(), msg.endpoint@);
    let q = self.tv().waiting->Some_0.push(msg.piece_idx);
    assert(in_range(q, self.tv().info->Some_0.count()));
    assert(in_range(q.skip(1), self.tv().info->Some_0.count()));
    assert(q[0] < self.tv().info->Some_0.count());
    lemma_suitable(with_failed(self.tv().peers, msg.endpoint@));
    lemma_seqs();
}
//@ fn TorrentActor::handle_PeerFound(msg, ctx) -> r
    requires old(self).tv().wf(), msg.msg_ok()
    ensures final(self).info is None ==> crate::peer::manager::no_metadata(msg.peer.text(), old(self).info_hash@) && !usable(old(vp_w), old(self).info_hash@),
     old(self).info is None && final(self).info is Some && !usable(old(vp_w), old(self).info_hash@) ==> crate::peer::manager::info_fetched(msg.peer.text(), old(self).info_hash@, final(self).info->Some_0.iv()),
     old(self).info is None && usable(old(vp_w), old(self).info_hash@) ==> final(self).info is Some && final(self).info->Some_0.iv() == crate::torrent::info::kept(old(vp_w), cache_path(old(self).info_hash@))->Some_0,
     final(vp_w).saved() != old(vp_w).saved() ==> final(self).info is Some && final(vp_w).saved().last().1 == crate::vp_ext::serde_json::text_of(final(self).info->Some_0),
     old(vp_w).sends().is_prefix_of(final(vp_w).sends()), on_found(old(self).tv(), final(self).tv(), old(self).ids(old(ctx).id()), msg.peer.text(), news(old(vp_w), final(vp_w))),
        cache_only(old(vp_w), final(vp_w), old(self).info_hash@),
        final(self).tv().wf(), final(self).ids(0) == old(self).ids(0), final(ctx).id() == old(ctx).id(),
//@ entry
let ghost a = self.tv(); let ghost w0 = *vp_w; let ghost ids = self.ids(ctx.id()); let ghost c0 = ctx.id();
proof { lemma_seqs(); lemma_wf(a, msg.peer.text()); lemma_suitable(a.peers.push(Record { endpoint: msg.peer.text(), downloaded: 0, failed: 0 })); }
//@ attr #[verifier::loop_isolation(false)]
//@ loop 0 for it
    invariant self.info == Some(*info), a.info == Some(info.iv()), a.wf(), !a.initiated, self.ids(ctx.id()) == ids, ctx.id() == c0, a.waiting is Some,
        recs(self.peers@).len() == self.peers@.len(), self.peers@.len() > 10,
        addresses(recs(self.peers@)), recs(self.peers@) == a.peers.push(Record { endpoint: msg.peer.text(), downloaded: 0, failed: 0 }),
        only_sends(&w0, vp_w), news(&w0, vp_w).len() == at_most(a.waiting->Some_0.len(), it.index@ as nat),
        self.tv() == (TorrentView { peers: recs(self.peers@), waiting: Some(a.waiting->Some_0.skip(news(&w0, vp_w).len() as int)), initiated: news(&w0, vp_w).len() > 0, ..a }),
        forall|i: int| 0 <= i < news(&w0, vp_w).len() ==> started(#[trigger] news(&w0, vp_w)[i], recs(self.peers@), ids, info.iv(), a.waiting->Some_0[i]),
//@ fn collect_info(info_hash, endpoint) -> r
    requires is_socket_addr(endpoint@), info_hash@.len() >= 20
    ensures r is Some ==> r->Some_0.iv().valid() && r->Some_0.iv().hash() == info_hash@, final(vp_w).sends() == old(vp_w).sends(), cache_only(old(vp_w), final(vp_w), info_hash@),
        r is None ==> crate::peer::manager::no_metadata(endpoint@, info_hash@),
        usable(old(vp_w), info_hash@) ==> r is Some && r->Some_0.iv() == crate::torrent::info::kept(old(vp_w), cache_path(info_hash@))->Some_0 && final(vp_w).saved() == old(vp_w).saved() && final(vp_w).truncated() == old(vp_w).truncated(),
        r is Some && !usable(old(vp_w), info_hash@) ==> crate::peer::manager::info_fetched(endpoint@, info_hash@, r->Some_0.iv()),
        final(vp_w).saved() != old(vp_w).saved() ==> r is Some && final(vp_w).saved().last().1 == crate::vp_ext::serde_json::text_of(r->Some_0)
//@ entry
proof {
    reveal_strlit("./downloads/"); reveal_strlit("./downloads");
    crate::vp_ext::urlencoding::lemma_pct(info_hash@); crate::vp_ext::path::ax_parent("./downloads"@, pct(info_hash@));
    assert(cache_path(info_hash@) =~= "./downloads"@ + seq!['/'] + pct(info_hash@));
}
//@ impl Peer
    pub open spec fn rec(&self) -> Record { Record { endpoint: self.endpoint@, downloaded: self.piece_downloaded as nat, failed: self.piece_failed as nat } }
//@ fn Peer::new(endpoint) -> r
    ensures r.rec() == (Record { endpoint: endpoint@, downloaded: 0, failed: 0 })
//@ fn Peer::update_failed(pool, endpoint) -> r
    requires forall|i: int| 0 <= i < old(pool)@.len() ==> (#[trigger] old(pool)@[i]).piece_failed < usize::MAX
    ensures recs(final(pool)@) == with_failed(recs(old(pool)@), endpoint@)
//@ entry
let ghost p0 = pool@;
//@ loop 0 for it
    invariant it.seq().len() == p0.len(), forall|i: int| 0 <= i < p0.len() ==> *(#[trigger] it.seq()[i]) == p0[i],
        forall|i: int| 0 <= i < p0.len() ==> (#[trigger] p0[i]).piece_failed < usize::MAX,
        forall|i: int| 0 <= i < it.index@ ==> (*final(#[trigger] it.seq()[i])).rec() == bump_failed(p0[i].rec(), endpoint@),
//@ exit
proof { assert(recs(final(pool)@) =~= with_failed(recs(p0), endpoint@)); }
//@ fn Peer::update_sucess(pool, endpoint) -> r
    requires forall|i: int| 0 <= i < old(pool)@.len() ==> (#[trigger] old(pool)@[i]).piece_downloaded < usize::MAX
    ensures recs(final(pool)@) == with_downloaded(recs(old(pool)@), endpoint@)
//@ entry
let ghost p0 = pool@;
//@ loop 0 for it
    invariant it.seq().len() == p0.len(), forall|i: int| 0 <= i < p0.len() ==> *(#[trigger] it.seq()[i]) == p0[i],
        forall|i: int| 0 <= i < p0.len() ==> (#[trigger] p0[i]).piece_downloaded < usize::MAX,
        forall|i: int| 0 <= i < it.index@ ==> (*final(#[trigger] it.seq()[i])).rec() == bump_downloaded(p0[i].rec(), endpoint@),
//@ exit
proof { assert(recs(final(pool)@) =~= with_downloaded(recs(p0), endpoint@)); }
//@ fn Peer::find_suitable_peer(pool) -> r
    requires pool@.len() > 0
    ensures suitable(recs(pool@), r@)
//@ attr #[verifier::loop_isolation(false)]
//@ entry
let ghost p0 = pool@;
//@ loop 0 for it
    invariant it.seq().len() == pool@.len(), forall|i: int| 0 <= i < pool@.len() ==> *(#[trigger] it.seq()[i]) == pool@[i], shuffled(p0, pool@),
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] pool@[i]).piece_failed >= 2,
//@ loop_entry 0
proof { assert(*peer == pool@[it.index@ as int]); lemma_pick(p0, pool@, it.index@ as int); }
//@ after_loop 0
proof { assert(pool@.len() > 0); lemma_none(p0, pool@, 2); }
//@ loop 1 for it
    invariant it.seq().len() == pool@.len(), forall|i: int| 0 <= i < pool@.len() ==> *(#[trigger] it.seq()[i]) == pool@[i], shuffled(p0, pool@), all_failed(recs(p0), 2),
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] pool@[i]).piece_failed >= 4,
//@ loop_entry 1
proof { assert(*peer == pool@[it.index@ as int]); lemma_pick(p0, pool@, it.index@ as int); }
//@ after_loop 1
proof { lemma_none(p0, pool@, 4); lemma_pick(p0, pool@, 0); }
// nothing happens when the actor starts or stops
//@ fn Actor@TorrentActor::started(_ctx) ; world
    ensures *final(self) == *old(self), *final(vp_w) == *old(vp_w)
//@ fn Actor@TorrentActor::stopped(_ctx) ; world
    ensures *final(self) == *old(self), *final(vp_w) == *old(vp_w)

//@ module actors::tracker
//@ prelude
use crate::vp_ext::{SendEv, World, UdpEv, same_fs};
use crate::tracker::{tracker_answer, tracker_silence};
use crate::vp_ext::net::reachable;
use crate::actors::torrent::{news, lemma_push};
// the peers of an answer that accept a connection, in the order of the answer
pub open spec fn reached(p: Seq<PeerEndpoint>) -> Seq<PeerEndpoint> decreases p.len() {
    if p.len() == 0 { p } else if reachable(p.last().text()) { reached(p.drop_last()).push(p.last()) } else { reached(p.drop_last()) }
}
// each of them is announced to the torrent, once, and nothing to anybody else
pub open spec fn announces(es: Seq<SendEv>, to: int, p: Seq<PeerEndpoint>) -> bool {
    es.len() == p.len() && forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).sure && es[i].to == to && es[i].msg is PeerFound && crate::vp_ext::actix::Message::msg_ok(&es[i].msg->PeerFound_0) && es[i].msg->PeerFound_0.peer == p[i]
}
//@ fn TrackerActor::handle_TorrentRegistered(msg, ctx) -> r
    ensures old(vp_w).sends().is_prefix_of(final(vp_w).sends()), same_fs(old(vp_w), final(vp_w)),
        news(old(vp_w), final(vp_w)).len() == 0 && tracker_silence(&old(self).url, msg.info_hash@, old(vp_w).udp(), final(vp_w).udp())
            || exists|p: Seq<PeerEndpoint>| #[trigger] tracker_answer(&old(self).url, msg.info_hash@, old(vp_w).udp(), final(vp_w).udp(), p) && announces(news(old(vp_w), final(vp_w)), msg.torrent_actor_addr.id(), reached(p))
//@ entry
let ghost w0 = *vp_w; let ghost m = msg;
proof { lemma_push(); }
//@ before_loop 0
let ghost p = peers@; let ghost w1 = *vp_w;
//@ loop 0 for it
    invariant it.seq() == p, w0.sends() == w1.sends(), same_fs(&w0, &w1), w1.udp() == vp_w.udp(), msg == m, tracker_answer(&url, m.info_hash@, w0.udp(), w1.udp(), p), url == old(self).url,
        w0.sends().is_prefix_of(vp_w.sends()), same_fs(&w0, vp_w), announces(news(&w0, vp_w), m.torrent_actor_addr.id(), reached(p.take(it.index@ as int))),
        forall|s: Seq<SendEv>, x: SendEv, k: int| 0 <= k <= s.len() ==> #[trigger] s.push(x).skip(k) == s.skip(k).push(x),
//@ loop_entry 0
proof { assert(peer == p[it.index@ as int]); assert(p.take(it.index@ + 1).drop_last() =~= p.take(it.index@ as int)); }
//@ after_loop 0
proof { assert(p.take(p.len() as int) =~= p); }
// nothing happens when the actor starts or stops
//@ fn Actor@TrackerActor::started(_ctx) ; world
    ensures *final(self) == *old(self), *final(vp_w) == *old(vp_w)
//@ fn Actor@TrackerActor::stopped(_ctx) ; world
    ensures *final(self) == *old(self), *final(vp_w) == *old(vp_w)

//@ module actors::trackers_interface
//@ prelude
use crate::vp_ext::{SendEv, World, same_fs};
use crate::actors::torrent::{news, only_sends, lemma_push};
use crate::vp_msg::MsgView;
use crate::vp_ext::url::{is_url, parsed};
// every tracker hears of the torrent, once, however full its mailbox is
pub open spec fn forwards(es: Seq<SendEv>, t: Seq<Addr<TrackerActor>>, m: TorrentRegistered) -> bool {
    es.len() == t.len() && forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).sure && es[i].to == t[i].id() && es[i].msg == MsgView::TorrentRegistered(m)
}
// the addresses of the built-in list
pub open spec fn built_in() -> Seq<Seq<char>> {
    seq!["udp://93.158.213.92:1337/announce"@,
        "udp://102.223.180.235:6969/announce"@,
        "udp://23.134.88.6:1337/announce"@,
        "udp://193.189.100.187:6969/announce"@,
        "udp://185.243.218.213:80/announce"@,
        "udp://91.216.110.52:451/announce"@,
        "udp://208.83.20.20:6969/announce"@,
        "udp://23.157.120.14:6969/announce"@,
        "udp://156.234.201.18:80/announce"@,
        "udp://185.102.219.163:6969/announce"@,
        "udp://185.50.159.149:6969/announce"@,
        "udp://209.141.59.16:6969/announce"@,
        "udp://38.7.201.142:6969/announce"@,
        "udp://73.170.204.100:6969/announce"@,
        "udp://176.31.250.174:6969/announce"@,
        "udp://82.156.24.219:6969/announce"@,
        "udp://83.102.180.21:80/announce"@,
        "udp://185.230.4.150:1337/announce"@]
}
// they are well formed (assumed here; the native run of C24 parses them)
#[verifier::external_body]
pub proof fn assume_addresses() ensures forall|i: int| 0 <= i < built_in().len() ==> is_url(#[trigger] built_in()[i]) { }
// one tracker for each of them
pub open spec fn lists(t: Seq<Addr<TrackerActor>>, n: int) -> bool { t.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] t[i]).init().url == parsed(built_in()[i]) }
//@ fn TrackersInterfaceActor::new() -> r
    ensures lists(r.trackers@, built_in().len() as int), only_sends(old(vp_w), final(vp_w)), news(old(vp_w), final(vp_w)).len() == 0
//@ loop 0 for it
    invariant only_sends(old(vp_w), vp_w), vp_w.sends() == old(vp_w).sends(), lists(trackers@, it.index@ as int), it.seq().len() == built_in().len(), forall|i: int| 0 <= i < built_in().len() ==> (#[trigger] it.seq()[i])@ == built_in()[i],
//@ loop_entry 0
proof { assume_addresses(); assert(url@ == built_in()[it.index@ as int]); }
//@ fn TrackersInterfaceActor::handle_TorrentRegistered(msg, _ctx) -> r
    ensures only_sends(old(vp_w), final(vp_w)), forwards(news(old(vp_w), final(vp_w)), old(self).trackers@, msg), final(self).trackers == old(self).trackers
//@ entry
let ghost w0 = *vp_w;
proof { lemma_push(); }
//@ loop 0 for it
    invariant it.seq().len() == self.trackers@.len(), forall|i: int| 0 <= i < self.trackers@.len() ==> *(#[trigger] it.seq()[i]) == self.trackers@[i], self.trackers == old(self).trackers,
        only_sends(&w0, vp_w), forwards(news(&w0, vp_w), self.trackers@.take(it.index@ as int), msg),
        forall|s: Seq<SendEv>, x: SendEv, k: int| 0 <= k <= s.len() ==> #[trigger] s.push(x).skip(k) == s.skip(k).push(x),
//@ exit
proof { assert(self.trackers@.take(self.trackers@.len() as int) =~= self.trackers@); }

// nothing happens when the actor starts or stops
//@ fn Actor@TrackersInterfaceActor::started(_ctx) ; world
    ensures *final(self) == *old(self), *final(vp_w) == *old(vp_w)
//@ fn Actor@TrackersInterfaceActor::stopped(_ctx) ; world
    ensures *final(self) == *old(self), *final(vp_w) == *old(vp_w)

//@ module crate
//@ prelude
use crate::vp_ext::{SendEv, World, same_fs};
use crate::vp_msg::MsgView;
use crate::torrent::magnet::{is_hex_magnet, is_b32_magnet, link_hash};
use crate::actors::torrent::{news, only_sends, TorrentView, lemma_push};
use crate::vp_ext::encode_utf8;
// the torrent that was started is registered with the trackers, under its hash
pub open spec fn registers(e: SendEv, to: int, h: Seq<u8>, torrent: int) -> bool {
    &&& e.sure && e.to == to && e.msg is TorrentRegistered && e.msg->TorrentRegistered_0.info_hash@ == h
    &&& e.msg->TorrentRegistered_0.torrent_actor_addr.id() == torrent
    &&& e.msg->TorrentRegistered_0.torrent_actor_addr.init().tv() == (TorrentView { hash: h, info: None, peers: Seq::empty(), waiting: None, initiated: false })
}
//@ fn add_magnet(data, magnet_raw) -> r
    ensures only_sends(old(vp_w), final(vp_w)), match link_hash(encode_utf8(magnet_raw@)) {
        None => r.status == 400 && final(vp_w).started() == old(vp_w).started() && final(vp_w).sends() == old(vp_w).sends(),
        Some(h) => r.status == 200 && final(vp_w).started().len() == old(vp_w).started().len() + 1 && news(old(vp_w), final(vp_w)).len() == 1 && registers(news(old(vp_w), final(vp_w))[0], data.v.trackers_interface.id(), h, final(vp_w).started().last()),
    }
