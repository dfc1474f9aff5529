//@ module peer::buffer
//@ prelude
use crate::peer::PeerView;
use crate::peer::stream::wrote;
use crate::vp_ext::io::VpStream;
// what a request closure does to a peer: it writes g(state, index) and changes nothing else
#[verifier::prophetic]
pub open spec fn good<F: FnMut(&mut Peer, usize)>(f: F, cap: nat, g: spec_fn(PeerView, nat) -> Seq<u8>) -> bool {
    &&& forall|q: &mut Peer, i: usize| i < cap ==> #[trigger] f.requires((q, i))
    &&& forall|q: &mut Peer, i: usize| i < cap && #[trigger] f.ensures((q, i), ()) ==> final(q).pv() == (*q).pv() && wrote(&(*q).stream, &final(q).stream, g((*q).pv(), i as nat))
}
pub open spec fn payloads(m: Seq<Message>) -> Seq<u8> decreases m.len() { if m.len() == 0 { Seq::empty() } else { payloads(m.drop_last()) + m.last().payload() } }
pub proof fn lemma_payloads(m: Seq<Message>, v: Seq<Vec<u8>>)
    requires m.len() == v.len(), forall|i: int| 0 <= i < m.len() ==> (#[trigger] v[i])@ == m[i].payload()
    ensures crate::vp_ext::flat_bytes(v) == payloads(m) decreases m.len()
{
    if m.len() > 0 { lemma_payloads(m.drop_last(), v.drop_last()); }
}
//@ impl MessageBuffer
    pub open spec fn wf(&self) -> bool { self.buffer@.len() <= self.capacity && self.capacity < usize::MAX && self.expected_size <= self.buffer@.len() + 1 }
    pub open spec fn kept(&self, m: Message) -> bool { self.message_filter.accepts(m) && self.buffer@.len() != self.capacity }
    // whether the next block is to be asked for now: nothing is outstanding and something is missing
    pub open spec fn due(&self) -> bool { self.expected_size != self.buffer@.len() + 1 && self.buffer@.len() != self.capacity }
    pub open spec fn frame(a: &Self, b: &Self) -> bool { a.capacity == b.capacity && a.message_filter == b.message_filter }
//@ fn MessageBuffer::new(message_filter, next_message, capacity) -> r
    ensures r.message_filter == message_filter, r.next_message == next_message, r.buffer@.len() == 0, r.capacity == capacity, r.expected_size == 0
//@ fn MessageBuffer::push_message(msg)
    ensures Self::frame(old(self), final(self)), final(self).expected_size == old(self).expected_size, final(self).next_message == old(self).next_message,
        final(self).buffer@ == if old(self).kept(msg) { old(self).buffer@.push(msg) } else { old(self).buffer@ }
//@ fn MessageBuffer::request_next_message(peer)
//@ ghost_params Ghost(vp_g): Ghost<spec_fn(PeerView, nat) -> Seq<u8>>
    requires old(self).wf(), good(old(self).next_message, old(self).capacity as nat, vp_g)
    ensures final(self).wf(), Self::frame(old(self), final(self)), final(self).buffer == old(self).buffer, good(final(self).next_message, old(self).capacity as nat, vp_g),
        final(peer).pv() == old(peer).pv(),
        if old(self).due() { final(self).expected_size == old(self).expected_size + 1 && wrote(&old(peer).stream, &final(peer).stream, vp_g(old(peer).pv(), old(self).buffer@.len())) }
        else { final(self).expected_size == old(self).expected_size && final(peer).stream == old(peer).stream }
//@ fn MessageBuffer::is_full() -> r
    ensures r == (old(self).buffer@.len() == old(self).capacity), *final(self) == *old(self)
//@ fn MessageBuffer::assemble_content() -> r
    ensures r@ == payloads(old(self).buffer@), final(self).buffer == old(self).buffer
//@ closure 0 |el: &Message| -> (o: Vec<u8>)
    ensures o@ == el.payload()
//@ entry
proof {
    assert forall|v: Seq<Vec<u8>>| v.len() == self.buffer@.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == self.buffer@[i].payload()) implies #[trigger] crate::vp_ext::flat_bytes(v) == payloads(self.buffer@) by { lemma_payloads(self.buffer@, v); }
}
//@ fn MessageBuffer::is_len_as_expected() -> r
    requires self.buffer@.len() < usize::MAX
    ensures r == (self.expected_size == self.buffer@.len() + 1)
//@ module peer::download
//@ prelude
use crate::peer::{PeerView, apply};
use crate::peer::buffer::{good, payloads};
use crate::peer::stream::{wrote, has_frame, keep_alive, frame_size, frame_body, frame_id, frame_length, read_step};
use crate::messages::{Message, ContentType, parses, content_of};
use crate::vp_ext::io::VpStream;
pub open spec fn accepting(f: crate::vp_fnptr::F) -> spec_fn(Message) -> bool { |m: Message| f.accepts(m) }
pub open spec fn is_block() -> spec_fn(Message) -> bool { |m: Message| m.content is Request }
pub open spec fn is_metadata() -> spec_fn(Message) -> bool { |m: Message| m.content is Extension && m.content->Extension_0.msg_type == Some(1usize) }
// what happens during a download: a message arrives, or the next block is asked for
pub enum Ev { Got(Message), Req(nat) }
// the state of the connection after these events
pub open spec fn state(p: PeerView, t: Seq<Ev>) -> PeerView decreases t.len() {
    if t.len() == 0 { p } else { match t.last() { Ev::Got(m) => apply(state(p, t.drop_last()), m.id, m.content), Ev::Req(i) => state(p, t.drop_last()) } }
}
pub open spec fn got(t: Seq<Ev>) -> Seq<Message> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { match t.last() { Ev::Got(m) => got(t.drop_last()).push(m), Ev::Req(i) => got(t.drop_last()) } }
}
// the messages that count as answers, at most cap of them
pub open spec fn answers(f: spec_fn(Message) -> bool, cap: nat, t: Seq<Ev>) -> Seq<Message> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else {
        let k = answers(f, cap, t.drop_last());
        match t.last() { Ev::Got(m) => if f(m) && k.len() < cap { k.push(m) } else { k }, Ev::Req(i) => k }
    }
}
pub open spec fn requests(t: Seq<Ev>) -> nat decreases t.len() {
    if t.len() == 0 { 0 } else { match t.last() { Ev::Got(m) => requests(t.drop_last()), Ev::Req(i) => requests(t.drop_last()) + 1 } }
}
// the bytes written to the peer for them
pub open spec fn asked(p: PeerView, t: Seq<Ev>, g: spec_fn(PeerView, nat) -> Seq<u8>) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { match t.last() { Ev::Got(m) => asked(p, t.drop_last(), g), Ev::Req(i) => asked(p, t.drop_last(), g) + g(state(p, t), i) } }
}
// every request is for the block behind those that have arrived, is made while not choked, and none is outstanding
pub open spec fn orderly(p: PeerView, f: spec_fn(Message) -> bool, cap: nat, t: Seq<Ev>) -> bool decreases t.len() {
    t.len() > 0 ==> orderly(p, f, cap, t.drop_last()) && match t.last() {
        Ev::Got(m) => true,
        Ev::Req(i) => i < cap && i == answers(f, cap, t.drop_last()).len() && requests(t.drop_last()) <= i && !state(p, t.drop_last()).choked,
    }
}
// the input behind n frames (keep-alives included), and the messages in those frames
pub open spec fn after(s: Seq<u8>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { s } else { let r = after(s, (n - 1) as nat); r.skip(frame_size(r) as int) }
}
pub open spec fn whole(s: Seq<u8>, n: nat) -> bool decreases n {
    n > 0 ==> whole(s, (n - 1) as nat) && frame_size(after(s, (n - 1) as nat)) <= after(s, (n - 1) as nat).len()
}
pub open spec fn is_message(r: Seq<u8>) -> bool { !keep_alive(r) && parses(frame_body(r), frame_id(r)) }
pub open spec fn message_of(m: Message, r: Seq<u8>) -> bool { m.id == frame_id(r) && m.length as nat == frame_length(r) && content_of(m.content, frame_body(r), frame_id(r)) }
pub open spec fn received(s: Seq<u8>, n: nat, ms: Seq<Message>) -> bool decreases n {
    if n == 0 { ms.len() == 0 } else {
        let r = after(s, (n - 1) as nat);
        if is_message(r) { ms.len() > 0 && message_of(ms.last(), r) && received(s, (n - 1) as nat, ms.drop_last()) } else { received(s, (n - 1) as nat, ms) }
    }
}
// everything between the state a and the state b of the connection is explained by the events t and n input frames
pub open spec fn explains(a: &Peer, b: &Peer, f: spec_fn(Message) -> bool, cap: nat, g: spec_fn(PeerView, nat) -> Seq<u8>, t: Seq<Ev>, n: nat) -> bool {
    &&& b.pv() == state(a.pv(), t)
    &&& whole(a.stream.inp(), n) && b.stream.inp() == after(a.stream.inp(), n) && received(a.stream.inp(), n, got(t))
    &&& orderly(a.pv(), f, cap, t)
    &&& a.stream.broken() ==> b.stream.broken()
    &&& b.stream.broken() || b.stream.sent() == a.stream.sent() + asked(a.pv(), t, g)
}
pub open spec fn ran(a: &Peer, b: &Peer, f: spec_fn(Message) -> bool, cap: nat, g: spec_fn(PeerView, nat) -> Seq<u8>) -> bool {
    exists|t: Seq<Ev>, n: nat| #[trigger] explains(a, b, f, cap, g, t, n)
}
pub open spec fn downloaded(a: &Peer, b: &Peer, f: spec_fn(Message) -> bool, cap: nat, g: spec_fn(PeerView, nat) -> Seq<u8>, c: Seq<u8>) -> bool {
    exists|t: Seq<Ev>, n: nat| #[trigger] explains(a, b, f, cap, g, t, n) && answers(f, cap, t).len() == cap && c == payloads(answers(f, cap, t))
}
// a download is given up only while the peer chokes the client or sends nothing, and never when everything has arrived
pub open spec fn choked_out(a: &Peer, b: &Peer, f: spec_fn(Message) -> bool, cap: nat, g: spec_fn(PeerView, nat) -> Seq<u8>) -> bool {
    b.pv().choked && exists|t: Seq<Ev>, n: nat| #[trigger] explains(a, b, f, cap, g, t, n) && answers(f, cap, t).len() < cap
}
pub open spec fn gave_up(a: &Peer, b: &Peer, f: spec_fn(Message) -> bool, cap: nat, g: spec_fn(PeerView, nat) -> Seq<u8>) -> bool { choked_out(a, b, f, cap, g) || silent(a, b, f, cap, g) }
pub open spec fn waited(a: &Peer, b0: &Peer, b1: &Peer, f: spec_fn(Message) -> bool, cap: nat, g: spec_fn(PeerView, nat) -> Seq<u8>, t: Seq<Ev>, n: nat) -> bool {
    explains(a, b0, f, cap, g, t, n) && Peer::read_from(b0, b1, None) && answers(f, cap, t).len() < cap
}
pub open spec fn silent(a: &Peer, b: &Peer, f: spec_fn(Message) -> bool, cap: nat, g: spec_fn(PeerView, nat) -> Seq<u8>) -> bool {
    exists|b0: Peer, b1: Peer, t: Seq<Ev>, n: nat| #[trigger] waited(a, &b0, &b1, f, cap, g, t, n)
        && b.pv() == b1.pv() && (b.stream == b1.stream || wrote(&b1.stream, &b.stream, g(b1.pv(), answers(f, cap, t).len())))
}
// a peer that sends no block before it is asked for is asked for every block exactly once, in order
pub open spec fn polite(f: spec_fn(Message) -> bool, cap: nat, t: Seq<Ev>) -> bool decreases t.len() {
    t.len() > 0 ==> polite(f, cap, t.drop_last()) && answers(f, cap, t).len() <= requests(t)
}
pub open spec fn asked_for(t: Seq<Ev>) -> Seq<nat> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { match t.last() { Ev::Got(m) => asked_for(t.drop_last()), Ev::Req(i) => asked_for(t.drop_last()).push(i) } }
}
pub proof fn each_block_asked_once(p: PeerView, f: spec_fn(Message) -> bool, cap: nat, t: Seq<Ev>)
    requires orderly(p, f, cap, t), polite(f, cap, t)
    ensures asked_for(t) =~= Seq::new(requests(t), |i: int| i as nat), requests(t) <= cap || cap == 0,
    decreases t.len()
{
    if t.len() > 0 {
        each_block_asked_once(p, f, cap, t.drop_last());
        let s = t.drop_last();
        assert(answers(f, cap, s).len() <= requests(s)) by { reveal_with_fuel(polite, 2); reveal_with_fuel(answers, 2); reveal_with_fuel(requests, 2); }
    }
}
pub open spec fn with(t: Seq<Ev>, m: Option<Message>) -> Seq<Ev> { match m { Some(x) => t.push(Ev::Got(x)), None => t } }
pub proof fn lemma_got(a: &Peer, b0: &Peer, b1: &Peer, b2: &Peer, m: Option<Message>, f: spec_fn(Message) -> bool, cap: nat, g: spec_fn(PeerView, nat) -> Seq<u8>, t: Seq<Ev>, n: nat)
    requires explains(a, b0, f, cap, g, t, n), Peer::read_from(b0, b1, m), b2.stream == b1.stream,
        match m { Some(x) => b2.pv() == apply(b1.pv(), x.id, x.content), None => b2.pv() == b1.pv() }
    ensures exists|n2: nat| #[trigger] explains(a, b2, f, cap, g, with(t, m), n2),
        m is Some ==> b2.stream.inp().len() < b0.stream.inp().len(), b2.stream.inp().len() <= b0.stream.inp().len()
{
    let t2 = with(t, m);
    if m is Some { assert(t2.drop_last() =~= t); assert(got(t2).drop_last() =~= got(t)); }
    let fr = choose|fr: Option<(Seq<u8>, u8, nat)>| #[trigger] read_step(&b0.stream, &b1.stream, fr) && match fr {
        Some(x) => if parses(x.0, x.1) { m is Some && m->Some_0.id == x.1 && m->Some_0.length as nat == x.2 && content_of(m->Some_0.content, x.0, x.1) } else { m is None },
        None => m is None,
    };
    let r = b0.stream.inp();
    if fr is Some || !(crate::peer::stream::kept(&b0.stream, &b1.stream)) {
        assert(after(a.stream.inp(), n + 1) == r.skip(frame_size(r) as int));
        assert(explains(a, b2, f, cap, g, t2, n + 1));
    } else {
        assert(explains(a, b2, f, cap, g, t2, n));
    }
}
pub proof fn lemma_req(a: &Peer, b0: &Peer, b1: &Peer, f: spec_fn(Message) -> bool, cap: nat, g: spec_fn(PeerView, nat) -> Seq<u8>, t: Seq<Ev>, n: nat, i: nat)
    requires explains(a, b0, f, cap, g, t, n), b0.pv() == b1.pv(), wrote(&b0.stream, &b1.stream, g(b0.pv(), i)), i < cap, i == answers(f, cap, t).len(), requests(t) <= i, !b0.pv().choked
    ensures explains(a, b1, f, cap, g, t.push(Ev::Req(i)), n)
{
    let t2 = t.push(Ev::Req(i));
    assert(t2.drop_last() =~= t);
    assert(a.stream.sent() + asked(a.pv(), t2, g) =~= a.stream.sent() + asked(a.pv(), t, g) + g(b0.pv(), i));
}
// the part of a piece that exists, and the blocks it is fetched in
pub open spec fn piece_len(pl: nat, idx: nat, total: nat) -> nat { if pl * (idx + 1) > total { (total - pl * idx) as nat } else { pl } }
pub open spec fn in_torrent(pl: nat, idx: nat, total: nat) -> bool { 0 < pl <= u32::MAX && idx <= u32::MAX && pl * idx < total <= i64::MAX }
pub open spec fn block_len(bs: nat, len: nat, i: nat) -> nat { if len - i * bs < bs { (len - i * bs) as nat } else { bs } }
pub open spec fn block_count(bs: nat, len: nat) -> nat { ceil_div(len, bs) }
pub open spec fn asks_block(bs: nat, pl: nat, idx: nat, total: nat) -> spec_fn(PeerView, nat) -> Seq<u8> {
    |p: PeerView, i: nat| block_request(idx, i * bs, block_len(bs, piece_len(pl, idx, total), i))
}
pub open spec fn block_request(idx: nat, offset: nat, len: nat) -> Seq<u8> { crate::vp_ext::be32(13) + seq![6u8] + crate::vp_ext::be32(idx) + crate::vp_ext::be32(offset) + crate::vp_ext::be32(len) }
pub open spec fn asks_info() -> spec_fn(PeerView, nat) -> Seq<u8> {
    |p: PeerView, i: nat| if p.extensions.dom().contains("ut_metadata"@) { metadata_request(p.extensions["ut_metadata"@], i) } else { Seq::<u8>::empty() }
}
pub open spec fn metadata_request(id: u8, i: nat) -> Seq<u8> { let m = crate::messages::metadata_text(i); crate::vp_ext::be32(m.len() + 2) + seq![20u8] + seq![id] + m }
pub proof fn lemma_block(bs: nat, len: nat, i: nat)
    requires bs > 0
    ensures i < block_count(bs, len) <==> i * bs < len, len > 0 ==> block_count(bs, len) > 0, block_count(bs, len) <= len
{
    let q = ((len + bs - 1) as nat) / bs;
    assert(q * bs <= len + bs - 1 && len + bs - 1 < (q + 1) * bs) by (nonlinear_arith) requires q == ((len + bs - 1) as nat) / bs, bs > 0;
    if i < q { assert((i + 1) * bs <= q * bs) by (nonlinear_arith) requires i < q; assert(i * bs + bs <= len + bs - 1) by (nonlinear_arith) requires (i + 1) * bs <= q * bs, q * bs <= len + bs - 1; }
    else { assert((q + 1) * bs <= (i + 1) * bs) by (nonlinear_arith) requires i >= q; assert(len <= i * bs) by (nonlinear_arith) requires (q + 1) * bs <= (i + 1) * bs, len + bs - 1 < (q + 1) * bs; }
    if len > 0 { assert(q > 0) by (nonlinear_arith) requires len + bs - 1 < (q + 1) * bs, len > 0, bs > 0; }
    assert(q <= len) by (nonlinear_arith) requires q * bs <= len + bs - 1, bs > 0;
}
// the blocks cover the piece: they are consecutive, not empty, within the piece, and end where it ends
pub proof fn blocks_cover_piece(bs: nat, pl: nat, idx: nat, total: nat, i: nat)
    requires bs > 0, in_torrent(pl, idx, total), i < block_count(bs, piece_len(pl, idx, total))
    ensures ({ let len = piece_len(pl, idx, total); let c = block_count(bs, len);
        &&& 0 < len <= pl && pl * idx + len <= total
        &&& 0 < block_len(bs, len, i) <= bs && i * bs + block_len(bs, len, i) <= len
        &&& i + 1 < c ==> i * bs + block_len(bs, len, i) == (i + 1) * bs
        &&& i + 1 == c ==> i * bs + block_len(bs, len, i) == len })
{
    let len = piece_len(pl, idx, total);
    assert(pl * (idx + 1) == pl * idx + pl) by (nonlinear_arith);
    assert((i + 1) * bs == i * bs + bs) by (nonlinear_arith);
    lemma_block(bs, len, i);
    lemma_block(bs, len, i + 1);
}
//@ fn Downloadable::download(peer) -> r
    requires match self { Downloadable::Info => true, Downloadable::Block(b) => in_torrent(b.0 as nat, b.1 as nat, b.2 as nat) }
    ensures match self {
        Downloadable::Info => ran(old(peer), final(peer), is_metadata(), block_count(16384, old(peer).pv().metadata_size), asks_info())
            && (r is Ok ==> downloaded(old(peer), final(peer), is_metadata(), block_count(16384, old(peer).pv().metadata_size), asks_info(), r->Ok_0@))
            && (r is Err ==> gave_up(old(peer), final(peer), is_metadata(), block_count(16384, old(peer).pv().metadata_size), asks_info())),
        Downloadable::Block(b) => ran(old(peer), final(peer), is_block(), block_count(16384, piece_len(b.0 as nat, b.1 as nat, b.2 as nat)), asks_block(16384, b.0 as nat, b.1 as nat, b.2 as nat))
            && (r is Ok ==> downloaded(old(peer), final(peer), is_block(), block_count(16384, piece_len(b.0 as nat, b.1 as nat, b.2 as nat)), asks_block(16384, b.0 as nat, b.1 as nat, b.2 as nat), r->Ok_0@))
            && (r is Err ==> gave_up(old(peer), final(peer), is_block(), block_count(16384, piece_len(b.0 as nat, b.1 as nat, b.2 as nat)), asks_block(16384, b.0 as nat, b.1 as nat, b.2 as nat))),
    }
//@ ghost_arg execute: Ghost(match self { Downloadable::Info => asks_info(), Downloadable::Block(b) => asks_block(16384, b.0 as nat, b.1 as nat, b.2 as nat) })
//@ entry
proof {
    assert forall|n: nat| #[trigger] ceil_div(n, 16384) <= n by { lemma_block(16384, n, 0); }
    if self is Block { let b = self->Block_0; blocks_cover_piece(16384, b.0 as nat, b.1 as nat, b.2 as nat, 0); }
}
//@ fn real_piece_length(piece_length, piece_index, total_length) -> r
    requires in_torrent(piece_length as nat, piece_index as nat, total_length as nat)
    ensures r == piece_len(piece_length as nat, piece_index as nat, total_length as nat)
//@ entry
proof { assert(piece_length * (piece_index + 1) == piece_length * piece_index + piece_length) by (nonlinear_arith); }
//@ fn execute(peer, buffer) -> r
//@ attr #[verifier::loop_isolation(false)]
//@ ghost_params Ghost(vp_g): Ghost<spec_fn(PeerView, nat) -> Seq<u8>>
    requires buffer.capacity < usize::MAX, buffer.buffer@.len() == 0, buffer.expected_size == 0, good(buffer.next_message, buffer.capacity as nat, vp_g)
    ensures ran(old(peer), final(peer), accepting(buffer.message_filter), buffer.capacity as nat, vp_g),
        r is Ok ==> downloaded(old(peer), final(peer), accepting(buffer.message_filter), buffer.capacity as nat, vp_g, r->Ok_0@),
        r is Err ==> gave_up(old(peer), final(peer), accepting(buffer.message_filter), buffer.capacity as nat, vp_g)
//@ locals idle_count message
//@ before_loop 0
let ghost vp_a = *peer;
let ghost vp_f = accepting(buffer.message_filter);
let ghost vp_cap = buffer.capacity as nat;
let ghost mut vp_t: Seq<Ev> = Seq::empty();
let ghost mut vp_n: nat = 0;
proof { assert(vp_a.stream.sent() + Seq::<u8>::empty() =~= vp_a.stream.sent()); assert(explains(&vp_a, peer, vp_f, vp_cap, vp_g, vp_t, vp_n)); }
//@ loop 0 loop
    invariant explains(&vp_a, peer, vp_f, vp_cap, vp_g, vp_t, vp_n), buffer.wf(), accepting(buffer.message_filter) == vp_f, buffer.capacity as nat == vp_cap, buffer.buffer@ == answers(vp_f, vp_cap, vp_t),
        buffer.expected_size == requests(vp_t), good(buffer.next_message, vp_cap, vp_g), 0 <= idle_count <= 10
    decreases peer.stream.inp().len(), 11 - idle_count
//@ loop_entry 0
let ghost vp_p0 = *peer;
let ghost mut vp_m: Option<Message> = None;
let ghost mut vp_p1: Option<Peer> = None;
//@ at peer.apply_message
proof { vp_m = Some(message); vp_p1 = Some(*peer); }
//@ at if buffer.is_full()
proof {
    if vp_m is None && buffer.buffer@.len() < vp_cap { assert(waited(&vp_a, &vp_p0, peer, vp_f, vp_cap, vp_g, vp_t, vp_n)); }
    let p1 = match vp_p1 { Some(p) => p, None => *peer };
    lemma_got(&vp_a, &vp_p0, &p1, peer, vp_m, vp_f, vp_cap, vp_g, vp_t, vp_n);
    if vp_m is Some { assert(with(vp_t, vp_m).drop_last() =~= vp_t); }
    vp_t = with(vp_t, vp_m);
    vp_n = choose|n2: nat| #[trigger] explains(&vp_a, peer, vp_f, vp_cap, vp_g, vp_t, n2);
}
let ghost vp_p2 = *peer;
let ghost vp_due = buffer.due();
//@ at after buffer.request_next_message
proof {
    if vp_due {
        let i = buffer.buffer@.len();
        lemma_req(&vp_a, &vp_p2, peer, vp_f, vp_cap, vp_g, vp_t, vp_n, i);
        assert(vp_t.push(Ev::Req(i)).drop_last() =~= vp_t);
        vp_t = vp_t.push(Ev::Req(i));
    }
    assert(explains(&vp_a, peer, vp_f, vp_cap, vp_g, vp_t, vp_n));
}
//@ ghost_arg request_next_message: Ghost(vp_g)
//@ module peer::download::block
//@ prelude
use crate::peer::stream::wrote;
use crate::peer::buffer::good;
use crate::peer::download::{in_torrent, piece_len, block_len, block_count, asks_block, block_request, lemma_block, accepting, is_block};
//@ fn next_block(block_size, piece_index, total_length, piece_length) -> r
    requires block_size > 0, in_torrent(piece_length as nat, piece_index as nat, total_length as nat)
    ensures good(r, block_count(block_size as nat, piece_len(piece_length as nat, piece_index as nat, total_length as nat)), asks_block(block_size as nat, piece_length as nat, piece_index as nat, total_length as nat))
//@ closure 0 |peer: &mut Peer, block_index: usize| -> (o: ())
    requires block_size > 0, in_torrent(piece_length as nat, piece_index as nat, total_length as nat), block_index < block_count(block_size as nat, piece_len(piece_length as nat, piece_index as nat, total_length as nat))
    ensures final(peer).pv() == old(peer).pv(), wrote(&old(peer).stream, &final(peer).stream, asks_block(block_size as nat, piece_length as nat, piece_index as nat, total_length as nat)(old(peer).pv(), block_index as nat))
//@ closure_entry 0
proof { crate::peer::download::blocks_cover_piece(block_size as nat, piece_length as nat, piece_index as nat, total_length as nat, block_index as nat); }
//@ fn message_filter() -> r
    ensures accepting(r) == is_block()
//@ exit
proof { assert(accepting(vp_ret) =~= is_block()); }
//@ fn get_block_size(block_offset, torrent_length, piece_offset, block_size, piece_length) -> r
    requires block_offset + piece_offset <= torrent_length, block_offset <= piece_length
    ensures r as int == vstd::math::min(vstd::math::min(torrent_length - (block_offset + piece_offset), piece_length - block_offset), block_size as int)
//@ module peer::download::info
//@ prelude
use crate::peer::stream::wrote;
use crate::peer::buffer::good;
use crate::peer::download::{asks_info, metadata_request, accepting, is_metadata};
//@ fn next_piece() -> r
    ensures good(r, usize::MAX as nat, asks_info())
//@ closure 0 |peer: &mut Peer, piece_index: usize| -> (o: ())
    ensures final(peer).pv() == old(peer).pv(), wrote(&old(peer).stream, &final(peer).stream, asks_info()(old(peer).pv(), piece_index as nat))
//@ fn message_filter() -> r
    ensures accepting(r) == is_metadata()
//@ exit
proof { assert(accepting(vp_ret) =~= is_metadata()); }
