//@ module tracker::peer_endpoint
//@ prelude
use crate::vp_ext::dec;
pub open spec fn dbg_u8(b: u8) -> Seq<char> { dec(b as nat) }
// dotted decimal text of four bytes
pub open spec fn dotted(b: Seq<u8>) -> Seq<char> { dec(b[0] as nat) + "."@ + dec(b[1] as nat) + "."@ + dec(b[2] as nat) + "."@ + dec(b[3] as nat) }
pub open spec fn port_of(b: Seq<u8>) -> u16 { (b[4] as nat * 256 + b[5] as nat) as u16 }
// entry i of a compact peer list
pub open spec fn entry(b: Seq<u8>, i: int) -> Seq<u8> { b.subrange(6 * i, 6 * i + 6) }
pub open spec fn is_peers(b: Seq<u8>, p: Seq<PeerEndpoint>) -> bool {
    p.len() == b.len() / 6 && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0@ == dotted(entry(b, i)) && p[i].1 == port_of(entry(b, i))
}
pub open spec fn ok_prefix(b: Seq<u8>, p: Seq<PeerEndpoint>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0@ == dotted(entry(b, i)) && p[i].1 == port_of(entry(b, i)) }
pub proof fn lemma_port() ensures forall|h: u8, l: u8| #[trigger] (((h as u16) << 8u16) | (l as u16)) == (h as nat * 256 + l as nat) as u16 {
    assert forall|h: u8, l: u8| #[trigger] (((h as u16) << 8u16) | (l as u16)) == (h as nat * 256 + l as nat) as u16 by {
        assert((((h as u16) << 8u16) | (l as u16)) == (h as u16) * 256 + (l as u16)) by (bit_vector);
    }
}
//@ impl PeerEndpoint
    // ip:port
    pub open spec fn text(&self) -> Seq<char> { self.0@ + ":"@ + dec(self.1 as nat) }
//@ fn PeerEndpoint::from_bytes(bytes) -> r
    ensures is_peers(bytes@, r@)
//@ locals peers_info chunk ip port
//@ loop 0 for it
    invariant it.seq().len() == bytes@.len() / 6, forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == entry(bytes@, i),
        peers_info@.len() == it.index@, ok_prefix(bytes@, peers_info@),
//@ loop_entry 0
proof { lemma_port(); assert(chunk@ == entry(bytes@, it.index@ as int)); }
//@ loop_end 0
proof { assert(ip@ =~= dotted(chunk@)); }
//@ fn PeerEndpoint::is_reachable(endpoint) -> r
    ensures r == crate::vp_ext::net::reachable(endpoint@)
//@ fn PeerEndpoint::endpoint() -> r
    ensures r@ == self.text()
//@ exit
proof { assert(vp_ret@ =~= self.text()); }
//@ fn PeerEndpoint::ip() -> r
    ensures r@ == self.0@
//@ fn PeerEndpoint::port() -> r
    ensures r == self.1

//@ module tracker::tcp_tracker
//@ prelude
use crate::vp_benc::*;
use crate::bencode::metainfo::{mv, bget};
use crate::vp_ext::ureq;
use crate::vp_ext::urlencoding::{pct, pct1, hex_digit, unreserved};
pub open spec fn query(base: Seq<char>, hash: Seq<u8>, peer: Seq<char>) -> Seq<char> { base + "?info_hash="@ + pct(hash) + "&peer_id="@ + peer }
// what a tracker reads from a percent-encoded value
pub open spec fn unhex_digit(c: char) -> int { if c as int <= 57 { c as int - 48 } else { c as int - 55 } }
pub open spec fn unpct(s: Seq<char>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == '%' && s.len() >= 3 { seq![(unhex_digit(s[1]) * 16 + unhex_digit(s[2])) as u8] + unpct(s.skip(3)) }
    else { seq![s[0] as u8] + unpct(s.skip(1)) }
}
pub proof fn lemma_pct_front(b: Seq<u8>)
    requires b.len() > 0 ensures pct(b) == pct1(b[0]) + pct(b.skip(1)) decreases b.len()
{
    reveal_with_fuel(pct, 2);
    if b.len() == 1 { assert(b.drop_last() =~= Seq::empty()); assert(b.skip(1) =~= Seq::empty()); assert(pct(b) =~= pct1(b[0]) + pct(b.skip(1))); }
    else {
        lemma_pct_front(b.drop_last());
        assert(b.drop_last().skip(1) =~= b.skip(1).drop_last());
        assert(pct(b) =~= pct1(b[0]) + pct(b.skip(1)));
    }
}
// the tracker reads exactly the bytes of the info hash, and nothing in them ends the parameter
pub proof fn hash_arrives(b: Seq<u8>)
    ensures unpct(pct(b)) == b, forall|i: int| 0 <= i < pct(b).len() ==> !#[trigger] ends_value(pct(b)[i])
    decreases b.len()
{
    if b.len() == 0 { assert(unpct(pct(b)) =~= b); }
    else {
        lemma_pct_front(b); hash_arrives(b.skip(1));
        let p = pct1(b[0]); let q = pct(b.skip(1)); let x = b[0];
        assert(!unreserved(x) ==> unhex_digit(hex_digit(x / 16)) == x / 16 && unhex_digit(hex_digit(x % 16)) == x % 16 && (x / 16) * 16 + x % 16 == x);
        assert((p + q).skip(p.len() as int) =~= q);
        assert(unpct(p + q) =~= seq![x] + unpct(q));
        assert(seq![x] + b.skip(1) =~= b);
        assert forall|i: int| 0 <= i < pct(b).len() implies !#[trigger] ends_value(pct(b)[i]) by { if i < p.len() { assert(pct(b)[i] == p[i]); } else { assert(pct(b)[i] == q[i - p.len()]); } }
    }
}
pub open spec fn ends_value(c: char) -> bool { c == '&' || c == '#' || c == '=' || c == '+' || c == ' ' || c == ';' }
// the compact peer list in the body of an answer
pub open spec fn peers_in(body: Seq<u8>) -> Option<Seq<u8>> {
    match dec_at(body, 0, 0) { Some((v, e)) => match bget(v, "peers"@) { Some(BV::Str(b)) => Some(b), _ => None }, None => None }
}
// the peers that a GET of this address yields
pub open spec fn http_peers(url: Seq<char>) -> Option<Seq<u8>> {
    match ureq::served(url) { Some(a) => if a.complete() { peers_in(a.body()) } else { None }, None => None }
}
//@ fn call(info_hash, peer_id, tracker) -> r
    ensures match r { Ok(p) => http_peers(query(tracker.text(), info_hash@, peer_id@)) == Some(p@), Err(_) => http_peers(query(tracker.text(), info_hash@, peer_id@)) is None }
//@ locals url_encoded_info_hash url response bytes tracker_metainfo
//@ fn call_tracker_for_peers(url) -> r
    ensures match r { Ok(a) => ureq::served(url@) == Some(a), Err(_) => ureq::served(url@) is None }

//@ module tracker::udp_tracker
//@ prelude
use crate::vp_ext::{be32, encode_utf8, dec, UdpEv, World, same_fs};
use crate::vp_ext::tokio::net::{received, no_sockets, unresolved};
pub open spec fn tx() -> Seq<u8> { seq![0u8, 1u8, 25u8, 158u8] }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn connect_packet(t: Seq<u8>) -> Seq<u8> { seq![0u8, 0u8, 4u8, 23u8, 39u8, 16u8, 25u8, 128u8] + be32(0) + t }
pub open spec fn announce_packet(cid: Seq<u8>, t: Seq<u8>, hash: Seq<u8>, peer: Seq<u8>) -> Seq<u8> {
    cid + be32(1) + t + hash + peer + zeros(8) + zeros(8) + zeros(8) + be32(0) + be32(0) + be32(0) + be32(0xffff_ffff) + seq![0x1fu8, 0x40u8]
}
pub open spec fn reply_to(d: Seq<u8>, action: nat, t: Seq<u8>) -> bool { d.len() >= 8 && d.take(4) == be32(action) && d.subrange(4, 8) == t }
pub open spec fn connect_reply(d: Seq<u8>, t: Seq<u8>) -> bool { d.len() >= 16 && reply_to(d, 0, t) }
pub open spec fn announce_reply(d: Seq<u8>, t: Seq<u8>) -> bool { d.len() >= 26 && reply_to(d, 1, t) }
// the events of w that are not yet in o
pub open spec fn extends(o: Seq<UdpEv>, w: Seq<UdpEv>) -> bool { o.len() <= w.len() && forall|i: int| 0 <= i < o.len() ==> #[trigger] w[i] == o[i] }
pub open spec fn only_sends(s: Seq<UdpEv>, from: int, p: Seq<u8>) -> bool { forall|i: int| from <= i < s.len() && (#[trigger] s[i]) is Sent ==> s[i] == UdpEv::Sent(p) }
// what a datagram says, read from the buffer that holds it
pub proof fn lemma_datagram()
    ensures forall|e: UdpEv, b: Seq<u8>, n: nat| #[trigger] received(e, b, n) && n >= 8 ==> e->Received_0.take(4) == b.take(4) && e->Received_0.subrange(4, 8) == b.subrange(4, 8),
        forall|e: UdpEv, b: Seq<u8>, n: nat| #[trigger] received(e, b, n) && n >= 16 ==> e->Received_0.subrange(8, 16) == b.subrange(8, 16),
        forall|e: UdpEv, b: Seq<u8>, n: nat| #[trigger] received(e, b, n) && n >= 20 ==> e->Received_0.subrange(20, n as int) == b.subrange(20, n as int) && e->Received_0.subrange(20, e->Received_0.len() as int) == e->Received_0.skip(20),
{
    assert forall|e: UdpEv, b: Seq<u8>, n: nat| #[trigger] received(e, b, n) && n >= 8 implies e->Received_0.take(4) == b.take(4) && e->Received_0.subrange(4, 8) == b.subrange(4, 8) by {
        assert(e->Received_0.take(4) =~= b.take(4)); assert(e->Received_0.subrange(4, 8) =~= b.subrange(4, 8)); }
    assert forall|e: UdpEv, b: Seq<u8>, n: nat| #[trigger] received(e, b, n) && n >= 16 implies e->Received_0.subrange(8, 16) == b.subrange(8, 16) by { assert(e->Received_0.subrange(8, 16) =~= b.subrange(8, 16)); }
    assert forall|e: UdpEv, b: Seq<u8>, n: nat| #[trigger] received(e, b, n) && n >= 20 implies e->Received_0.subrange(20, n as int) == b.subrange(20, n as int) && e->Received_0.subrange(20, e->Received_0.len() as int) == e->Received_0.skip(20) by {
        assert(e->Received_0.subrange(20, n as int) =~= b.subrange(20, n as int)); assert(e->Received_0.subrange(20, e->Received_0.len() as int) =~= e->Received_0.skip(20)); }
}
pub open spec fn quiet(a: &World, b: &World) -> bool { same_fs(a, b) && a.sends() == b.sends() }
// the exchange behind a peer list: connect, connection packets, a reply to them, one announce for that connection, its reply
pub open spec fn udp_answer(host: Seq<char>, hash: Seq<u8>, peer: Seq<u8>, o: Seq<UdpEv>, w: Seq<UdpEv>, p: Seq<u8>) -> bool {
    let n = w.len() - 3; let c = w[n]->Received_0; let d = w[n + 2]->Received_0;
    &&& o.len() + 1 < n && extends(o, w)
    &&& w[o.len() as int] == UdpEv::Connect(host)
    &&& forall|i: int| o.len() < i < n && (#[trigger] w[i]) is Sent ==> w[i] == UdpEv::Sent(connect_packet(tx()))
    &&& w[n] is Received && connect_reply(c, tx())
    &&& w[n + 1] == UdpEv::Sent(announce_packet(c.subrange(8, 16), tx(), hash, peer))
    &&& w[n + 2] is Received && announce_reply(d, tx())
    &&& d.len() <= 4000 ==> p == d.skip(20)
    &&& 20 + p.len() <= d.len() && p == d.subrange(20, 20 + p.len() as int) && (d.len() > 4000 ==> p.len() >= 3980)
}
pub open spec fn valid_announce(w: Seq<UdpEv>, k: int, hash: Seq<u8>, peer: Seq<u8>) -> bool { w[k] == UdpEv::Sent(announce_packet(w[k - 1]->Received_0.subrange(8, 16), tx(), hash, peer)) }
pub open spec fn no_reply(o: Seq<UdpEv>, w: Seq<UdpEv>, t: Seq<u8>) -> bool { forall|i: int| o.len() <= i < w.len() && (#[trigger] w[i]) is Received ==> !connect_reply(w[i]->Received_0, t) }
pub open spec fn host_port(u: &Url) -> Seq<char> { u.shost()->Some_0 + ":"@ + dec(u.sport()->Some_0 as nat) }
// why a tracker yields nothing: it cannot be asked, it did not accept the connection, or the announce was sent to it and not answered
pub open spec fn udp_silence(u: &Url, hash: Seq<u8>, peer: Seq<u8>, o: Seq<UdpEv>, w: Seq<UdpEv>) -> bool {
    ||| no_sockets() || u.shost() is None || u.sport() is None
    ||| unresolved(host_port(u))
    ||| w.len() >= o.len() + 2 && w[o.len() as int] == UdpEv::Connect(host_port(u)) && w[o.len() as int + 1] == UdpEv::Sent(connect_packet(tx())) && no_reply(o, w, tx())
    ||| w.len() >= o.len() + 2 && valid_announce(w, w.len() - 1, hash, peer)
    ||| w.len() >= o.len() + 3 && valid_announce(w, w.len() - 2, hash, peer) && w.last() is Received && !announce_reply(w.last()->Received_0, tx())
}
//@ fn is_response_to(response, action, transaction_id) -> r
    requires response@.len() >= 8
    ensures r == (response@.take(4) == action@ && response@.subrange(4, 8) == transaction_id@)
//@ fn call(info_hash, peer_id, tracker_url) -> r
    ensures quiet(old(vp_w), final(vp_w)), r is Ok ==> tracker_url.shost() is Some && tracker_url.sport() is Some
        && udp_answer(tracker_url.shost()->Some_0 + ":"@ + dec(tracker_url.sport()->Some_0 as nat), info_hash@, encode_utf8(peer_id@), old(vp_w).udp(), final(vp_w).udp(), r->Ok_0@),
        r is Err ==> udp_silence(tracker_url, info_hash@, encode_utf8(peer_id@), old(vp_w).udp(), final(vp_w).udp())
//@ entry
proof {
    lemma_datagram(); assert(be32(1) =~= ANNOUNCE_ACTION@);
    assert forall|b: Seq<u8>, n: int, a: int, c: int| 0 <= a <= c <= n <= b.len() implies #[trigger] b.subrange(0, n).subrange(a, c) == b.subrange(a, c) by { assert(b.subrange(0, n).subrange(a, c) =~= b.subrange(a, c)); }
    assert forall|t: Seq<char>, h: Seq<char>, p: Seq<char>| true implies #[trigger] (Seq::<char>::empty() + h + t + p) == h + t + p by { assert(Seq::<char>::empty() + h =~= h); }
}
//@ fn connect_to_tracker(transaction_id, socket) -> r
    ensures quiet(old(vp_w), final(vp_w)), extends(old(vp_w).udp(), final(vp_w).udp()), only_sends(final(vp_w).udp(), old(vp_w).udp().len() as int, connect_packet(transaction_id@)),
        r is Ok ==> final(vp_w).udp().len() >= old(vp_w).udp().len() + 2 && final(vp_w).udp().last() is Received
            && connect_reply(final(vp_w).udp().last()->Received_0, transaction_id@) && r->Ok_0@ == final(vp_w).udp().last()->Received_0.subrange(8, 16),
        r is Err ==> no_reply(old(vp_w).udp(), final(vp_w).udp(), transaction_id@) && final(vp_w).udp().len() > old(vp_w).udp().len() && final(vp_w).udp()[old(vp_w).udp().len() as int] == UdpEv::Sent(connect_packet(transaction_id@))
//@ locals message buf retry resp_size
//@ loop 0 for it
    invariant quiet(old(vp_w), vp_w), extends(old(vp_w).udp(), vp_w.udp()), only_sends(vp_w.udp(), old(vp_w).udp().len() as int, connect_packet(transaction_id@)), message@ == connect_packet(transaction_id@),
        no_reply(old(vp_w).udp(), vp_w.udp(), transaction_id@), it.index@ == 0 ==> vp_w.udp() == old(vp_w).udp(), it.index@ > 0 ==> vp_w.udp().len() > old(vp_w).udp().len() && vp_w.udp()[old(vp_w).udp().len() as int] == UdpEv::Sent(connect_packet(transaction_id@)),
//@ loop_entry 0
proof { lemma_datagram(); assert(be32(0) =~= CONNECT_ACTION@); assert forall|s: Seq<u8>| true implies #[trigger] s.take(4) == s.subrange(0, 4) by {} }
//@ fn read_upd_packet(socket, buffer) -> r
    ensures quiet(old(vp_w), final(vp_w)), final(buffer)@.len() == old(buffer)@.len(),
        match r { Ok(n) => n <= old(buffer)@.len() && final(vp_w).udp() == old(vp_w).udp().push(final(vp_w).udp().last()) && received(final(vp_w).udp().last(), final(buffer)@, n as nat), Err(_) => final(vp_w).udp() == old(vp_w).udp() }
//@ fn send_upd_packet(socket, message) -> r
    ensures quiet(old(vp_w), final(vp_w)), final(vp_w).udp() == old(vp_w).udp().push(UdpEv::Sent(message@))
//@ fn make_connection_message(transaction_id) -> r
    ensures r@ =~= connect_packet(transaction_id@)
//@ fn make_announce_message(transaction_id, connection_id, peer_id, info_hash) -> r
    ensures r@ =~= announce_packet(connection_id@, transaction_id@, info_hash@, peer_id@)

//@ module tracker
//@ prelude
use crate::vp_ext::{encode_utf8, dec, World, UdpEv};
use crate::tracker::peer_endpoint::is_peers;
use crate::tracker::tcp_tracker::{http_peers, query};
use crate::tracker::udp_tracker::{udp_answer, udp_silence, quiet};
use crate::common::generator::is_peer_id;
// what a tracker was asked and answered, up to the peer id that was used
pub open spec fn answered_by(tracker: &Url, hash: Seq<u8>, id: Seq<char>, o: Seq<UdpEv>, w: Seq<UdpEv>, p: Seq<u8>) -> bool {
    &&& tracker.sscheme() == "http"@ || tracker.sscheme() == "udp"@
    &&& tracker.sscheme() == "http"@ ==> http_peers(query(tracker.text(), hash, id)) == Some(p)
    &&& tracker.sscheme() == "udp"@ ==> tracker.shost() is Some && tracker.sport() is Some
        && udp_answer(tracker.shost()->Some_0 + ":"@ + dec(tracker.sport()->Some_0 as nat), hash, encode_utf8(id), o, w, p)
}
pub open spec fn tracker_answer(tracker: &Url, hash: Seq<u8>, o: Seq<UdpEv>, w: Seq<UdpEv>, peers: Seq<PeerEndpoint>) -> bool {
    exists|id: Seq<char>, p: Seq<u8>| is_peer_id(id) && is_peers(p, peers) && #[trigger] answered_by(tracker, hash, id, o, w, p)
}
// a tracker yields nothing only if it could not be asked, or did not answer
pub open spec fn tracker_silence(tracker: &Url, hash: Seq<u8>, o: Seq<UdpEv>, w: Seq<UdpEv>) -> bool {
    &&& tracker.sscheme() == "udp"@ ==> exists|id: Seq<char>| is_peer_id(id) && #[trigger] udp_silence(tracker, hash, encode_utf8(id), o, w)
    &&& tracker.sscheme() == "http"@ ==> exists|id: Seq<char>| is_peer_id(id) && #[trigger] http_peers(query(tracker.text(), hash, id)) is None
}
//@ fn get_peers_by_tracker(tracker, info_hash) -> r
    ensures quiet(old(vp_w), final(vp_w)), r is Ok ==> tracker_answer(tracker, info_hash@, old(vp_w).udp(), final(vp_w).udp(), r->Ok_0@),
        r is Err ==> tracker_silence(tracker, info_hash@, old(vp_w).udp(), final(vp_w).udp())
//@ entry
proof { reveal_strlit("http"); reveal_strlit("udp"); assert("http"@.len() == 4 && "udp"@.len() == 3); }
//@ exit
proof {
    assert("http"@.len() == 4 && "udp"@.len() == 3);
    assert(answered_by(tracker, info_hash@, peer_id@, old(vp_w).udp(), vp_w.udp(), response@));
}
