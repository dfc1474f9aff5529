//@ module peer::stream
//@ prelude
use crate::vp_ext::{un_be32, be32, encode_utf8};
use crate::vp_ext::io::{VpStream, stream_same};
impl io::VpStream for StreamInterface {
    open spec fn inp(&self) -> Seq<u8> { match self { StreamInterface::Tcp(s) => io::VpStream::inp(s), StreamInterface::Mocked(s) => io::VpStream::inp(s), StreamInterface::Nothing() => Seq::empty() } }
    open spec fn avail(&self) -> nat { match self { StreamInterface::Tcp(s) => io::VpStream::avail(s), StreamInterface::Mocked(s) => io::VpStream::avail(s), StreamInterface::Nothing() => 0 } }
    open spec fn sent(&self) -> Seq<u8> { match self { StreamInterface::Tcp(s) => io::VpStream::sent(s), StreamInterface::Mocked(s) => io::VpStream::sent(s), StreamInterface::Nothing() => Seq::empty() } }
    open spec fn broken(&self) -> bool { match self { StreamInterface::Tcp(s) => io::VpStream::broken(s), StreamInterface::Mocked(s) => io::VpStream::broken(s), StreamInterface::Nothing() => true } }
    open spec fn bounded(&self) -> bool { match self { StreamInterface::Tcp(s) => io::VpStream::bounded(s), StreamInterface::Mocked(s) => io::VpStream::bounded(s), StreamInterface::Nothing() => true } }
}
// what changed is only the input that was taken, and how much of it is known to be available
pub open spec fn same_out(a: &StreamInterface, b: &StreamInterface) -> bool { a.sent() == b.sent() && a.broken() == b.broken() }
// the frame at the start of the input: its size, and what it carries (nothing: a keep-alive)
pub open spec fn frame_size(s: Seq<u8>) -> nat { if s.len() == 0 { 1 } else if s[0] == 19 { 68 } else if s.len() < 4 { 4 } else { 4 + un_be32(s.take(4)) } }
pub open spec fn keep_alive(s: Seq<u8>) -> bool { s.len() >= 4 && s[0] != 19 && un_be32(s.take(4)) == 0 }
pub open spec fn frame_body(s: Seq<u8>) -> Seq<u8> { if s[0] == 19 { s.take(68) } else { s.subrange(5, frame_size(s) as int) } }
pub open spec fn frame_id(s: Seq<u8>) -> u8 { if s[0] == 19 { 19 } else { s[4] } }
pub open spec fn frame_length(s: Seq<u8>) -> nat { if s[0] == 19 { 68 } else { (un_be32(s.take(4)) - 1) as nat } }
pub open spec fn has_frame(s: Seq<u8>) -> bool { s.len() > 0 && s.len() >= frame_size(s) && !keep_alive(s) }
pub open spec fn took(a: &StreamInterface, b: &StreamInterface, n: nat) -> bool { n <= a.inp().len() && b.inp() == a.inp().skip(n as int) && same_out(a, b) }
pub open spec fn kept(a: &StreamInterface, b: &StreamInterface) -> bool { b.inp() == a.inp() && b.avail() >= a.avail() && same_out(a, b) }
// one step of reading: a whole frame, a keep-alive or nothing is taken
pub open spec fn read_step(a: &StreamInterface, b: &StreamInterface, r: Option<(Seq<u8>, u8, nat)>) -> bool {
    match r {
        Some(x) => has_frame(a.inp()) && took(a, b, frame_size(a.inp())) && x.0 == frame_body(a.inp()) && x.1 == frame_id(a.inp()) && x.2 == frame_length(a.inp()),
        None => kept(a, b) && a.avail() < frame_size(a.inp()) || keep_alive(a.inp()) && took(a, b, 4),
    }
}
pub open spec fn frame_of(r: Option<(Vec<u8>, u8, u32)>) -> Option<(Seq<u8>, u8, nat)> { match r { Some(x) => Some((x.0@, x.1, x.2 as nat)), None => None } }
// everything is written, or the connection is lost
pub open spec fn wrote(a: &StreamInterface, b: &StreamInterface, m: Seq<u8>) -> bool { a.inp() == b.inp() && b.avail() >= a.avail() && (a.broken() ==> b.broken()) && (b.broken() || b.sent() == a.sent() + m) }
pub open spec fn extended_handshake() -> Seq<u8> { encode_utf8("d1:md11:ut_metadatai1e6:ut_pexi2ee13:metadata_sizei28282ee"@) }
pub open spec fn extended_handshake_message() -> Seq<u8> { be32(extended_handshake().len() + 2) + seq![20u8, 0u8] + extended_handshake() }
//@ fn Read@StreamInterface::read(buf) -> r
//@ entry
proof { assert(Seq::<u8>::empty().take(0) + buf@.skip(0) =~= buf@); assert(Seq::<u8>::empty().skip(0) =~= Seq::<u8>::empty()); }
//@ fn Write@StreamInterface::write(buf) -> r
//@ fn Write@StreamInterface::flush() -> r
//@ fn StreamInterface::connect(endpoint, mocked) -> r
    requires mocked || crate::vp_ext::net::is_socket_addr(endpoint@)
    ensures r is Ok ==> r->Ok_0.sent() == Seq::<u8>::empty() && !r->Ok_0.broken() && if mocked { r->Ok_0 is Mocked } else { r->Ok_0 is Tcp && r->Ok_0->Tcp_0.addr() == crate::vp_ext::net::address(endpoint@) },
        r is Ok <==> mocked || crate::vp_ext::net::reachable(endpoint@)
//@ fn StreamInterface::peek(buf) -> r
    requires old(self).bounded()
    ensures io::peek_post(old(self), final(self), old(buf)@, final(buf)@, r)
//@ entry
proof { assert(Seq::<u8>::empty().take(0) + buf@.skip(0) =~= buf@); }
//@ fn StreamInterface::set_read_timeout(duration) -> r
    ensures kept(old(self), final(self)), r is Ok && duration is Some ==> final(self).bounded(), r is Err ==> duration is Some && duration->Some_0.ms() == 0
//@ fn has_messages(stream) -> r
    requires old(stream).bounded()
    ensures kept(old(stream), final(stream)), final(stream).bounded(), r ==> final(stream).avail() > 0, !r ==> old(stream).avail() == 0
//@ fn peek_and_read(stream, body, length) -> r
    requires old(stream).bounded(), old(body)@.len() == length, length > 0
    ensures final(stream).bounded(), final(body)@.len() == length,
        if r { took(old(stream), final(stream), length as nat) && final(body)@ == old(stream).inp().take(length as int) } else { kept(old(stream), final(stream)) && old(stream).avail() < length }
//@ entry
proof {
    let i = stream.inp(); let n = length as int;
    assert forall|a: Seq<u8>, b: Seq<u8>| a.len() == n && b.len() == n implies #[trigger] (a + b.skip(n)) == a by { assert(a + b.skip(n) =~= a); }
    assert forall|b: Seq<u8>| b.len() == 0 implies b =~= i.take(0) by {}
    assert(i.skip(0) =~= i);
}
//@ fn wait_and_read(stream, length) -> r
    requires old(stream).bounded(), length > 0
    ensures match r { Some(b) => took(old(stream), final(stream), length as nat) && b@ == old(stream).inp().take(length as int), None => kept(old(stream), final(stream)) && old(stream).avail() < length }
//@ locals buffer retry
//@ loop 0 for it
    invariant length > 0, kept(old(stream), stream), stream.bounded(), buffer@.len() == length, it.seq().len() > 0, it.index@ > 0 ==> old(stream).avail() < length,
//@ fn wait_prefix(stream) -> r
    requires old(stream).bounded()
    ensures kept(old(stream), final(stream)), final(stream).bounded(), match r { Some(p) => old(stream).inp().len() >= 4 && p@ == old(stream).inp().take(4), None => old(stream).avail() < 4 && old(stream).avail() <= old(stream).inp().len() }
//@ locals prefix retry
//@ entry
proof {
    let i = stream.inp();
    assert forall|b: Seq<u8>| b.len() == 4 && i.len() >= 4 implies #[trigger] (i.take(4) + b.skip(4)) == i.take(4) by { assert(i.take(4) + b.skip(4) =~= i.take(4)); }
}
//@ loop 0 for it
    invariant kept(old(stream), stream), stream.bounded(), it.seq().len() > 0, it.index@ > 0 ==> old(stream).avail() < 4 && old(stream).avail() <= old(stream).inp().len(),
        forall|b: Seq<u8>| b.len() == 4 && old(stream).inp().len() >= 4 ==> #[trigger] (old(stream).inp().take(4) + b.skip(4)) == old(stream).inp().take(4),
//@ fn read_stream(stream) -> r
    ensures read_step(old(stream), final(stream), frame_of(r))
//@ locals prefix handshake length frame
//@ entry
let ghost i = stream.inp();
proof {
    assert forall|n: int| 5 <= n <= i.len() implies (#[trigger] i.take(n)).subrange(5, n) == i.subrange(5, n) && i.take(n)[4] == i[4] by { assert(i.take(n).subrange(5, n) =~= i.subrange(5, n)); }
    assert(i.skip(0) =~= i);
}
//@ fn write_stream(stream, buffer) -> r
    ensures wrote(old(stream), final(stream), buffer@)
//@ fn send_metadata_handshake_request(stream) -> r
    ensures wrote(old(stream), final(stream), extended_handshake_message()), r is Err ==> final(stream).broken()
//@ entry
proof {
    reveal_strlit("d1:md11:ut_metadatai1e6:ut_pexi2ee13:metadata_sizei28282ee");
    vstd::utf8::is_ascii_chars_encode_utf8("d1:md11:ut_metadatai1e6:ut_pexi2ee13:metadata_sizei28282ee"@);
    assert(extended_handshake().len() == 58);
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| b.len() == 1 && b[0] == 20 && c.len() == 1 && c[0] == 0 implies #[trigger] (a + b + c + d) == a + seq![20u8, 0u8] + d by { assert(a + b + c + d =~= a + seq![20u8, 0u8] + d); }
}
