//@ module torrent::writer
//@ prelude
use crate::torrent::file::{FileView, fviews, vfviews, strs, safe_path, safe_name};
use crate::torrent::info::{lens, lemma_lens_mono};
use crate::vp_ext::{World, WriteEv, encode_utf8};
use crate::vp_ext::exts::joined;
// where a byte of the torrent lands: the files lie one after the other
pub open spec fn file_path(f: FileView) -> Seq<char> { joined(f.path, "/"@) }
// this write puts bytes of the piece, and nothing else, at their place in file i
pub open spec fn places(e: WriteEv, f: Seq<FileView>, i: int, off: int, piece: Seq<u8>) -> bool {
    &&& 0 <= i < f.len() && e.path == file_path(f[i]) && e.off + e.data.len() <= f[i].length
    &&& off <= lens(f.take(i)) + e.off && lens(f.take(i)) + e.off + e.data.len() <= off + piece.len()
    &&& e.data == piece.subrange(lens(f.take(i)) + e.off - off, lens(f.take(i)) + e.off - off + e.data.len())
}
pub open spec fn ev_ok(e: WriteEv, f: Seq<FileView>, off: int, piece: Seq<u8>) -> bool { exists|i: int| #[trigger] places(e, f, i, off, piece) }
// byte p of the torrent is written by this write to file i
pub open spec fn hits(e: WriteEv, f: Seq<FileView>, i: int, p: int) -> bool {
    0 <= i < f.len() && e.path == file_path(f[i]) && lens(f.take(i)) + e.off <= p < lens(f.take(i)) + e.off + e.data.len()
}
pub open spec fn written(es: Seq<WriteEv>, f: Seq<FileView>, p: int) -> bool { exists|k: int, i: int| 0 <= k < es.len() && #[trigger] hits(es[k], f, i, p) }
// the whole piece is written at its place, and nothing else is
pub open spec fn piece_written(es: Seq<WriteEv>, f: Seq<FileView>, off: int, piece: Seq<u8>) -> bool {
    &&& forall|k: int| 0 <= k < es.len() ==> ev_ok(#[trigger] es[k], f, off, piece)
    &&& forall|p: int| off <= p < off + piece.len() && p < lens(f) ==> #[trigger] written(es, f, p)
}
pub open spec fn evs(w: Seq<FileWriter>) -> Seq<WriteEv> { Seq::new(w.len(), |k: int| w[k].ev()) }
pub open spec fn of_file(w: FileWriter, f: Seq<FileView>) -> bool { exists|i: int| 0 <= i < f.len() && strs(w.path@) == (#[trigger] f[i]).path }
proof fn lemma_push_written(w: Seq<FileWriter>, x: FileWriter, f: Seq<FileView>, n: int, p: int)
    requires hits(x.ev(), f, n, p) || written(evs(w), f, p) ensures written(evs(w.push(x)), f, p)
{
    let a = evs(w); let b = evs(w.push(x));
    if hits(x.ev(), f, n, p) { assert(b[w.len() as int] == x.ev()); assert(hits(b[w.len() as int], f, n, p)); }
    else { let (k, i) = choose|k: int, i: int| 0 <= k < a.len() && #[trigger] hits(a[k], f, i, p); assert(b[k] == a[k]); assert(hits(b[k], f, i, p)); }
}
// a relative path of safe names is not empty and does not start with a slash
proof fn lemma_joined_first(p: Seq<Seq<char>>) requires safe_path(p) ensures joined(p, "/"@).len() > 0, joined(p, "/"@)[0] == p[0][0], joined(p, "/"@)[0] != '/' decreases p.len() {
    let c = p[0];
    assert(safe_name(p[0]));
    if c[0] == '/' {
        assert(c =~= seq!['/'] + c.drop_first());
        vstd::utf8::encode_utf8_concat(seq!['/'], c.drop_first());
        vstd::utf8::is_ascii_chars_encode_utf8(seq!['/']);
        assert(encode_utf8(c)[0] == 47);
    }
    if p.len() > 1 { assert forall|i: int| 0 <= i < p.drop_last().len() implies safe_name(#[trigger] p.drop_last()[i]) by { assert(safe_name(p[i])); } lemma_joined_first(p.drop_last()); }
}
pub trait VpEv: Sized { spec fn e(self) -> WriteEv; }
impl VpEv for FileWriter { open spec fn e(self) -> WriteEv { self.ev() } }
impl<'a> VpEv for &'a FileWriter { open spec fn e(self) -> WriteEv { self.ev() } }
pub open spec fn ievs<T: VpEv>(s: Seq<T>) -> Seq<WriteEv> { Seq::new(s.len(), |k: int| s[k].e()) }
//@ impl FileWriter
    pub open spec fn w(&self) -> &FileWriter { self }
    pub open spec fn ev(&self) -> WriteEv { WriteEv { path: joined(strs(self.path@), "/"@), off: self.start as nat, data: self.piece@ } }
//@ fn FileWriter::new(path, start, end, piece) -> r
    ensures r.path == path, r.start == start, r.piece == piece,
//@ fn FileWriter::write_to_filesystem() -> r
    requires safe_path(strs(self.path@))
    ensures final(vp_w).writes() == old(vp_w).writes().push(self.ev()), final(vp_w).truncated() == old(vp_w).truncated(), final(vp_w).saved() == old(vp_w).saved(),
        final(vp_w).sends() == old(vp_w).sends(), final(vp_w).udp() == old(vp_w).udp(),
//@ entry
proof { lemma_joined_first(strs(self.path@)); }
//@ fn FileParser::new(piece_length, piece_index, default_piece_length) -> r
    requires piece_index * default_piece_length <= usize::MAX
    ensures r.piece_length == piece_length, r.offset == piece_index * default_piece_length, r.start_file_index == r.offset, r.right_file_boundary == 0, r.end_file_index == 0
//@ fn FileParser::update_start_file_index() -> r
    ensures *final(self) == (FileParser { start_file_index: old(self).end_file_index, ..*old(self) })
//@ fn FileParser::update_right_file_boundary(file_length) -> r
    requires old(self).right_file_boundary + file_length <= usize::MAX
    ensures *final(self) == (FileParser { right_file_boundary: (old(self).right_file_boundary + file_length) as usize, ..*old(self) })
//@ fn FileParser::update_end_file_index() -> r
    requires old(self).offset + old(self).piece_length <= usize::MAX
    ensures *final(self) == (FileParser { end_file_index: if old(self).right_file_boundary <= old(self).offset + old(self).piece_length { old(self).right_file_boundary } else { (old(self).offset + old(self).piece_length) as usize }, ..*old(self) })
//@ fn FileParser::get_start_piece_index() -> r
    requires self.start_file_index >= self.offset
    ensures r == self.start_file_index - self.offset
//@ fn FileParser::get_end_piece_index() -> r
    requires self.end_file_index >= self.offset
    ensures r == self.end_file_index - self.offset
//@ fn FileParser::get_start_file_index(file_length) -> r
    requires file_length <= self.right_file_boundary <= self.start_file_index + file_length
    ensures r == self.start_file_index - (self.right_file_boundary - file_length)
//@ fn FileParser::get_end_file_index(file_length) -> r
    requires file_length <= self.right_file_boundary <= self.end_file_index + file_length
    ensures r == self.end_file_index - (self.right_file_boundary - file_length)
//@ fn FileParser::is_piece_in_file() -> r
    ensures r == (self.offset < self.right_file_boundary)
//@ fn FileParser::is_piece_finished() -> r
    requires self.offset + self.piece_length <= usize::MAX
    ensures r == (self.offset + self.piece_length > self.right_file_boundary)
//@ fn get_file_writers(files, piece, idx, piece_length) -> r
    requires lens(vfviews(files)) <= usize::MAX, idx * piece_length + piece.len() <= usize::MAX
    ensures piece_written(evs(r@), vfviews(files), idx * piece_length, piece@), forall|k: int| 0 <= k < r@.len() ==> of_file(#[trigger] r@[k], vfviews(files)),
//@ locals file_parser files_to_write file file_length
//@ entry
let ghost fs = vfviews(files); let ghost off: int = idx * piece_length; let ghost data = piece@;
//@ before_loop 0
proof { assert(fs.take(0) =~= Seq::empty()); }
//@ loop 0 for it
    invariant it.seq().len() == fs.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).fv() == fs[i],
        fs == vfviews(files), off == idx * piece_length, data == piece@, lens(fs) <= usize::MAX, off + data.len() <= usize::MAX,
        file_parser.offset == off, file_parser.piece_length == data.len(), file_parser.right_file_boundary as nat == lens(fs.take(it.index@ as int)),
        file_parser.start_file_index as int == if file_parser.right_file_boundary <= off { off } else { file_parser.right_file_boundary as int },
        file_parser.right_file_boundary > off ==> file_parser.right_file_boundary < off + data.len(),
        forall|k: int| 0 <= k < files_to_write@.len() ==> of_file(#[trigger] files_to_write@[k], fs) && ev_ok(files_to_write@[k].ev(), fs, off, data),
        forall|p: int| off <= p < file_parser.right_file_boundary ==> #[trigger] written(evs(files_to_write@), fs, p),
//@ loop_entry 0
proof {
    let n = it.index@ as int;
    assert(file.fv() == fs[n]);
    lemma_lens_mono(fs, n);
    assert(fs.take(n + 1).drop_last() =~= fs.take(n));
    assert forall|w: Seq<FileWriter>, x: FileWriter, p: int| hits(x.ev(), fs, n, p) || written(evs(w), fs, p) implies #[trigger] written(evs(w.push(x)), fs, p) by { lemma_push_written(w, x, fs, n, p); }
    assert forall|x: FileWriter| places(x.ev(), fs, n, off, data) implies #[trigger] ev_ok(x.ev(), fs, off, data) by {}
    assert forall|x: FileWriter| strs(x.path@) == fs[n].path implies #[trigger] of_file(x, fs) by {}
}
//@ after_loop 0
proof { assert(fs.take(fs.len() as int) =~= fs); }
//@ fn write(piece, idx, files, piece_length) -> r
    requires lens(vfviews(files)) <= usize::MAX, idx * piece_length + piece.len() <= usize::MAX,
        forall|i: int| 0 <= i < vfviews(files).len() ==> safe_path((#[trigger] vfviews(files)[i]).path),
    ensures old(vp_w).writes().is_prefix_of(final(vp_w).writes()),
        piece_written(final(vp_w).writes().skip(old(vp_w).writes().len() as int), vfviews(files), idx * piece_length, piece@),
        final(vp_w).truncated() == old(vp_w).truncated(), final(vp_w).saved() == old(vp_w).saved(),
        final(vp_w).sends() == old(vp_w).sends(), final(vp_w).udp() == old(vp_w).udp(),
//@ locals writer
//@ entry
let ghost w0 = vp_w.writes(); let ghost tr = vp_w.truncated(); let ghost sv = vp_w.saved(); let ghost sd = vp_w.sends(); let ghost ud = vp_w.udp();
let ghost fs = vfviews(files); let ghost off: int = idx * piece_length; let ghost data = piece@;
proof {
    assert forall|s: Seq<&FileWriter>, w: Seq<FileWriter>| s.len() == w.len() && (forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == w[i]) implies #[trigger] ievs(s) == #[trigger] evs(w) by { assert(ievs(s) =~= evs(w)); }
    assert forall|s: Seq<FileWriter>| #[trigger] ievs(s) == #[trigger] evs(s) by { assert(ievs(s) =~= evs(s)); }
}
//@ loop 0 for it
    invariant piece_written(ievs(it.seq()), fs, off, data), forall|k: int| 0 <= k < it.seq().len() ==> of_file(*(#[trigger] it.seq()[k]).w(), fs),
        forall|i: int| 0 <= i < fs.len() ==> safe_path((#[trigger] fs[i]).path),
        vp_w.writes() =~= w0 + ievs(it.seq()).take(it.index@ as int),
        it.index@ == it.seq().len() ==> vp_w.writes().skip(w0.len() as int) =~= ievs(it.seq()),
        vp_w.truncated() == tr, vp_w.saved() == sv, vp_w.sends() == sd, vp_w.udp() == ud,
//@ loop_entry 0
proof { assert(of_file(*it.seq()[it.index@ as int].w(), fs)); assert(ievs(it.seq())[it.index@ as int] == writer.ev()); }
