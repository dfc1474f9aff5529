use super::*;
use crate::actors::torrent::TorrentActor;
use crate::torrent::file::File;
use crate::vp_util::*;

/// the writer actor writes what it is given, however many files there are and however long the piece is
#[test]
fn c01_writer_actor() {
    let mut run = Run::new("c01a");
    let mut r = Rng::new("c01a");
    let mut all = vec![];
    for k in 0..8 {
        let piece_length = r.pick(&[1, 900, 16384, 40_000]);
        let pieces = r.range(1, 4);
        let count = match k { 0 => 5000, 1 => 1, _ => r.range(1, 60) };
        let total = (piece_length * (pieces - 1) + r.range(1, piece_length)).max(1);
        let mut left = total;
        let mut files = vec![];
        for i in 0..count {
            let n = if i + 1 == count { left } else { r.below(left / (count - i) * 2 + 2).min(left) };
            left -= n;
            files.push((vec![format!("w{k}"), format!("d{}", i % 3), format!("f{i}")], n));
        }
        all.push((piece_length, files, r.bytes(total)));
    }
    let given = all.clone();
    let expected = move || {
        let mut bad = vec![];
        for (_, files, content) in &given {
            let mut at = 0;
            for (p, n) in files {
                let got = std::fs::read(p.join("/")).unwrap_or_default();
                if got != content[at..at + n] {
                    bad.push(format!("{}: {} bytes, expected {} of torrent with {} files", p.join("/"), got.len(), n, files.len()));
                }
                at += n;
            }
        }
        bad
    };
    run.case(all.iter().map(|(pl, f, c)| (*pl, f.len(), c.len())).collect::<Vec<_>>());
    actix::System::new().block_on(async move {
        let writer = SyncArbiter::start(1, || WriterActor);
        let torrent_actor = TorrentActor::new(vec![1; 20]).start();
        for (piece_length, files, content) in &all {
            let mut order: Vec<(usize, Vec<u8>)> = content.chunks(*piece_length).map(|c| c.to_vec()).enumerate().collect();
            order.reverse();
            for (piece_idx, piece) in order {
                let files = files.iter().map(|(p, n)| File::new(p.clone(), *n)).collect();
                let msg = PieceReady { piece, files, piece_idx, piece_length: *piece_length, torrent_actor: torrent_actor.clone() };
                let _ = writer.send(msg).await;
            }
        }
    });
    let bad = expected();
    for k in 0..8 {
        let _ = std::fs::remove_dir_all(format!("w{k}"));
    }
    assert!(bad.is_empty(), "{:?}", &bad[..bad.len().min(5)]);
    run.hit();
}
