//! Helpers of the native harness: seeded generators, an independent bencoding, scripted peers and trackers.
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, Once};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ random choices
pub struct Rng(u64);

impl Rng {
    pub fn new(tag: &str) -> Rng {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut h = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0xcbf2_9ce4_8422_2325;
        for b in tag.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        Rng(h | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// a length: mostly short, sometimes around a power of two up to `max`
    pub fn size(&mut self, max: usize) -> usize {
        if self.chance(70) {
            return self.below(max.min(20) + 1);
        }
        let top = usize::BITS - max.leading_zeros();
        let p = 1usize << self.below(top as usize);
        (p + self.below(3)).saturating_sub(1).min(max)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    /// a number that likes the places where things go wrong
    pub fn number(&mut self) -> usize {
        match self.below(8) {
            0 => self.below(12),
            1 => (1usize << self.below(64)).wrapping_sub(1),
            2 => 1usize << self.below(64),
            3 => usize::MAX - self.below(3),
            4 => i64::MAX as usize - self.below(3),
            5 => u32::MAX as usize - 2 + self.below(5),
            6 => self.below(100_000),
            _ => self.next() as usize,
        }
    }
    pub fn text(&mut self, max: usize) -> String {
        let n = self.below(max + 1);
        let mut s = String::new();
        for _ in 0..n {
            s.push(match self.below(6) {
                0 => 'a',
                1 => char::from(self.below(128) as u8),
                2 => 'é',
                3 => '日',
                4 => '𝄞',
                _ => char::from(b'a' + self.below(26) as u8),
            });
        }
        s
    }
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

pub fn scale(quick: usize) -> usize {
    if thorough() { quick * 6 } else { quick }
}

// ------------------------------------------------------------------ reporting
static INPUT: Mutex<String> = Mutex::new(String::new());
static PANICS: AtomicUsize = AtomicUsize::new(0);
static HOOK: Once = Once::new();

/// panics of any thread so far
pub fn panics() -> usize {
    PANICS.load(Ordering::SeqCst)
}

fn input() -> String {
    match INPUT.lock() {
        Ok(i) => i.clone(),
        Err(e) => e.into_inner().clone(),
    }
}

pub struct Run {
    tag: String,
    cases: usize,
    nontrivial: usize,
    file: Option<File>,
    samples: usize,
}

impl Run {
    pub fn new(tag: &str) -> Run {
        HOOK.call_once(|| {
            std::panic::set_hook(Box::new(|p| {
                PANICS.fetch_add(1, Ordering::SeqCst);
                let t = p.to_string().replace('\n', " ");
                println!("VP-INPUT {}", cut(&input().replace('\n', " "), 4000));
                println!("VP-FAIL {}", cut(&t, 1500));
            }));
        });
        let file = std::env::var("VP_SCRATCH").ok().and_then(|d| File::create(format!("{d}/.vp-input")).ok());
        Run { tag: tag.to_string(), cases: 0, nontrivial: 0, file, samples: 0 }
    }
    /// the input that is tried next; it is reported when something goes wrong
    pub fn case(&mut self, what: impl std::fmt::Debug) {
        let t = cut(&format!("{:?}", what), 6000);
        if self.samples < 2 && self.cases % 7 == 3 {
            println!("VP-SAMPLE {}", cut(&t, 300));
            self.samples += 1;
        }
        if let Some(f) = &mut self.file {
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(t.as_bytes());
            let _ = f.set_len(t.len() as u64);
        }
        match INPUT.lock() {
            Ok(mut i) => *i = t,
            Err(e) => *e.into_inner() = t,
        }
        self.cases += 1;
    }
    /// the case exercised what the property is about
    pub fn hit(&mut self) {
        self.nontrivial += 1;
    }
}

impl Drop for Run {
    fn drop(&mut self) {
        println!("VP-CASES {}", self.cases);
        println!("VP-NONTRIVIAL {}", self.nontrivial);
    }
}

fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

// ------------------------------------------------------------------ bencoding, written again
#[derive(Clone, Debug, PartialEq)]
pub enum B {
    Int(usize),
    Str(Vec<u8>),
    List(Vec<B>),
    Dict(BTreeMap<Vec<u8>, B>),
}

pub fn s(t: &str) -> B {
    B::Str(t.as_bytes().to_vec())
}

pub fn dict(e: Vec<(&str, B)>) -> B {
    B::Dict(e.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v)).collect())
}

pub fn benc(b: &B) -> Vec<u8> {
    let mut out = vec![];
    put(b, &mut out);
    out
}

fn put(b: &B, out: &mut Vec<u8>) {
    match b {
        B::Int(n) => {
            out.push(b'i');
            put_num(*n, out);
            out.push(b'e');
        }
        B::Str(v) => put_str(v, out),
        B::List(l) => {
            out.push(b'l');
            for e in l {
                put(e, out);
            }
            out.push(b'e');
        }
        B::Dict(d) => {
            out.push(b'd');
            for (k, v) in d {
                put_str(k, out);
                put(v, out);
            }
            out.push(b'e');
        }
    }
}

fn put_str(v: &[u8], out: &mut Vec<u8>) {
    put_num(v.len(), out);
    out.push(b':');
    out.extend_from_slice(v);
}

fn put_num(n: usize, out: &mut Vec<u8>) {
    if n >= 10 {
        put_num(n / 10, out);
    }
    out.push(b'0' + (n % 10) as u8);
}

/// a value at the start of the bytes and its size; `None` when there is none or it is nested too deeply
pub fn bdec(b: &[u8]) -> Option<(B, usize)> {
    get(b, 0, 0)
}

pub const DEPTH: usize = 64;

fn num(b: &[u8], mut at: usize) -> Option<(usize, usize)> {
    let from = at;
    let mut n: u128 = 0;
    while *b.get(at)? >= b'0' && b[at] <= b'9' {
        n = (n * 10 + (b[at] - b'0') as u128).min(1 << 100);
        at += 1;
    }
    if at == from || n > usize::MAX as u128 {
        return None;
    }
    Some((n as usize, at))
}

fn get_str(b: &[u8], at: usize) -> Option<(Vec<u8>, usize)> {
    let (n, at) = num(b, at)?;
    if *b.get(at)? != b':' {
        return None;
    }
    let end = (at + 1).checked_add(n)?;
    if end > b.len() {
        return None;
    }
    Some((b[at + 1..end].to_vec(), end))
}

fn get(b: &[u8], at: usize, depth: usize) -> Option<(B, usize)> {
    if depth >= DEPTH {
        return None;
    }
    match *b.get(at)? {
        b'i' => {
            let (n, at) = num(b, at + 1)?;
            if *b.get(at)? != b'e' {
                return None;
            }
            Some((B::Int(n), at + 1))
        }
        b'l' => {
            let mut at = at + 1;
            let mut l = vec![];
            while *b.get(at)? != b'e' {
                let (v, n) = get(b, at, depth + 1)?;
                l.push(v);
                at = n;
            }
            Some((B::List(l), at + 1))
        }
        b'd' => {
            let mut at = at + 1;
            let mut d = BTreeMap::new();
            while *b.get(at)? != b'e' {
                let (k, n) = get_str(b, at)?;
                std::str::from_utf8(&k).ok()?;
                let (v, n) = get(b, n, depth + 1)?;
                d.insert(k, v);
                at = n;
            }
            Some((B::Dict(d), at + 1))
        }
        b'0'..=b'9' => get_str(b, at).map(|(v, n)| (B::Str(v), n)),
        _ => None,
    }
}

/// a value of at most the given depth
pub fn any_b(r: &mut Rng, depth: usize) -> B {
    match r.below(if depth == 0 { 2 } else { 4 }) {
        0 => B::Int(r.number()),
        1 => {
            let n = r.pick(&[0, 1, 2, 9, 10, 11, 99, 100]);
            B::Str(if r.chance(50) { r.bytes(n) } else { r.text(12).into_bytes() })
        }
        2 => {
            let n = r.below(4);
            B::List((0..n).map(|_| any_b(r, depth - 1)).collect())
        }
        _ => {
            let n = r.below(4);
            B::Dict((0..n).map(|_| (r.text(5).into_bytes(), any_b(r, depth - 1))).collect())
        }
    }
}

pub fn sha1(b: &[u8]) -> Vec<u8> {
    use ::sha1::Digest;
    ::sha1::Sha1::digest(b).as_slice().to_vec()
}

// ------------------------------------------------------------------ torrents
#[derive(Clone, Debug)]
pub struct Meta {
    pub dict: B,
    pub files: Vec<(Vec<String>, usize)>,
    pub piece_length: usize,
    pub content: Vec<u8>,
}

impl Meta {
    pub fn bytes(&self) -> Vec<u8> {
        benc(&self.dict)
    }
    pub fn hash(&self) -> Vec<u8> {
        sha1(&self.bytes())
    }
    pub fn pieces(&self) -> usize {
        self.content.chunks(self.piece_length).count()
    }
    pub fn piece(&self, i: usize) -> &[u8] {
        self.content.chunks(self.piece_length).nth(i).unwrap()
    }
}

/// a well formed torrent over this content
pub fn torrent(name: &str, files: &[(Vec<String>, usize)], single: bool, piece_length: usize, content: &[u8]) -> Meta {
    let digests: Vec<u8> = content.chunks(piece_length).flat_map(sha1).collect();
    let mut e = vec![("name", s(name)), ("piece length", B::Int(piece_length)), ("pieces", B::Str(digests))];
    if single {
        e.push(("length", B::Int(content.len())));
    } else {
        e.push(("files", B::List(files.iter().map(|(p, n)| dict(vec![("length", B::Int(*n)), ("path", B::List(p.iter().map(|c| s(c)).collect()))])).collect())));
    }
    Meta { dict: dict(e), files: if single { vec![(vec![name.to_string()], content.len())] } else { files.to_vec() }, piece_length, content: content.to_vec() }
}

pub fn any_torrent(r: &mut Rng, max_file: usize, lengths: &[usize]) -> Meta {
    let single = r.chance(30);
    let n = if single { 1 } else { r.range(1, 6) };
    let files: Vec<(Vec<String>, usize)> = (0..n)
        .map(|i| {
            let mut p: Vec<String> = (0..r.below(3)).map(|_| format!("d{}", r.below(2))).collect();
            p.push(format!("f{i}{}", r.pick(&["", ".bin", " é"])));
            (p, if r.chance(25) { r.below(3) } else { r.below(max_file + 1) })
        })
        .collect();
    let total = files.iter().map(|f| f.1).sum();
    let content = r.bytes(total);
    torrent("the name", &files, single, r.pick(lengths), &content)
}

/// metadata as large torrents have it: many pieces, many files, some of them listed twice
pub fn large_metadata(r: &mut Rng, max_pieces: usize) -> B {
    let pieces = r.pick(&[1, 255, 256, 1000, 1639, 4000, max_pieces]).min(max_pieces);
    let pl = r.pick(&[1usize, 16384, 1 << 20, 1 << 24]);
    let mut left = pieces * pl - r.below(pl);
    let mut e = vec![("name", s(&"n".repeat(r.pick(&[1, 8, 120, 250])))), ("piece length", B::Int(pl)), ("pieces", B::Str(r.bytes(20 * pieces)))];
    if r.chance(20) {
        e.push(("length", B::Int(left)));
    } else {
        let mut files = vec![];
        let most = r.pick(&[1, 3, 50, 255, 256, 257, 1000]);
        while left > 0 || files.is_empty() {
            // equal entries side by side and far apart: padding files
            let n = if files.len() + 1 >= most { left } else { r.pick(&[0, 1, 5, 5, 1 + pl / 2, left / 2]).min(left) };
            left -= n;
            let mut p = vec![s(r.pick(&["a", "a", ".pad", "b"]))];
            p.extend((0..r.pick(&[0, 1, 1, 2, 12])).map(|_| s(r.pick(&["5", "f", "F"]))));
            files.push(dict(vec![("length", B::Int(n)), ("path", B::List(p))]));
        }
        e.push(("files", B::List(files)));
    }
    dict(e)
}

// ------------------------------------------------------------------ a scripted peer
pub fn frame(id: u8, body: &[u8]) -> Vec<u8> {
    let mut v = ((body.len() + 1) as u32).to_be_bytes().to_vec();
    v.push(id);
    v.extend_from_slice(body);
    v
}

pub fn handshake(hash: &[u8], id: &[u8]) -> Vec<u8> {
    let mut v = vec![19];
    v.extend_from_slice(b"BitTorrent protocol");
    v.extend_from_slice(&[0, 0, 0, 0, 0, 0x10, 0, 0]);
    v.extend_from_slice(hash);
    v.extend_from_slice(id);
    v
}

pub fn ext_handshake(size: usize, id: usize) -> Vec<u8> {
    let mut b = vec![0];
    b.extend(benc(&dict(vec![("m", dict(vec![("ut_metadata", B::Int(id)), ("ut_pex", B::Int(9))])), ("metadata_size", B::Int(size))])));
    frame(20, &b)
}

pub fn block(idx: u32, off: u32, data: &[u8]) -> Vec<u8> {
    let mut b = idx.to_be_bytes().to_vec();
    b.extend(off.to_be_bytes());
    b.extend_from_slice(data);
    frame(7, &b)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the content of every block of the pieces is garbage
    BadPieces,
    /// only one byte differs, in the last block of a piece
    BadLastByte,
    /// the connection is refused after it was accepted
    Close,
    /// the hash in the handshake is another one
    OtherHash,
    /// never unchokes
    Choked,
    /// chokes after the first block
    ChokeLater,
    /// sends other metadata, itself well formed
    OtherInfo(Vec<u8>),
    /// answers with one block less than requested, padded by keep-alives
    ShortPiece,
    /// announces no ut_metadata
    NoMetadata,
}

#[derive(Clone, Debug, Default)]
pub struct Log {
    pub connections: usize,
    pub hashes: Vec<Vec<u8>>,
    /// (piece, offset, length) in the order of arrival, per connection
    pub requests: Vec<Vec<(u32, u32, u32)>>,
    /// (extension id, payload)
    pub metadata: Vec<Vec<(u8, Vec<u8>)>>,
    /// requests that came while one was unanswered, or while choked
    pub rude: Vec<String>,
    pub sent: Vec<Vec<u8>>,
}

pub struct FakePeer {
    pub endpoint: String,
    pub port: u16,
    pub log: Arc<Mutex<Log>>,
}

fn read_n(c: &mut TcpStream, n: usize) -> Option<Vec<u8>> {
    let mut b = vec![0; n];
    c.read_exact(&mut b).ok()?;
    Some(b)
}

/// what to send, in pieces of arbitrary size with little pauses
fn trickle(c: &mut TcpStream, data: &[u8], r: &mut Rng, slow: bool) -> bool {
    let mut at = 0;
    let mut cuts = 0;
    while at < data.len() {
        let n = if slow && cuts < 3 { (1 + r.below(9)).min(data.len() - at) } else { data.len() - at };
        cuts += 1;
        if c.write_all(&data[at..at + n]).is_err() {
            return false;
        }
        at += n;
        if at < data.len() {
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    true
}

/// serves one torrent; `slow` splits what it sends
pub fn peer(meta: &Meta, fault: Fault, slow: bool, seed: u64) -> FakePeer {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let log = Arc::new(Mutex::new(Log::default()));
    let (m, lg) = (meta.clone(), log.clone());
    std::thread::spawn(move || {
        for c in l.incoming().flatten() {
            let (m, lg, f) = (m.clone(), lg.clone(), fault.clone());
            std::thread::spawn(move || {
                let mut r = Rng(seed | 1);
                serve(c, &m, f, slow, &mut r, &lg)
            });
        }
    });
    FakePeer { endpoint: format!("127.0.0.1:{port}"), port, log }
}

fn serve(mut c: TcpStream, m: &Meta, fault: Fault, slow: bool, r: &mut Rng, log: &Mutex<Log>) -> Option<()> {
    let _ = c.set_nodelay(true);
    let _ = c.set_read_timeout(Some(Duration::from_secs(20)));
    let first = read_n(&mut c, 68)?;
    let k = {
        let mut l = log.lock().unwrap();
        l.connections += 1;
        l.hashes.push(first[28..48].to_vec());
        l.requests.push(vec![]);
        l.metadata.push(vec![]);
        l.requests.len() - 1
    };
    if first[..20] != handshake(&[0; 20], &[0; 20])[..20] {
        log.lock().unwrap().rude.push("not a handshake".into());
    }
    if fault == Fault::Close {
        return None;
    }
    let info = match &fault {
        Fault::OtherInfo(b) => b.clone(),
        _ => m.bytes(),
    };
    let hash = if fault == Fault::OtherHash { sha1(b"other") } else { first[28..48].to_vec() };
    let mut hello = handshake(&hash, b"-FAKE-00000000000000");
    let ext = if fault == Fault::NoMetadata {
        let mut b = vec![0];
        b.extend(benc(&dict(vec![("m", dict(vec![("ut_pex", B::Int(9))])), ("metadata_size", B::Int(info.len()))])));
        frame(20, &b)
    } else {
        ext_handshake(info.len(), 7)
    };
    if !slow {
        hello.extend(frame(5, &[0xff, 0x80]));
    }
    if !trickle(&mut c, &hello, r, slow) {
        return None;
    }
    let mut choked = true;
    let mut told = false;
    let mut blocks = 0;
    loop {
        let n = u32::from_be_bytes(read_n(&mut c, 4)?.try_into().unwrap()) as usize;
        if n == 0 {
            continue;
        }
        if n > 1 << 20 {
            log.lock().unwrap().rude.push(format!("a message of {n} bytes"));
            return None;
        }
        let f = read_n(&mut c, n)?;
        log.lock().unwrap().sent.push(f.clone());
        match f[0] {
            2 => {
                if !told {
                    let mut v = ext.clone();
                    if fault != Fault::Choked {
                        v.extend(frame(1, &[]));
                        choked = false;
                    }
                    if slow {
                        v.extend([0, 0, 0, 0]);
                    }
                    if !trickle(&mut c, &v, r, slow) {
                        return None;
                    }
                    told = true;
                }
            }
            6 if n == 13 => {
                let w = |i: usize| u32::from_be_bytes(f[1 + 4 * i..5 + 4 * i].try_into().unwrap());
                let (idx, off, len) = (w(0), w(1), w(2));
                {
                    let mut l = log.lock().unwrap();
                    l.requests[k].push((idx, off, len));
                    if choked {
                        l.rude.push(format!("request {:?} while choked", (idx, off, len)));
                    }
                    // the next one has to wait for the answer
                    let mut b = [0];
                    let _ = c.set_read_timeout(Some(Duration::from_millis(30)));
                    if matches!(c.peek(&mut b), Ok(1)) {
                        l.rude.push(format!("something was sent before the answer to {:?}", (idx, off, len)));
                    }
                    let _ = c.set_read_timeout(Some(Duration::from_secs(20)));
                }
                let from = idx as usize * m.piece_length + off as usize;
                let end = (from + len as usize).min(m.content.len());
                if from > end {
                    log.lock().unwrap().rude.push(format!("request {:?} outside of the torrent", (idx, off, len)));
                    return None;
                }
                let mut data = m.content[from..end].to_vec();
                let last = off as usize + len as usize >= m.piece(idx as usize).len();
                match fault {
                    Fault::BadPieces => data.iter_mut().for_each(|b| *b ^= 0x55),
                    Fault::BadLastByte if last => {
                        if let Some(b) = data.last_mut() {
                            *b ^= 1
                        }
                    }
                    Fault::ShortPiece if last => data.truncate(data.len() / 2),
                    _ => (),
                }
                if fault == Fault::ChokeLater && blocks == 0 {
                    // the client learns of the choke before it gets the block
                    let mut v = frame(0, &[]);
                    v.extend(block(idx, off, &data));
                    choked = true;
                    c.write_all(&v).ok()?;
                } else if !trickle(&mut c, &block(idx, off, &data), r, slow) {
                    return None;
                }
                blocks += 1;
            }
            20 if n > 1 && f[1] != 0 => {
                log.lock().unwrap().metadata[k].push((f[1], f[2..].to_vec()));
                let i = match bdec(&f[2..]) {
                    Some((B::Dict(d), _)) => match d.get(&b"piece"[..]) {
                        Some(B::Int(i)) => *i,
                        _ => continue,
                    },
                    _ => continue,
                };
                let chunk = info.chunks(16384).nth(i).unwrap_or(&[]);
                let mut b = vec![3];
                b.extend(benc(&dict(vec![("msg_type", B::Int(1)), ("piece", B::Int(i)), ("total_size", B::Int(info.len()))])));
                b.extend_from_slice(chunk);
                // other messages in between do not count as answers
                if slow {
                    c.write_all(&frame(4, &[0, 0, 0, 1])).ok()?;
                }
                if !trickle(&mut c, &frame(20, &b), r, slow) {
                    return None;
                }
            }
            _ => (),
        }
    }
}

pub fn wait_until(limit: Duration, mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed() < limit {
        if f() {
            return true;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    f()
}

// ------------------------------------------------------------------ scripted trackers
pub struct FakeTracker {
    pub port: u16,
    /// the packets, or the heads of the requests, in the order of arrival
    pub got: Arc<Mutex<Vec<Vec<u8>>>>,
}

impl FakeTracker {
    pub fn received(&self) -> Vec<Vec<u8>> {
        self.got.lock().unwrap().clone()
    }
}

/// answers the n-th packet with what the function makes of it
pub fn udp_tracker(answer: impl FnMut(usize, &[u8]) -> Option<Vec<u8>> + Send + 'static) -> FakeTracker {
    udp_tracker_at(0, answer).unwrap()
}

/// at a certain port, if that is free
pub fn udp_tracker_at(port: u16, mut answer: impl FnMut(usize, &[u8]) -> Option<Vec<u8>> + Send + 'static) -> Option<FakeTracker> {
    let u = std::net::UdpSocket::bind(("127.0.0.1", port)).ok()?;
    let port = u.local_addr().unwrap().port();
    let got = Arc::new(Mutex::new(vec![]));
    let g = got.clone();
    std::thread::spawn(move || {
        let mut b = vec![0; 70_000];
        let mut k = 0;
        while let Ok((n, from)) = u.recv_from(&mut b) {
            g.lock().unwrap().push(b[..n].to_vec());
            if let Some(a) = answer(k, &b[..n]) {
                let _ = u.send_to(&a, from);
            }
            k += 1;
        }
    });
    Some(FakeTracker { port, got })
}

pub const CONNECTION: [u8; 8] = [0xde, 0xad, 0xbe, 0xef, 1, 2, 3, 4];

/// the answer of a well behaved tracker
pub fn udp_answer(packet: &[u8], peers: &[u8]) -> Option<Vec<u8>> {
    if packet.len() < 16 {
        return None;
    }
    let tx = &packet[12..16];
    Some(if packet[8..12] == [0, 0, 0, 0] {
        [&[0, 0, 0, 0], tx, &CONNECTION].concat()
    } else {
        [&[0, 0, 0, 1], tx, &[0, 0, 7, 8], &[0, 0, 0, 1], &[0, 0, 0, 2], peers].concat()
    })
}

/// answers every request with these bytes
pub fn http_tracker(answer: Vec<u8>) -> FakeTracker {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let got = Arc::new(Mutex::new(vec![]));
    let g = got.clone();
    std::thread::spawn(move || {
        for mut c in l.incoming().flatten() {
            let (g, answer) = (g.clone(), answer.clone());
            std::thread::spawn(move || {
                let _ = c.set_read_timeout(Some(Duration::from_secs(5)));
                let mut head = vec![];
                let mut b = [0];
                while !head.ends_with(b"\r\n\r\n") {
                    match c.read(&mut b) {
                        Ok(1) => head.push(b[0]),
                        _ => break,
                    }
                }
                if head.is_empty() {
                    return;
                }
                g.lock().unwrap().push(head);
                let _ = c.write_all(&answer);
            });
        }
    });
    FakeTracker { port, got }
}

pub fn http(status: &str, body: &[u8]) -> Vec<u8> {
    let mut v = format!("HTTP/1.1 {status}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).into_bytes();
    v.extend_from_slice(body);
    v
}

/// the value of a key of the query in the first line of a request, percent decoded
pub fn query(head: &[u8], key: &str) -> Option<Vec<u8>> {
    let line = head.split(|b| *b == b'\r').next()?;
    let target = line.split(|b| *b == b' ').nth(1)?;
    let at = target.iter().position(|b| *b == b'?')?;
    let mut found = None;
    for part in target[at + 1..].split(|b| *b == b'&') {
        if part.starts_with(format!("{key}=").as_bytes()) {
            if found.is_some() {
                return None;
            }
            let v = &part[key.len() + 1..];
            let mut out = vec![];
            let mut i = 0;
            while i < v.len() {
                if v[i] == b'%' {
                    let h = std::str::from_utf8(v.get(i + 1..i + 3)?).ok()?;
                    out.push(u8::from_str_radix(h, 16).ok()?);
                    i += 3;
                } else if v[i].is_ascii_alphanumeric() || b"-_.~".contains(&v[i]) {
                    out.push(v[i]);
                    i += 1;
                } else {
                    return None;
                }
            }
            found = Some(out);
        }
    }
    found
}

/// runs asynchronous code of the crate; `None` when it takes longer than this
pub fn run_async<T>(limit: Duration, f: impl std::future::Future<Output = T>) -> Option<T> {
    actix::System::new().block_on(async move { tokio::time::timeout(limit, f).await.ok() })
}

/// the endpoints a compact list stands for
pub fn endpoints(b: &[u8]) -> Vec<String> {
    b.chunks_exact(6).map(|c| format!("{}.{}.{}.{}:{}", c[0], c[1], c[2], c[3], c[4] as usize * 256 + c[5] as usize)).collect()
}

pub fn compact(ports: &[u16]) -> Vec<u8> {
    ports.iter().flat_map(|p| [127, 0, 0, 1, (p >> 8) as u8, *p as u8]).collect()
}
