From 3d8a480d2232830069ea9c8bc7f677bda959e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:45 +0000
Subject: [PATCH 01/18] fix: bencode string length prefix counts bytes, not
 characters

---
 src/bencode/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bencode/encode.rs b/src/bencode/encode.rs
index 4ad8eb4..26ad7e8 100644
--- a/src/bencode/encode.rs
+++ b/src/bencode/encode.rs
@@ -6,7 +6,7 @@ pub trait Encode {
 
 impl Encode for String {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
+        format!("{}:{}", self.len(), self)
             .as_bytes()
             .to_vec()
     }
@@ -14,7 +14,7 @@ impl Encode for String {
 
 impl Encode for &str {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
+        format!("{}:{}", self.len(), self)
             .as_bytes()
             .to_vec()
     }
-- 
2.43.0


From 96bafed1d760ae8476827106ba8858e75afcff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 02/18] fix: bencode decoder rejects malformed input instead of
 panicking or looping

---
 src/bencode/decode.rs | 54 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index be59059..d844a55 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -5,8 +5,12 @@ use log::error;
 
 use crate::bencode::metainfo::Metainfo;
 
+// Lists and dictionaries nested deeper than this are rejected, decoding is recursive.
+const MAX_DEPTH: usize = 64;
+
 pub struct Decoder {
     current: usize,
+    depth: usize,
     contents: Vec<u8>,
 }
 
@@ -20,12 +24,19 @@ pub enum DecoderError {
     NoStringFound(usize),
     #[error("Bad string from bytes conversion at position: {0}")]
     BadStringFromBytes(usize),
+    #[error("Unexpected byte at position: {0}")]
+    UnexpectedByte(usize),
+    #[error("Unexpected end of content at position: {0}")]
+    UnexpectedEnd(usize),
+    #[error("Content nested too deep at position: {0}")]
+    NestedTooDeep(usize),
 }
 
 impl Decoder {
     pub fn init(source: Vec<u8>) -> Decoder {
         Decoder {
             current: 0,
+            depth: 0,
             contents: source,
         }
     }
@@ -35,13 +46,16 @@ impl Decoder {
         self.current
     }
 
-    fn get_current_byte(&self) -> u8 {
-        self.contents[self.current]
+    fn get_current_byte(&self) -> Result<u8, DecoderError> {
+        match self.contents.get(self.current) {
+            Some(byte) => Ok(*byte),
+            None => Err(DecoderError::UnexpectedEnd(self.current)),
+        }
     }
 
     fn get_consecutive_digits(&mut self) -> Result<usize, DecoderError> {
         let start = self.current;
-        while self.get_current_byte().is_ascii_digit() {
+        while self.get_current_byte()?.is_ascii_digit() {
             self.advance();
         }
         let end = self.current;
@@ -75,16 +89,22 @@ impl Decoder {
 
         match self.contents.get(self.current) {
             Some(b'e') => self.advance(),
-            _ => self.advance(),
+            _ => return Err(DecoderError::BadNumberFromString(self.current)),
         };
         Ok(Metainfo::Integer(integer))
     }
 
     fn parse_string(&mut self) -> Result<Metainfo, DecoderError> {
         let integer = self.get_consecutive_digits()?;
-        // TODO: Mettere check semicolon
+        if self.get_current_byte()? != b':' {
+            return Err(DecoderError::NoStringFound(self.current));
+        }
         self.advance();
 
+        if integer > self.contents.len() - self.current {
+            return Err(DecoderError::UnexpectedEnd(self.current));
+        }
+
         let b = &self.contents[self.current..self.current + integer];
         self.current += integer;
         Ok(Metainfo::String(b.to_vec()))
@@ -94,7 +114,7 @@ impl Decoder {
         self.advance();
         let mut list: Vec<Metainfo> = Vec::new();
 
-        while self.get_current_byte() != b'e' {
+        while self.get_current_byte()? != b'e' {
             list.push(self.decode()?);
         }
 
@@ -106,7 +126,7 @@ impl Decoder {
         self.advance();
 
         let mut dictionary = HashMap::new();
-        while self.get_current_byte() != b'e' {
+        while self.get_current_byte()? != b'e' {
             let key = if let Metainfo::String(raw_key) = self.parse_string()? {
                 str::from_utf8(&raw_key)
                     .map_err(|_| DecoderError::BadStringFromBytes(self.current))?
@@ -123,16 +143,22 @@ impl Decoder {
     }
 
     pub fn decode(&mut self) -> Result<Metainfo, DecoderError> {
+        if self.depth >= MAX_DEPTH {
+            return Err(DecoderError::NestedTooDeep(self.current));
+        }
+
+        self.depth += 1;
         let result = match self.contents.get(self.current) {
-            None => Metainfo::Nothing(),
-            Some(b'i') => self.parse_integer()?,
-            Some(b'l') => self.parse_list()?,
-            Some(b'd') => self.parse_dictionary()?,
-            Some(b'1'..=b'9') => self.parse_string()?,
-            Some(_) => Metainfo::Nothing(),
+            None => Ok(Metainfo::Nothing()),
+            Some(b'i') => self.parse_integer(),
+            Some(b'l') => self.parse_list(),
+            Some(b'd') => self.parse_dictionary(),
+            Some(b'0'..=b'9') => self.parse_string(),
+            Some(_) => Err(DecoderError::UnexpectedByte(self.current)),
         };
+        self.depth -= 1;
 
-        Ok(result)
+        result
     }
 
     pub fn get_total_parsed_bytes(&self) -> usize {
-- 
2.43.0


From db61472ccf5ea77311ca60931dd213fddad744eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:42 +0000
Subject: [PATCH 03/18] fix: messages with a truncated body are an error, not a
 panic

---
 src/messages/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/messages/mod.rs b/src/messages/mod.rs
index 8f21009..69d0a9a 100644
--- a/src/messages/mod.rs
+++ b/src/messages/mod.rs
@@ -34,6 +34,16 @@ impl Message {
     // TODO: Maybe we could promote body to use a ContentType as parameter type, even though this function is used
     // during the read of a message.
     pub fn new_raw(body: Vec<u8>, length: u32, id: u8) -> Result<Message, &'static str> {
+        let min_length = match id {
+            7 | 6 => 8,
+            20 => 1,
+            19 => 68,
+            _ => 0,
+        };
+        if body.len() < min_length {
+            return Err("Message body too short");
+        }
+
         let content = match id {
             2 => ContentType::Interested(InterestedMessage::from_bytes()),
             5 => ContentType::Bitfield(BitfieldMessage::from_bytes(&body)),
-- 
2.43.0


From 92f060e85df97e0e2e52015d6b4584185b2d9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:46 +0000
Subject: [PATCH 04/18] fix: read_stream keeps message boundaries on
 keep-alives and partial arrivals

---
 src/peer/stream.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index cf64c2d..d950d20 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -109,36 +109,35 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
         return None;
     }
 
-    let mut buffer: [u8; 68] = [0x00; 68];
-    if stream.peek(&mut buffer).ok() == Some(68) && buffer[0] == 0x13 {
-        if stream.read(&mut buffer).is_err() {
-            return None;
-        }
-        return Some((buffer.to_vec(), 19, 68));
-    }
-
     let mut buffer: [u8; 4] = [0x00; 4];
-    if stream.read(&mut buffer).is_err() {
-        return None;
+    let available = stream.peek(&mut buffer).unwrap_or(0);
+
+    if available > 0 && buffer[0] == 0x13 {
+        let handshake = wait_and_read(stream, 68)?;
+        return Some((handshake, 19, 68));
     }
-    let mut length = u32::from_be_bytes(buffer);
 
-    let mut buffer: [u8; 1] = [0x00; 1];
-    if stream.read(&mut buffer).is_err() {
+    // A partial message is left in the stream: nothing is consumed until all of it is available.
+    if available < 4 {
         return None;
     }
-    let id = buffer[0];
+    let length = u32::from_be_bytes(buffer);
 
+    // Keep alive, it carries no id and no body
     if length == 0 {
-        return Some((vec![], id, 0));
-    } else {
-        length -= 1
+        wait_and_read(stream, 4)?;
+        return None;
     }
 
-    let mut body = vec![0; length as usize];
+    let frame = wait_and_read(stream, 4 + length as usize)?;
+    Some((frame[5..].to_vec(), frame[4], length - 1))
+}
+
+fn wait_and_read(stream: &mut StreamInterface, length: usize) -> Option<Vec<u8>> {
+    let mut buffer = vec![0; length];
     for retry in 1..40 {
-        if peek_and_read(stream, &mut body, length as usize) {
-            return Some((body, id, length));
+        if peek_and_read(stream, &mut buffer, length) {
+            return Some(buffer);
         }
         thread::sleep(time::Duration::from_millis(5 * retry));
     }
-- 
2.43.0


From 26992545408882032396142be8ec532ffb4dd6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:05 +0000
Subject: [PATCH 05/18] fix: no panic when a peer does not advertise
 ut_metadata

---
 src/peer/download/info.rs | 6 ++++--
 src/peer/mod.rs           | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/peer/download/info.rs b/src/peer/download/info.rs
index 37b58bb..4bdc04e 100644
--- a/src/peer/download/info.rs
+++ b/src/peer/download/info.rs
@@ -5,8 +5,10 @@ use crate::{
 
 pub fn next_piece() -> impl FnMut(&mut Peer, usize) {
     |peer: &mut Peer, piece_index| {
-        let metadata_id = peer.get_extension_id_by_name("ut_metadata");
-        peer.send_message(new_metadata(metadata_id, piece_index))
+        // Nothing can be requested to a peer that does not support the metadata extension
+        if let Some(metadata_id) = peer.find_extension_id("ut_metadata") {
+            peer.send_message(new_metadata(metadata_id, piece_index))
+        }
     }
 }
 
diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index 98a032e..610f33e 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -69,10 +69,15 @@ impl Peer {
         self.metadata_size
     }
 
+    #[cfg(test)]
     pub fn get_extension_id_by_name(&self, name: &str) -> u8 {
         *self.extensions.get(name).unwrap()
     }
 
+    pub fn find_extension_id(&self, name: &str) -> Option<u8> {
+        self.extensions.get(name).copied()
+    }
+
     fn apply_message(&mut self, message: &Message) {
         match message.get_id() {
             0 => {
-- 
2.43.0


From 1a93107373243a910bd4e4398c1ea9c38b49a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 06/18] fix: the last block request of a piece never runs past
 the end of the piece

---
 src/peer/download/block.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/peer/download/block.rs b/src/peer/download/block.rs
index ccab021..e82e82d 100644
--- a/src/peer/download/block.rs
+++ b/src/peer/download/block.rs
@@ -18,6 +18,7 @@ pub fn next_block(
             total_length,
             piece_index * piece_length,
             block_size,
+            piece_length,
         );
         peer.send_message(new_request(
             piece_index as u32,
@@ -36,6 +37,11 @@ fn get_block_size(
     torrent_length: usize,
     piece_offset: usize,
     block_size: usize,
+    piece_length: usize,
 ) -> usize {
-    cmp::min(torrent_length - (block_offset + piece_offset), block_size)
+    let piece_left = cmp::min(
+        torrent_length - (block_offset + piece_offset),
+        piece_length - block_offset,
+    );
+    cmp::min(piece_left, block_size)
 }
-- 
2.43.0


From dd3b42640295fecff7ee4607a0263b99dcc49ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 07/18] fix: inconsistent torrent metadata is rejected instead
 of crashing the download

---
 src/torrent/info.rs | 53 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 9e9c3a3..b354251 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -8,7 +8,9 @@ use log::{error, info};
 use crate::bencode::decode::{Decoder, DecoderError};
 use crate::bencode::encode::{encode_dict_entry, Encode};
 use crate::bencode::metainfo::{Metainfo, MetainfoError};
-use crate::torrent::file::File;
+use crate::torrent::file::{File, FileError};
+
+const PIECE_HASH_SIZE: usize = 20;
 
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub struct Info {
@@ -29,6 +31,10 @@ pub enum InfoError {
     NoFileLenght(),
     #[error("No info file found at {0}")]
     NoInfoFile(String),
+    #[error("Error handling file")]
+    FileError(#[from] FileError),
+    #[error("Inconsistent torrent info")]
+    InconsistentInfo(),
 }
 
 impl Info {
@@ -43,18 +49,51 @@ impl Info {
         let name = a.get_string_from_dict("name")?;
         let length = a.get_integer_from_dict("length").ok();
 
-        let files = a
-            .get_list_from_dict("files")
-            .ok()
-            .map(|elements| elements.iter().flat_map(File::from_metainfo).collect());
+        let files = match a.get_list_from_dict("files") {
+            Ok(elements) => {
+                let mut files = Vec::new();
+                for element in elements {
+                    files.push(File::from_metainfo(element)?);
+                }
+                Some(files)
+            }
+            Err(_) => None,
+        };
 
-        Ok(Info {
+        Info {
             name,
             pieces: pieces.to_vec(),
             piece_length,
             files,
             length,
-        })
+        }
+        .validate()
+    }
+
+    // The info comes from peers or from the filesystem, the rest of the client relies on a
+    // piece length, a total length and a list of piece hashes that agree with each other.
+    fn validate(self) -> Result<Info, InfoError> {
+        if self.piece_length == 0 || self.piece_length > u32::MAX as usize {
+            return Err(InfoError::InconsistentInfo());
+        }
+
+        let mut total_length: usize = 0;
+        for file in self.get_files()? {
+            if file.get_length() > i64::MAX as usize - total_length {
+                return Err(InfoError::InconsistentInfo());
+            }
+            total_length += file.get_length();
+        }
+
+        let piece_count = (0..total_length).step_by(self.piece_length).len();
+        if self.pieces.len() % PIECE_HASH_SIZE != 0
+            || self.pieces.len() / PIECE_HASH_SIZE != piece_count
+            || piece_count > u32::MAX as usize
+        {
+            return Err(InfoError::InconsistentInfo());
+        }
+
+        Ok(self)
     }
 
     pub fn from_file(file_path: &str) -> Result<Info, InfoError> {
-- 
2.43.0


From 690cc17c677fb213e2261e9d675a8be02de7145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:57 +0000
Subject: [PATCH 08/18] fix: a corrupted metadata cache file is an error, not a
 panic

---
 src/torrent/info.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index b354251..b741334 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -108,9 +108,10 @@ impl Info {
                 return Err(InfoError::NoInfoFile(file_path.to_owned()));
             }
 
-            let info: Info = serde_json::from_str(&info_buffer).unwrap();
+            let info: Info = serde_json::from_str(&info_buffer)
+                .map_err(|_| InfoError::NoInfoFile(file_path.to_owned()))?;
 
-            return Ok(info);
+            return info.validate();
         }
 
         Err(InfoError::NoInfoFile(file_path.to_owned()))
-- 
2.43.0


From 20da7d868a4365ffb34f429105bcf94d517fa465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 09/18] fix: torrent metadata can not name files outside of the
 download folder

---
 src/torrent/file.rs | 19 +++++++++++++++++++
 src/torrent/info.rs |  5 +++++
 2 files changed, 24 insertions(+)

diff --git a/src/torrent/file.rs b/src/torrent/file.rs
index 03e8855..ecc1de5 100644
--- a/src/torrent/file.rs
+++ b/src/torrent/file.rs
@@ -40,6 +40,25 @@ impl File {
     pub fn get_path(&self) -> Vec<String> {
         self.path.to_vec()
     }
+
+    // A path is safe when every component names an entry below the folder it is joined to
+    pub fn is_path_safe(&self) -> bool {
+        for component in &self.path {
+            if !is_component_safe(component) {
+                return false;
+            }
+        }
+        !self.path.is_empty()
+    }
+}
+
+fn is_component_safe(component: &str) -> bool {
+    for byte in component.as_bytes() {
+        if *byte == b'/' || *byte == b'\\' || *byte == 0 {
+            return false;
+        }
+    }
+    !component.is_empty() && component != "." && component != ".."
 }
 
 impl Encode for File {
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index b741334..bdc1d08 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -35,6 +35,8 @@ pub enum InfoError {
     FileError(#[from] FileError),
     #[error("Inconsistent torrent info")]
     InconsistentInfo(),
+    #[error("File path outside of the download folder")]
+    UnsafePath(),
 }
 
 impl Info {
@@ -79,6 +81,9 @@ impl Info {
 
         let mut total_length: usize = 0;
         for file in self.get_files()? {
+            if !file.is_path_safe() {
+                return Err(InfoError::UnsafePath());
+            }
             if file.get_length() > i64::MAX as usize - total_length {
                 return Err(InfoError::InconsistentInfo());
             }
-- 
2.43.0


From 11610ee14d92180425f5072bf8cad533da33ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 10/18] fix: torrent metadata is only accepted when it matches
 the magnet info hash

---
 src/actors/torrent.rs | 4 +++-
 src/peer/manager.rs   | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 9100ec4..9b30a5a 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -159,7 +159,9 @@ fn collect_info(info_hash: &[u8], endpoint: &str) -> Option<Info> {
     std::fs::create_dir_all("./downloads").unwrap();
 
     if let Ok(info) = Info::from_file(&file_path) {
-        return Some(info);
+        if info.compute_info_hash() == info_hash {
+            return Some(info);
+        }
     }
 
     if let Ok(info) = get_info(info_hash, endpoint) {
diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 6a251be..297a8e1 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -19,6 +19,8 @@ pub enum PeerManagerError {
     PieceDownloadFailure(String),
     #[error("Unsuccessfull piece verification")]
     PieceVerificationFailure(),
+    #[error("Unsuccessfull torrent info verification")]
+    InfoVerificationFailure(),
     #[error(transparent)]
     Stream(#[from] StreamError),
     #[error(transparent)]
@@ -35,6 +37,9 @@ pub fn get_info(info_hash: &[u8], endpoint: &str) -> Result<Info, PeerManagerErr
     let info = Downloadable::Info.download(&mut peer)?;
 
     let info = Info::from_bytes(info)?;
+    if info.compute_info_hash() != info_hash {
+        return Err(PeerManagerError::InfoVerificationFailure());
+    }
     Ok(info)
 }
 
-- 
2.43.0


From f0f8264958264e8bd2658b7b04fe63e05bde1c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:32 +0000
Subject: [PATCH 11/18] fix: malformed magnets are rejected instead of
 panicking or yielding a wrong info hash

---
 src/torrent/magnet.rs | 45 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/torrent/magnet.rs b/src/torrent/magnet.rs
index da681f5..50563ec 100644
--- a/src/torrent/magnet.rs
+++ b/src/torrent/magnet.rs
@@ -16,7 +16,7 @@ impl Magnet {
 }
 
 fn verify_info_hash(magnet_uri: &[u8]) -> bool {
-    magnet_uri.len() < 60 || &magnet_uri[..8] != "magnet:?".as_bytes()
+    magnet_uri.len() < 52 || &magnet_uri[..20] != "magnet:?xt=urn:btih:".as_bytes()
 }
 
 // Given a string representation of an hex character we obtain the hex byte representation.
@@ -48,11 +48,44 @@ fn hex_decode(info_hash_hex_encoded: &[u8]) -> Vec<u8> {
         .collect::<Vec<u8>>()
 }
 
-fn parse_info_hash(magnet_uri: &[u8]) -> Vec<u8> {
-    if magnet_uri[60] == b'&' {
-        hex_decode(&magnet_uri[20..60])
+fn is_hex(byte: u8) -> bool {
+    matches!(byte, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F')
+}
+
+fn is_base32(byte: u8) -> bool {
+    matches!(byte, b'2'..=b'7' | b'a'..=b'z' | b'A'..=b'Z')
+}
+
+fn is_hex_encoded(bytes: &[u8]) -> bool {
+    for byte in bytes {
+        if !is_hex(*byte) {
+            return false;
+        }
+    }
+    true
+}
+
+fn is_base32_encoded(bytes: &[u8]) -> bool {
+    for byte in bytes {
+        if !is_base32(*byte) {
+            return false;
+        }
+    }
+    true
+}
+
+// The info hash goes on until the next parameter or the end of the magnet
+fn ends_at(magnet_uri: &[u8], end: usize) -> bool {
+    magnet_uri.len() == end || (magnet_uri.len() > end && magnet_uri[end] == b'&')
+}
+
+fn parse_info_hash(magnet_uri: &[u8]) -> Result<Vec<u8>, MagnetError> {
+    if ends_at(magnet_uri, 60) && is_hex_encoded(&magnet_uri[20..60]) {
+        Ok(hex_decode(&magnet_uri[20..60]))
+    } else if ends_at(magnet_uri, 52) && is_base32_encoded(&magnet_uri[20..52]) {
+        Ok(magnet_uri[20..52].to_vec())
     } else {
-        magnet_uri[20..52].to_vec()
+        Err(MagnetError::NoMagnet())
     }
 }
 
@@ -61,7 +94,7 @@ pub fn parse_magnet(magnet_uri: Vec<u8>) -> Result<Magnet, MagnetError> {
         return Err(MagnetError::NoMagnet());
     }
 
-    let info_hash = parse_info_hash(&magnet_uri);
+    let info_hash = parse_info_hash(&magnet_uri)?;
 
     Ok(Magnet { info_hash })
 }
-- 
2.43.0


From c806b123df0b029b40f041a66b95976af89149aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 12/18] fix: an invalid magnet is answered with a bad request
 instead of a panic

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 89febf3..c0f625a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,7 +24,10 @@ use crate::actors::torrent::TorrentActor;
 
 #[post("/add/magnet")]
 async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpResponse {
-    let magnet = magnet::parse_magnet(magnet_raw.as_bytes().to_vec()).unwrap();
+    let magnet = match magnet::parse_magnet(magnet_raw.as_bytes().to_vec()) {
+        Ok(magnet) => magnet,
+        Err(err) => return HttpResponse::BadRequest().body(err.to_string()),
+    };
     let info_hash = magnet.get_info_hash();
 
     let addr = TorrentActor::new(info_hash.clone()).start();
-- 
2.43.0


From d519b70b2ba1f9e46776508294dad8596890a0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 13/18] fix: udp tracker responses are validated and a single
 peer is accepted

---
 src/tracker/udp_tracker.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index acdbdaf..9815045 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -16,6 +16,15 @@ pub enum UdpTrackerError {
     RecieveError(),
     #[error("Error in sending packet through socket")]
     SendError(),
+    #[error("Response to another request")]
+    WrongResponse(),
+}
+
+const CONNECT_ACTION: [u8; 4] = [0x00, 0x00, 0x00, 0x00];
+const ANNOUNCE_ACTION: [u8; 4] = [0x00, 0x00, 0x00, 0x01];
+
+fn is_response_to(response: &[u8], action: &[u8], transaction_id: &[u8]) -> bool {
+    &response[..4] == action && &response[4..8] == transaction_id
 }
 
 pub async fn call(
@@ -52,11 +61,14 @@ pub async fn call(
 
     let mut annouce_buf: [u8; 4000] = [0x00; 4000];
     let resp_size = read_upd_packet(&socket, &mut annouce_buf).await?;
-    if resp_size > 26 {
-        return Ok(annouce_buf[20..resp_size].to_vec());
+    if resp_size < 26 {
+        return Err(UdpTrackerError::WrongResponseSize());
+    }
+    if !is_response_to(&annouce_buf, &ANNOUNCE_ACTION, transaction_id) {
+        return Err(UdpTrackerError::WrongResponse());
     }
 
-    Err(UdpTrackerError::WrongResponseSize())
+    Ok(annouce_buf[20..resp_size].to_vec())
 }
 
 async fn connect_to_tracker(
@@ -72,8 +84,10 @@ async fn connect_to_tracker(
             log::error!("Send udp connect packet failed, retry number {}", retry);
         };
 
-        if read_upd_packet(socket, &mut buf).await.is_ok() {
-            return Ok(buf[8..].to_vec());
+        if let Ok(resp_size) = read_upd_packet(socket, &mut buf).await {
+            if resp_size == 16 && is_response_to(&buf, &CONNECT_ACTION, transaction_id) {
+                return Ok(buf[8..].to_vec());
+            }
         }
     }
 
-- 
2.43.0


From 68aca468f9851f95ff0e764efa190ba7ecf8cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 14/18] fix: an unreachable udp tracker is an error, not a
 panic

---
 src/tracker/udp_tracker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index 9815045..c7a6a4a 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -34,7 +34,7 @@ pub async fn call(
 ) -> Result<Vec<u8>, UdpTrackerError> {
     let socket = UdpSocket::bind("0.0.0.0:0")
         .await
-        .expect("couldn't bind to address");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
     let tracker_hostname = format!(
         "{}:{}",
         tracker_url
@@ -46,7 +46,7 @@ pub async fn call(
     socket
         .connect(tracker_hostname.clone())
         .await
-        .expect("Panico");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
 
     let transaction_id: &[u8] = &[0x00, 0x01, 0x19, 0x9e];
     let connection_id = connect_to_tracker(transaction_id, &socket).await?;
-- 
2.43.0


From 9699792872e0096b440d8cfe828cd4ecffebd1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 15/18] fix: a piece is written to its file completely

---
 src/torrent/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index e2201d0..f2433ce 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -58,7 +58,7 @@ impl FileWriter {
             .unwrap();
 
         #[cfg(target_family = "unix")]
-        file.write_at(&self.piece, self.start as u64).unwrap();
+        file.write_all_at(&self.piece, self.start as u64).unwrap();
 
         #[cfg(target_family = "windows")]
         file.seek_write(&self.piece, self.start as u64).unwrap();
-- 
2.43.0


From d9fc2fcc3815cd56be5b0148dca72ba919e80e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 16/18] fix: a length prefix that arrives in parts is waited
 for

---
 src/peer/stream.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index d950d20..b0ba135 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -109,19 +109,14 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
         return None;
     }
 
-    let mut buffer: [u8; 4] = [0x00; 4];
-    let available = stream.peek(&mut buffer).unwrap_or(0);
+    let prefix = wait_prefix(stream)?;
 
-    if available > 0 && buffer[0] == 0x13 {
+    if prefix[0] == 0x13 {
         let handshake = wait_and_read(stream, 68)?;
         return Some((handshake, 19, 68));
     }
 
-    // A partial message is left in the stream: nothing is consumed until all of it is available.
-    if available < 4 {
-        return None;
-    }
-    let length = u32::from_be_bytes(buffer);
+    let length = u32::from_be_bytes(prefix);
 
     // Keep alive, it carries no id and no body
     if length == 0 {
@@ -133,6 +128,18 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
     Some((frame[5..].to_vec(), frame[4], length - 1))
 }
 
+// A partial message is left in the stream: nothing is consumed until all of it is available.
+fn wait_prefix(stream: &mut StreamInterface) -> Option<[u8; 4]> {
+    let mut prefix: [u8; 4] = [0x00; 4];
+    for retry in 1..40 {
+        if stream.peek(&mut prefix).unwrap_or(0) == 4 {
+            return Some(prefix);
+        }
+        thread::sleep(time::Duration::from_millis(5 * retry));
+    }
+    None
+}
+
 fn wait_and_read(stream: &mut StreamInterface, length: usize) -> Option<Vec<u8>> {
     let mut buffer = vec![0; length];
     for retry in 1..40 {
-- 
2.43.0


From 46ce382c35fc516feab8a9195de4725bf462ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:25 +0000
Subject: [PATCH 17/18] fix: a torrent is announced to every tracker even when
 its mailbox is full

---
 src/actors/trackers_interface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actors/trackers_interface.rs b/src/actors/trackers_interface.rs
index 5d9ed75..497e7ac 100644
--- a/src/actors/trackers_interface.rs
+++ b/src/actors/trackers_interface.rs
@@ -58,7 +58,7 @@ impl Handler<TorrentRegistered> for TrackersInterfaceActor {
 
     fn handle(&mut self, msg: TorrentRegistered, _ctx: &mut Context<Self>) -> Self::Result {
         for actor in self.trackers.iter() {
-            let _ = actor.try_send(msg.clone());
+            actor.do_send(msg.clone());
         }
 
         Ok(true)
-- 
2.43.0


From 8ae1fcfb1861a09aae34269b9453da19e6a1eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:29 +0000
Subject: [PATCH 18/18] fix: a torrent is registered with the trackers however
 many are added at once

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index c0f625a..ed1bd85 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -37,7 +37,7 @@ async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpRespon
         torrent_actor_addr: addr.clone(),
     };
 
-    let _ = data.trackers_interface.try_send(msg);
+    data.trackers_interface.do_send(msg);
 
     HttpResponse::Ok().body("Test")
 }
-- 
2.43.0

