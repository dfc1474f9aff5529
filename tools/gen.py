#!/usr/bin/env python3
"""writes properties.jsonl, props.json and MANIFEST.json from one table"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = "the environment contracts of contracts/prelude.rs: std collections, integer/string conversions, sockets and files behave as their documentation says"
P = []


def prop(id, title, statement, over, text, why, files, mech, functions, lemmas=(), assumptions=(), note="", claimed=True, reason="", observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  functions=functions, lemmas=list(lemmas), assumptions=list(assumptions), note=note, claimed=claimed,
                  reason=reason, observe=list(observe)))


prop("C01", "A verified piece lands in the right files at the right offsets, completely",
     "Writing a piece of a torrent puts every one of its bytes at the place given by its position in the concatenation of the torrent's files: the byte at absolute position a goes into the file that covers a, at offset a minus the start of that file. Nothing is written to any other file or offset, and a piece that spans several files (including empty and single-byte ones) is split exactly at their boundaries. A short write is never taken for a complete one.",
     ["inputs", "configurations"], "every list of files, piece length, piece index and piece content, including pieces that end exactly at a file boundary and a short last piece",
     "Tests try a handful of layouts with fixed numbers; the boundary arithmetic has to be right for all file lengths and indices, and partial writes never happen under test.",
     ["src/torrent/writer.rs", "src/torrent/file.rs", "src/actors/writer.rs", "src/actors/torrent.rs"],
     [("get_file_writers / FileParser", "src/torrent/writer.rs"), ("FileWriter::write_to_filesystem", "src/torrent/writer.rs")],
     ["torrent::writer::*", "torrent::file::File::get_length", "torrent::file::File::get_path", "torrent::file::File::new",
      "actors::writer::*", "actors::torrent::TorrentActor::handle_PieceDownloadSuccessfull"],
     ["lemma_lens_sum", "lemma_lens_mono", "lemma_joined_first", "lemma_flat_first"],
     ["std::fs: create_dir_all, OpenOptions::open and FileExt::write_all_at do what they say; write_all_at either writes everything or fails"])

prop("C02", "Only pieces whose SHA-1 matches the metadata are accepted and stored",
     "A piece obtained from a peer is accepted as downloaded only if the SHA-1 of exactly its bytes equals the 20-byte digest the torrent's metadata gives for its index. Every other outcome - a wrong or short piece, a refused connection, a protocol error - is reported as a failed download of that same piece by that same peer, and a failure is reported only then. Only accepted pieces are handed to the disk writer, with the index they were requested under and the torrent's own file list and piece length.",
     ["inputs", "histories", "fault_sequences"], "every byte sequence a peer may send for a piece, every metadata and index, every failure of the connection",
     "Tests check verification on one good and one bad piece; the flow from the socket to the writer through three actors is not tested at all.",
     ["src/torrent/info.rs", "src/peer/manager.rs", "src/actors/connection.rs", "src/actors/torrent.rs"],
     [("Info::verify_piece", "src/torrent/info.rs"), ("download", "src/peer/manager.rs"), ("PieceRequested handler", "src/actors/connection.rs"), ("PieceDownloadSuccessfull handler", "src/actors/torrent.rs")],
     ["torrent::info::Info::verify_piece", "torrent::info::Info::get_piece", "peer::manager::download",
      "actors::connection::*", "actors::torrent::TorrentActor::handle_PieceDownloadSuccessfull", "torrent::info::Info::get_piece_length", "torrent::info::Info::get_files",
      "torrent::info::Info::get_total_length", "actors::messages::*", "actors::writer::*"],
     ["pieces_accounted", "step_reported"], ["sha1 is SHA-1 (uninterpreted); actix delivers a message unchanged and once to the actor it was sent to"])

prop("C03", "Torrent metadata is only used when its hash is the requested info hash",
     "Metadata that a torrent starts from - whether received from a peer or read from the local cache - has passed the structural validation and its info hash equals the hash of the magnet link. Anything else a peer or the cache delivers is discarded and the torrent stays without metadata; what a peer delivers that does meet this is used, and it is what is saved for the next start.",
     ["inputs", "histories", "fault_sequences"], "every byte sequence a peer may deliver as metadata, every content of the cache file, every info hash",
     "No test covers the path from a peer's metadata to the torrent; the attacker-chosen metadata bytes are an unbounded input space.",
     ["src/peer/manager.rs", "src/actors/torrent.rs", "src/torrent/info.rs"],
     [("get_info", "src/peer/manager.rs"), ("collect_info", "src/actors/torrent.rs"), ("Info::from_bytes / Info::validate", "src/torrent/info.rs")],
     ["peer::manager::get_info", "actors::torrent::collect_info", "torrent::info::Info::from_bytes", "torrent::info::Info::compute_info_hash",
      "torrent::info::Info::from_file", "torrent::info::Info::save", "actors::torrent::TorrentActor::handle_PeerFound"],
     ["step_found", "lemma_wf"], ["sha1 is SHA-1 (uninterpreted)"])

prop("C04", "Block requests cover a piece exactly, one at a time, and are assembled in order",
     "To download a piece the client asks the peer for consecutive blocks of 16 KiB, the last one shorter, whose lengths add up to exactly the length of that piece (the last piece of a torrent may be shorter), never for a byte outside the piece or the torrent. At most one request is unanswered at a time, each asks for the block that follows those that have arrived, and none is sent while the peer chokes the client; a peer that sends nothing unasked is asked for every block exactly once, in order. The content returned is the concatenation of the payloads of the block messages, in the order they arrived, as many as the piece has blocks; otherwise the download fails, and it fails only while the peer chokes the client or sends nothing.",
     ["inputs", "histories", "schedules"], "every total length, piece length and index of valid metadata, and every sequence and timing of messages a peer may send during the download",
     "Tests exercise the block-size formula on a few numbers and the message buffer without a stream; the request loop against an arbitrary peer is not tested.",
     ["src/peer/download/mod.rs", "src/peer/download/block.rs", "src/peer/buffer.rs", "src/peer/manager.rs"],
     [("execute", "src/peer/download/mod.rs"), ("MessageBuffer", "src/peer/buffer.rs"), ("next_block / get_block_size", "src/peer/download/block.rs")],
     ["peer::buffer::*", "peer::download::execute", "peer::download::real_piece_length", "peer::download::Downloadable::*", "peer::download::block::*", "messages::Message::is_request_message", "messages::Message::get_content_data", "messages::new_request", "peer::manager::download"],
     ["blocks_cover_piece", "each_block_asked_once", "lemma_block", "lemma_got", "lemma_req", "lemma_payloads"], ["a message is read from the stream as C09 states and applied as C12 states"],
     note="liveness (that an answering peer is asked on) is not claimed")

prop("C05", "Metadata is fetched in consecutive 16 KiB pieces under the peer's extension id",
     "Metadata is requested from a peer piece by piece, in order from 0 up to the number of 16 KiB pieces of the size the peer announced, under the extension id the peer announced for ut_metadata, and never from a peer that did not announce one. At most one request is unanswered at a time. Only metadata data messages count as answers and the result is the concatenation of their payloads without the bencoded header, as many as there are pieces; otherwise the download fails, and it fails only while the peer chokes the client or sends nothing.",
     ["inputs", "histories", "schedules"], "every announced size, extension table and every sequence of messages a peer may send",
     "No test runs a metadata download; header stripping and the piece count depend on unbounded attacker-controlled inputs.",
     ["src/peer/download/mod.rs", "src/peer/download/info.rs", "src/messages/extension.rs"],
     [("next_piece", "src/peer/download/info.rs"), ("execute", "src/peer/download/mod.rs"), ("ExtensionMessage::get_data", "src/messages/extension.rs")],
     ["peer::download::execute", "peer::download::info::*", "peer::download::Downloadable::*", "peer::buffer::*", "messages::new_metadata", "messages::Message::is_extension_data_message", "messages::extension::*", "peer::manager::get_info"],
     ["each_block_asked_once", "lemma_block", "lemma_got", "lemma_req", "lemma_payloads", "lemma_metadata", "lemma_metadata_bytes", "lemma_metadata_entries", "lemma_metadata_len"], ["a message is read from the stream as C09 states and applied as C12 states"],
     note="liveness (that an answering peer is asked on) is not claimed")

prop("C06", "Bencode encoding and decoding are exact inverses",
     "Encoding an integer, byte string, text, list, dictionary, optional value or struct yields its unique canonical bencoding: lengths count bytes, dictionary keys appear sorted in byte order, absent optionals vanish. Decoding any bencoding yields the value it denotes, so decoding an encoded value gives the value back, and two different values never encode alike.",
     ["inputs"], "every value, including non-ASCII text, empty containers, nested structures and large integers",
     "Tests use small ASCII samples; byte length versus character length, key order and nesting are settled only by a statement about all values.",
     ["src/bencode/encode.rs", "src/bencode/decode.rs", "src/bencode/metainfo.rs"],
     [("Encode impls", "src/bencode/encode.rs"), ("Decoder", "src/bencode/decode.rs")],
     ["bencode::encode::*", "bencode::decode::*", "bencode::metainfo::*"],
     ["bencode_round_trip", "bencode_injective"],
     ["slice sort_by sorts by the given comparison; to_string of an integer is its decimal form"])

prop("C07", "The bencode decoder is total: any bytes give a value or an error",
     "Decoding an arbitrary byte sequence terminates with a value or an error and never panics, overflows or exhausts the stack, however it is nested or whatever lengths it announces. On success the number of bytes reported as consumed lies within the input, is exactly the length of the bencoding at its start, and bytes behind it are not interpreted.",
     ["inputs"], "every byte sequence, including truncated, deeply nested and non-canonical ones and those with huge length prefixes",
     "Tests feed well-formed samples and a few errors; peers and trackers send arbitrary bytes.",
     ["src/bencode/decode.rs", "src/bencode/metainfo.rs"],
     [("Decoder::decode and its parse functions", "src/bencode/decode.rs")],
     ["bencode::decode::*"], ["lemma_dec_bounds", "lemma_dec_list_bounds", "lemma_dec_dict_bounds"],
     ["stack use is bounded through the depth limit of 64 nested containers; the size of a stack frame is not verified"])

prop("C08", "Re-encoding metadata reproduces the bytes its info hash is defined over",
     "For metadata decoded from a canonical info dictionary with the standard keys (name, piece length, pieces, length or files with path and length), the info hash computed by the client is the SHA-1 of exactly those dictionary bytes. Every field - name, piece length, piece digests, file list order, path components, lengths - survives decoding unchanged.",
     ["inputs"], "every canonical single-file or multi-file info dictionary with the standard keys",
     "Tests hash two sample torrents; any difference for other names, paths or sizes would make a correct torrent unusable and is only excluded by a statement over all dictionaries.",
     ["src/torrent/info.rs", "src/torrent/file.rs", "src/bencode/encode.rs"],
     [("Info::compute_info_hash", "src/torrent/info.rs"), ("Encode for Info and File", "src/torrent/info.rs")],
     ["torrent::info::Info::from_metainfo", "torrent::info::Info::from_bytes", "torrent::info::Info::compute_info_hash", "torrent::info::Encode@Info::encode",
      "torrent::file::Encode@File::encode", "torrent::file::File::from_metainfo", "bencode::encode::*"],
     ["info_hash_identity"], ["sha1 is SHA-1 (uninterpreted)"],
     note="D9 (dictionaries with further keys) is a known finding")

prop("C09", "Wire messages are delimited exactly, however the stream is segmented",
     "From the byte stream of a peer the client extracts exactly the messages it contains: each is taken only when all of its length-prefixed bytes are there, keep-alives are skipped, and the first 68 bytes are read as a handshake exactly when one is there (its first byte is 19). A message that has not completely arrived within the bounded waiting time consumes nothing, so no later message is ever misread, however the bytes are split into segments.",
     ["inputs", "schedules", "fault_sequences"], "every byte stream, every segmentation and timing of its arrival, read errors and connection close at any point",
     "Tests feed whole messages from a mock; segmentation and timing of a TCP stream are a schedule space no test samples.",
     ["src/peer/stream.rs"],
     [("read_stream / wait_and_read", "src/peer/stream.rs")],
     ["peer::stream::*", "peer::Peer::read_message"], ["lemma_at_sub"],
     ["TCP peek/read return a prefix of the bytes that have arrived; set_read_timeout makes reads return"])

prop("C10", "Every outgoing message has the layout the protocol prescribes",
     "Handshake, interested, request, bitfield and extension messages are written to the peer as exactly the bytes BitTorrent prescribes: the 68-byte handshake with the fixed protocol string, extension bit, info hash and peer id; all others with a 4-byte big-endian length that counts id and payload, the id, and big-endian fields. A message is written completely and once, or the connection is known to be broken.",
     ["inputs", "fault_sequences"], "every info hash, peer id, piece index, offset, length, extension id and payload, and short or failing writes",
     "Tests compare a few encoded samples; field widths and length prefixes for all values, and partial writes, are not covered.",
     ["src/messages/mod.rs", "src/messages/handshake.rs", "src/messages/request.rs", "src/messages/interested.rs", "src/messages/bitfield.rs", "src/messages/extension.rs", "src/peer/stream.rs"],
     [("as_bytes", "src/messages"), ("write_stream", "src/peer/stream.rs")],
     ["messages::*as_bytes", "messages::new_*", "messages::Message::new_raw", "messages::Message::new", "messages::handshake::HandshakeMessage::new", "messages::request::RequestMessage::new", "messages::Message::get_content", "messages::Message::get_id",
      "peer::stream::write_stream", "peer::stream::send_metadata_handshake_request", "peer::Peer::send_message", "peer::Peer::send_metadata_handshake_request", "peer::stream::Write@StreamInterface::*"],
     ["lemma_metadata", "lemma_metadata_bytes", "lemma_metadata_entries", "lemma_metadata_len", "lemma_cat_text"], ["Write::write_all writes everything or fails"])

prop("C11", "Parsing a received message never panics and yields the fields it carries",
     "Any sequence of bytes received as the body of a message is either rejected with an error or parsed into exactly the fields it carries: bitfield bytes, handshake info hash and peer id, extension handshake table and metadata size, metadata data with its bencoded header removed, and the data of a block behind its index and offset. Truncated, empty or oversized bodies are errors, never panics.",
     ["inputs"], "every message id and every body",
     "Tests parse one well-formed sample per type; bodies are chosen by remote peers.",
     ["src/messages/mod.rs", "src/messages/bitfield.rs", "src/messages/extension.rs", "src/messages/handshake.rs", "src/messages/request.rs"],
     [("Message::new and from_bytes", "src/messages")],
     ["messages::*from_bytes", "messages::Message::new*", "messages::extension::*", "messages::bitfield::BitfieldMessage::get*", "messages::handshake::HandshakeMessage::get*", "messages::request::RequestMessage::get*", "messages::Message::is_*", "messages::Message::get_*"],
     ["lemma_bits", "lemma_low_byte"])

prop("C12", "The peer connection state follows the received messages exactly",
     "After any sequence of received messages the state kept for a peer is the one the protocol defines: choked until the last choke/unchoke was an unchoke, active only when the handshake carried the info hash of this torrent, the bitfield expanded most significant bit first, and metadata size and extension ids from the last extension handshake. No message changes anything else, and a connection counts as ready only when unchoked with a known metadata size.",
     ["inputs", "histories"], "every sequence of messages of every type and content",
     "Tests apply single messages; histories of messages are unbounded and the frame (nothing else changes) is not tested.",
     ["src/peer/mod.rs"],
     [("Peer::apply_message", "src/peer/mod.rs")],
     ["peer::Peer::*", "messages::bitfield::BitfieldMessage::get*", "messages::extension::ExtensionMessage::get*", "messages::handshake::HandshakeMessage::get*"], [])

prop("C13", "Every piece is waiting, in flight or written; failed ones are queued again",
     "Once the metadata of a torrent is known every piece index from 0 to the number of pieces minus one is in exactly one place: waiting in the queue, being downloaded, or handed to the writer. Pieces are handed out first in first out, a failed piece is put back behind the waiting ones, a completed piece is never queued again, and no index outside the torrent is ever requested.",
     ["histories", "schedules"], "every sequence of peer discoveries, successful and failed downloads, in any order",
     "Tests check the queue alone for a few steps; the scheduling actor has no tests.",
     ["src/peer/piece_pool.rs", "src/actors/torrent.rs"],
     [("PiecePool", "src/peer/piece_pool.rs"), ("TorrentActor handlers", "src/actors/torrent.rs")],
     ["peer::piece_pool::*", "actors::torrent::TorrentActor::*", "actors::torrent::Actor@*", "actors::connection::*", "actors::torrent::Peer::*"],
     ["pieces_accounted", "step_found", "step_reported", "handlers_ready", "lemma_started", "lemma_occ_remove", "lemma_occ_all"],
     ["a mutex is not poisoned; actix runs the handlers of one actor one at a time and delivers every message sent with do_send exactly once", "a torrent handles fewer than 2^64 messages"])

prop("C14", "Magnet parsing yields the info hash of the link or an error, never a panic",
     "For any bytes given as a magnet link the parser either returns the info hash the link carries - the 20 bytes written as 40 hex digits in either case, or the 32 base32 characters - or an error. It never panics, reads beyond the link, or accepts a hash of another length or alphabet.",
     ["inputs"], "every byte sequence, in particular truncated links, wrong prefixes, non-hex digits and non-ASCII bytes",
     "Tests parse a few good links; user input is arbitrary and upper/lower case digits and lengths are enumerated by no test.",
     ["src/torrent/magnet.rs"],
     [("parse_magnet and its helpers", "src/torrent/magnet.rs")],
     ["torrent::magnet::*"], [],
     note="base32 hashes are returned as their 32 characters, which an existing test pins")

prop("C15", "UDP tracker packets follow the protocol and only matching answers are used",
     "The UDP tracker client sends a 16-byte connect packet and a 98-byte announce packet laid out as the protocol prescribes, the announce carrying the connection id of the connect answer, the info hash and the peer id. An answer is used only if it is long enough, has the action asked for and repeats the transaction id; its peer list is exactly the six-byte entries that follow the header, and everything else is an error, never a panic. The client gives up only if no such answer came.",
     ["inputs", "fault_sequences"], "every answer datagram of any size and content, missing answers, unreachable trackers, every info hash and peer id",
     "Tests use one canned answer; trackers and spoofers send arbitrary datagrams.",
     ["src/tracker/udp_tracker.rs"],
     [("call / connect_to_tracker / is_response_to", "src/tracker/udp_tracker.rs")],
     ["tracker::udp_tracker::*", "tracker::get_peers_by_tracker"], ["lemma_datagram"],
     ["UdpSocket::recv returns a prefix of one datagram; send may send fewer bytes only for oversized datagrams"])

prop("C16", "Compact peer lists are decoded exactly and completely",
     "A compact peer list decodes to exactly one endpoint per six-byte entry, in order, each with the four bytes as dotted decimal address and the big-endian port in decimal; bytes behind the last whole entry are ignored. The text of every endpoint that is passed on is a valid socket address.",
     ["inputs"], "every byte sequence as peer list, including the empty one, single entries and partial entries",
     "Tests decode one or two entries; order, byte order and lengths for all lists are unsampled.",
     ["src/tracker/peer_endpoint.rs"],
     [("PeerEndpoint::from_bytes / endpoint", "src/tracker/peer_endpoint.rs")],
     ["tracker::peer_endpoint::*"], ["lemma_port"])

prop("C17", "A piece is only requested from a known peer, preferring those that failed less",
     "A piece is requested only from a peer the torrent has learned from a tracker: after a success from the peer that delivered, otherwise from one with fewer than two failures if there is any, else one with fewer than four, else any. Failure and success counters of exactly the peer that served the request are increased by one, and no other peer's record changes.",
     ["histories", "schedules"], "every set of known peers, every history of failures, every outcome of the random choice",
     "The scheduling actor has no tests; random choice and counters over histories cannot be sampled exhaustively.",
     ["src/actors/torrent.rs"],
     [("Peer::find_suitable_peer / update_failed / update_sucess", "src/actors/torrent.rs")],
     ["actors::torrent::Peer::*", "actors::torrent::TorrentActor::handle_*"], ["lemma_pick", "lemma_none", "lemma_suitable", "step_reported", "step_found", "pieces_accounted"],
     ["SliceRandom::shuffle permutes the slice", "fewer than 2^64 failures and successes per peer (a counter that cannot overflow)"])

prop("C18", "The HTTP endpoint rejects invalid magnet links and starts nothing for them",
     "A POST of any text to the add-magnet endpoint is answered: with status 400 when the text is not a valid magnet link, in which case no torrent is started, and with 200 otherwise, in which case exactly one torrent is registered with the trackers under exactly the info hash of the link.",
     ["inputs"], "every request body",
     "The endpoint has no tests.",
     ["src/main.rs", "src/torrent/magnet.rs"],
     [("add_magnet", "src/main.rs")],
     ["crate::add_magnet", "actors::torrent::TorrentActor::new", "torrent::magnet::parse_magnet", "torrent::magnet::Magnet::*"], [],
     ["actix-web extracts the body as UTF-8 text and sends the response as given"])

prop("C19", "A corrupt or foreign metadata cache file is an error, never a crash or bad data",
     "Reading the metadata cache never panics: a missing, truncated or non-JSON file, or one whose content is inconsistent, is reported as an error. Metadata that is returned from the cache satisfies the same validation as metadata received from a peer; a cache file that can be read, is well-formed and passes the validation is used, and then no peer is asked for the metadata and the file is not written again.",
     ["inputs", "crash_points", "fault_sequences"], "every content of the cache file, including what a crash in the middle of writing it leaves behind",
     "Tests read a file they just wrote; partially written and manipulated files are not sampled.",
     ["src/torrent/info.rs"],
     [("Info::from_file", "src/torrent/info.rs"), ("Info::validate", "src/torrent/info.rs")],
     ["torrent::info::Info::from_file", "torrent::info::Info::validate", "actors::torrent::collect_info", "actors::torrent::TorrentActor::handle_PeerFound"], [],
     ["serde_json::from_str returns an error or a value of the type for every input, the same one each time"])

prop("C20", "Accepted metadata is internally consistent",
     "Metadata is accepted only if it can be downloaded and stored: a positive piece length, a digest list that is a multiple of 20 bytes with exactly one digest per piece of the total length, a total length that is the sum of the file lengths without overflow, and at least a single file or a file list. Everything else is an error, so no later arithmetic on piece index, length or offset can overflow or index out of bounds.",
     ["inputs"], "every decoded dictionary: missing, mistyped or extreme fields, lengths close to the machine limits",
     "Tests load well-formed torrents; the fields come from remote peers and interact arithmetically.",
     ["src/torrent/info.rs", "src/torrent/file.rs"],
     [("Info::validate", "src/torrent/info.rs"), ("Info::from_metainfo", "src/torrent/info.rs")],
     ["torrent::info::Info::from_metainfo", "torrent::info::Info::validate", "torrent::info::Info::get_*", "torrent::file::File::from_metainfo", "torrent::file::File::get_*", "bencode::metainfo::*"], [])

prop("C21", "HTTP tracker requests carry the right query and only valid answers are used",
     "The HTTP tracker is asked with the info hash percent-encoded byte by byte, so that it reads exactly the bytes of the info hash, and with the peer id. Its answer is used only if it is a bencoded dictionary with a compact peers string, which is then decoded exactly; such an answer is always used, and every other one, including a failing request, is an error and never a panic.",
     ["inputs", "fault_sequences"], "every info hash and peer id, every answer body, failing requests",
     "Tests use a mock server with one answer; arbitrary bodies and all byte values in the hash are unsampled.",
     ["src/tracker/tcp_tracker.rs", "src/tracker/mod.rs"],
     [("call / call_tracker_for_peers", "src/tracker/tcp_tracker.rs")],
     ["tracker::tcp_tracker::*", "tracker::get_peers_by_tracker"], ["hash_arrives"],
     ["urlencoding::encode_binary percent-encodes every byte that is not unreserved (RFC 3986), with upper-case digits; ureq behaves as documented"])

prop("C22", "Generated peer ids are 20 ASCII letters or digits",
     "Every peer id the client generates consists of exactly 20 ASCII letters or digits, whatever the random source returns, so the handshake and the announce packet always have their fixed size.",
     ["inputs"], "every outcome of the random source",
     "A test can only sample some random outcomes.",
     ["src/common/generator.rs", "src/peer/mod.rs"],
     [("generate_peer_id", "src/common/generator.rs")],
     ["common::generator::*", "peer::Peer::new", "peer::Peer::get_peer_id"], [],
     ["rand::distributions::Alphanumeric yields ASCII letters and digits"])

prop("C23", "No write leaves the download directory, whatever paths a torrent names",
     "Metadata whose file names or path components are empty, '.', '..', or contain a path separator or NUL is rejected, and every file the client writes for a piece has a path that is the download directory followed by accepted components. So no torrent can make the client create or overwrite a file anywhere else.",
     ["inputs"], "every name and path list in the metadata, from a peer or from the cache",
     "Tests use benign names; the paths are chosen by whoever made the torrent.",
     ["src/torrent/file.rs", "src/torrent/info.rs", "src/torrent/writer.rs"],
     [("File::is_path_safe", "src/torrent/file.rs"), ("Info::validate", "src/torrent/info.rs"), ("FileWriter::write_to_filesystem", "src/torrent/writer.rs")],
     ["torrent::file::*", "torrent::info::Info::validate", "torrent::info::Info::from_bytes", "torrent::info::Info::from_file", "torrent::info::Info::from_metainfo", "torrent::info::Info::get_files", "torrent::writer::write", "torrent::writer::get_file_writers", "torrent::writer::FileWriter::*"], [],
     ["the download directory contains no symbolic links that lead elsewhere"])

prop("C24", "A torrent is announced to every tracker, and its peers are those they answer",
     "A torrent that is registered is announced to every tracker of the built-in list, once, under its info hash. A tracker asks over the protocol its URL names - UDP or HTTP, nothing else - and passes on to that torrent, and to nobody else, exactly the endpoints of the peer list of a validated answer to this request that accept a connection, once each and in that order; when the tracker fails or answers nonsense the torrent hears nothing and nothing else happens.",
     ["inputs", "histories", "fault_sequences"], "every info hash, every tracker list, every answer or failure of a tracker",
     "The tracker actors have no tests; trackers are remote and may answer anything.",
     ["src/actors/trackers_interface.rs", "src/actors/tracker.rs", "src/tracker/mod.rs"],
     [("TrackersInterfaceActor", "src/actors/trackers_interface.rs"), ("TrackerActor", "src/actors/tracker.rs"), ("get_peers_by_tracker", "src/tracker/mod.rs")],
     ["actors::trackers_interface::*", "actors::tracker::*", "tracker::get_peers_by_tracker", "tracker::peer_endpoint::PeerEndpoint::is_reachable"], [],
     ["the built-in tracker URLs are well formed (Url::parse accepts them)"])


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
    json.dump({p["id"]: {"functions": p["functions"], "lemmas": p["lemmas"], "assumptions": p["assumptions"] + [ENV]} for p in P if p["claimed"]},
              open(os.path.join(V, "props.json"), "w"), indent=1)
    m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: the functions are extracted mechanically from /repo/src on every run (tools/extract) and joined with the contracts in contracts/*.vc; see DESIGN.md."}
    for p in P:
        if p["claimed"]:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 /verif/check.py " + p["id"],
                                "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py " + p["id"],
                                "technique": "contract-based deductive verification (Verus) of the functions extracted from /repo",
                                "level": "proof",
                                "level_note": "Every owned function is discharged by Verus for all inputs against contracts in contracts/*.vc; trusted: the extractor's rewrites and the prelude's contracts on std and crates. " + p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
