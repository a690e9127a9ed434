#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
S = "binate/src/"
C = S + "frame/codec/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ALL_CODEC = [C + f + ".rs" for f in "setup error lease keepalive request_response request_fnf request_stream request_channel request_n cancel payload metadata_push resume resume_ok".split()]

prop("C01", "Every constructible frame survives an encode/decode round trip",
 "Any frame of any of the 14 kinds, built through the public constructors or the setup builder with arguments in their documented ranges, encodes to bytes that decode to a frame of the same kind with equal content, leaving no byte unread. Every field a user can read back (stream id, flags, numbers, tokens, MIME types, metadata, data) is the one that was put in; only a zero-length optional byte field may come back as absent.",
 ["inputs"], "all frame kinds x all in-range arguments: sizes 0..2^24-1 for metadata, 0..65535 for tokens, 0..255 for MIME types, all flag combinations, absent/empty/large payload parts",
 "Each codec has one test with one hand-picked frame (metadata and data both present, a few bytes long); absent parts, lengths beyond one byte, other flag combinations and boundary numbers are never encoded.",
 ALL_CODEC + [S + "frame/mod.rs", S + "frame/visit.rs"],
 [("Encode/Decode impl of each frame", "binate/src/frame/codec/*.rs"), ("dispatch by frame type", "binate/src/frame/mod.rs Frame::decode")],
 ["Encode::to_bytes", "Frame::decode", "frame accessors", "PartialEq of Frame"])

prop("C02", "Encoded frames follow the RSocket 1.0 wire layout bit for bit",
 "The bytes produced for a frame are exactly those of the RSocket 1.0 layout: big-endian 32-bit stream id, 6-bit frame type, then the I, M, and per-type flag bits directly after the type, then the type's fields in order with their documented widths. A 24-bit metadata length is present on request, payload and setup frames exactly when the metadata flag is set, a resume token exactly when the resume flag is set, and unused flags and reserved bits are zero.",
 ["inputs"], "all frame kinds x all in-range arguments, compared byte for byte with an independent encoder written from the protocol specification",
 "The tests decode with the same code that encoded, so a consistent mistake on both sides (a shifted flag bit, swapped fields, a wrong width) is invisible to them.",
 ALL_CODEC + [S + "frame/flags.rs", S + "frame/u24.rs", S + "frame/version.rs", S + "payload.rs"],
 [("flag constants and frame type codes", "binate/src/frame/flags.rs"), ("field order in each encoder", "binate/src/frame/codec/*.rs Encode::encode")],
 ["Encode::to_bytes"])

prop("C03", "Decoding arbitrary bytes never crashes and does bounded work",
 "For every byte string whatsoever, received whole or in pieces, decoding a frame returns either a frame or a decode error: it never panics, overflows, reads beyond the input or fails to terminate. The memory it allocates and the number of buffer accesses it makes stay proportional to the bytes actually received, whatever lengths the bytes claim.",
 ["inputs"], "all byte strings: random, structured with random header fields and lengths, and valid frames truncated, extended or corrupted",
 "Only well-formed encodings are ever decoded by the tests; no malformed, truncated or hostile input is, and the extension frame type is never decoded.",
 [S + "frame/mod.rs", S + "frame/visit.rs", S + "frame/decode.rs"] + ALL_CODEC,
 [("remaining-length guard before each read", "binate/src/frame/visit.rs incomplete_if_less_than!"), ("type dispatch", "binate/src/frame/mod.rs Frame::decode")],
 ["Frame::decode on hostile input", "allocations and buffer accesses made during the call"])

prop("C04", "An accepted frame says exactly what its bytes say",
 "Whenever bytes are accepted as a frame, the kind, stream id, flags and every field of the result are the values found at the positions the RSocket layout assigns to them, with reserved bits and undefined flag bits ignored. Decoding consumes exactly the bytes of the frame: kinds that end in a variable-length part take the rest of the input, fixed-size kinds leave what follows untouched.",
 ["inputs"], "all byte strings that decode successfully, including ones no encoder of this library produces (reserved bits set, foreign flag combinations, non-ASCII MIME types, trailing bytes)",
 "The tests feed the decoders only this library's own output for one frame per kind, so fields that happen to be equal, zero or short cannot be told apart.",
 [S + "frame/mod.rs", S + "frame/visit.rs", S + "frame/flags.rs"] + ALL_CODEC,
 [("field readers", "binate/src/frame/visit.rs eat_*"), ("per-kind decoders", "binate/src/frame/codec/*.rs Decode::decode")],
 ["Frame::decode result and accessors", "remaining bytes after the call"])

prop("C05", "Malformed frames are rejected, and for the right reason",
 "Bytes that end before the mandatory or announced part of a frame are reported as incomplete, an unassigned or unsupported frame type is reported as unrecognized together with its code, and a connection-level frame on a non-zero stream, or an error frame whose code and stream id contradict each other, is reported as an invalid stream id with the id found and the one the protocol demands there. None of these inputs is ever accepted as a frame, and no well-formed frame is rejected.",
 ["inputs"], "all truncation points of all frames; all 64 type codes; all stream ids on connection-level kinds; all error codes x zero/non-zero stream",
 "One test covers one unknown type code; no truncation, no stream id rule and no error-code rule is tested.",
 [S + "frame/mod.rs", S + "frame/visit.rs", S + "frame/decode.rs", C + "error.rs", C + "lease.rs", C + "keepalive.rs", C + "setup.rs", C + "resume.rs"],
 [("header and stream id checks", "binate/src/frame/mod.rs Frame::decode"), ("error code/stream id rule", "binate/src/frame/codec/error.rs validate_stream_id"), ("length guards", "binate/src/frame/visit.rs")],
 ["DecodeError variants returned by Frame::decode"])

prop("C06", "A frame's announced length is the number of bytes it encodes to",
 "For every frame, however it was obtained (constructed or decoded), the reported encoded length equals the number of bytes encoding appends, and is what the byte-returning form yields. Encoding only appends: bytes already in the output buffer are untouched, and encoding the same frame again gives the same bytes.",
 ["inputs"], "all frames, constructed in range or decoded from any accepted bytes; any prior buffer content and capacity",
 "Each codec test compares the length of a single frame in which every optional part is present; frames lacking optional parts are never measured.",
 ALL_CODEC + [S + "frame/encode.rs", S + "frame/mod.rs", S + "payload.rs"],
 [("len() of each frame", "binate/src/frame/codec/*.rs Encode::len"), ("to_bytes", "binate/src/frame/encode.rs")],
 ["Encode::len", "Encode::encode", "Encode::to_bytes"])

prop("C07", "Decoding does not depend on how the bytes are split into buffers",
 "Decoding the same bytes gives the same frame or the same error, and consumes the same number of bytes, whether they arrive in one contiguous buffer or in any sequence of separate pieces, whatever the cut points and whichever buffer type holds them.",
 ["inputs"], "all byte strings x all ways of cutting them into pieces x buffer types (contiguous, chained, deque, the connection's own buffer list)",
 "No test decodes from a non-contiguous buffer other than whole frames pushed one by one.",
 [S + "frame/visit.rs", S + "frame/mod.rs", S + "connection/buf.rs"],
 [("generic readers over Buf", "binate/src/frame/visit.rs"), ("buffer list", "binate/src/connection/buf.rs")],
 ["Frame::decode over different Buf implementations"], "guarded wrapper exposing the internal buffer list")

prop("C08", "Re-encoding a decoded frame preserves its meaning",
 "Any byte string accepted as a frame can be re-encoded, and the result decodes to an equal frame; re-encoding that second frame gives the same bytes again. If the accepted bytes were already in canonical form (no reserved or undefined bits, no bytes beyond the frame), re-encoding reproduces them exactly.",
 ["inputs"], "all byte strings that decode successfully, including non-canonical ones",
 "No test re-encodes a decoded frame; a relay that decodes and forwards frames depends on it.",
 ALL_CODEC + [S + "frame/mod.rs", S + "frame/flags.rs"],
 [("flags kept from the wire", "binate/src/frame/codec/*.rs"), ("Encode/Decode pair", "binate/src/frame/mod.rs")],
 ["Frame::decode then Encode::to_bytes"])

prop("C09", "Payload fragmentation loses nothing and announces its exact count",
 "Splitting a payload by a chunk size n yields pieces whose metadata parts concatenate to the original metadata and whose data parts concatenate to the original data, where piece k holds bytes k*n..(k+1)*n of each and so no part is longer than n. At every point of the iteration the announced number of remaining pieces (length and size hint) equals the number actually produced afterwards, and once exhausted the iterator stays exhausted. A chunk size of zero is refused loudly.",
 ["inputs"], "all payloads (absent, empty, and up to tens of megabytes of metadata and data independently) x all chunk sizes up to the word size",
 "Two tests use one 8-byte metadata and one 12-byte data value; the count is computed separately from the pieces, so sizes, empties and large lengths where they diverge are not reached.",
 [S + "payload.rs"],
 [("PayloadChunks iterator", "binate/src/payload.rs Iterator::next"), ("announced length", "binate/src/payload.rs ExactSizeIterator::len")],
 ["Payload::chunks", "next / len / size_hint / collected pieces"])

prop("C10", "Reassembling fragments restores the original payload",
 "Any payload split into fragments of any size, carried by request or payload frames of any kind and encoded, is reassembled from the received buffers in order into exactly the original metadata and data (an empty part may become absent), even if each buffer is itself in pieces. If any received fragment is malformed, reassembly reports the decode error and yields no payload at all.",
 ["inputs"], "all payloads x fragment sizes x frame kinds x positions of a corrupted or truncated fragment",
 "One test reassembles three fixed fire-and-forget frames; other kinds, empty parts, sizes over one byte and malformed fragments are not covered.",
 [S + "connection/buf.rs", S + "payload.rs", C + "payload.rs", C + "request_fnf.rs", C + "request_response.rs", C + "request_stream.rs", C + "request_channel.rs"],
 [("reassembly", "binate/src/connection/buf.rs TryInto<Payload>"), ("fragmentation", "binate/src/payload.rs PayloadChunks")],
 ["payload obtained from a list of encoded fragments"], "guarded wrapper exposing the internal buffer list")

prop("C11", "The receive buffer list behaves as one contiguous byte string",
 "A list of byte buffers used as one buffer is indistinguishable from the concatenation of its pieces under every sequence of reads, skips, byte extractions, integer reads, vectored views and further pushes. Its remaining count is always exact, it exposes readable bytes whenever any remain, and asking for more than remains fails loudly instead of returning wrong bytes.",
 ["histories"], "all sequences of operations over all lists of non-empty pieces",
 "Five tests apply one or two fixed operations to the pieces 'Hello', ' ', 'World'; operation sequences crossing several piece boundaries and vectored reads are not tested.",
 [S + "connection/buf.rs"],
 [("Buf impl", "binate/src/connection/buf.rs impl Buf for BufList")],
 ["remaining, chunk, advance, copy_to_bytes, chunks_vectored, get_*"], "guarded wrapper exposing the internal buffer list",
 [("bufs", "queue of partially consumed pieces", "binate/src/connection/buf.rs")])

prop("C12", "Stream ids handed out are legal, on our side, and not in use",
 "Every stream id allocated lies in 1..2^31-1, is odd for a client and even for a server, and is not in the set of ids currently in use, for any contents of that set and at any point of the id sequence including after it wraps around. Ids are handed out in order, each the next one not in use, starting over after the largest, so an id does not return before the rest of the side's id space has been gone through.",
 ["histories"], "all starting points of the id sequence (including just before every wrap) x all in-use sets, changing between allocations",
 "Tests check the first two ids of each side, one skip, and one client-side wrap; the server-side wrap, in-use ids around the wrap and long histories are not covered.",
 [S + "connection/stream_id.rs"],
 [("masking, stepping and skipping", "binate/src/connection/stream_id.rs next_stream_id")],
 ["StreamIdProvider::next_stream_id"], "guarded constructor at a given position in the sequence",
 [("counter", "next candidate id", "binate/src/connection/stream_id.rs")])

prop("C13", "Concurrent stream id allocations never collide",
 "Under every interleaving of concurrent callers sharing one allocator, no two allocations return the same stream id, and each returned id is legal for the side and not in the in-use set.",
 ["schedules"], "all interleavings of generated groups of 2-3 concurrent callers x starting points x in-use sets",
 "The one concurrency test asserts only the id that follows after all threads finished; the ids the threads themselves obtained are discarded.",
 [S + "connection/stream_id.rs"],
 [("atomic step of the counter", "binate/src/connection/stream_id.rs next_stream_id")],
 ["ids returned to each thread"], "guarded constructor at a given position in the sequence",
 [("counter", "next candidate id", "binate/src/connection/stream_id.rs")])

prop("C14", "The permit counter is an exact, saturating account of permits",
 "Over any history of grants and consumptions the permit count equals the initial permits (low 31 bits) plus all grants minus all consumptions, where a grant that would exceed 2^31-1 leaves the count at 2^31-1 instead of losing permits. Each consumption returns the count before it, and the counter reports zero exactly when the count is zero.",
 ["histories"], "all sequences of create, grant (0..2^31-1), consume, query",
 "Four tests make one call each with small numbers; accumulated grants near the maximum and longer histories are not exercised.",
 [S + "connection/counter.rs"],
 [("atomic counter", "binate/src/connection/counter.rs RequestCounter")],
 ["RequestCounter::{new, add, dec, load, is_zero}"], None,
 [("count", "permits left", "binate/src/connection/counter.rs")])

prop("C15", "Concurrent permit grants and consumptions are never lost",
 "Under every interleaving of concurrent grants and consumptions on one permit counter, each operation takes effect exactly once: the final count is the initial count plus grants minus consumptions, and the counts returned to concurrent consumers are those of some one-at-a-time order. In particular, without grants no two consumers are told the same previous count.",
 ["schedules"], "all interleavings of generated groups of 2-3 concurrent threads doing grants, consumptions and reads",
 "All counter tests are single-threaded.",
 [S + "connection/counter.rs"],
 [("atomic read-modify-write", "binate/src/connection/counter.rs")],
 ["values returned by each thread's operations and the final count"], "guarded switch of the counter's atomic type to the model checker's under cfg(loom)",
 [("count", "permits left", "binate/src/connection/counter.rs")])

prop("C16", "Each fire-and-forget call sends its whole payload on one fresh stream",
 "Each fire-and-forget call on a requester hands the connection at least one frame, in order, all on one stream id that is legal for the requester's role, unused by any other call or active stream, and whose payload parts put together are exactly the caller's payload; with fragmentation on, no fragment part exceeds the fragment size and every frame but the last, and only those, announces that more follows. Without fragmentation exactly one frame is sent. If the connection refuses a frame the call reports that error and sends nothing further.",
 ["histories", "fault_sequences"], "all sequences of calls x payloads x fragment sizes x roles x starting stream positions and active streams x points at which the connection fails",
 "No test constructs a requester at all.",
 [S + "connection/socket.rs", S + "payload.rs", S + "connection/stream_id.rs", C + "request_fnf.rs"],
 [("fire_and_forget", "binate/src/connection/socket.rs impl RSocket for RSocketMachine")],
 ["frames received by a mock connection", "result of the call"], "guarded constructor of the requester with fragment size, stream position and active streams",
 [("stream_id, receivers, chunk_payload", "allocator, active streams, fragment size", "binate/src/connection/socket.rs")])

prop("C17", "Concurrent requests on a shared requester do not mix",
 "When several threads issue fire-and-forget and metadata-push requests on one shared requester, then under every interleaving of their sends each fire-and-forget call gets a stream id no other call has, its fragments appear in order and complete on that id, and each metadata push puts exactly one metadata-push frame with exactly the caller's metadata on the connection and returns the connection's outcome.",
 ["schedules", "inputs"], "generated groups of calls x generated interleavings at every frame sent",
 "No test constructs a requester, let alone shares one between threads.",
 [S + "connection/socket.rs", S + "connection/stream_id.rs", C + "metadata_push.rs"],
 [("per-call stream id", "binate/src/connection/socket.rs fire_and_forget"), ("metadata_push", "binate/src/connection/socket.rs")],
 ["frames received by a mock connection that decides which thread proceeds"], "guarded constructor of the requester")

prop("C18", "A silent connection is closed once, after the keepalive timeout",
 "If nothing is received on a connection, it is closed exactly once, not before the configured keepalive timeout has elapsed since the requester was created and at most one further timeout period later, whatever the (non-zero) timeout value and whatever requests are sent meanwhile. A requested close is passed on to the connection each time it is asked for.",
 ["histories", "configurations"], "all keepalive timeouts x times and kinds of outgoing activity, on a simulated clock",
 "No test covers the requester or time at all.",
 [S + "connection/socket.rs"],
 [("keepalive watchdog task", "binate/src/connection/socket.rs RSocketMachine::new")],
 ["times at which a mock connection's close is called, on a paused clock"], "guarded constructor of the requester",
 [("keepalive_last_received, keepalive_timeout", "reference instant and timeout", "binate/src/connection/socket.rs")])

prop("C19", "Connection status changes are each observed once, without spinning",
 "For any sequence of statuses a connection publishes, the requester's monitor observes each published status exactly once and in order, reports every closure and every connection error (with its text) once and nothing else, and waits idle between changes. It never keeps the runtime busy or starves other tasks, even though a new subscription always begins with the current status.",
 ["histories"], "all sequences of statuses with arbitrary gaps, ending or staying open",
 "No test covers the requester.",
 [S + "connection/socket.rs", S + "connection/conn.rs"],
 [("status listener task", "binate/src/connection/socket.rs RSocketMachine::new"), ("status stream contract", "binate/src/connection/conn.rs DuplexConnection::connection_status")],
 ["log events emitted", "polls and subscriptions counted by a mock connection"], "guarded constructor of the requester")

prop("C20", "Well-known MIME types convert to their names and back without loss",
 "Every well-known MIME type converts to its registered RSocket name and that name converts back to the same type; no two types share a name. Every other string, including near misses, converts to the unparseable type, whose name is the empty string.",
 ["inputs"], "all well-known types (exhaustively) and arbitrary strings",
 "The single test converts one unknown string; no known name is converted in either direction.",
 [S + "mimetype.rs"],
 [("conversion tables", "binate/src/mimetype.rs")],
 ["From<&str> for WellKnownMimeType", "From<WellKnownMimeType> for &'static str"])

prop("C21", "Errors classify and describe themselves consistently",
 "Every error answers the classification queries for its own class only: a protocol error matches exactly its own specific query plus the protocol group (and the setup group for the three setup errors), a decode error only the decode query, an I/O error none of them. Its text starts with the class's protocol name and the code the protocol assigns (where it has one) and includes the cause, its debug form names class and cause as well, the cause stays reachable as the source, and decode error texts name the offending type or stream id.",
 ["inputs"], "all error classes and codes x arbitrary causes, decode errors with arbitrary values, I/O errors of every kind",
 "One test converts one decode error; no query, no text and no protocol class is tested.",
 [S + "error.rs", S + "frame/decode.rs", C + "error.rs"],
 [("classification and description", "binate/src/error.rs"), ("decode error text", "binate/src/frame/decode.rs")],
 ["is_* queries, Display, Error::source, Code values, error frame constants"], "guarded constructor of protocol errors")

prop("C22", "A setup frame carries exactly what its builder was told, or refuses it",
 "For any sequence of builder calls, the built setup frame reports the last value given for each parameter and the documented default for each parameter never set (version 1.0, 30 s and 60 s keepalive, binary MIME types), and the resume token is present exactly when resumption was requested. Values that do not fit the wire format (MIME types over 255 bytes, tokens over 65535 bytes) are refused when given; every frame the builder does produce arrives unchanged at the peer.",
 ["inputs", "histories"], "all sequences and orders of builder calls, with repeats, boundary lengths and non-ASCII MIME types",
 "One test sets every parameter once, in one order, with short values.",
 [C + "setup.rs", S + "consts.rs", S + "mimetype.rs"],
 [("SetupFrameBuilder", "binate/src/frame/codec/setup.rs"), ("defaults", "binate/src/consts.rs")],
 ["SetupFrame accessors before and after a wire round trip"])

prop("C23", "Out-of-range arguments never corrupt a frame on the wire",
 "A frame constructor given a number or length outside its documented range either refuses it loudly or reduces it to the field's own bits; the frame it returns then reports the reduced value, encodes with every reserved bit zero and every other field intact, and decodes to itself. This holds in builds with and without debug assertions.",
 ["inputs", "configurations"], "all constructors x all 32-bit/64-bit arguments and over-long tokens, in both build profiles",
 "Tests pass only in-range values and run only in the debug profile, where assertions hide what the release profile does.",
 [C + f + ".rs" for f in "lease keepalive request_response request_fnf request_stream request_channel request_n cancel payload metadata_push resume resume_ok error setup".split()] + [C + "mod.rs"],
 [("debug assertions and masking", "binate/src/frame/codec/*.rs constructors")],
 ["constructed frame's accessors and bytes in debug and release builds"])

prop("C24", "Frame type codes and flag bits map one to one",
 "For every 16-bit value, reading a frame type from its code or from a header word gives the type the RSocket table assigns to it or none, the type's own code and header bits invert that reading and leave the ten flag bits clear, and the ten flag bits never influence it. Each flag query is true exactly when its protocol bit is set: ignore 0x200, metadata 0x100, follows/resume/respond 0x80, complete/lease 0x40, next 0x20.",
 ["inputs"], "all 65536 header words and all 65536 codes (exhaustive)",
 "Tests check each valid code once and one invalid code; no flag bit position and no other header word is checked.",
 [S + "frame/flags.rs"],
 [("type tables", "binate/src/frame/flags.rs FrameType"), ("flag constants", "binate/src/frame/flags.rs Flags")],
 ["FrameType::{from_value, from_bits, value, bits}", "Flags::is_*"])

prop("C25", "24-bit integers and protocol versions are faithful value types",
 "Every integer in 0..2^24-1 converts to the 24-bit type and back unchanged and encodes as its three big-endian bytes, and every larger integer is refused. Versions order by major then minor number, consistently with equality, print as major.minor, and encode as four big-endian bytes.",
 ["inputs"], "all 2^24 values (exhaustive), all larger 32/64-bit values (sampled), all pairs of versions (sampled)",
 "Tests convert only the maximum and one value above it, never encode a 24-bit integer, and never touch version ordering.",
 [S + "frame/u24.rs", S + "frame/version.rs"],
 [("U24", "binate/src/frame/u24.rs"), ("Version ordering", "binate/src/frame/version.rs")],
 ["U24 and Version methods"])

prop("C26", "A payload reports exactly what it was built from",
 "For any sequence of builder calls a payload returns the last data and the last metadata given, each present exactly if it was given; its length is the sum of the two, and it is empty exactly when that is zero. Text views of data, metadata and error data succeed exactly when the bytes are valid UTF-8 and then equal them, with an absent part giving the empty text (no text for an error frame), and splitting returns both parts unchanged.",
 ["inputs"], "all builder call sequences with arbitrary bytes, valid and invalid UTF-8",
 "Doc-tests build one ASCII payload; lengths, emptiness, absent parts and invalid UTF-8 are not tested.",
 [S + "payload.rs", C + "error.rs"],
 [("Payload and PayloadBuilder", "binate/src/payload.rs"), ("ErrorFrame::data_utf8", "binate/src/frame/codec/error.rs")],
 ["Payload accessors", "ErrorFrame::data_utf8"])

prop("C27", "What a requester sends is what the peer reassembles",
 "A peer that decodes the frames a requester puts on the wire, whichever way the frames of different calls are interleaved and however the bytes are split into buffers, and reassembles each stream's fragments in order until one announces no more, gets the exact metadata and data of every successful fire-and-forget call once (an empty part may become absent) and the exact metadata of every successful metadata push once, and nothing else. A call that reported an error is never completed at the peer, and successful calls leave no stream unfinished.",
 ["inputs", "histories", "faults"], "all histories of calls x fragment sizes x interleavings of the calls' frames x buffer cuts x frames the connection refuses",
 "No test connects the requester, the codec and the reassembly; each is only tried alone, on one small payload.",
 [S + "connection/socket.rs", S + "connection/buf.rs", S + "payload.rs", C + "request_fnf.rs", C + "metadata_push.rs", S + "frame/mod.rs"],
 [("fragmenting requester", "binate/src/connection/socket.rs fire_and_forget, metadata_push"), ("reassembly", "binate/src/connection/buf.rs TryInto<Payload>"), ("codec", "binate/src/frame")],
 ["frames a mock connection accepts, encoded, decoded and reassembled"], "guarded constructors of the requester and of the buffer list")

prop("C28", "Frames and payloads are values: equality and copies mean their content",
 "Two frames compare equal only if they are of one kind, agree in every field a user can read and encode to the same bytes; frames built from the same arguments compare equal, and the comparison is symmetric. Two payloads compare equal exactly when both parts agree, where an empty part is not an absent one. A copy equals its original, reads and encodes the same, and keeps doing so after the original was dropped, split or fragmented.",
 ["inputs"], "all pairs of frames of one kind and of payloads, equal, different and differing in a single field, byte or bit",
 "Tests compare frames for equality with their decoded selves only; a comparison that overlooks a field would make those tests pass, and no two different frames are ever compared.",
 ALL_CODEC + [S + "frame/mod.rs", S + "payload.rs"],
 [("PartialEq and Clone of frames", "binate/src/frame/codec/*.rs, binate/src/frame/mod.rs"), ("PartialEq and Clone of Payload", "binate/src/payload.rs")],
 ["==, !=, clone, accessors, Encode::to_bytes"])

prop("C29", "Answers do not depend on history, order or other threads",
 "Decoding given bytes, building and encoding a frame from given arguments, splitting a given payload, reassembling given fragments and looking up a given MIME type give the same answer every time: whatever was decoded, encoded, split, reassembled or looked up before, in whatever order, in this thread or in others at the same time, and whether the bytes are a buffer of their own or part of a larger one. A decoded frame keeps its content when the buffer it was decoded from is dropped or used again.",
 ["inputs", "histories", "schedules"], "all sequences of questions to the codec, the payload splitter, the reassembly and the MIME table, in all orders and from several threads",
 "Every test asks each thing once, in one thread and from a buffer of its own; a cache, a scratch buffer or a shared counter would not show.",
 ALL_CODEC + [S + "frame/mod.rs", S + "payload.rs", S + "mimetype.rs", S + "connection/buf.rs"],
 [("Frame::decode and Encode::encode", "binate/src/frame/mod.rs"), ("zero-copy reading", "binate/src/frame/visit.rs, binate/src/frame/decode.rs"), ("Payload::chunks", "binate/src/payload.rs"), ("WellKnownMimeType", "binate/src/mimetype.rs")],
 ["Frame::decode", "Encode::encode", "Payload::chunks", "WellKnownMimeType::from"])

prop("C30", "Requesters, buffer lists, id sequences and counters are independent",
 "What is done with one object never shows in another of its kind. With several requesters in a process, each on a connection of its own: a call on one sends frames on its connection only, uses that requester's fragment size, active streams and id sequence, and reports that connection's refusals; a timeout or a close on one leaves the others' connections alone, and each is still closed once after its own timeout. Creating, using or dropping a buffer list, a stream id provider or a permit counter changes no other one.",
 ["inputs", "histories"], "all histories over several requesters, buffer lists, id providers and counters that are alive at the same time, with all settings and timeouts",
 "Every test has one object of a kind and looks at that one; state shared by accident (a static, a shared map, a common queue) only shows with two of them in use in turn.",
 [S + "connection/socket.rs", S + "connection/buf.rs", S + "connection/stream_id.rs", S + "connection/counter.rs"],
 [("RSocketMachine and its tasks", "binate/src/connection/socket.rs"), ("BufList", "binate/src/connection/buf.rs"), ("StreamIdProvider", "binate/src/connection/stream_id.rs"), ("RequestCounter", "binate/src/connection/counter.rs")],
 ["DuplexConnection::send_and_forget, send and close on each connection", "Buf of each list", "next_stream_id, add, dec, load"], "guarded constructors of the requester, the buffer list and a provider at a position")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
