#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Line framing is exact however the bytes arrive",
 "For any incoming byte stream and any way the transport splits it into reads (including empty reads and data delivered together with end-of-stream), the line reader returns exactly the delimiter-terminated segments, in order and byte for byte, delimiter included. An unterminated remainder is never presented as a complete line: it is only ever returned together with the transport's error. Reading lines and reading raw bytes share one cursor: no byte is lost, duplicated or reordered between them.",
 ["inputs", "schedules"], "all short streams over {delimiter, other bytes} x all fragmentations, zero-length reads and end-of-stream styles; streams whose lines straddle every offset around the internal buffer size",
 "Framing must hold for every fragmentation; the tests read from one in-memory buffer, i.e. exactly one fragmentation.",
 ["lineproto/reader.go"], [("buffer scan and line accumulation", "lineproto/reader.go Reader.ReadLine, bufReader.Scan"), ("raw reads drain the buffer first", "lineproto/reader.go Reader.Read, bufReader.Read")],
 [("read cursor", "offset of the next undelivered byte in the pre-read buffer", "lineproto/reader.go bufReader.off"), ("line", "bytes of the line accumulated so far", "lineproto/reader.go Reader.line")],
 ["lines returned by ReadLine", "bytes returned by Read"])

prop("C02", "Compressed sections begin and end on exact byte boundaries",
 "When a peer switches compression on after a line and later ends the compressed stream, the reader yields exactly the lines and bytes that were compressed, followed by exactly the plain bytes that follow, for any fragmentation, any compressor settings and any number of alternating sections. A truncated or corrupted compressed section is always reported as an error: its content is never silently shortened or followed by bytes of the surrounding plain stream as though it had ended cleanly. Enabling compression twice is refused and leaves the stream usable.",
 ["inputs", "schedules", "fault_sequences"], "all sequences of up to 3 compressed/plain sections over small contents, levels and flush patterns x fragmentations; every truncation point and every single-byte corruption of compressed sections",
 "Needs every split of the byte stream around both switch points, every truncation and corruption point; the tests run one stream delivered whole.",
 ["lineproto/reader.go"], [("switch to inflating reader on the buffered source, byte-wise so nothing past the end is consumed", "lineproto/reader.go Reader.EnableZlib, bufReader.ReadByte"), ("switch back at the end of the compressed stream", "lineproto/reader.go Reader.ReadLine, Reader.Read")],
 [("zlibOn/cur", "which source lines are currently read from", "lineproto/reader.go Reader")],
 ["lines and raw bytes delivered", "errors returned"])

prop("C03", "Raw transfers deliver exactly the announced byte count",
 "A raw section of N bytes opened on a connection yields exactly the next N bytes of the (decompressed) stream and then end-of-section, whatever the fragmentation or the caller's read sizes. Closing it early skips precisely its unread rest, so the next line or raw section starts at the byte after it. If the connection ends inside the section, the section never yields more bytes than arrived.",
 ["inputs", "schedules"], "all interleavings of lines and raw sections up to 4 operations, section sizes 0..small, around the buffer size and beyond 2^63, partial consumption, in plain and compressed mode, x fragmentations",
 "Interaction of buffered bytes, section sizes and early close is a product the tests never form (raw sections have no unit test).",
 ["lineproto/reader.go"], [("limited reader over the connection, drained on close", "lineproto/reader.go Reader.Binary, binaryReader")], None, ["bytes read from the section, following lines"])

prop("C04", "The line length limit is exact and independent of fragmentation",
 "With a line limit of M > 0, a line of at most M bytes (delimiter included) is delivered and a longer one is refused with an error, for every fragmentation, in plain and compressed mode and for the default limit; a non-positive limit disables the check. While refusing, the reader consumes and buffers only a bounded amount beyond the limit, even when the line is a highly compressible bomb that never ends.",
 ["inputs", "schedules", "configurations"], "all limits 1..small and around the internal buffer size, all line lengths around them, all fragmentations; endless plain and compressed lines",
 "The verdict must not depend on how the line arrives; the tests use one limit and one fragmentation.",
 ["lineproto/reader.go"], [("limit check while accumulating", "lineproto/reader.go Reader.ReadLine, SetMaxLine")], None, ["error or line from ReadLine", "bytes requested from the transport"])

prop("C05", "The outgoing byte stream is exactly what was written, in order",
 "For every sequence of line writes, raw writes, flushes, compression switches and close, with any buffer size, the bytes on the connection decode (plain and compressed sections at the points where compression was switched) to exactly the written data in order. After every successful flush, everything written so far can be decoded by the peer. Refused operations (bad compression level, enabling twice, disabling when off) neither add, drop nor corrupt anything and leave the writer usable.",
 ["histories", "configurations"], "all operation sequences up to depth 6 over 8+ operations, small payloads that do and do not fit the buffer, several buffer sizes and compression levels",
 "Ordering bugs need specific multi-step sequences (raw write while lines are buffered, re-enabling compression, level change); the tests run three fixed sequences.",
 ["lineproto/writer.go", "nmdc/writer.go", "adc/writer.go"], [("flush before switching or bypassing the buffer", "lineproto/writer.go Writer.Write, EnableZlibLevel, DisableZlib, Close")],
 [("bw/cur/zlibOn", "buffer, and which layer it drains to", "lineproto/writer.go Writer")], ["bytes received by the connection"])

prop("C06", "Output failures stick and never corrupt the stream",
 "Once a connection write, arming a write deadline or a line hook has failed, the failing operation reports it, every later line write, raw write, flush or compression switch reports a failure too, and none of them adds bytes to the connection. Whatever the failure point, the bytes that reached the connection are a prefix of the failure-free stream, and no operation (closing included) crashes. The failure stays known to the application after closing.",
 ["fault_sequences", "histories"], "all operation sequences up to depth 4-5 x every failure point (n-th connection write with every partial length class, n-th deadline call, n-th hook call), permanent and transient failures",
 "Needs a failure at every point of every operation sequence; the tests inject none.",
 ["lineproto/writer.go", "nmdc/writer.go", "adc/writer.go"], [("sticky error", "lineproto/writer.go Writer.setError, Err")], [("err", "last failure", "lineproto/writer.go Writer.err")], ["returned errors", "bytes received by the connection"])

prop("C07", "Hooks see every message once, in order, and drops are local",
 "Registered line, raw-message and message hooks and the keep-alive callback run exactly once per applicable message, in registration order and stream order, on reading and on writing, for both protocols. A hook that drops a message suppresses that message only (later hooks for it do not run, neighbouring messages in the same call or stream are unaffected); a hook error is returned to the caller. Keep-alives are reported and never delivered as messages.",
 ["histories", "configurations"], "all streams of up to 4-5 messages (command, chat, keep-alive, malformed) x all verdicts (pass, drop, fail) of up to 2 hooks per level, for reader and writer, single-message and batched writes",
 "Verdict combinations across several hooks and messages multiply beyond the handful sampled (drops are untested).",
 ["lineproto/reader.go", "lineproto/writer.go", "nmdc/reader.go", "nmdc/writer.go", "adc/reader.go"], [("hook loops", "lineproto Reader.ReadLine, Writer.WriteLine; nmdc Reader.readMsgTo, Writer.WriteMsg; adc Reader.readPacket")], None, ["hook call log", "messages delivered/written"])

prop("C08", "Every connection write happens under an armed write deadline",
 "When a deadline callback is configured, every byte handed to the connection by a line write, raw write, flush, compression switch or close is written after the callback was told to arm and before it is told to disarm, and the deadline is disarmed again when the operation returns. If arming fails, the operation reports that and hands nothing further to the connection.",
 ["histories", "configurations"], "all operation sequences up to depth 4-5, several buffer sizes, compression on/off, arming failing at any call",
 "Which operation finally pushes bytes depends on buffer state and compression state; no test configures the callback.",
 ["lineproto/writer.go"], [("Timeout callback", "lineproto/writer.go Writer.Timeout, Flush, WriteLine, Write, DisableZlib, Close")], None, ["interleaving of callback calls and connection writes"])

prop("C09", "NMDC messages encode to the specified line and decode back unchanged",
 "Every NMDC message type encodes to exactly one protocol line with the documented layout and escaping, and decoding that line yields a message equal to the original, for all field values representable in the protocol. Values that cannot be represented (the message delimiter in any field, characters forbidden in names and texts, over-long names) are refused with an error or escaped instead of producing a different or malformed line. This holds regardless of what was encoded or decoded before.",
 ["inputs"], "for each of the ~45 message types: all field combinations over alphabets of protocol-special characters and boundary numbers, compared with independent reference encoders",
 "Field values are unbounded strings whose special characters interact with separators; the tests have a few examples per type.",
 ["nmdc/message.go", "nmdc/types.go", "nmdc/utils.go", "nmdc/msg_*.go", "nmdc/extensions.go"], [("per-type encoders/decoders", "nmdc/msg_*.go MarshalNMDC, UnmarshalNMDC"), ("escaping", "nmdc/utils.go escapeString, escapeName; nmdc/types.go UnescapeBytes")], None, ["encoded bytes", "decoded messages"])

prop("C10", "Relaying an accepted NMDC line never changes or splits it",
 "For every line an NMDC reader accepts, re-encoding the decoded message either is refused or produces exactly one line, and that line decodes to the same message, whose encoding is again the same line. Hence a hub relaying a message cannot be made to emit an extra command, a truncated message or a message that drifts on each hop.",
 ["inputs"], "all argument strings up to a length bound over each type's special characters, and token grammars per type, for every registered type, chat and unknown commands",
 "Quantifies over all accepted inputs, including odd but legal ones; the tests only re-encode canonical samples.",
 ["nmdc/reader.go", "nmdc/message.go", "nmdc/msg_*.go", "nmdc/types.go"], [("decode/encode symmetry and re-escaping of delimiters", "nmdc/types.go String, Name; nmdc/message.go MarshalTo")], None, ["re-encoded line", "re-decoded message"])

prop("C11", "Hostile NMDC input is contained",
 "No byte sequence received on an NMDC connection makes the reader or the message decoders crash or hang. A malformed or disallowed line yields an error, and every well-formed message after it is still delivered, unmodified and uninfluenced by the malformed one. A line that cannot be parsed is reported exactly once, as received, to the application that asked for reports, which decides whether it is skipped or which error is returned. Over-long, empty or non-ASCII command names, user names over 256 bytes and null bytes are refused.",
 ["inputs", "fault_sequences"], "all 1-edit byte mutations (256 values) of a corpus covering every message type, all short argument strings for every type, all short raw lines, followed by well-formed messages",
 "Covers all malformed inputs, not chosen ones; tests contain a few malformed samples and never read on after them.",
 ["nmdc/reader.go", "nmdc/message.go", "nmdc/msg_*.go", "nmdc/utils.go"], [("line-by-line recovery and validation", "nmdc/reader.go Reader.readMsgTo")], None, ["errors and subsequent messages"])

prop("C12", "Typed NMDC reads deliver the requested message or a precise error",
 "Reading into a given message, or into one of several, fills the matching one (a raw message in the list accepts anything) and returns it; if the next message is of another type an error names the expected and the received command, and that payload stays intact however the connection is used later. Dropped or skipped messages before it leave no trace in the result or in which types are accepted, and the stream stays in sync.",
 ["histories", "inputs"], "all streams of up to 3-4 messages over several kinds (commands, chat, unknown, malformed, keep-alive) x all requested type lists x drop/skip verdicts",
 "The tests read one message of the right type; combinations with dropped and malformed messages are not covered.",
 ["nmdc/reader.go"], [("type matching", "nmdc/reader.go Reader.readMsgTo, ReadMsgTo, ReadMsgToAny, ErrUnexpectedCommand")], None, ["returned message/error", "next message"])

prop("C13", "NMDC text encodings convert losslessly with a one-shot fallback",
 "With a legacy single-byte encoding configured, every text and name representable in it is written in that encoding and read back as the same Unicode text, in every message type, and unrepresentable text is refused. When text is not valid UTF-8 and no encoding is configured, the unknown-encoding callback gets the offending text and its decoder decodes that very message and all later ones; if it fails, its error is returned, and without a callback the message is reported as undecodable.",
 ["inputs", "configurations"], "all 256 byte values and all pairs of special/high bytes in every text-bearing field, for several encodings, with all callback behaviours, over message sequences",
 "Must hold for every character in every field of every message type; tests try one text.",
 ["nmdc/reader.go", "nmdc/writer.go", "nmdc/types.go"], [("encoder/decoder plumbing", "nmdc/types.go String, Name"), ("fallback", "nmdc/reader.go OnUnknownEncoding")], None, ["decoded text", "encoded bytes"])

prop("C14", "Chat lines are attributed to the right sender",
 "For every chat payload, the sender and text are determined by one rule: a leading '<' starts a sender name that ends at the first '>' followed by whitespace, else at the last '>' before a line break or the end of the payload; exactly one following whitespace character is dropped; anything else is text. A payload with '<' and no closing token before a line break is refused, as are sender names with forbidden characters or over 256 bytes, and payloads without leading '<' carry no sender. A private message (and a directed main-chat message) names as recipient what stands before its first sender mark, as sender what stands before the first name mark (or space), as shown name what stands before the first '> ', and all that follows is its text, whatever marks the text contains.",
 ["inputs"], "all payloads up to length 7-8 over {'<','>',' ',letter,CR,LF,...} plus multi-byte whitespace, compared with an independent reference parser",
 "Sender spoofing needs unusual character combinations; tests cover about ten strings.",
 ["nmdc/msg_chat.go"], [("name end search", "nmdc/msg_chat.go ChatMessage.UnmarshalNMDC"), ("parts of a private message", "nmdc/msg_chat.go PrivateMessage.UnmarshalNMDC, MCTo.UnmarshalNMDC")], None, ["ChatMessage name and text", "PrivateMessage and MCTo fields"])

prop("C15", "Lock and key handshakes compute the specified response",
 "For every lock challenge, magic byte and mode the computed key equals the protocol's key function (nibble-swapped chained XOR with reserved values escaped), including locks shorter than two bytes, which yield a result instead of a crash. The lock, its extension prefix, key material and reference survive encode/decode, and the key never contains the message delimiter.",
 ["inputs"], "all locks of length <= 2 over all byte values, of length <= 6 over an alphabet of key-relevant values, all magics, both modes",
 "The key depends on every byte of a peer-chosen challenge; tests check two locks.",
 ["nmdc/msg_lock.go"], [("key function", "nmdc/msg_lock.go Lock.CustomKey, LockString"), ("lock parsing", "nmdc/msg_lock.go Lock.UnmarshalNMDC")], None, ["Key value", "decoded Lock"])

prop("C16", "ADC packets keep kind, routing and payload intact",
 "Every ADC packet kind (broadcast, client, direct, echo, feature, hub, info, UDP) encodes to exactly one line with the specified header, and decoding it restores the kind, command name, source, target, feature selectors and payload. All writer entry points (direct methods and streams) produce that same line, and packets with unknown commands can be relayed byte for byte.",
 ["inputs", "configurations"], "all 8 kinds x id values x 0..3 feature selectors x empty and non-empty, known and unknown payloads x all writer entry points, plus read back over a connection",
 "The product of kinds, payload emptiness, selectors and entry points is not sampled (streams and several kinds are untested).",
 ["adc/packets.go", "adc/writer.go", "adc/reader.go"], [("per-kind headers", "adc/packets.go MarshalPacketADC, UnmarshalPacketADC, DecodePacketRaw"), ("writers and streams", "adc/writer.go")], None, ["encoded line", "decoded packet"])

prop("C17", "ADC messages encode to the specified fields and decode back unchanged",
 "Every ADC message type encodes to exactly the specified space-separated, escaped fields (mandatory ones always, optional ones only when set) without ever emitting a raw line break, and decoding yields an equal message, for all field values, including text with spaces, backslashes and line breaks. Decoding a message with named fields does not depend on their order and ignores unknown ones, and wrong types are refused; generic field lists and raw messages keep every tag and value.",
 ["inputs"], "for each message type: all field combinations over alphabets of special characters (space, backslash, newline, 's','n') up to length 4-5, optional-field subsets, field permutations, boundary numbers; compared with an independent reference codec",
 "Escaping and optional-field combinations are unbounded; tests cover one or two samples per message.",
 ["adc/marshal.go", "adc/messages.go", "adc/user.go", "adc/hub.go", "adc/files.go", "adc/search.go", "adc/chat.go", "adc/connect.go", "adc/types.go"], [("tag-driven codec", "adc/marshal.go Marshal, Unmarshal, escape, unescape")], None, ["encoded payload", "decoded message"])

prop("C18", "Hostile ADC input is contained and malformed headers are refused",
 "No byte sequence received on an ADC connection or passed to the packet and message decoders causes a crash or hang. Lines with an unknown kind, missing delimiter, null byte, or short or badly separated identifiers or feature selectors are refused, and a delimiter is never taken as part of an identifier. Every well-formed packet after a malformed line is still delivered unmodified.",
 ["inputs", "fault_sequences"], "all 1-edit byte mutations (256 values) and all truncations of a corpus covering every kind and message, all short payloads for every message type, followed by well-formed packets",
 "Covers all malformed inputs, not chosen ones.",
 ["adc/packets.go", "adc/marshal.go", "adc/reader.go", "adc/messages.go", "adc/types.go"], [("header validation", "adc/packets.go UnmarshalPacketADC, DecodePacketRaw"), ("positional fields", "adc/marshal.go Unmarshal")], None, ["errors and subsequent packets"])

prop("C19", "Numbers are decoded exactly or not at all",
 "Every numeric field of every message of both protocols (sizes, offsets, counts, slots, ports, codes, flags) encodes any value of its range exactly and decodes it back. A decimal text that does not denote an integer within the field's range is refused or leaves the field unset: it never becomes a different, wrapped or truncated number.",
 ["inputs"], "all boundary decimals (powers of 2 and 10 +-1, signs, leading zeros, 1-20+ digits, fractions, exponents, non-digits) in every numeric field of every message type",
 "Overflow behaviour needs boundary values in each field; tests use small numbers.",
 ["nmdc/utils.go", "nmdc/msg_files.go", "nmdc/msg_user.go", "nmdc/msg_search.go", "nmdc/msg_chat.go", "nmdc/msg_ping.go", "adc/marshal.go", "adc/messages.go", "adc/files.go"], [("decimal parsers", "nmdc/utils.go atoiTrim, parseUin64Trim; adc/marshal.go unmarshalValue")], None, ["decoded numeric fields"])

prop("C20", "Tree hashes are correct for any size and any fragmentation",
 "The tree hash of a stream equals the Tiger tree hash of its content (1024-byte blocks, one-byte leaf and node prefixes, odd nodes promoted), the leaf list equals the hashes of its consecutive 1024-byte blocks, and the leaf list's own root equals the tree hash, for every content size and every way the stream fragments its reads, empty and end-with-data reads included. A read error is returned and no hash is fabricated; computing a root leaves the leaf list unchanged.",
 ["inputs", "schedules", "fault_sequences"], "sizes 0..~130 blocks with +-1 around block boundaries, all read-size patterns up to a bound, (0,nil) reads, data-with-EOF, error at every read",
 "Fragmentation and tree shape are unbounded; tests hash 14 in-memory buffers of at most two blocks.",
 ["tiger/tth.go", "tiger/tiger.go"], [("block reading and pairwise folding", "tiger/tth.go TreeLeaves, TreeHash, Leaves.TreeHash")], None, ["returned hash/leaves/error"])

prop("C21", "Identifiers have a faithful text form and reject everything else",
 "Hashes, client ids and session ids convert to text and back without loss by every route (string, text and protocol codecs, base32, integer-to-session-id for all 2^20 values), and distinct values have distinct texts. Text of any other length (and for hashes and client ids, outside the base32 alphabet) is refused with an error and without a crash, and a refused text leaves the previous value unchanged. The client id derived from a private id is its Tiger hash.",
 ["inputs"], "all 2^20 session ids; all text lengths 0..80 and all byte values at each position; all single-bit and boundary hash values through every conversion route",
 "Must hold for all values and all malformed texts; tests parse a few constants.",
 ["tiger/tiger.go", "adc/types/types.go", "adc/hub.go"], [("base32 codecs", "tiger/tiger.go Hash.UnmarshalBase32, FromBase32; adc/types/types.go SIDFromInt, SID, CID")], None, ["texts and parsed values"])

prop("C22", "Keyprints identify exactly the presented certificates",
 "The keyprint list of a PEM file is, in order, the SHA-256 keyprint of each certificate block, ignoring other blocks and surrounding text, and an error if there is none or the file cannot be read. On a TLS connection, verification succeeds if and only if the expected keyprint equals that of a certificate the peer presented, and always reports all of them. The keyprint in an address is taken from its query.",
 ["inputs", "configurations"], "all sequences of up to 4 PEM elements (certificate, key, junk text, malformed) x read fragmentation/errors; all peer chains of up to 3 certificates x expected keyprints (each member, non-member, empty, case and prefix variants)",
 "Acceptance must be exact for every chain and expected value; verification on a connection has no test.",
 ["keyprint/keyprint.go", "keyprint/tlskp/tlskp.go"], [("PEM scan", "keyprint/keyprint.go FromFile"), ("membership test", "keyprint/tlskp/tlskp.go VerifyKeyPrint")], None, ["keyprints and errors"])

prop("C23", "Addresses parse and normalise consistently",
 "Scheme-less and NMDC addresses are treated as NMDC (with aliases mapped to the canonical scheme), adc and adcs addresses as ADC, and every other scheme is refused; the generic entry points agree with the protocol-specific ones. Normalising preserves scheme, host, port, path and query except for trailing slashes, is idempotent, and refuses addresses without a host.",
 ["inputs"], "all combinations of schemes (incl. none, unknown and hosts that look like schemes), hosts (names, IPv4, IPv6, empty), ports, paths, queries and user info",
 "The tests list a few addresses; the dispatch must be right for any host name.",
 ["types.go", "conn.go", "nmdc/conn.go", "adc/conn.go"], [("dispatch and normalisation", "conn.go ParseAddr, NormalizeAddr; nmdc/conn.go; adc/conn.go")], None, ["parsed and normalised addresses"])

prop("C24", "Connections served concurrently do not influence each other",
 "Using separate readers, writers, messages and hashers from different goroutines at the same time gives each goroutine exactly the results it would get alone, for every interleaving. Changing a connection's text encoding or decoder while it is being used takes effect for whole messages only.",
 ["schedules"], "all interleavings (at statement granularity, up to a preemption bound) of pairs of encode/decode/hash/handshake operations on separate objects",
 "A hidden shared buffer or cache corrupts data only under particular interleavings; tests are single-threaded.",
 ["lineproto/reader.go", "lineproto/writer.go", "nmdc/reader.go", "nmdc/writer.go", "nmdc/message.go", "adc/marshal.go", "adc/writer.go", "tiger/tth.go"], [("no shared mutable state between objects", "package-level tables are read-only after init"), ("atomic encoder/decoder", "nmdc/reader.go Reader.dec, nmdc/writer.go Writer.enc")], None, ["results of each goroutine"])

prop("C25", "Messages never alias connection buffers or each other",
 "A decoded message keeps its value forever: neither later reads on the same connection, nor overwriting the input buffer, nor changing other messages decoded before or after affects it. Encoding does not modify the message and encoded bytes are independent of later encodings; a writer does not retain or alter the caller's buffers. The only exception is payloads explicitly documented as borrowed.",
 ["histories", "inputs"], "all ordered pairs of messages over every type (decode A, decode B on the same reader, compare A; scribble over inputs; encode A, encode B, compare)",
 "Aliasing shows only in sequences of operations; tests look at one message at a time.",
 ["nmdc/reader.go", "nmdc/message.go", "nmdc/msg_*.go", "nmdc/writer.go", "adc/packets.go", "adc/messages.go", "adc/marshal.go", "adc/writer.go"], [("copying decoders", "string conversions in nmdc/msg_*.go, RawMessage copies in nmdc/message.go and adc/messages.go")], None, ["message values after later activity"])

prop("C26", "Feature negotiation follows set algebra",
 "Intersecting, merging, cloning, listing and querying protocol feature sets gives exactly the set-theoretic result, never changes its operands, and results do not share state with them. Feature lists received in messages add and remove precisely the named features or, if a name is malformed, are refused, and encoded sets decode to the same set.",
 ["inputs", "histories"], "all pairs of feature sets (present/removed/absent) over 3-4 features incl. nil sets; all add/remove lists up to length 4",
 "Set laws must hold for all operands and independence for all later changes; tests check one intersection.",
 ["nmdc/extensions.go", "adc/types.go", "adc/messages.go"], [("set operations", "nmdc/extensions.go Extensions, Supports; adc/types.go ModFeatures, ExtFeatures")], None, ["resulting sets and operands"])

prop("C27", "File type groups match exactly their extensions",
 "A search restricted to extension groups matches a file name if and only if its extension (text after the last dot, any letter case, or the bare extension) belongs to one of the selected groups; the unrestricted search matches everything and unknown extensions match no group.",
 ["inputs"], "all 64 group masks x all listed extensions and unknown ones x letter-case and path/dot variants",
 "The table and mask product is not sampled at all by the tests.",
 ["adc/search.go"], [("extension table and mask", "adc/search.go ExtGroup.Matches")], None, ["match result"])

prop("C28", "User info is understood across client tag dialects",
 "For every well-formed NMDC user info line, in any of the tag dialects seen in practice (tag missing, without version, lower-case keys, short hub counts, extra or reordered fields, legacy mode), description, client, mode, hub and slot counts, connection, flag, e-mail and share size are each taken from their own field and never leak into another. Malformed tags or counts are refused with an error.",
 ["inputs"], "all combinations of description, client/version, tag field subsets and orders, count formats, mode sources, connection/flag, e-mail and size variants, compared with an independent reference parser",
 "Dialect combinations multiply far beyond the sampled dozen.",
 ["nmdc/msg_user.go"], [("info and tag parser", "nmdc/msg_user.go MyINFO.UnmarshalNMDC, unmarshalTag")], None, ["decoded fields"])

prop("C29", "Search requests and results are understood in all variants",
 "For every well-formed search request and result line (active/passive, size limits, data types, hash or text patterns, files and directories, hash or hub name, with or without recipient) every field is decoded to the value the sender encoded, even when names, paths, patterns or hub names contain spaces, digits, slashes, parentheses or escaped separators. Lines missing a mandatory part are refused.",
 ["inputs"], "all combinations of the variants over paths/patterns/hub names built from separator characters, compared with reference parsers",
 "Separators are ambiguous and interact; tests hold about a dozen samples.",
 ["nmdc/msg_search.go"], [("search and result parsers", "nmdc/msg_search.go Search.UnmarshalNMDC, SR.UnmarshalNMDC")], None, ["decoded fields"])

prop("C30", "Closing readers and writers is final and safe",
 "Closing a writer delivers all data accepted before it (terminating an active compressed section so the peer can decode it) and never closes or writes to the connection afterwards; closing a reader does not read from the connection; every later operation on a closed reader or writer reports an error without touching the connection, and closing again is harmless, whatever state compression, buffering or earlier failures left.",
 ["histories", "fault_sequences"], "all operation sequences up to depth 4 before and up to depth 2 after close, in every compression/buffer state, with and without a failing connection",
 "Use-after-close needs multi-step histories; tests never use a closed object.",
 ["lineproto/reader.go", "lineproto/writer.go", "nmdc/writer.go", "adc/writer.go"], [("close and closed-state checks", "lineproto/reader.go Reader.Close; lineproto/writer.go Writer.Close")], None, ["errors after close", "bytes received by the connection"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
