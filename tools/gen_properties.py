#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))
I = "include/novatel_edie/"
OEM = "src/decoders/oem/src/"
COM = "src/decoders/common/src/"
FRAMERS = [OEM+"framer.cpp", COM+"framer.cpp", I+"decoders/common/framer.hpp", I+"decoders/oem/framer.hpp",
           I+"decoders/oem/framer_ascii_base.hpp", I+"decoders/oem/framer_binary_base.hpp", OEM+"framer_abb_ascii.cpp"]

prop("C01", "Framing conserves the byte stream",
  "Every byte accepted by a framer is handed back to the caller exactly once and in stream order, as part of a reported frame, of reported unknown bytes, or of the flushed remainder. "
  "A write is either accepted whole or refused whole, and the advertised free space always matches what will be accepted.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "for every byte stream (clean, noisy, corrupted, truncated), every split of it into writes, every interleaving of writes, reads and flushes, every framer and every combination of message formats",
  "The framer tests feed a few hand-picked logs whole or byte by byte; they never sum up what came out over an arbitrary interleaving, so a byte lost, repeated or reordered at one split point is invisible to them.",
  FRAMERS + [I+"common/fixed_buffer.hpp"],
  [("consume-after-copy of frames and unknown bytes", COM+"framer.cpp GetFrame, framer.hpp HandleUnknownBytes/Flush"), ("all-or-nothing write", "fixed_buffer.hpp write")],
  [("internal buffer", "bytes accepted but not yet reported", I+"common/fixed_buffer.hpp")], ["GetFrame/Write/Flush/GetAvailableSpace results and the caller's frame buffer"])

prop("C02", "Framing result is independent of how the stream is chunked",
  "The sequence of frames (bytes, length, detected format, response flag) a framer reports for a stream, and the unknown bytes between them, depend only on the bytes of the stream. "
  "They do not depend on how the stream was cut into writes, on when the caller asked for frames in between, or on whether the caller reuses its metadata object.",
  ["schedules", "inputs", "histories"],
  "for every stream and every two delivery schedules of it (segmentations, extra polls at any point, reused or fresh metadata objects)",
  "The tests split a handful of logs at one or two fixed offsets; the resumable state machines have a distinct path for every (state, split offset, look-ahead) combination.",
  FRAMERS,
  [("resumable scan state", OEM+"framer.cpp, framer.cpp FindFrameEnd(start)"), ("look-ahead rewind on INCOMPLETE", OEM+"framer.cpp")],
  [("scan position and state", "where an unfinished candidate is resumed", I+"decoders/common/framer.hpp, "+I+"decoders/oem/framer.hpp")], ["GetFrame results"])

prop("C03", "Only intact messages are reported as frames",
  "A framer reports a frame of a checksummed format only if the bytes it returns are exactly one well-formed message of that format, starting at its sync and ending at its trailer, whose checksum verifies. "
  "No corrupted, truncated, spliced or partially overwritten message is ever reported as a valid frame.",
  ["fault_sequences", "inputs"],
  "for every sequence of line faults (bit flips, dropped, duplicated, inserted and reordered bytes or blocks) on streams mixing every supported format, delivered in any segmentation",
  "Tests contain one corrupted log per format; the property quantifies over every damage pattern and position, including damage that forges lengths, delimiters or sync bytes.",
  FRAMERS + [I+"decoders/oem/crc.hpp", I+"common/crc.hpp"],
  [("CRC-32 / XOR checksum validation", OEM+"framer.cpp, framer_*_base.hpp Validate"), ("length bounds", OEM+"framer.cpp")], [], ["frames returned with SUCCESS"])

prop("C04", "Framing resynchronises after damage",
  "Damage to the stream costs only the messages it touches: every undamaged message is still reported exactly once, whatever garbage, false start or broken message precedes it, as soon as enough further bytes have arrived to rule the false start out.",
  ["fault_sequences", "inputs", "schedules"],
  "for every pattern of damage (including forged headers that announce long messages, and nested false syncs) between undamaged messages of any format, under any segmentation",
  "Tests cover a few single-error streams; skipping one byte too many after a failed candidate only shows for particular adjacent byte patterns.",
  FRAMERS,
  [("rescan from just after the failed sync", OEM+"framer.cpp ResetState paths, framer_*_base.hpp Validate return values")], [], ["frames returned with SUCCESS"])

prop("C05", "Every call makes bounded progress",
  "No call on a framer, framer manager, parser, file parser, decoder or encoder runs without bound: each returns after work proportional to the data buffered. "
  "Draining any finite input reaches the 'no more data' answer after finitely many calls, and a stream that keeps delivering bytes is never refused forever.",
  ["inputs", "fault_sequences", "schedules"],
  "for every stream, however damaged or oversized, every segmentation, and every failing input stream",
  "Unit tests only contain inputs that terminate; a livelock needs a message at a length limit, a full buffer or a permanently failing stream.",
  [OEM+"parser.cpp", I+"decoders/common/file_parser.hpp", OEM+"framer.cpp", COM+"framer_manager.cpp"],
  [("status-driven read loops", OEM+"parser.cpp ReadIntermediate/Read, file_parser.hpp HandleRead"), ("maximum message lengths", OEM+"framer.cpp")], [], ["number of executed basic blocks per call, number of calls to drain"])

prop("C06", "A frame buffer of any size is respected",
  "Whatever size the caller declares for its output buffer, framing never writes past it, and the reported length never claims bytes that were not delivered there. "
  "A frame that does not fit is reported as such without consuming it, and is returned intact once a large enough buffer is offered.",
  ["inputs", "configurations", "histories"],
  "for every stream and every sequence of buffer sizes offered by the caller",
  "Tests use one generous buffer, plus one too small for one message; the interplay of small buffers with unknown bytes and resumed candidates is not covered.",
  FRAMERS + [COM+"framer_manager.cpp"],
  [("BUFFER_FULL checks", OEM+"framer.cpp, framer.cpp GetFrame, framer_manager.cpp")], [], ["guard zones around the caller's buffer, lengths, statuses"])

prop("C07", "Flush and reset restore a fresh state",
  "Flushing returns the unconsumed bytes in order (up to the capacity offered) and repeated flushing empties the component. "
  "After that, or after a reset, the component behaves exactly like a newly created one on any further stream, whatever it processed before.",
  ["crash_points", "histories", "inputs"],
  "for every stream cut off at every point (link drop, end of recording), followed by a flush or reset and any second stream",
  "Tests flush after one particular log; stale scan state after an interruption shows only for specific cut points and follow-up bytes.",
  FRAMERS + [OEM+"parser.cpp", I+"decoders/common/file_parser.hpp", OEM+"rangecmp/range_decompressor.cpp"],
  [("Flush / InitAttributes / ResetState / Reset", "framer.hpp, parser.cpp Flush, file_parser.hpp Reset, range_decompressor.cpp Reset")],
  [("scan state, decompression history, counts", "must not survive", "framer.hpp, range_decompressor.hpp")], ["results after the flush compared with a fresh instance"])

prop("C08", "The framer manager agrees with its framers",
  "A manager running several framers over one stream reports every message of every selected format exactly once, in stream order, under the name of a framer that recognises it, and returns all other bytes as unknown. "
  "The order in which the framers were selected, and which of them succeeded most recently, do not change the result.",
  ["configurations", "inputs", "schedules", "fault_sequences"],
  "for every selection and ordering of framers, every stream mixing their formats with noise and damage, and every segmentation",
  "The manager tests use a few logs and one or two framers; reordering the registry after a success and arbitration between incomplete candidates depend on the whole history.",
  [COM+"framer_manager.cpp", I+"decoders/common/framer_manager.hpp"] + FRAMERS,
  [("metadata-only probing and arbitration", COM+"framer_manager.cpp GetFrame")], [("framer registry order", "most recently successful first", I+"decoders/common/framer_manager.hpp")], ["GetFrame results, metadata object handed out"])

prop("C09", "Converting a message does not depend on what came before it",
  "The output of header decoding, message decoding and encoding for a message depends only on that message, the definitions loaded and the options set. "
  "Earlier messages, earlier failures, reused result objects, and the contents of memory beyond the message never change the status or a single output byte.",
  ["histories", "inputs", "fault_sequences"],
  "for every sequence of valid, damaged and undecodable messages pushed through one set of components and reused result objects, in every source and target format",
  "Tests decode single messages with fresh objects; leakage of stale state needs a particular predecessor.",
  [OEM+"parser.cpp", OEM+"header_decoder.cpp", OEM+"message_decoder.cpp", COM+"message_decoder.cpp", OEM+"encoder.cpp", I+"decoders/common/message_decoder.hpp"],
  [("result objects are re-initialised per message", OEM+"header_decoder.cpp Decode, message_decoder.cpp Decode resize")], [("frame and encode buffers, reused result objects", "carry old bytes", OEM+"parser.cpp")], ["status and bytes of every converted message, compared with a solo conversion"])

prop("C10", "The parser delivers every message once, converted, in order",
  "For any stream, the parser delivers, in order and exactly once, the converted form of each framed, decodable message that the filter admits, and, when asked to, every other byte as unknown bytes. "
  "How the stream is segmented, and when the parser is polled, makes no difference; switching options between reads affects only later messages.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "for every stream with line faults, every segmentation, every option setting and option changes at any point",
  "Parser tests convert a fixed file with fixed options; the composition framer-filter-decompress-decode-encode under arbitrary chunking and option changes is never compared with its parts.",
  [OEM+"parser.cpp", I+"decoders/oem/parser.hpp"],
  [("read loop composing the stages", OEM+"parser.cpp ReadIntermediate, Read")], [("internal frame and encode buffers", "", I+"decoders/oem/parser.hpp")], ["Read/ReadIntermediate statuses, message data and metadata"])

prop("C11", "File parsing survives any stream behaviour",
  "For every behaviour of the input stream (short reads, stalls that later deliver more, read errors, early end, replacement by another stream), the file parser delivers exactly the messages contained in the bytes the stream supplied, then reports that the stream is empty. "
  "Resetting re-reads the recording with identical results, and an unusable stream is refused without disturbing the current one. A stream that cannot be rewound makes resetting report failure, and reading goes on.",
  ["fault_sequences", "crash_points", "histories", "inputs"],
  "for every recording, every truncation point, every sequence of short reads, stalls, failures, resets and stream replacements",
  "Tests parse complete local files through std::ifstream; they never see a short read, an error in the middle of a message or a second stream.",
  [I+"decoders/common/file_parser.hpp", I+"decoders/oem/file_parser.hpp", OEM+"parser.cpp"],
  [("refill loop", "file_parser.hpp HandleRead/ReadStream"), ("Reset/SetStream", "file_parser.hpp")], [("stream position and parser state", "", I+"decoders/common/file_parser.hpp")], ["Read results and the stream calls issued"])

prop("C12", "Filter decisions follow the configured rules",
  "At every moment a message is admitted exactly when it satisfies every filter rule configured at that moment (ids, names, time range and statuses, decimation, message kinds), with the documented inversion semantics, independent of the order in which rules were added and of messages judged before. "
  "Removing or clearing rules restores exactly the behaviour without them.",
  ["histories", "inputs", "configurations"],
  "for every sequence of rule additions, removals, inversions and clears interleaved with judgements of arbitrary messages",
  "Filter tests set one or two rules and judge one message; order-dependence and leftovers of removed rules only show over histories.",
  [OEM+"filter.cpp", I+"decoders/oem/filter.hpp"],
  [("rule containers and active-rule list", OEM+"filter.cpp")], [("configured rules", "", I+"decoders/oem/filter.hpp")], ["DoFiltering answers"])

prop("C13", "Message counts equal the messages seen",
  "The message counts report, for every kind of message, exactly the number of messages of that kind successfully header-decoded since the last reset, across any mix of formats, damage and resets.",
  ["histories", "inputs", "fault_sequences"],
  "for every sequence of decodes (successful and failing), resets and streams",
  "Count tests run one short sequence; double counting on retries or failures and keys colliding between message kinds need longer mixed histories.",
  [I+"decoders/common/message_counts_tracker.hpp", I+"decoders/oem/header_decoder.hpp", OEM+"header_decoder.cpp"],
  [("increment on success", OEM+"header_decoder.cpp Decode")], [("count map", "", I+"decoders/common/message_counts_tracker.hpp")], ["GetMessageCounts()"])

prop("C14", "Range decompression follows the receiver's history",
  "A decompressed observation depends only on its compressed log and on the earlier logs it refers to: tracking times advance with the log times of the same channel and restart when the receiver restarts them, and a differential log is decoded only against the reference it names. "
  "Logs lost, repeated, damaged or reordered in between, other receivers' sources, and data from before a reset never leak into the result; observations whose reference is missing are left out, and a log whose contents contradict its length is refused.",
  ["histories", "fault_sequences", "inputs"],
  "for every history of compressed range logs from two antenna sources and any satellites, with losses, duplicates, reordering, corruption and resets",
  "Tests decompress single captured logs from fresh state, or one fixed two-log sequence.",
  [OEM+"rangecmp/range_decompressor.cpp", I+"decoders/oem/rangecmp/range_decompressor.hpp", OEM+"parser.cpp"],
  [("per-channel lock time and reference block maps", OEM+"rangecmp/range_decompressor.cpp")], [("lock-time and reference maps", "history carried from log to log", I+"decoders/oem/rangecmp/range_decompressor.hpp")], ["Decompress output and status"])

prop("C15", "Message database lookups reflect its whole history",
  "After any sequence of additions, replacements, removals and merges, looking a message or enumeration up by name or by identifier finds exactly the most recently defined entry, and nothing that was removed. "
  "A merged or copied database stays consistent and independent of the one it came from.",
  ["histories"],
  "for every sequence of append, remove, merge, copy and family changes over overlapping names and ids",
  "Database tests perform single operations on the shipped database; stale index entries need particular sequences of overlapping names and ids.",
  [COM+"message_database.cpp", I+"decoders/common/message_database.hpp"],
  [("index maintenance on every mutation", COM+"message_database.cpp")], [("name and id indexes", "must mirror the definition lists", I+"decoders/common/message_database.hpp")], ["GetMsgDef, GetEnumDefName/Id, MsgNameToMsgId, MsgIdToMsgName, Messages(), Enums()"])

prop("C16", "Loading a definition file is all or nothing",
  "Loading a message database either yields the complete database the file describes or fails with the documented error, for every storage fault and whatever order the loader's internal threads run in. "
  "A failed load leaves databases and components already in use untouched and usable, and leaves no thread running.",
  ["fault_sequences", "schedules", "crash_points", "inputs"],
  "for every truncation, corruption and read failure of the file, every allocation failure, and every interleaving of the loader threads",
  "Tests load good files and one missing file; neither the fault nor the schedule space of the two parallel loader threads is explored.",
  [COM+"json_db_reader.cpp", I+"decoders/common/json_db_reader.hpp", COM+"message_database.cpp"],
  [("exception translation and futures", COM+"json_db_reader.cpp ParseJsonDbImpl")], [], ["result or exception of LoadJsonDbFile/ParseJsonDb"])

prop("C17", "Independent pipelines do not interfere",
  "Parsers, framers, decoders and encoders used from different threads, each by one thread, deliver exactly the results they deliver when run alone, even when they share one message database and one logger, under every interleaving.",
  ["schedules", "inputs"],
  "for every interleaving of two or more independent pipelines at basic-block granularity over arbitrary streams and conversions",
  "The tests are single-threaded.",
  [OEM+"parser.cpp", COM+"message_decoder.cpp", OEM+"encoder.cpp", COM+"message_database.cpp", "src/common/src/logger.cpp", COM+"framer_manager.cpp"],
  [("per-instance state only; shared database is read-only", COM+"message_decoder.cpp, encoder.hpp")], [("shared message database, logger registry, framer factories", "", COM+"message_database.cpp, logger.hpp, framer_manager.cpp")], ["output of every pipeline against its solo run"])

prop("C18", "Logger registration is atomic and idempotent",
  "However many threads create components or register loggers at once, every name maps to exactly one logger, everybody gets that logger, no registration is lost or fails, a change of the level reaches every logger, and no thread is blocked forever.",
  ["schedules", "histories"],
  "for every interleaving of registrations, level changes, sink additions and component construction across threads",
  "Logger tests run on one thread.",
  [I+"common/logger.hpp", "src/common/src/logger.cpp"],
  [("manager mutex and once-flag", I+"common/logger.hpp RegisterLogger/InitRootLogger")], [("logger registry", "", I+"common/logger.hpp")], ["pointers returned by RegisterLogger, spdlog registry"])

prop("C19", "Encoding respects the output buffer",
  "Encoding a message, header, body, command or receiver-configuration log into a buffer of any declared size either produces the complete output, identical to what a larger buffer would get, or reports that the buffer is full. "
  "It never writes outside the declared buffer and never reports success for truncated output.",
  ["inputs", "configurations", "fault_sequences"],
  "for every decodable message, every target format and every output buffer size from zero to ample",
  "Encoder tests always pass an ample buffer.",
  [OEM+"encoder.cpp", I+"decoders/common/encoder.hpp", OEM+"commander.cpp", OEM+"rxconfig/rxconfig_handler.cpp"],
  [("remaining-size bookkeeping", "encoder.hpp, encoder.cpp"), ], [], ["guard zones around the output buffer, status, output bytes"])

prop("C20", "Arbitrary message contents cannot break decoding",
  "Decoding any message that passed framing, whatever its contents claim about lengths, counts, ids or text, touches no memory outside the message and the result, does not crash or throw, and ends in success or a documented error status.",
  ["inputs", "fault_sequences"],
  "for every frame with a valid checksum but arbitrary contents: forged array counts, wrong body lengths, truncated or garbled text, unknown ids, wrong definition versions",
  "Decoder tests use genuine logs; contents are never hostile.",
  [COM+"message_decoder.cpp", OEM+"header_decoder.cpp", OEM+"message_decoder.cpp", OEM+"rangecmp/range_decompressor.cpp", OEM+"rxconfig/rxconfig_handler.cpp"],
  [("bounds checks while walking fields", COM+"message_decoder.cpp DecodeBinary/DecodeAscii")], [], ["memory accesses (checked build), exceptions, statuses"])

prop("C21", "Messages survive a relay through other formats",
  "A message converted to another format, sent over a link, framed, decoded and converted back reproduces the original message's header and fields, for every chain of formats that can carry them and every delivery schedule of the links between the hops. "
  "Every hop's output is itself a well-formed message of that hop's format carrying the same values, which the next hop recovers.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "for every message of the definition set with arbitrary field values, every chain of relay formats and every segmentation, duplication or loss of whole messages on the links",
  "Tests compare a few logs with stored output in one hop.",
  [OEM+"encoder.cpp", I+"decoders/common/encoder.hpp", COM+"message_decoder.cpp", OEM+"header_decoder.cpp", OEM+"framer.cpp"],
  [("paired encode and decode tables", "encoder.hpp, message_decoder.cpp")], [], ["bytes arriving at the last hop"])

prop("C22", "The stream buffer is a faithful bounded queue",
  "The buffer between the byte source and the framers behaves as a bounded first-in-first-out byte queue: reads, searches and multi-byte loads see exactly the bytes written and not yet removed, in order, whatever mix of writes and removals came before.",
  ["histories", "inputs"],
  "for every capacity and every sequence of writes, removals, copies, indexed reads, searches and moves",
  "Buffer tests perform short fixed sequences that rarely reach the wrap-around compaction at odd offsets.",
  [I+"common/fixed_buffer.hpp"],
  [("compaction on write", "fixed_buffer.hpp write")], [("head and size", "", I+"common/fixed_buffer.hpp")], ["all accessors against a reference queue"])

prop("C23", "Running out of memory is survivable",
  "If an allocation fails anywhere inside a call, the failure is reported to the caller as an exception or error status without corrupting or leaking memory, and after a flush the same component processes further streams exactly like a fresh one; a change to a database that failed can be repeated and then has its full effect.",
  ["fault_sequences", "crash_points"],
  "for every single allocation failure point in construction, database loading, parsing, decoding and encoding, followed by continued use",
  "The tests never fail an allocation.",
  [OEM+"parser.cpp", COM+"message_decoder.cpp", COM+"json_db_reader.cpp", COM+"message_database.cpp", COM+"framer_manager.cpp"],
  [("RAII ownership", "throughout")], [], ["exceptions, statuses, live allocations, behaviour after a flush"])

prop("C24", "Receiver-configuration logs convert intact",
  "Every receiver-configuration log, in each wire format, converts through the parser and through the dedicated handler into each other format with the embedded command reproduced unchanged and its embedded checksum correct, independent of other logs processed before and of segmentation. "
  "A log whose embedded command is damaged is refused or passed through without disturbing its neighbours.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "for every sequence of configuration logs and other logs, arbitrary embedded commands, all format pairs, with damage and segmentation",
  "Tests convert a handful of captured logs.",
  [OEM+"rxconfig/rxconfig_handler.cpp", I+"decoders/oem/rxconfig/rxconfig_handler.hpp", OEM+"parser.cpp"],
  [("embedded message re-encoding and checksum", OEM+"rxconfig/rxconfig_handler.cpp")], [("handler's inner framer and buffers", "must be clean for every log", I+"decoders/oem/rxconfig/rxconfig_handler.hpp")], ["Convert and Parser::Read output"])

prop("C25", "Decoded messages are independent values",
  "A decoded message keeps its contents and stays usable whatever happens afterwards: later messages decoded by the same components, copies and moves made of it, changes to a copy, reloading or destroying the database and the components that produced it. "
  "Field accessors, used with the field's own type, return exactly the decoded value or report an error, never another field's data.",
  ["histories"],
  "for every sequence of decodes, copies, moves, assignments, field writes, database reloads and component destructions over a set of held messages",
  "Tests inspect a message right after decoding it.",
  [I+"decoders/common/message_decoder.hpp", COM+"message_decoder.cpp"],
  [("owned storage and shared ownership of definitions", "message_decoder.hpp CompositeField")], [("field storage, variable fields, definition reference", "", I+"decoders/common/message_decoder.hpp")], ["field values read back, memory checks"])

prop("C26", "Changing definitions in use takes full effect",
  "After a component is given another database, or definitions are added to the database it uses (header enumerations, which components look up when they are given a database, after giving them the database again), every later decode, encode and lookup uses exactly the new definitions, and messages decoded earlier keep the ones they were decoded with. "
  "Reloading the same definitions changes nothing.",
  ["histories", "configurations"],
  "for every sequence of database loads and additions interleaved with decoding and encoding of messages known to some of the databases only",
  "Tests load one database per component and keep it.",
  [COM+"message_decoder.cpp", OEM+"parser.cpp", OEM+"header_decoder.cpp", I+"decoders/common/encoder.hpp", OEM+"rangecmp/range_decompressor.cpp"],
  [("LoadJsonDb propagation", OEM+"parser.cpp LoadJsonDb, message_decoder.cpp LoadJsonDb")], [("cached enum definitions", "", COM+"message_decoder.cpp")], ["decode/encode results before and after each change"])

# ---- pure functions of their input: no schedule, fault, I/O or history to simulate
prop("N01", "Checksum routines compute their published polynomials",
  "The 8, 16, 32 and 64-bit block and incremental checksum routines compute their published polynomials for every block.",
  ["inputs"], "for every byte block and starting value", "Tests check a few vectors.",
  [I+"common/crc.hpp", I+"decoders/oem/crc.hpp"], [("table-driven CRC", "crc.hpp")])
prop("N02", "Scalar conversion helpers are mutually inverse",
  "GPS time, unit and channel-status bit-field conversions invert each other and stay within their documented ranges.",
  ["inputs"], "for every representable argument", "Tests check samples.",
  ["src/common/src/common.cpp", OEM+"rangecmp/channel_tracking_status.cpp"], [("arithmetic and bit packing", "common.cpp, channel_tracking_status.cpp")])
prop("N03", "Python bindings mirror the C++ results",
  "Every value, exception and file conversion offered through the Python package equals what the C++ interface delivers for the same data.",
  ["inputs", "histories"], "for every message and call sequence made from Python", "Python tests cover samples.",
  ["python/src/py_common/bindings/field_objects.cpp", "python/include/py_common/pystream.hpp", "python/src/py_oem/bindings/parser.cpp"], [("nanobind wrappers", "python/src")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
