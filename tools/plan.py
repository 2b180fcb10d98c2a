"""Which scenarios decide which property, and what the evidence says about them."""
# property -> list of (scenario, share of the search budget)
PLAN = {
    "C01": [("C01", 1)],
    "C02": [("C02", 1)],
    "C03": [("C03", 1)],
    "C04": [("C04", 1)],
    "C05": [("C05-framing", 1)],
    "C06": [("C06-framing", 1)],
    "C07": [("C07-framing", 1), ("C07-parser", 1)],
    "C08": [("C08", 1)],
    "C09": [("C09", 1)],
    "C10": [("C10", 1)],
    "C11": [("C11", 1)],
    "C12": [("C12", 1), ("C12-parser", 1)],
    "C13": [("C13-header", 1), ("C13-parser", 1)],
    "C14": [("C14", 1)],
    "C15": [("C15", 1)],
    "C16": [("C16", 1)],
    "C17": [("C17", 1)],
    "C18": [("C18", 1)],
    "C19": [("C19-encode", 2), ("C19-rxconfig", 1), ("C19-command", 1)],
    "C20": [("C20", 2), ("C20-range", 1)],
    "C21": [("C21", 1)],
    "C22": [("C22", 1)],
    "C23": [("C23", 3), ("C23-db", 1)],
    "C24": [("C24", 1)],
    "C25": [("C25", 1)],
    "C26": [("C26", 2), ("C26-command", 1)],
}
# seconds of search: quick, thorough
BUDGET = {"quick": 25, "thorough": 420}

FRAMING_REAL = "all framers (oem::Framer and the staged framers), FramerManager, FixedBuffer, CRC code, logger registration: real code from /repo's working tree, compiled with ASan and basic-block counting"
FRAMING_STUB = "the byte source (a simulated link that splits, damages, loses and duplicates) and the caller; log output is switched off"
WORLD = {p: (FRAMING_REAL, FRAMING_STUB) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08")}
WORLD["C07"] = (FRAMING_REAL + "; in a second world oem::Parser with its decoders, encoder and range decompressor", FRAMING_STUB)
WORLD["C12"] = ("oem::Filter, message time helpers; in a second world oem::Parser with a filter and range decompression: real code", "the source of metadata (drawn headers), the receiver and the caller")
WORLD["C15"] = ("MessageDatabase, MessageDefinition, EnumDefinition and FieldInfo building: real code", "the applications that define, remove, copy and merge")
CODEC_REAL = "oem::HeaderDecoder, MessageDecoder, Encoder, the framers, MessageDatabase and its JSON loading, number formatting: real code"
CODEC_STUB = "the receiver and the links (drawn messages of a synthetic database, cut, dropped, duplicated and interleaved with noise); the JSON library is a small stand-in of the simulator (shims/simdjson.h); log output is switched off"
for p in ("C09", "C19", "C20", "C25", "C26"):
    WORLD[p] = (CODEC_REAL, CODEC_STUB)
PARSER_REAL = CODEC_REAL + "; oem::Parser, oem::Filter"
for p in ("C10", "C13"):
    WORLD[p] = (PARSER_REAL, CODEC_STUB)
WORLD["C11"] = (PARSER_REAL + "; oem::FileParser on a std::istream", CODEC_STUB + "; the stream's buffer (a simulated std::streambuf with stalls, read errors, short refills, no seeking)")
WORLD["C14"] = ("oem::RangeDecompressor with its decoders and encoder, oem::Parser with decompression switched on: real code", "the receiver (channels, tracking, reference logs, restarts; it writes RANGECMP to RANGECMP5 from the published layouts) and the link; the JSON library stand-in")
THREADS = "; the threads are real threads that run one at a time as the simulator decides at every basic block of library code (sim/sched.cpp)"
WORLD["C16"] = ("LoadJsonDbFile, ParseJsonDb, AppendMessages, AppendEnumerations, MessageDatabase and definition building, the loader's own threads: real code" + THREADS, "the storage (files of one synthetic database, torn, emptied, damaged, replaced, missing, unreadable), the applications that load and look things up; thread creation and allocation refused at drawn points; the JSON library is a small stand-in of the simulator (shims/simdjson.h)")
WORLD["C17"] = (PARSER_REAL + "; oem::Filter, range decompressor, file parser" + THREADS, CODEC_STUB)
WORLD["C18"] = ("CPPLoggerManager, logger access points, constructors of all components, spdlog's registry (the installed library)" + THREADS, "the applications that register; what is logged goes to /dev/null")
WORLD["C21"] = (CODEC_REAL + "; oem::Parser on the hops that use it", CODEC_STUB)
WORLD["C24"] = (PARSER_REAL + "; oem::RxConfigHandler", CODEC_STUB)
WORLD["C23"] = (PARSER_REAL + "; oem::FileParser, RxConfigHandler, Commander, range decompressor, CompositeField, MessageDatabase", CODEC_STUB + "; the allocator (operator new and delete are the simulator's: allocations made inside library calls are counted and fail as the case says)")
WORLD["C22"] = ("FixedBuffer: real code", "producer and consumer (a drawn schedule of writes, removals, searches and loads) against a bounded queue model")

RULE = {
    "C01": "each case draws a framer or manager selection, a stream of valid, damaged and foreign messages and garbage, an internal buffer size and a schedule of writes, reads, flushes and refused writes; non-trivial: at least one frame was delivered in a run of more than three calls",
    "C02": "each case draws a stream and two deliveries of it (one in arbitrary pieces with polls in between and dirty metadata objects, one at once); non-trivial: at least one frame was delivered in a run of more than three calls",
    "C03": "each case draws a stream whose messages suffer line faults, a segmentation, and the payload-only option; non-trivial: at least one frame was delivered in a run of more than three calls",
    "C04": "each case draws a stream of intact and damaged messages with false starts; the frames expected come from an independent leftmost-valid-frame model; non-trivial: at least one frame was delivered in a run of more than three calls",
    "C05": "each case draws hostile streams (runs of sync bytes, unclosed candidates, messages at length limits) and failing readers; logical time is the number of executed basic-block edges and each call has a budget proportional to the bytes buffered; non-trivial: at least one message was delivered in a run of more than three calls",
    "C06": "each case draws a stream and a sequence of caller buffer sizes around 0, 256, and the message lengths; non-trivial: at least one frame was delivered in a run of more than three calls",
    "C07": "each case draws a stream interrupted by flushes and resets at arbitrary points; from then on the component (framer, manager; or a parser with its options, filter and observation history) is compared call by call with a newly created one; non-trivial: at least one frame was delivered in a run of more than three calls",
    "C08": "each case draws a framer selection and order, a mixed damaged stream and a segmentation; results are compared with the reference model and with the reversed selection; non-trivial: at least one frame was delivered in a run of more than three calls",
    "C09": "each case draws a history of messages of a synthetic database (good, damaged, truncated, hostile, responses, unknown, other formats) given to one set of header decoder, message decoder and encoder whose result objects are reused; every status, value and output byte is compared with the same message given to fresh components under another fill of uninitialised heap and stack; non-trivial: more than one message was decoded",
    "C10": "each case draws a stream (messages of a synthetic database in all formats, forged and damaged ones, losses, duplicates, messages of another database, NMEA and proprietary messages, noise, messages at the length limit, compressed observation logs), its segmentation, the polls, and a schedule of option and filter changes, flushes and partial reads; every result of the parser is compared with a reference pipeline of freshly created stages, and on steady runs with a second delivery of the stream and an independent encoding of the messages; non-trivial: at least one message was delivered",
    "C11": "each case draws recordings and input streams over them (stalls, read errors, tiny refills, not seekable, unusable) and a schedule of reads, drains, resets, flushes, clears and stream replacements; what is delivered is compared with a reference pipeline given exactly the bytes the stream supplied; non-trivial: at least one message was delivered",
    "C12": "each case draws a history of filter configuration changes (adding, removing, clearing, inverting) interleaved with messages to be judged; the verdict of every message is compared with a model of the documented rules; the same through a parser whose filter changes while it converts and decompresses a stream; non-trivial: the history both admitted and refused messages",
    "C13": "each case draws a history of headers (all formats, siblings, responses, damaged ones) for one header decoder, or a whole stream for a parser; after each the counts reported for every key ever used are compared with a counting model; non-trivial: something was counted",
    "C14": "each case draws a receiver with two antennas whose satellites and signals come, go, slip and restart, logs of one or several compressed formats over weeks' ends, lost, repeated, delayed or damaged by the link, resets, buffer sizes, log forms and output formats; every observation is compared with an independent decompressor of the published layouts given the same delivered history; non-trivial: several observations with a running lock time were judged",
    "C15": "each case draws a history over up to four databases: constructions (with duplicate ids and names), appended, replaced and removed messages and enumerations, merges (also with itself), copies, assignments, shared definitions, family changes; after every step every lookup of every database, the enumeration bindings, the field layouts and all definitions handed out earlier are compared with a list model; non-trivial: something was removed or merged",
    "C16": "each case draws a definition file (well formed, with unusual but allowed values, or damaged: a missing or mistyped field, an out-of-range number, a truncated or emptied file, a directory), loads of it by one or several application threads, failing allocations, failing thread creation, and a schedule of the loader's threads; a load either throws and changes nothing and leaks nothing, or gives exactly the database that an independent interpretation of the file gives; non-trivial: something was loaded or refused under a schedule of several threads",
    "C17": "each case draws two to four whole histories of other properties' scenarios (framing, conversion, parsing, filtering, range decompression, held messages), puts each on a thread of its own, lets them share equal message databases, and draws a schedule (slices of basic blocks, a random tail, meeting places where threads wait for each other inside the same code); every history must then be exactly the one it has when run alone; non-trivial: the threads were interleaved",
    "C18": "each case draws threads that register names, construct components, change levels, add sinks and log, from a process that has not used the library yet or has, and a schedule; afterwards every name has one logger, which is the registered one, everybody got it, and its level and sinks are right; non-trivial: several threads asked for the same name",
    "C19": "each case draws messages of a synthetic database, decodes them and encodes them into buffers of every interesting size (0, 1, around each component's length, ample) with guard zones around them; the result is the ample output or BUFFER_FULL, and nothing outside the buffer is touched; the same for configuration logs through their handler and for typed commands through the commander; non-trivial: at least one message was encoded",
    "C20": "each case draws messages that pass the framer but whose contents are forged (lengths, counts, header fields, text) and lets them be decoded, inspected through every accessor and encoded into every format; ASan and the status contract are the oracle; non-trivial: a forged message got past the framer",
    "C21": "each case draws a message database, messages of it and a chain of hops (formats, framer or parser, link segmentation, losses, duplicates, noise); what leaves every hop is compared byte for byte with an independent encoding of the same values; non-trivial: a message survived at least one hop",
    "C22": "each case draws a capacity and a history of writes, reads, removals, searches and multi-byte loads; every result is compared with a bounded queue; non-trivial: the queue wrapped around its capacity",
    "C23": "each case runs in a process of its own and draws components (parser with and without decompression, framer, decoders and encoder, file parser, configuration-log handler, commander, decoded messages being copied, filter), their work, and which allocations fail: one, several, or all from one on, in the construction (also the first of the process) or in the work; the undisturbed run counts the allocations and is the oracle: a failure without consequence must change nothing, one with consequences must be an exception or an error status, nothing else may be delivered than the undisturbed component delivers, after a flush other work must come out as from a new component, and a cycle repeated three times must not keep memory each time. Databases: an operation of a history fails; repeated, it must have its usual effect, no other database may notice. Non-trivial: an allocation failed",
    "C24": "each case draws a stream of receiver-configuration logs in binary, ASCII and abbreviated ASCII (around messages of a synthetic database; some damaged inside, with a wrong embedded checksum, with something else inside, or as responses), other logs, noise and flushes, its segmentation, a target format, and the parser or the dedicated handler; what comes out is matched against an independent encoding of every intact log and its neighbours, every reported part must lie where it belongs, and whatever else is passed on must carry correct checksums; non-trivial: a log was converted",
    "C25": "each case draws a history of decoded messages that are copied, moved, assigned, swapped, inspected through every accessor, changed and re-encoded while the decoder goes on and the database changes or goes away; after every step all values of all messages held are compared with a model, and their encodings with the earlier ones; non-trivial: several messages were held",
    "C26": "each case draws messages converted by components in use, interleaved with appended, replaced and removed messages and enumerations and with loading other databases; every conversion is compared with new components on a new database of the current definitions, and messages decoded earlier must keep their values; a commander is given commands between databases, each compared with an independent encoding of the command by the current definition; non-trivial: something was judged after a change",
}
ASSUME = ["messages are generated by the framework's own encoder of the published frame grammar (sim/wire.cpp)",
          "the simulator explores a seeded random sample of schedules and faults; it does not enumerate them"]
TECH = {}
NOTE = {}
