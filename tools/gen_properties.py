"""Writes /verif/properties.jsonl (kept as Python so the long texts stay readable)."""
import json

U, S, P, R = "atoparser/utils.py", "atoparser/structs/", "atoparser/parsers/atop_1_26.py", "atoparser/reader.py"
SH = "atoparser/structs/shared.py"
ALLS = [S + "atop_%s.py" % v for v in "1_26 2_3 2_4 2_5 2_6 2_7 2_8 2_9 2_10 2_11 2_12".split()] + [SH]

props = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    props.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": list(observe), "hook_needed": None},
    })


prop("P01", "Every field of every supported version decodes from its exact place",
     "For each supported Atop version (1.26 and 2.3 through 2.12) every named field of the header, record, system, task and cgroup "
     "structures reports exactly the value stored at that field's offset, width and signedness in that version's native C layout, whatever "
     "the bytes are. The structure read back as bytes equals the bytes stored. A structure definition published for a version is the one "
     "actually used inside that version's log entries.",
     ["inputs", "configurations"], "All 11 versions x all named fields (including every array element) x all byte contents.",
     "Tests look at a handful of fields of one recorded sample per version (most of which are 0), so swapped, re-typed or shifted fields that keep "
     "the total size pass unnoticed; the guarantee is over every field and value.",
     ALLS, [("ctypes field tables per version, sizes compared to the header", S), ("check_compatibility length comparison", SH)],
     observe=["atoparser.get_header/get_record/get_sstat/get_tstat/get_cstat results"])

prop("P02", "A well-formed log is returned sample by sample, complete and exact",
     "For every well-formed log of a supported version, reading it yields exactly the stored samples, once each and in order, then ends normally "
     "without an error. Each sample's record, system statistics and task list are byte-for-byte those stored for that sample, with exactly as many "
     "tasks as its record declares, whatever the number of samples, the number of tasks, the content, and the size or compression level of its sections.",
     ["inputs", "histories", "configurations"], "All versions x all sequences of sample shapes (task counts, payload sizes, contents) of any length.",
     "Tests read 14 recorded logs that all hold 5 nearly identical, tiny samples (1-6 tasks, sections under 2 KB); counts, sizes and mixes beyond "
     "those are never reached and earlier samples are not compared.",
     [U], [("record -> sstat -> tstats -> cgroups loop", U + ":generate_statistics"), ("task slicing by declared length", U + ":get_tstat")],
     [("stream position", "offset of the next unread section", "the caller's file object")], ["atoparser.generate_statistics"])

prop("P03", "Each cgroup is paired with exactly its own process list",
     "For Atop 2.11 and later, every sample's cgroups are returned in stored order and in the declared number, each with its own statistics and "
     "exactly its own consecutive slice of the stored process-ID list, whatever the lengths of the stored cgroup names and however many processes "
     "each group holds (including none). A sample without cgroups, including one that stores no cgroup sections at all, gives an empty list, and "
     "logs older than 2.11 always give an empty list.",
     ["inputs", "configurations"], "All numbers of cgroups x name lengths x process counts, in every combination, within any sample of a log.",
     "Every recorded 2.11+ sample holds one unnamed cgroup with two processes, so the cursors that walk the variable-length entries and the "
     "process list never advance past their first entry in the tests.",
     [U, S + "atop_2_11.py", S + "atop_2_12.py"], [("two cursors advanced by stored entry length and process count", U + ":get_cstat")],
     [("cstat_start/pidlist_start", "cursors into the decompressed sections", U + ":get_cstat")], ["atoparser.generate_statistics", "atoparser.get_cstat"])

prop("P04", "A truncated log yields exactly the samples it still fully contains",
     "For a valid log cut off at any byte after its header, reading yields exactly those samples whose bytes are entirely present, each identical "
     "to what the uncut log yields, and never a partial, altered or additional sample. With truncation tolerance requested the reading then ends "
     "without an error, and the same holds when the cut is in the gzip container of a compressed log (the samples are then a prefix of the log's samples).",
     ["crash_points", "inputs", "configurations"], "Every byte position of a log (the crash points of the writer) x versions x both truncation modes.",
     "No test truncates a log inside its samples; the recorded logs are all complete. Only enumeration of every cut position covers cuts inside "
     "each section and exactly at their borders.",
     [U], [("stop on record without statistics, stop on decompression failure", U + ":generate_statistics")],
     observe=["atoparser.generate_statistics(raise_on_truncation=...)"])

prop("P05", "Truncation is reported unless tolerance is requested",
     "Unless tolerance is requested, a log cut anywhere inside a sample's compressed data makes reading raise a decompression error (zlib.error, or "
     "EOFError for a cut gzip container) after the complete samples, so data loss is never silent. A log that ends at a sample border never raises "
     "in either mode, and the mode never changes which samples are returned.",
     ["crash_points", "configurations"], "Every cut position x both modes x versions, and every uncut log.",
     "The truncation flag is only ever passed by the tests on complete logs, where it has no effect.",
     [U], [("raise_on_truncation handling around the read loop", U + ":generate_statistics")], observe=["atoparser.generate_statistics"])

prop("P06", "Damaged compressed data is never returned as statistics",
     "If any single byte within a sample's compressed sections is altered, or a section holds fewer entries than declared, that sample is either returned with "
     "exactly the original statistics or not returned at all, and if it is not returned reading stops there: nothing after it is returned. The "
     "samples before the damage are always returned intact. The failure is a decompression error or ValueError; tolerance only ever silences the former.",
     ["fault_sequences", "inputs"], "Every byte of every compressed section x every bit flip, plus every section holding less than declared.",
     "No test feeds a damaged payload; a sampled handful of damaged bytes could not show that no position slips through.",
     [U], [("whole-section decompression with integrity check", U), ("size-checked copies into structures", U)],
     observe=["atoparser.generate_statistics"])

prop("P07", "Only complete and compatible headers are accepted",
     "Opening a file succeeds only if it holds a full header with the Atop magic number and, unless the compatibility check is switched off, "
     "structure lengths that all equal those of the header's version; otherwise it is rejected with ValueError whatever the other bytes are. "
     "Every header satisfying this is accepted, and its fields, including host identification, are returned unmodified.",
     ["inputs", "configurations"], "All header contents: every truncation length, every magic value, every value of every length field, per version.",
     "Tests try one bad magic and one 32-byte truncation of the 1.26 header only.",
     [U, SH], [("magic test and length test", U + ":get_header"), ("check_compatibility", SH)], observe=["atoparser.get_header"])

prop("P08", "The version number alone selects the layout",
     "The header's version number decides the layout: the major and minor numbers are the ones encoded in the header (the flag bit in the top position is "
     "ignored), supported versions get exactly their own layout for all entries, and every other version is read with the newest layout when its "
     "structure lengths match that layout and is otherwise rejected with ValueError. Every returned object is recognised by the library's published types.",
     ["inputs", "configurations"], "All 65,536 encodings of the version field x structure lengths of every supported version.",
     "Tests only see the 11 encodings that occur in the recorded logs; versions 1.27-2.2, 3.x or ones without the flag bit never occur.",
     [U, SH], [("version table and fallback", U + ":get_header"), ("semantic_version decoding", SH)],
     [("cached semantic version", "computed on first use, per header object", SH)], ["atoparser.get_header", "Header.semantic_version"])

prop("P09", "Reading is lazy and can be resumed at any sample",
     "A reader consumes exactly the bytes of the samples it has returned and nothing more, stops after the requested maximum number of samples without "
     "consuming further data, and can be abandoned at any point. Any mixture of consecutive readers, limits, abandoned readers and "
     "single-section reads over the same open log therefore returns the same samples in the same order as one uninterrupted read; "
     "after the caller moved the stream to any sample, reading goes on there.",
     ["histories"], "All sequences of open/read/limit/abandon/single-section operations over one log, up to any depth.",
     "Tests always read a file from start to end with a single reader, so no other history of operations is exercised.",
     [U], [("generator with bounded loop", U + ":generate_statistics"), ("one stream read per section", U)],
     [("stream position", "shared by all readers of the same open file", "the caller's file object")],
     ["atoparser.generate_statistics", "get_record/get_sstat/get_tstat/get_cstat", "stream position"])

prop("P10", "Returned objects are independent of each other and of later reads",
     "Objects returned for one sample never change because of later reads, other open logs, closing of the file or modification of other returned objects, "
     "and modifying them never affects what is returned later. Reading several logs in any interleaving, of the same or different versions and also with a "
     "shared header object, gives for each log exactly what reading it alone gives.",
     ["histories", "schedules"], "All interleavings of the steps of several readers, and all orders of modifying earlier results.",
     "Tests convert each sample immediately and read one log at a time.",
     [U], [("copying construction of structures", U + ":get_sstat/get_tstat/get_cstat"), ("fresh record per sample", U + ":get_record")],
     observe=["all returned objects"])

prop("P11", "Concurrent threads reading their own logs do not affect each other",
     "Threads that each read their own open log, or convert or summarise samples, obtain exactly the results of running alone under every thread "
     "schedule, including when they share one header or one sample object for reading.",
     ["schedules"], "All interleavings of two or three threads at bytecode granularity up to a preemption bound.",
     "All tests are single threaded.",
     [U, SH, P], [("no shared mutable state besides lazily computed version attributes", SH)],
     [("lazily cached version attributes", "filled on first use by any thread", SH)], ["results of each thread"])

prop("P12", "Dictionary conversion is complete, bounded by counts and JSON compatible",
     "Converting any header, record, statistic or cgroup object gives a dictionary holding every named field except reserved 'future' fields, with exact "
     "values, nested structures converted the same way, and per-item arrays limited to the item count stored beside them (at most the array's capacity). "
     "Text ends at the first NUL or at the field's width, undecodable bytes are dropped without an error, and the result always serialises to JSON and "
     "back unchanged for every finite content.",
     ["inputs", "configurations"], "All structure types of all versions x all counts of each limited array x all byte values in text fields.",
     "Tests compare a few keys for the recorded samples (counts of 1-10, plain ASCII).",
     [U] + ALLS, [("recursive conversion with limiters", U + ":struct_to_dict"), ("fields_limiters tables", S)], observe=["atoparser.struct_to_dict"])

prop("P13", "Parseable summaries report exactly the statistics of the sample",
     "For every 1.26 sample, each 'parseable' summary yields exactly one entry per core, disk, volume, device, interface or task present (or one per sample "
     "for system-wide summaries), in stored order, and every value equals the corresponding stored statistic (with the documented sums and unit "
     "conversions). This holds for every count from none to full capacity and for every byte content of names and command lines.",
     ["inputs"], "All summaries x all entity counts x all field values and text bytes.",
     "Tests compare only the last entry of each summary of one recorded log in which most values are 0 or equal.",
     [P, R], [("one generator function per summary", P)], observe=["atoparser.parsers.atop_1_26.parse_*"])

prop("P14", "The command prints exactly the library's view of each file",
     "For every list of files and options the command prints one JSON document per file, in the order given, holding for each readable sample (also of truncated "
     "logs) exactly the header, record and system dictionaries, the task and cgroup lists if and only if requested, or in summary mode exactly the requested summaries' "
     "entries sample by sample in the requested order, each labelled with its summary's name. Summaries for versions that lack them give a single error entry. "
     "Uncompressed and gzip-compressed files give the same document whatever their names, and pretty printing changes only whitespace.",
     ["inputs", "configurations", "histories"], "All combinations of options, versions, file kinds/names and file sequences.",
     "Tests call the file function three times and compare the last ten output lines; the option parser and multi-file runs are never executed.",
     [R], [("parse_file / main", R), ("summary table", R)], observe=["stdout of atoparser.reader.main / parse_file"])

prop("P15", "Reading is always bounded",
     "A reader never returns more samples than the requested maximum, and by default never more than 86,400 (one per second for a day), even if the stream never "
     "ends; it then stops normally. Reading also ends at the first record that declares no statistics, and a reader that has ended stays ended.",
     ["inputs", "histories"], "All limits x all log lengths, including endless streams and trailing zero bytes.",
     "The recorded logs hold 5 samples and no test passes a limit, so the bound is never reached.",
     [U], [("bounded loop", U + ":generate_statistics"), ("MAX_SAMPLES_PER_FILE", U)], observe=["atoparser.generate_statistics"])

prop("P16", "Any binary stream gives the same result",
     "A log gives identical results from any readable binary stream: in memory, a buffered or unbuffered file, gzip/bz2/xz/zip-compressed, a pipe read through a buffer, or an object that "
     "offers only read and readinto and cannot seek. Only the bytes from the current position on matter, so a log embedded at any offset reads the same, and the library neither "
     "closes nor repositions the caller's stream.",
     ["inputs", "configurations"], "All stream kinds x buffer sizes x start offsets x versions.",
     "Tests only use gzip files opened at offset 0 and one in-memory header.",
     [U], [("forward-only read/readinto calls", U)], observe=["the caller's stream and the returned objects"])

prop("P17", "Conversions and summaries are pure",
     "Converting or summarising never changes the header, record, statistics or task objects it is given, and its result depends on nothing but those objects: any sequence of "
     "conversions and summaries over any samples, repeated in any order, partially consumed, or with its results modified by the caller, gives each time the same result as the first call.",
     ["histories"], "All sequences of conversion/summary calls over several samples.",
     "Tests call each conversion once per object.",
     [U, P], [("no retained state between calls", U + ":struct_to_dict"), ("fresh dictionaries per entry", P)], observe=["results and the raw bytes of the arguments"])

prop("P18", "Descriptive metadata never influences what is read",
     "Which bytes are read and which samples, tasks and cgroups are returned depends only on the version and the stored lengths and entry counts. Flags, support bits, clock and page size, "
     "timestamps, intervals, process totals, host names and reserved fields may hold any value without changing how the log is read.",
     ["inputs"], "All values of every header and record field that is not a length, entry count or version.",
     "Recorded logs share one host, one set of support flags and two record flag values.",
     [U, SH], [("framing computed from lengths and counts only", U)], observe=["atoparser.generate_statistics", "stream position"])

prop("P19", "Errors of the stream are never taken for the end of the log",
     "If reading from the caller's stream fails (I/O error, closed stream, interrupt or any other exception) at any point, exactly that exception reaches the caller, in "
     "both truncation modes; the samples completely received before it have been returned unchanged, and none beyond. Only decompression errors and an early end of compressed data "
     "count as truncation.",
     ["inputs", "fault_sequences"], "All versions x every read call and every byte position at which the stream fails x all kinds of exceptions x both modes.",
     "Tests only read intact files on a working disk; one recorded log is cut, none fails while it is read.",
     [U, R], [("only zlib.error and EOFError are squashed", U + ":generate_statistics")],
     observe=["exceptions leaving get_header/get_record/get_sstat/get_tstat/get_cstat/generate_statistics", "samples returned before"])

prop("P20", "The command prints whole documents only and reports files it cannot read",
     "Run as a command, in whatever working directory, locale and output encoding, with whatever file names and wherever its output goes, the exit status is 0 if and only if every named file could be read as a log "
     "(and the output could be written). "
     "If a file is missing, unreadable, damaged or no compatible log, it exits non-zero; standard output then holds only complete documents, each that of its file and in the order of the "
     "command line, including those of all files before the first unreadable one. Usage errors exit non-zero and print nothing on standard output.",
     ["inputs", "configurations", "histories"], "All sequences of good and bad files x options x environments.",
     "Tests call main() in process on one recorded log with two option sets; exit status, failing files, mixed sequences, locales and odd names are never exercised.",
     [R], [("one document per file, printed after it was read", R), ("errors are not handled in the command", R)],
     observe=["exit status, stdout and stderr of python -m atoparser.reader"])

prop("P21", "Nothing that was read is retained",
     "However many samples and logs are read, converted, summarised or rejected, the library keeps no memory and no open files that grow with their number: objects are released once the "
     "caller has dropped them (a live reader may hold its latest sample), abandoned or ended readers release their stream, and the command closes each file.",
     ["histories"], "All sequences of operations, of any length, on changing contents.",
     "A retained object changes no result, so no functional test can see it; only long histories do.",
     [U, P, R], [("objects belong to the caller only", U), ("with block around each file", R)],
     observe=["memory and file descriptors in use", "life of the objects returned"])

prop("P22", "Wrong record values and lost blocks fail cleanly, and nothing is invented",
     "Records carry no check sum, and a crash can lose blocks of a log. Whatever lengths and counts a record holds, and whatever is found in place of lost blocks, samples completely before the "
     "first altered byte are returned exactly; reading ends, and fails only with zlib.error, EOFError (neither when tolerance is requested) or ValueError; every sample returned agrees with the counts of "
     "its own record; and after lost (zero-filled) blocks or wrong counts, all system statistics, tasks and cgroups returned are ones stored in the log.",
     ["inputs", "fault_sequences", "crash_points"], "All values of the lengths and counts of a record x all ranges and subsets of blocks that are lost or hold older content x both modes.",
     "Tests read intact logs and one cut one; no test alters a record or loses a block in the middle.",
     [U], [("lengths and counts are used as found; zlib's check sum and from_buffer_copy's size check refuse what does not fit", U)],
     observe=["atoparser.generate_statistics results and exceptions"])

prop("P23", "Import and results do not depend on the process around the library",
     "The library gives the same results whichever of its modules is imported first, from wherever it is imported (source folder, zip archive, compiled files), and in every mode and environment of the "
     "interpreter (optimised, warnings as errors, hash seed, locale, time zone, garbage collection, threads, forked, limits, working directory). Importing and using it prints nothing, writes no "
     "files and changes no process-wide settings.",
     ["configurations"], "All ordered pairs of modules x interpreter flags x environments x places.",
     "Tests run in one interpreter mode and always import the package in the same order.",
     [U, R, P, SH], [("imports between the modules", U), ("no import-time effects", "atoparser/__init__.py")],
     observe=["results in fresh interpreters", "process-wide settings before and after"])

prop("P24", "An interrupted call leaves nothing behind",
     "If a call is interrupted at any point inside the library (keyboard interrupt, exception raised by a signal handler, memory exhaustion), exactly that exception reaches the caller, the objects it "
     "was given are unchanged, and all later calls - on the same objects or on others - give exactly the results they give without the interruption; the command has printed its whole document or nothing.",
     ["fault_sequences", "crash_points", "histories"], "All calls x all executed lines (instructions) at which the interruption takes effect.",
     "Tests never interrupt a call; half-updated state only shows after an interruption at one particular line.",
     [U, SH, P, R], [("lazily set version attributes of a header", SH + ":semantic_version"), ("no other state between calls", U)],
     state=[("_semantic_version/_major_version/_minor_version", "lazily computed version of a header", SH + ":HeaderMixin")],
     observe=["exceptions reaching the caller", "results of later calls"])

prop("P25", "What was read is a plain value that can be copied and transferred",
     "Headers, records, system statistics, tasks and cgroup statistics are plain values of the classes of their version: a copy (copy, deepcopy, rebuilt from its bytes or fields, placed in an array or "
     "another structure, pickled and unpickled with every protocol, in this or in another process) has the same class and bytes, converts, summarises and (headers, records) reads logs exactly as the "
     "original does, whatever was done with the original before, and the two are independent of each other.",
     ["histories", "configurations"], "All sequences of ways to copy and of uses in between x kinds of objects x versions x contents.",
     "Tests never copy what they read; attributes or caches attached to an object only show when it is copied before or after they are set.",
     [SH, U, "atoparser/structs/atop_*.py"], [("headers are structures with a lazily set version", SH + ":HeaderMixin.semantic_version"), ("classes are taken from the header's class", U + ":get_record"), ("the versioned header shares the bytes that were read", U + ":get_header")],
     state=[("_semantic_version/_major_version/_minor_version", "attributes of a header instance, copied along or set again", SH + ":HeaderMixin")],
     observe=["classes, bytes, conversions, summaries of copies", "samples read with copied headers and records"])

prop("P26", "Without the compatibility check entries are found by the lengths the log states",
     "When a header is opened with the compatibility check switched off, the log can be read although its structure lengths are not those of the layout: if tasks, system statistics or cgroups are longer "
     "than the layout (as newer releases append to them), every returned entry consists of exactly the first bytes of its own stored entry, located by the task length of the header passed in and the "
     "structure length of each cgroup, and the stream ends at the sample's end; if the stated task length is shorter than the layout, a sample with tasks is refused with ValueError, never returned shifted. "
     "The check can be made later: it refuses exactly the headers which opening with the check refuses, and leaves the header as it was.",
     ["configurations", "histories"], "All stated lengths in a range x numbers of tasks x appended contents x versions (also unsupported ones); sequences of logs with other lengths.",
     "Recorded logs all have the lengths of their layout, so the stated length and the layout's cannot be told apart by them.",
     [U, SH], [("tasks are cut at the length stated in the header", U + ":get_tstat"), ("cgroups advance by their own structure length", U + ":get_cstat"), ("the check compares all lengths", SH + ":HeaderMixin.check_compatibility")],
     observe=["samples read from logs with other lengths", "stream positions", "outcome of the check"])

with open("/verif/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
