#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

R = "src/records/"
p("C01", "Non-sample records decode to exactly what the kernel wrote",
  "For every record type other than SAMPLE and every payload laid out as perf_event_open defines it, parsing yields the variant for that type with every field equal to the encoded value: integers exactly, arrays complete and in order, trailing strings byte for byte with only their NUL padding removed. "
  "Alternatives selected by the header's misc bits (build-id versus device/inode details in MMAP2, switch-in versus switch-out) follow those bits, and SWITCH and unknown types come out as such, with an unknown record's raw payload intact even when it is empty. "
  "Named accessors (namespace by kind, device, inode, build id, file name as OS string) return the corresponding encoded entry.",
  ["inputs", "configurations"], "every record type, every field value, every string/array length that fits a record, every misc word, with and without a sample-id trailer, both byte orders",
  "Six record types have one hand-written example each; the other fifteen types, their boundary values, empty/maximal strings and misc-dependent layouts are never exercised.",
  [R + f for f in ["mod.rs", "mmap.rs", "mmap2.rs", "comm.rs", "exit.rs", "lost.rs", "lost_samples.rs", "throttle.rs", "read.rs", "aux_record.rs", "itrace_start.rs", "switch_cpu_wide.rs", "namespaces.rs", "ksymbol.rs", "bpf_event.rs", "cgroup.rs", "text_poke.rs", "aux_output_hw_id.rs"]] + ["src/parse.rs", "src/util/cow.rs"],
  [("Parse impls of each record type", "src/records/*.rs"), ("record type dispatch", "src/parse.rs parse_record_impl"), ("rest-of-buffer and NUL trimming", "src/parse.rs parse_rest_trim_nul")],
  ["Record returned by Parser::parse", "public fields and accessors of the record types"])

p("C02", "SAMPLE records decode exactly the configured fields",
  "For every configuration (sample fields, read format, branch-stack hw index, user and interrupt register masks) a SAMPLE record laid out as the kernel writes it decodes with each enabled field equal to the encoded value and each disabled field reported absent. "
  "Variable-length fields (read group, call chain, raw data, branch stack, registers, user stack, aux) are complete, in order and correctly delimited whatever their length, including empty ones at the very end of the record; raw data skips its alignment padding, the user stack is cut to its dynamic size, registers with no ABI have no values, and either kind of weight is reported. "
  "The event id is the one from the ID field when enabled, otherwise the one from IDENTIFIER.",
  ["inputs", "configurations"], "all 2^25 field combinations x read formats x register masks x field lengths and values",
  "Two samples with a handful of fixed-size fields are tested; call chains, raw data, branch stacks, registers, stacks and aux, and every interaction between them, are not.",
  [R + "sample.rs", R + "read.rs", "src/parse.rs", "src/config.rs", "src/macros.rs"],
  [("Parse for Sample in kernel field order", R + "sample.rs"), ("presence flags", "src/macros.rs option_struct"), ("padding", "src/parse.rs parse_padded")],
  ["Sample accessors"])

p("C03", "Any bytes under any configuration give a record or a clean error",
  "Parsing arbitrary bytes as a record, as a bare record body or as an event attribute struct, under any configuration and however the bytes are delivered, always terminates and returns either a value or an error; it never panics, aborts or reports a forwarded external error when the data source itself raised none. "
  "Every value that is returned can be queried through all its accessors, iterated, cloned, debug-printed and dropped without panicking.",
  ["inputs", "configurations"], "all byte strings (including truncations and corruptions of valid records, absurd lengths and counts) x all configurations x all deliveries",
  "Eight regression inputs found by past fuzzing; none touches the returned values, and only little-endian contiguous buffers are used.",
  ["src/parse.rs", "src/parsebuf.rs", "src/records", "src/impls/perf_event_attr.rs", "src/util/cow.rs", "src/util/fmt.rs"],
  [("checked length arithmetic", "src/parse.rs parse_metadata_with_header_impl, parse_slice_direct"), ("checked group size", R + "read.rs"), ("dyn_size and build-id length validation", R + "sample.rs, " + R + "mmap2.rs")],
  ["return value of Parser::parse / parse_record", "process exit"])

p("C04", "Memory use is bounded by the bytes supplied, not by claimed lengths",
  "While parsing, memory allocated by the library stays within a small constant multiple of the number of bytes actually supplied plus a fixed allowance (for a contiguous buffer: peak at most 4x the supplied bytes plus 64 KiB), no matter what lengths and element counts the input claims. "
  "A record whose counts exceed the data present fails without allocating for the claimed size, and dropping whatever was returned releases all memory that parsing allocated.",
  ["inputs", "configurations"], "all inputs, in particular every length/count field set to any value up to its maximum, for contiguous, chunked and streaming sources",
  "Two regression inputs run under a 4 MiB per-allocation cap; other length fields, sources without a size hint, and total rather than per-call memory are not covered.",
  ["src/parse.rs", "src/parsebuf.rs", "src/macros.rs"],
  [("capacity bound", "src/parse.rs safe_capacity_bound"), ("incremental reads without a hint", "src/parse.rs parse_bytes_slow"), ("remaining_hint", "src/parsebuf.rs"), ("conditional drop", "src/macros.rs option_struct")],
  ["global allocator"])

p("C05", "How the bytes are delivered never changes the result",
  "Parsing the same byte sequence gives the same outcome - equal values, equal consumption, or an error of the same kind - whether it comes as one slice, as any sequence of borrowed or temporary chunks split at any positions, with or without a remaining-size hint, or through a buffered reader of any capacity over a reader that returns short reads. "
  "In particular data that straddles chunk boundaries is neither lost, duplicated nor reordered.",
  ["inputs", "histories"], "every byte string x every partition into chunks x every borrowed/temporary labelling x every buffer capacity and short-read pattern",
  "Two unit tests build a cursor over two chunks without looking at the data; no record is ever parsed from a split or streaming source.",
  ["src/parsebuf.rs", "src/parse.rs", "src/util/cow.rs"],
  [("chunk cursor", "src/parsebuf.rs ParseBufCursor"), ("slow paths", "src/parse.rs parse_bytes_slow, parse_array_slow, parse_to_slice, parse_rest"), ("fast path for contiguous data", "src/parse.rs parse_record_with_header"), ("Cow splitting", "src/util/cow.rs")],
  ["Record / error from Parser over different ParseBuf sources"])

p("C06", "Byte order and buffer alignment never change the decoded values",
  "The same logical record encoded in big-endian and in little-endian form decodes to the same values when the matching byte order is configured; the runtime-selected byte order behaves exactly like the corresponding fixed one, native order like the host's, and a user's own implementation of the byte-order trait like the published one of the same order. "
  "The result does not depend on the address alignment of the input buffer or of arrays within the record.",
  ["inputs", "configurations"], "every record and configuration x {little, big, native, runtime-selected, user-defined} x every buffer alignment",
  "All record tests are little-endian with whatever alignment the compiler chose; no test parses big-endian data or a misaligned array.",
  ["src/endian.rs", "src/parse.rs", R + "sample.rs", "src/impls/perf_event_attr.rs"],
  [("Endian implementations", "src/endian.rs"), ("direct slice reinterpretation only when native and aligned", "src/parse.rs parse_slice_direct"), ("element-wise fallback", "src/parse.rs parse_slice")],
  ["decoded records under each Endian"])

p("C07", "Record framing: each record consumes exactly its declared size",
  "Parsing a record consumes exactly the number of bytes its header declares, whatever the payload, the type or the visitor, so that a buffer of back-to-back records is recovered as exactly that sequence. "
  "Bytes beyond the declared size never influence the record, surplus bytes inside it are skipped without error, and a declared size smaller than the header is rejected. "
  "A record whose body is malformed fails alone: the records after it still parse as if it had been well-formed.",
  ["inputs", "histories"], "every sequence of records of every type with arbitrary surplus bytes, and arbitrary following bytes",
  "Every test parses a single record that fills its buffer; no test parses a second record or one with surplus bytes.",
  ["src/parse.rs", "src/parsebuf.rs"],
  [("header size subtraction", "src/parse.rs parse_metadata_with_header_impl"), ("sub-parser over exactly the record's bytes", "src/parse.rs split_at")],
  ["sequence of records from repeated Parser::parse", "bytes left for the next parse"])

p("C08", "The sample-id trailer is decoded and kept out of the record body",
  "When sample_id_all is configured, every record except MMAP and SAMPLE reports metadata whose process, thread, time, id, stream id and cpu equal the trailer's values for the enabled fields and are absent for the others (id from ID, else from IDENTIFIER), and no trailer byte leaks into the record's own fields. "
  "When it is not configured, or for MMAP and SAMPLE, the metadata's sample id is empty and the whole body belongs to the record. "
  "The published trailer length matches the bytes used, and a body shorter than the trailer is rejected as an invalid record.",
  ["inputs", "configurations"], "every record type x every sample_type x sample_id_all x bodies of every length",
  "One regression input checks that a short body does not crash; no test decodes a trailer.",
  ["src/parse.rs", R + "mod.rs", "src/visitor.rs"],
  [("trailer split", "src/parse.rs parse_metadata_with_header_impl"), ("Parse and estimate_len for SampleId", R + "mod.rs")],
  ["RecordMetadata::sample_id", "SampleId::estimate_len", "record fields"])

p("C09", "Every record reaches its own visitor method; all entry points agree",
  "Parsing a record calls exactly one visitor method, the one for its type, with the decoded record and metadata carrying the header's type and misc; types the library does not know reach the unknown handler with their payload. "
  "A handler that is not overridden ends in the catch-all handler, except MMAP2, which is delivered as the equivalent MMAP. "
  "Parsing a record in one step, with a previously parsed header, or by parsing metadata first and the body from the returned parser all give the same result.",
  ["inputs", "programs"], "every 32-bit type x misc x payload x every subset of overridden handlers",
  "No test overrides any handler other than the catch-all, and no test compares entry points.",
  ["src/visitor.rs", "src/parse.rs", R + "mod.rs"],
  [("dispatch table", "src/parse.rs parse_record_impl"), ("default handlers", "src/visitor.rs"), ("Record construction", R + "mod.rs RecordVisitor")],
  ["calls made on a user Visitor", "Record::parse_with_header", "Parser::parse_metadata"])

p("C10", "A parse configuration reflects the event attributes it was built from",
  "A configuration built from an event attribute struct reports the same sample fields, read format and register masks, and none of these settings (nor sample_id_all, the branch hw index, or a record's misc bits) ever disturbs another or carries over from one record to the next; its debug output shows the same settings. "
  "Changing the byte order of a configuration keeps everything else. "
  "Read-format bits the library does not support are never dropped silently: parsing counter values under such a configuration fails as unsupported.",
  ["configurations", "histories"], "every attribute struct: all 64-bit sample_type, read_format, masks and flag words",
  "One canary test counts spare bits; no test checks that any attribute survives the packing.",
  ["src/config.rs", "src/flags.rs"],
  [("packed flags", "src/config.rs ConfigFlags"), ("overflow marker bit for read_format", "src/config.rs set_read_format"), ("From<perf_event_attr>", "src/config.rs")],
  ["ParseConfig accessors", "decoded records under the configuration"],
  [("ConfigFlags", "all settings packed in one 64-bit word", "src/config.rs")])

p("C11", "Event attribute structs parse at every supported size",
  "A serialized perf_event_attr of any published size parses to a struct whose fields up to that size equal the encoded ones and whose later fields are zero, consuming exactly that many bytes and no more; larger sizes are accepted exactly when all bytes beyond the known fields are zero and otherwise fail as unsupported data. "
  "Any other size is rejected as invalid, and truncated data fails as end-of-input.",
  ["inputs"], "every size value x every field value x both byte orders x every delivery",
  "No test parses an attribute struct at all.",
  ["src/impls/perf_event_attr.rs", "src/parse.rs"],
  [("size whitelist and versioned field groups", "src/impls/perf_event_attr.rs")],
  ["perf_event_attr returned by Parser::parse", "bytes left after it"])

p("C12", "Counter values and groups keep their data through every view",
  "A parsed group reports as many entries as encoded, and access by index, by id, by forward or backward iteration and the iterator's reported lengths all agree on the same entries, values, ids and lost counts, with optional parts present exactly when configured. "
  "Turning a single value into a group and back, extracting an entry of a group as a single value, and taking ownership preserve every value; only groups of exactly one entry convert to a single value.",
  ["inputs", "configurations", "histories"], "every read format x group size x value x interleaving of iterator operations",
  "One test checks the length of one two-entry group.",
  [R + "read.rs", "src/flags.rs"],
  [("element length", "src/flags.rs element_len"), ("GroupIter", R + "read.rs"), ("conversions", R + "read.rs")],
  ["ReadGroup, GroupIter, GroupEntry, ReadValue accessors"])

p("C13", "Failures are classified by cause and carry their message",
  "A record cut short anywhere fails as end-of-input; a malformed one (declared size below the header, body shorter than its trailer, build-id length over 20, stack dynamic size over the stack size, counter count too large to represent, bad attribute size) fails as an invalid record; unsupported read formats, including group formats where a single value is required, fail as unsupported configuration. "
  "The displayed error is the category text, followed by a separator and the cause when there is one, and the cause stays reachable as the error's source.",
  ["inputs", "fault_sequences"], "every valid record x every truncation point x every single malformed field; every error payload",
  "Regression tests ignore the returned error; nothing checks a kind or a message.",
  ["src/error.rs", "src/parse.rs", R + "read.rs", R + "sample.rs", R + "mmap2.rs", "src/impls/perf_event_attr.rs"],
  [("ErrorKind assignments", "src/parse.rs, src/records"), ("Display and Error impls", "src/error.rs")],
  ["ParseError::kind, Display, source"])

p("C14", "Parser primitives read the byte stream exactly once, in order",
  "Any sequence of parser operations (fixed-width integers, byte arrays, byte strings, repeated values, typed slices, conditional parsing, rest of input with and without NUL trimming) over any source returns precisely the bytes of the source in order, each byte exactly once, converted with the configured byte order. "
  "An operation succeeds if and only if enough bytes remain; operations that need no bytes always succeed, the rest of an exhausted input is empty, and a declined conditional parse consumes nothing. "
  "An attempted in-place slice view that is not possible consumes nothing.",
  ["histories", "inputs"], "every operation sequence x every source content, chunking, alignment and byte order",
  "One test calls the rest-of-input operation once on a slice.",
  ["src/parse.rs", "src/parsebuf.rs", "src/endian.rs"],
  [("primitive operations", "src/parse.rs Parser"), ("ParseBuf implementations", "src/parsebuf.rs")],
  ["return values of Parser methods"])

p("C15", "Cloning, owning and converting records preserves them",
  "A clone or an owned version of a record equals the original in every observable field, stays valid after the original and the input buffer are gone, and does not disturb the original; MMAP2 to MMAP, sample to sample-id, and record-struct to record-enum conversions keep every field they share. "
  "Creating, cloning and dropping records in any order frees every allocation exactly once.",
  ["inputs", "histories"], "every record value x every order of clone / own / convert / drop",
  "No test clones, owns or converts anything.",
  ["src/macros.rs", R + "mod.rs", R + "mmap.rs", R + "mmap2.rs", R + "comm.rs", R + "cgroup.rs", R + "ksymbol.rs", R + "text_poke.rs", R + "read.rs", R + "sample.rs"],
  [("presence-guarded Clone and Drop", "src/macros.rs option_struct"), ("into_owned methods", "src/records/*.rs"), ("From impls", R + "mod.rs")],
  ["record accessors before and after", "allocator balance"])

p("C16", "Flag words and bitfields decode per the kernel's bit layout",
  "Every bit of branch-stack flags, memory data source, transaction, aux, ksymbol, sample-field and read-format words maps to the accessor, flag constant or enum value that the kernel headers assign to it, for every value of the word, and undefined bits are preserved where the type promises to retain them. "
  "Numeric sub-fields (cycle counts, branch types, hops, memory levels, abort codes, trace formats) are extracted without bits of their neighbours. Two such values are equal, and hash alike, exactly when their words are.",
  ["inputs"], "every 64-bit (or narrower) word, in particular every single-bit and all-but-one-bit word",
  "No test decodes any bitfield.",
  [R + "sample.rs", R + "aux_record.rs", R + "ksymbol.rs", R + "bpf_event.rs", "src/flags.rs"],
  [("bindgen bitfield accessors", R + "sample.rs"), ("bitflags and c_enum definitions", R + "sample.rs, src/flags.rs")],
  ["BranchEntry, DataSource, Txn, AuxFlags, MemSnoop accessors"])

p("C17", "Debug output is faithful and never loses data",
  "Debug-printing a record shows every field that is present and no field that is absent, with integer fields readable back as their exact value and flag sets and enumerations as names and numbers that denote exactly the bits or value they hold. "
  "Names and paths print as one quoted string from which the exact bytes can be recovered, valid UTF-8 staying readable and invalid bytes escaped; build ids print as two hex digits per byte in order.",
  ["inputs", "configurations"], "every record value, every byte string (valid, invalid and truncated UTF-8, quotes, control and NUL bytes)",
  "No test prints a record.",
  ["src/util/fmt.rs", "src/macros.rs", "src/records"],
  [("ByteStr, HexStr, HexAddr", "src/util/fmt.rs"), ("presence-guarded Debug", "src/macros.rs")],
  ["format!(\"{:?}\") of records"])

p("C18", "Source failures at any point surface as that error, never as data",
  "If the data source fails at any point, a parse that needs data from that point on returns that failure - kept as the source of an external error, or as end-of-input when the source reported an unexpected end - and never a value, a panic or a different error. "
  "A parse that completes before the failing point is unaffected, and reading the rest of the input treats only end-of-input as its normal end.",
  ["fault_sequences", "inputs"], "every record x every failing byte position x every failure kind x every chunking and source type",
  "No test uses a source that can fail.",
  ["src/parse.rs", "src/parsebuf.rs", "src/error.rs"],
  [("error propagation", "src/parse.rs"), ("io::Error conversion", "src/error.rs"), ("BufReader source", "src/parsebuf.rs")],
  ["ParseError kind and source", "records parsed before the failure"])

p("C19", "Contiguous borrowed input is parsed without copying",
  "When a record is parsed from a contiguous borrowed buffer, its byte-string fields refer to that buffer at the right place instead of copying it, and so do its arrays of integers, branch entries and namespaces when the configured byte order is the host's and the array is suitably aligned in memory. "
  "Data from temporary chunks is never referred to after the parser has moved on.",
  ["inputs", "configurations"], "every record, buffer alignment, byte order and delivery",
  "No test looks at where the returned data lives.",
  ["src/parse.rs", "src/parsebuf.rs"],
  [("direct byte and slice access", "src/parse.rs parse_bytes_direct, parse_slice_direct"), ("contiguous fast path", "src/parse.rs parse_record_with_header")],
  ["Cow variant and address of returned data"])

p("C20", "No input makes the library touch memory it must not",
  "For every input, configuration and delivery, parsing, inspecting, cloning, converting and dropping records stays within the input buffer and the library's own live allocations: no out-of-bounds, use-after-free, double free, leak, misaligned or uninitialised access. "
  "This includes failing parses and dropping partially enabled samples.",
  ["inputs", "configurations", "histories"], "all inputs as in the totality property, executed under memory-error detectors",
  "The tests run without any memory-error detector and drop each value immediately.",
  ["src/parse.rs", "src/macros.rs", "src/parsebuf.rs", "src/util/fmt.rs"],
  [("unsafe slice reinterpretation and uninitialised buffers", "src/parse.rs"), ("MaybeUninit fields guarded by presence bits", "src/macros.rs")],
  ["AddressSanitizer and Miri reports on generated cases"])

p("C21", "The library's own data sources honour the ParseBuf contract",
  "A byte slice or a buffered reader used as a data source hands out exactly its bytes in order through every sequence of chunk and advance calls: a chunk starts at the current position, is never empty, and stays the same until the source is advanced; any remaining-size hint is exact at every point and a slice always gives one. "
  "A slice's chunks are borrowed views of that slice. An exhausted source reports end-of-input, and a reader's failure surfaces as an external error carrying it.",
  ["inputs", "histories", "fault_sequences"], "every data, reader capacity, pattern of short reads, failing position and history of chunk / advance / hint calls",
  "The tests use the sources only through whole-record parses of one slice; no test advances within a chunk, asks twice or uses a reader.",
  ["src/parsebuf.rs", "src/error.rs"],
  [("ParseBuf for &[u8]", "src/parsebuf.rs"), ("ParseBuf for BufReader", "src/parsebuf.rs"), ("io::Error conversion", "src/error.rs")],
  ["ParseBuf::chunk, advance and remaining_hint"])

p("C22", "The work done is proportional to the input",
  "Parsing costs at most a constant per byte supplied and per piece it is supplied in, whatever lengths and counts the input claims and whether or not it parses: the number of calls made on the data source, the sum of all memory requests (not only the peak), and the processor time all grow linearly. "
  "The same holds for using what was parsed: printing, cloning, dropping it, and stepping through or indexing all entries of a counter group.",
  ["inputs", "configurations"], "every kind of input x every size x every way of cutting it up",
  "The tests parse a dozen records of at most a few hundred bytes from one slice; a quadratic cost is invisible there.",
  ["src/parse.rs", "src/parsebuf.rs", "src/records/read.rs", "src/util/fmt.rs"],
  [("buffer growth and element loops", "src/parse.rs"), ("ParseBufCursor and its chunk list", "src/parsebuf.rs"), ("group access", "src/records/read.rs")],
  ["calls to ParseBuf methods", "requests to the global allocator", "thread processor time"])

p("C23", "What a parse gives depends on its input and configuration only",
  "Parsing has no memory and no neighbours: the same bytes under the same configuration give the same record, the same debug output and the same error, whatever was parsed (or failed to parse) before in the same process or thread, whichever other parsers are in use in between, and however many threads parse at the same moment. "
  "A value that was returned does not change afterwards, and several threads can read the same one. Every type of the interface - configurations, parsers over shareable input, records and errors - can be sent to and shared between threads.",
  ["histories", "schedules", "inputs"], "every sequence of parses x every interleaving of parsers and threads x every kind of input",
  "Each test parses one record, once; none parses two inputs under different configurations in one process, and none uses a thread.",
  ["src/parse.rs", "src/parsebuf.rs", "src/config.rs", "src/records/mod.rs", "src/error.rs"],
  [("Parser and ParseConfig own all state", "src/parse.rs, src/config.rs"), ("no statics, thread locals or interior mutability", "src/"), ("ParseError's cause is Send + Sync", "src/error.rs")],
  ["parse results", "Debug output", "data races under Miri"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
