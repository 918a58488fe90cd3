#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

R='src/records/'
p('C01','Parsing is total and memory-safe on arbitrary input',
 'For every byte sequence, every parse configuration, every byte order and every data source that respects the source contract, each parsing entry point returns a value or an error: it never panics, aborts, overflows, reads bytes the source did not supply or uninitialised memory, or otherwise has undefined behaviour. The same holds for every accessor, clone, ownership conversion, debug rendering and drop of whatever was returned.',
 ['inputs','configurations'],'all byte strings x all perf_event_attr-derived (and arbitrary) configs x all Endian types x all ParseBuf behaviours (slices at any alignment, any chunking, temporary or borrowed chunks, readers)',
 'The existing tests feed seven fixed fuzzer findings and a handful of valid records from one aligned slice; unsafe code (slice transmutes, uninitialised buffers, MaybeUninit fields) is reached with a few shapes only, and never under a UB detector.',
 ['src/parse.rs','src/parsebuf.rs','src/macros.rs',R+'sample.rs','src/util/fmt.rs'],
 [('checked lengths, capacity bounds, align_to-based transmute','src/parse.rs'),('MaybeUninit option_struct with presence flags','src/macros.rs'),('cursor bounds','src/parsebuf.rs')],
 observe=['return value of every public parse entry point','panic hook','AddressSanitizer and Miri reports'])
p('C02','Every non-sample record type decodes to exactly the encoded field values',
 'A well-formed record of any kernel record type other than SAMPLE, laid out as the perf_event ABI prescribes for the active configuration and the header misc flags (build-id mappings, switch direction, read format), decodes successfully and every public field and accessor returns exactly the value that was encoded, with trailing NUL padding removed from strings and alignment padding from byte arrays. Sequences of any length, including empty ones, and any field values decode this way, and an unknown record type yields its payload bytes unchanged.',
 ['inputs','configurations'],'all record types x all field values x string/array lengths (0..65 KB) x misc flags x read_format x sample_id_all',
 'Unit tests decode one instance each of COMM, EXIT, LOST, MMAP and THROTTLE; fifteen record types, build-id mmap2, empty arrays and all padding residues have no test at all.',
 [R+'mod.rs',R+'mmap.rs',R+'mmap2.rs',R+'read.rs',R+'namespaces.rs',R+'text_poke.rs',R+'ksymbol.rs',R+'bpf_event.rs',R+'cgroup.rs',R+'comm.rs',R+'switch_cpu_wide.rs','src/parse.rs','src/util/cow.rs'],
 [('per-record Parse impls','src/records/*.rs'),('parse_rest_trim_nul, parse_slice, split_at','src/parse.rs, src/util/cow.rs')],observe=['visitor callback argument'])
p('C03','Samples decode field-for-field under every sample configuration',
 'For every combination of supported sample-type flags, read format, register masks and branch hardware-index setting, a SAMPLE record laid out as the perf_event ABI prescribes (including zero-length parts, raw-data padding, omitted dynamic stack size, registers omitted when their ABI is "none", and either form of weight) decodes successfully; each configured field reads back exactly the encoded value and every other field reads as absent.',
 ['inputs','configurations'],'all 2^25 sample_type subsets x read_format x register masks x hw_index x all part lengths and values',
 'Two unit tests cover two sample_type combinations out of 2^25; a missed or misplaced field shifts everything after it only in combinations that include later fields.',
 [R+'sample.rs',R+'read.rs','src/parse.rs','src/config.rs','src/flags.rs'],
 [('ordered conditional field parsing','Sample::parse in src/records/sample.rs'),('option_struct presence flags','src/macros.rs'),('parse_padded','src/parse.rs')],observe=['Sample accessors'])
p('C04','Decoding does not depend on how the bytes are delivered',
 'The outcome of parsing (value, error or not, and metadata) is the same for the same bytes whether they come from one contiguous slice at any memory alignment, from any partition into borrowed or temporary chunks with or without a size hint, or from a buffered reader with any buffer size and any pattern of short reads.',
 ['inputs','histories'],'all byte streams x all partitions into chunks x borrowed/temporary x alignments x hint presence x reader buffer sizes',
 'All tests parse from one contiguous slice; the chunk-crossing, owned-data and misaligned paths are exercised by none of them beyond constructing a cursor.',
 ['src/parse.rs','src/parsebuf.rs','src/util/cow.rs'],
 [('fast/slow path pairs: parse_array(_slow), parse_bytes(_direct/_slow), parse_slice(_direct)/parse_repeated','src/parse.rs'),('record cursor over chunks','src/parsebuf.rs'),('owned/borrowed split and truncate','src/util/cow.rs')],
 state=[('cursor offset/len','position inside the chunk list of a framed record','src/parsebuf.rs')],observe=['parse outcome per delivery'])
p('C05','Decoding does not depend on the declared byte order',
 'If the same record is encoded twice, once with every multi-byte integer little-endian and once big-endian (bit-field words counting as one 64-bit integer), then parsing each encoding with the matching byte order (fixed, native or chosen at run time) yields identical results, including whether the parse succeeds. Choosing the byte order at run time always behaves as the corresponding fixed choice.',
 ['inputs','configurations'],'all records and attr structures x {Little, Big, Native, Dynamic::*}',
 'Every test uses little-endian (= native) data, so neither byte swapping nor the non-reinterpreting array path is ever exercised.',
 ['src/endian.rs','src/parse.rs',R+'sample.rs','src/impls/perf_event_attr.rs'],
 [('Endian::convert_*, is_native gate for reinterpretation','src/endian.rs, src/parse.rs')],observe=['parse outcome per byte order'])
p('C06','Records are framed exactly by their header size',
 'Parsing a record from a stream consumes exactly the number of bytes its header declares: nothing beyond the frame influences the result, and a body field can never take bytes from outside the frame. Whatever happens inside a fully supplied frame whose declared size covers its header (success, malformed body, unknown type, unread trailing bytes), the parser is left positioned at the next record, so a stream of records is decoded in order with none lost, repeated or merged.',
 ['histories','inputs'],'all streams of well-formed, malformed and unknown records x deliveries',
 'No test parses two records from one stream, checks what is consumed, or continues after a failed record.',
 ['src/parse.rs','src/parsebuf.rs'],[('parse_metadata_with_header splits off the frame before decoding','src/parse.rs'),('ParseBufCursor::new','src/parsebuf.rs')],
 state=[('parser position','bytes consumed from the source','src/parsebuf.rs')],observe=['source position after each record','next record decoded'])
p('C07','The sample-id trailer is separated and decoded for every non-sample record',
 'When the configuration has sample_id_all set, every record other than MMAP and SAMPLE ends in a trailer holding the configured subset of pid/tid, time, id, stream id, cpu and identifier; the record metadata returns exactly those values (the id falling back to the identifier), absent ones read as absent, and the trailer is not part of the record body. Without sample_id_all, and for MMAP and SAMPLE, the metadata is empty and the whole frame is body; the advertised trailer length equals the number of bytes actually taken.',
 ['configurations','inputs'],'all sample_type subsets x sample_id_all x all record types x field values',
 'sample_id_all is only ever set by accident in fuzzer regressions; no test checks a trailer value, its length or the body/trailer boundary.',
 [R+'mod.rs','src/parse.rs','src/visitor.rs'],[('SampleId::parse / estimate_len','src/records/mod.rs'),('trailer split','src/parse.rs')],observe=['RecordMetadata::sample_id','record body'])
p('C08','A record is accepted exactly when it is complete and consistent',
 'A record is decoded only if its frame holds every byte its type, configuration and embedded counts call for; otherwise parsing fails and no partial, truncated or shifted value is returned. Missing bytes are reported as end-of-input; a header smaller than itself, a frame too small for its trailer, a build-id longer than 20 bytes and a dynamic stack size exceeding the captured stack are reported as an invalid record; an unknown read format, or a group read format on a READ record (or a single reading parsed under a group format, a group under a single one), is reported as unsupported configuration; well-formed records are never refused.',
 ['inputs','configurations'],'all records with lengths, counts and sizes at, below and above what is present; all truncation points',
 'Four regression inputs check only that nothing crashes; no test checks that a truncated or inconsistent record is refused, nor with which kind of error.',
 ['src/parse.rs',R+'read.rs',R+'sample.rs',R+'mmap2.rs','src/error.rs'],[('checked arithmetic and explicit validation','src/parse.rs, src/records/*.rs')],observe=['parse result and error kind'])
p('C09','Memory use is bounded by the bytes actually supplied',
 'While parsing untrusted input, peak heap use and every single allocation stay within a small constant plus a small multiple of the bytes (and chunks) the source really delivered, whatever counts and sizes the input claims. All memory obtained by a failed parse is released, and a successful parse releases everything once its result is dropped.',
 ['inputs'],'all inputs, in particular inputs whose embedded counts/sizes (32/64-bit) exceed the data, for every delivery',
 'regression.rs caps single allocations at 4 MB on four fixed inputs; the bound must hold for every count field, entry point and source with and without a size hint.',
 ['src/parse.rs','src/parsebuf.rs'],[('safe_capacity_bound, parse_bytes_slow','src/parse.rs'),('remaining_hint','src/parsebuf.rs')],observe=['instrumented global allocator'])
p('C10','Parsing makes bounded progress and respects the data-source contract',
 'Every parse finishes after a number of source requests and conversions linear in the bytes delivered, whatever counts the input claims. The parser never moves the source past bytes it has been shown, never asks for more data once the record is complete, and never uses temporary data after moving past it.',
 ['inputs','histories'],'all inputs x all contract-abiding sources (including ones that block or invalidate data after advancing)',
 'Tests use in-memory slices, where over-reading, stale reads and extra requests are invisible.',
 ['src/parse.rs','src/parsebuf.rs'],[('chunk/advance loops','src/parse.rs, src/parsebuf.rs')],observe=['monitored ParseBuf event log'])
p('C11','Each record reaches exactly the right visitor callback exactly once',
 'A successfully parsed record triggers exactly one visitor callback: the one for its record type, or the unknown-record callback for types the library does not know, with metadata carrying the header type and misc bits; a failed parse triggers none. Callbacks a visitor leaves out forward to its catch-all (extended mappings first to the plain mapping callback), and the all-in-one record enum holds the variant of the same type.',
 ['inputs','programs'],'all record types (known and unknown) x misc values x visitors implementing any subset of callbacks',
 'Only the MMAP dispatch is covered (doc tests); no test observes callbacks, counts them or checks unknown types.',
 ['src/parse.rs','src/visitor.rs',R+'mod.rs'],[('type match','parse_record_impl in src/parse.rs'),('default methods','src/visitor.rs'),('RecordVisitor','src/records/mod.rs')],observe=['visitor callback log'])
p('C12','perf_event_attr structures of every ABI version decode exactly',
 'A serialized perf_event_attr of any published ABI size decodes to a structure with every field of that version equal to what was encoded and later fields zero, consuming exactly the declared size. A larger size is accepted exactly when all bytes beyond the supported fields are zero, and otherwise refused as unsupported data; any other size, or too few bytes, is an error.',
 ['inputs','configurations'],'all sizes (0..4096+) x field values x trailing contents x following data x byte orders and deliveries',
 'There is no test of attr parsing at all.',
 ['src/impls/perf_event_attr.rs'],[('versioned field parsing, trailing-zero check','src/impls/perf_event_attr.rs')],observe=['returned structure, bytes consumed, error kind'])
p('C13','A parse configuration faithfully represents the attr it came from',
 'A configuration built from a perf_event_attr reports exactly the attr sample type (supported flags), supported read-format flags and register masks, and makes parsing behave according to its sample_id_all and branch hardware-index settings; no setting affects another, and neither changing the byte order, cloning, nor parsing any record alters them. Read formats with any unsupported bit are never silently treated as supported.',
 ['configurations','histories'],'all 64-bit sample_type/read_format/branch_sample_type/regs values x attr flag bits x sequences of parses with varying header misc bits',
 'One canary test checks the spare bit count of the packed representation; nothing checks that packed values round-trip.',
 ['src/config.rs'],[('ConfigFlags bit packing','src/config.rs')],state=[('config_flags','packed read_format/sample_type/flags/misc','src/config.rs')],observe=['config accessors','estimated trailer length','decoded READ/SAMPLE records'])
p('C14','Clones and ownership conversions preserve every value and manage memory exactly',
 'Cloning a record, converting it to owned data, converting an extended mapping to a plain one or extracting sample identity from a sample preserves every shared field value (and absence), and the result stays valid and unchanged after the source record and the input buffer are dropped or overwritten. Every allocation is released exactly once.',
 ['inputs','histories'],'all records, borrowed or owned, all subsets of present sample fields, any order of clone/convert/drop',
 'No test clones, converts or drops anything but a fully-borrowed record; the hand-written presence-flag drop and clone code is not exercised.',
 ['src/macros.rs',R+'sample.rs',R+'mmap2.rs',R+'text_poke.rs',R+'mod.rs',R+'read.rs'],[('option_struct Clone/Drop','src/macros.rs'),('into_owned/to_owned/to_mmap','src/records/*.rs')],observe=['field values before and after','instrumented allocator, ASan, Miri'])
p('C15','Counter-group views are mutually consistent',
 'For every parsed counter group, iteration from either end in any mix of steps, length, indexing, lookup by id and exact-size reports all describe the same sequence of entries, with id and lost present exactly when configured. Converting between a single reading and a one-entry group preserves value, times, id and lost count; converting a group with any other number of entries fails.',
 ['inputs','histories'],'all group contents and read formats x all interleavings of iterator operations',
 'One test checks the length of one two-entry group.',
 [R+'read.rs','src/flags.rs'],[('GroupIter over exact chunks','src/records/read.rs'),('element_len','src/flags.rs')],observe=['iterator call history'])
p('C16','Errors from the data source are surfaced intact and never turned into data',
 'If the source fails at any point while a record is being read, the parse returns an error that carries the original error as its source: kind external, or end-of-input for an unexpected-EOF I/O error. No record is delivered for that parse, no failure is swallowed, and before the failure point the outcome is as if there were no failure.',
 ['fault_sequences','inputs'],'all records x all points at which the source can fail x error kinds x deliveries',
 'No test uses a failing source.',
 ['src/error.rs','src/parse.rs','src/parsebuf.rs'],[('? propagation, From<io::Error>','src/error.rs'),('parse_rest end-of-input handling','src/parse.rs')],observe=['returned error, its kind and source chain; visitor log'])
p('C17','Debug and error text is total and faithful',
 'Debug rendering of any record shows each present field once under its name with its value and shows no absent optional field; byte strings are rendered as quoted text from which the exact bytes can be recovered, and build ids as two upper-case hex digits per byte, most significant first; record metadata and parse configurations likewise show each of their settings. Displaying an error shows its category followed by ": " and the message when there is one, or just the message for external errors.',
 ['inputs'],'all records, in particular all byte strings (valid and invalid UTF-8) and all sample field subsets',
 'No test formats a record or an error.',
 ['src/util/fmt.rs','src/macros.rs','src/error.rs',R+'mmap2.rs'],[('ByteStr, HexStr, debug_if, option_struct Debug','src/util/fmt.rs, src/macros.rs'),('Display for ParseError','src/error.rs')],observe=['formatted text'])
p('C18','Primitive reads form one exact left-to-right pass over the input',
 'Any sequence of successful primitive reads on a parser (fixed-width integers, byte arrays, byte runs, repeated values, slices, direct slices, the rest of the input with or without NUL trimming, conditional reads) returns exactly the consecutive input bytes in order, each byte once; a declined conditional or direct read consumes nothing. A read fails with end-of-input exactly when fewer bytes remain than it needs, and reading zero items or an empty rest always succeeds.',
 ['histories','inputs'],'all sequences of parser operations x inputs x deliveries x byte orders',
 'One test reads the rest of a five-byte slice; custom Parse implementations combine these primitives arbitrarily.',
 ['src/parse.rs','src/parsebuf.rs'],[('Parser primitive methods','src/parse.rs')],state=[('position','next byte to read','src/parsebuf.rs')],observe=['operation history vs cursor model'])
p('C19','Packed words decode to the ABI bit fields',
 'For every value of a branch-entry flag word, data-source word, transaction word, aux flags word, kernel-symbol and BPF-event type word, each accessor returns exactly the bits the perf_event ABI assigns to it, independent of all other bits; unknown bits are kept in raw flag values and do not change known ones.',
 ['inputs'],'all 64-bit flag words (random, walking-bit and dense low/high patterns) through the whole parse path',
 'No test reads any of these accessors.',
 [R+'sample.rs',R+'aux_record.rs',R+'ksymbol.rs',R+'bpf_event.rs'],[('bit-field accessors','src/records/sample.rs'),('pmu_format_type','src/records/aux_record.rs')],observe=['accessors'])
p('C20','Decoding does not depend on the host word size or byte order',
 'The same bytes, configuration and declared byte order are accepted or refused alike, with the same integer, byte-string and array values, on 32-bit and 64-bit and on little-endian and big-endian hosts; in particular 64-bit counts and sizes are never silently truncated to the host word.',
 ['inputs','configurations'],'all records (valid, and with counts/sizes beyond 2^32) x hosts {x86_64, i686, big-endian aarch64}',
 'Tests run on one 64-bit little-endian host.',
 [R+'sample.rs',R+'read.rs',R+'namespaces.rs','src/parse.rs','src/endian.rs'],[('length conversions and is_native','src/records/*.rs, src/endian.rs')],observe=['per-case outcome digest on each interpreted host'])
p('C21','Contiguous borrowed input is not copied',
 'When a record lies within one borrowed chunk, its strings and byte fields refer directly to the input bytes; arrays of words, branches and namespaces do so too when the byte order is the host order and the data is suitably aligned. Such data outlives the parser and the data source object.',
 ['inputs','configurations'],'all records with byte/array fields x native and foreign byte orders x alignments',
 'No test looks at where returned data lives.',
 ['src/parse.rs','src/parsebuf.rs','src/util/cow.rs'],[('parse_bytes_direct, parse_slice_direct, as_slice fast path','src/parse.rs')],observe=['address ranges of returned slices'])
p('C22','All ways of parsing a record agree',
 'Visiting a record, parsing it into the record enum, supplying a pre-parsed header, and splitting off the metadata first and then parsing the body type from the returned sub-parser all give the same field values, metadata and success or failure, and leave the stream at the same place.',
 ['inputs','programs'],'all records (well-formed and malformed) x all entry points x deliveries',
 'Each test uses one entry point; custom-type users (metadata first) take a different path from the visitor users.',
 ['src/parse.rs',R+'mod.rs',R+'mmap2.rs',R+'switch_cpu_wide.rs'],[('parse_metadata*, parse_record*, Record::parse*','src/parse.rs, src/records/mod.rs')],observe=['outcome per entry point'])
p('C23','Parsing is a pure function, whatever happens around it',
 'What a parse yields (values, metadata, error and all their text) depends only on the bytes, the configuration and the byte order: not on what was parsed before or is being parsed meanwhile, in the same parser, in the data source of another parse or in other threads. Records, metadata, errors, configurations and parsers over thread-safe sources can be moved to and shared between threads; using them so involves no data race and changes no value.',
 ['histories','schedules'],'all sequences, nestings and thread interleavings of parses over shared inputs, configurations and records',
 'Every test is a single parse in one thread.',
 ['src/parse.rs','src/config.rs','src/macros.rs','src/util/fmt.rs',R+'sample.rs'],[('Parser, ParseConfig, option_struct, records','src/parse.rs, src/config.rs, src/macros.rs')],observe=['results and texts per history, nesting and thread','data races (ThreadSanitizer, interpreter)'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
