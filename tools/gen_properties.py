import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Decoding an encoded target with the same dictionary yields that target",
 "For every dictionary, every target and every way of dividing the target into chunks, everything the VCDIFF encoder emits (standard or interleaved format, with or without checksums, with or without target matching, through the one-shot or the streaming interface, into any supported output type) is accepted by the decoder given the same dictionary, and decodes to exactly the original target bytes.",
 ["inputs","configurations"],"all dictionaries (including empty, shorter than a hash block, highly repetitive, binary), all targets, all encoder settings, all target chunkings, all delta chunkings",
 "The tests round-trip one short text, one generated text and a few command-line files with four settings; matches at every alignment, cache-mode, size-encoding and hash-collision combination are not sampled.",
 ["src/vcencoder.cc","src/vcdiffengine.cc","src/blockhash.cc","src/encodetable.cc","src/addrcache.cc","src/instruction_map.cc","src/vcdecoder.cc","src/decodetable.cc","src/headerparser.cc"],
 [("encoder emits ADD/COPY covering the target exactly","src/vcdiffengine.cc VCDiffEngine::EncodeInternal"),("encoder and decoder keep identical address caches","src/addrcache.cc"),("decoder replays the instructions","src/vcdecoder.cc VCDiffDeltaFileWindow::DecodeBody")],
 ["VCDiffEncoder / VCDiffStreamingEncoder output","VCDiffDecoder / VCDiffStreamingDecoder output and result"])
p("C02","Encoder output conforms to RFC 3284 (or to the documented extensions)",
 "Everything the encoder emits is a well-formed VCDIFF delta that an independent decoder written from RFC 3284 reconstructs to the target: correct header and version byte, one window per non-empty chunk and none for an empty one, exact section lengths, default code table, address caches reset per window. Format extensions (version byte 'S', interleaved sections, checksum) appear exactly when requested, without target matching no instruction refers to anything but dictionary data, and no copy ever starts in the dictionary and runs on into target data.",
 ["inputs","configurations"],"all dictionaries, targets, chunkings and format settings",
 "The tests only decode with this library's own decoder or compare with a few hand-written deltas, so a matching pair of mistakes in encoder and decoder, or an unusual instruction sequence, goes unnoticed.",
 ["src/encodetable.cc","src/vcencoder.cc","src/vcdiffengine.cc","src/addrcache.cc","src/codetable.cc","src/instruction_map.cc","src/varint_bigendian.cc"],
 [("window assembly","src/encodetable.cc VCDiffCodeTableWriter::Output"),("opcode selection","src/encodetable.cc VCDiffCodeTableWriter::EncodeInstruction"),("address encoding","src/addrcache.cc VCDiffAddressCache::EncodeAddress")],
 ["bytes appended to the caller's output"])
p("C03","The decoder reconstructs every valid delta, whoever produced it",
 "Every delta file that is valid under RFC 3284 or the documented extensions, using any mix of opcodes, explicit and implicit sizes, address modes, ADD, RUN and COPY instructions (overlapping copies and copies that cross from source into target included), source segments anywhere in the dictionary or in earlier target data, windows without source, any number of windows, is accepted and produces exactly the target that RFC 3284 defines.",
 ["inputs"],"all valid delta files and dictionaries, not only those the bundled encoder can produce",
 "The bundled encoder never emits RUN, never references earlier windows, always uses the whole dictionary as source and never crosses the source/target boundary; the tests cover these with about twenty fixed byte strings.",
 ["src/vcdecoder.cc","src/decodetable.cc","src/addrcache.cc","src/headerparser.cc","src/codetable.cc","src/varint_bigendian.cc"],
 [("instruction replay","src/vcdecoder.cc DecodeBody/DecodeAdd/DecodeRun/DecodeCopy"),("opcode table","src/codetable.cc kDefaultCodeTableData"),("address decoding","src/addrcache.cc DecodeAddress"),("window header parsing","src/headerparser.cc")],
 ["decoder result and output"])
p("C04","Decoding does not depend on how the delta is divided into chunks",
 "For every byte string, valid or not, and every dictionary, feeding it to the streaming decoder in any division into chunks (single bytes and empty chunks included) gives the same final verdict as feeding it at once and, when it is accepted, the same output. At every moment before a failure the data output so far is a prefix of the output of a decoder that has seen more of the same input.",
 ["inputs","histories"],"all byte strings x all chunkings x decoder settings",
 "Tests split a few valid deltas into fixed chunk sizes; resumption in the middle of every header field, instruction, size, address or embedded code table of arbitrary and malformed deltas is not reached.",
 ["src/vcdecoder.cc","src/headerparser.cc","src/headerparser.h","src/decodetable.cc","src/varint_bigendian.cc"],
 [("unparsed bytes are carried over","src/vcdecoder.cc VCDiffStreamingDecoderImpl::DecodeChunk"),("instructions are pushed back at end of data","src/decodetable.h UnGetInstruction"),("interleaved sections are resumed","src/vcdecoder.cc UpdateInterleavedSectionPointers")],
 ["result of every DecodeChunk and FinishDecoding","output after every call"])
p("C05","Decoding arbitrary bytes is memory-safe and always terminates",
 "Given any byte string as delta, any dictionary and any chunking, the decoder never reads or writes outside the buffers it was given or allocated, performs no undefined behaviour, uses no uninitialised data, leaks nothing, needs only bounded stack, and returns from every call after an amount of work bounded by the input and the declared (limited) target size. It reports a failure instead of throwing or, except for calls and cache sizes that builds with assertions refuse by design, ending the process.",
 ["inputs"],"all byte strings (corrupted, truncated, adversarially constructed, random), dictionaries, chunkings and decoder settings",
 "The tests mutate single bytes of a few deltas in an uninstrumented build, where most memory errors stay silent, and no test feeds adversarial structures.",
 ["src/vcdecoder.cc","src/headerparser.cc","src/decodetable.cc","src/addrcache.cc","src/codetable.cc","src/varint_bigendian.cc","src/zlib/adler32.c"],
 [("length checks on sections, sizes and addresses","src/headerparser.cc, src/vcdecoder.cc DecodeBody"),("address validity check","src/addrcache.cc IsDecodedAddressValid"),("nesting limit for code tables","src/vcdecoder.cc ReadDeltaFileHeader")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, MemorySanitizer/memcheck reports","stack depth and instrumented work counters"])
p("C06","Malformed or incomplete deltas are never reported as decoded successfully",
 "Decoding reports success only if the delta is complete and consistent: a wrong magic number or version, secondary compression, both source flags at once, a source segment outside its file, an integer that is too large, lengths that contradict one another, a copy address that is not strictly before the current position, instructions that overrun or do not fill the target window, left-over or missing section bytes, or an end of input anywhere but between windows, each make a decode call or the finishing call fail. Where a delta is accepted, its output is the one RFC 3284 defines.",
 ["inputs"],"all byte strings, in particular every single-fault mutation and every truncation of valid deltas",
 "Tests try fixed corruptions of a handful of deltas; the space of inconsistent field combinations and truncation points of arbitrary deltas is not sampled.",
 ["src/vcdecoder.cc","src/headerparser.cc","src/decodetable.cc","src/addrcache.cc","src/varint_bigendian.cc","src/codetable.cc"],
 [("consistency checks","src/headerparser.cc ParseSectionLengths, ParseSourceSegmentLengthAndPosition"),("window completion checks","src/vcdecoder.cc DecodeBody"),("completeness check","src/vcdecoder.cc IsDecodingComplete")],
 ["decoder verdict vs. independent reference decoder"])
p("C07","A window checksum detects every mismatch and never rejects good data",
 "When checksums are requested each window carries the Adler-32 value of its target data, and the decoder accepts a window carrying a checksum exactly when the data it reconstructed has that checksum. Hence decoding such a delta with a different dictionary or after a change to its data never reports success unless every window's reconstructed data matches its checksum; in the standard format, where no checksum exists, none is required.",
 ["inputs"],"all targets (lengths around the reduction block size included), dictionaries, wrong dictionaries, corruptions and checksum values",
 "Tests check one or two fixed checksums and one wrong dictionary; lengths at which modular reduction matters and checksum values needing each encoded length are not covered.",
 ["src/checksum.h","src/zlib/adler32.c","src/encodetable.cc","src/vcencoder.cc","src/vcdecoder.cc","src/headerparser.cc"],
 [("checksum computation","src/checksum.h, src/zlib/adler32.c"),("checksum comparison","src/vcdecoder.cc DecodeBody"),("checksum field","src/encodetable.cc Output, src/headerparser.cc ParseChecksum")],
 ["checksum field of encoder output","decoder verdict on matching and mismatching checksums"])
p("C08","Target file and window size limits bound what the decoder will produce",
 "With a maximum target file size and a maximum target window size in force, the decoder fails on any delta that declares a window above the window limit or windows whose total is above the file limit, never outputs more than the file limit, and succeeds on valid deltas at or below both limits. The defaults are 64 MB each, a window limit above 2^31-1 is refused without effect, and before it has rejected a delta the memory it has allocated stays proportional to the input plus the limits.",
 ["inputs","configurations","histories"],"all deltas, limit values, numbers of windows, chunkings and moments at which limits are set",
 "Tests use one single-window and one multi-window delta with the limit exact or one too small.",
 ["src/vcdecoder.cc","src/google/vcdecoder.h"],
 [("limit check before a window is decoded","src/vcdecoder.cc TargetWindowWouldExceedSizeLimits"),("running total","src/vcdecoder.cc AddToTotalTargetWindowSize")],
 ["decoder verdict, output size, allocation sizes seen by an allocator hook"])
p("C09","With target references disallowed they are refused and nothing else changes",
 "When references to earlier target data are disallowed, a delta containing a window that uses them fails at that window, every other delta is decoded exactly as when they are allowed, and the memory the decoder retains does not grow with the number of windows already decoded. When they are allowed (the default), such windows decode correctly.",
 ["inputs","configurations"],"all deltas (mixing dictionary, target and source-less windows), chunkings",
 "Tests repeat a few deltas with the option off; memory retention and mixed histories of windows are not examined.",
 ["src/vcdecoder.cc","src/headerparser.cc"],
 [("flag check","src/headerparser.cc ParseWinIndicatorAndSourceSegment"),("flush after every window","src/vcdecoder.cc FlushDecodedTarget")],
 ["decoder verdict and output","live heap bytes seen by an allocator hook"])
p("C10","A decoder object can be reused: every decode is independent of earlier ones",
 "The outcome of decoding a delta with a decoder object that has been used before, whether the earlier decodes succeeded, failed in any call, were cut short, or used other dictionaries, custom code tables or formats, is the same as with a fresh object with the same settings. After a failed decode call further decode calls and the finishing call fail until decoding is started again, and settings (limits, target references) persist across decodes.",
 ["histories"],"all sequences of complete, failing and abandoned decode sessions on one object",
 "Tests reuse a decoder at most twice, with the same kind of delta.",
 ["src/vcdecoder.cc","src/decodetable.h"],
 [("state reset","src/vcdecoder.cc VCDiffStreamingDecoderImpl::Reset, StartDecoding, FinishDecoding"),("window reset","src/vcdecoder.cc VCDiffDeltaFileWindow::Reset")],
 ["outcome on reused object vs. fresh object"])
p("C11","Encoding is deterministic and independent of what was encoded before",
 "The delta produced for a dictionary, settings and sequence of target chunks is a function of these alone: it is byte-for-byte the same on every run, for a fresh or a reused encoder, whatever was encoded before with the same encoder or the same hashed dictionary, whether or not the caller's dictionary and target buffers are changed or freed afterwards. Encoding or finishing without a successful start fails and writes nothing.",
 ["histories","inputs"],"all sequences of encoding sessions (completed or abandoned) on shared and fresh encoder objects",
 "Tests encode at most two targets with one object and compare with fixed strings.",
 ["src/vcencoder.cc","src/encodetable.cc","src/vcdiffengine.cc","src/blockhash.cc","src/jsonwriter.cc"],
 [("writer re-initialisation per window","src/encodetable.cc VCDiffCodeTableWriter::Init"),("private dictionary copy","src/vcdiffengine.cc VCDiffEngine constructor"),("target hash built per call","src/blockhash.cc CreateTargetHash")],
 ["encoder output bytes of reused vs. fresh objects"])
p("C12","Encoding is memory-safe for every dictionary and target",
 "For every dictionary and target, of any size (zero included), content and position in memory, hashing the dictionary and encoding never read or write outside the given and allocated buffers, perform no undefined behaviour, use no uninitialised data, leak nothing and trigger no internal-error assertion of the library.",
 ["inputs","configurations"],"all dictionaries, targets, chunkings, settings; buffers that end at an unreadable page",
 "Tests run uninstrumented; off-by-one reads beyond the end of dictionary or target and unaligned or overlong comparisons stay silent.",
 ["src/blockhash.cc","src/blockhash.h","src/vcdiffengine.cc","src/encodetable.cc","src/instruction_map.cc","src/rolling_hash.h","src/jsonwriter.cc","src/zlib/adler32.c"],
 [("bounds on matching","src/blockhash.cc MatchingBytesToLeft/MatchingBytesToRight, FindBestMatch"),("bounds on hashing","src/vcdiffengine.cc EncodeInternal")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, memcheck reports","library assertion exits"])
p("C13","One hashed dictionary may serve many threads at once",
 "Once a hashed dictionary has been initialised, any number of threads may encode against it simultaneously, each with its own encoder, and any number of threads may decode with their own decoders, without data races, and every thread obtains exactly the bytes it would obtain running alone; threads that use dictionaries, encoders and decoders of their own never disturb one another either.",
 ["schedules","inputs"],"all interleavings of encoding and decoding sessions in different threads that share a dictionary",
 "No test uses threads.",
 ["src/vcdiffengine.cc","src/blockhash.cc","src/instruction_map.cc","src/rolling_hash.h","src/vcencoder.cc","src/codetable.cc"],
 [("engine is const while encoding","src/vcdiffengine.h VCDiffEngine::Encode const"),("shared instruction map","src/instruction_map.cc GetDefaultInstructionMap")],
 ["ThreadSanitizer reports","per-thread output vs. single-threaded output"])
p("C14","JSON output is valid JSON that reconstructs the target",
 "With the JSON format, for every 7-bit ASCII dictionary and target, the output of a completed encoding is empty if no data was encoded and otherwise one syntactically valid JSON array of strings (literal data) and offset/length pairs of integers, which applied in order, with offsets counted in the dictionary followed by the data already produced from the current chunk, yields exactly the target, whatever locale the program has set. A dictionary or target chunk containing any other byte is refused with a failure result.",
 ["inputs","configurations","histories"],"all ASCII dictionaries and targets (control characters, quotes, backslashes, DEL), chunkings, reuse of the encoder, with and without target matching",
 "Tests compare four outputs with hand-written strings; there is no JSON decoder in the code base and control characters are barely sampled.",
 ["src/jsonwriter.cc","src/google/jsonwriter.h","src/vcencoder.cc"],
 [("escaping","src/jsonwriter.cc JSONEscape"),("array syntax state","src/jsonwriter.cc Init/Output/FinishEncoding"),("ASCII check","src/jsonwriter.cc VerifyDictionary/VerifyChunk")],
 ["encoder output parsed by an independent JSON parser"])
p("C15","The vcdiff tool round-trips files and streams for all its options",
 "For every dictionary file and every target within the decoder's size limits (empty, binary, larger than the buffer), encoding with the vcdiff command and decoding the result with it using the same dictionary reproduces the target exactly with exit status 0, whether data comes from and goes to named files or standard streams (pipes delivering arbitrary pieces included), for every buffer size and format option and both spellings of each command; the self-test command succeeds on every such target and leaves the same delta as encoding. The delta has the format asked for: every window carries a checksum or is interleaved exactly if the option says so, refers to target data only with --target_matches and is not larger than the buffer, and the sizes reported with --stats are the true ones.",
 ["inputs","configurations"],"all dictionaries, targets, option combinations, buffer sizes, input and output kinds, read sizes delivered by the system",
 "The test script runs a few fixed commands on a few text files.",
 ["src/vcdiff_main.cc"],
 [("read/encode/write loop","src/vcdiff_main.cc VCDiffFileBasedCoder::Encode"),("read/decode/write loop","src/vcdiff_main.cc VCDiffFileBasedCoder::Decode"),("comparison","src/vcdiff_main.cc DecodeAndCompare/CompareOutput")],
 ["exit status, output file and standard output of the vcdiff program"])
p("C16","The vcdiff tool never exits 0 unless its output is complete and correct",
 "If the vcdiff command exits with status 0 then its complete output has been delivered: any failure to open, read or write a file (full disk, failing or short read or write, failing flush or close), a malformed, truncated or over-limit delta (the limits are 64 MB per file and per window unless options set them), a refused target reference, invalid JSON input, missing or unknown arguments, or a mismatch found by the self-test command make it exit non-zero with a message on standard error. It always terminates.",
 ["fault_sequences","inputs"],"every point at which a system call of a run can fail or be cut short, and all malformed inputs",
 "The test script checks a few missing-option cases; no I/O fault is ever injected.",
 ["src/vcdiff_main.cc"],
 [("error checks on stdio calls","src/vcdiff_main.cc ReadInput/WriteOutput/CloseOutputFile/OpenDictionary"),("decode verdict to exit status","src/vcdiff_main.cc Decode, main")],
 ["exit status vs. delivered bytes under injected faults"])
p("C17","Redundant data is found and the delta never grows much beyond the target",
 "A stretch of the target that occurs in the dictionary is encoded as a copy rather than as literal data whenever it is at least 32 bytes long, whatever its alignment and whatever surrounds it, provided its content has a single origin (where parts of it occur in several places the encoder may prefer a copy of such a part); with target matching the same holds for a repetition of earlier data of the same chunk. In all cases the delta is never larger than the target by more than a small constant per window plus a small fraction of its size.",
 ["inputs"],"all dictionaries and targets with planted common substrings at all offsets, lengths and alignments",
 "Tests check compression on a few texts; a lost match only makes deltas larger and stays invisible to round-trip tests.",
 ["src/vcdiffengine.cc","src/blockhash.cc","src/rolling_hash.h","src/encodetable.cc"],
 [("every block of the dictionary is indexed","src/blockhash.cc AddAllBlocks"),("rolling hash over every target position","src/vcdiffengine.cc EncodeInternal, src/rolling_hash.h UpdateHash"),("match extension","src/blockhash.cc FindBestMatch")],
 ["literal and copied byte counts in the parsed delta, delta size"])
p("C18","Custom code tables and cache sizes work, and invalid ones are refused",
 "A delta that carries its own code table and address cache sizes, encoded as RFC 3284 section 7 prescribes, is decoded according to that table and those sizes for every valid table and all sizes with at most 254 cache modes, in any chunking; a table that is structurally invalid for its sizes, over-long sizes, a table that is not exactly one table long, or one that again carries a table, is refused. A delta writer constructed with a valid custom table and cache sizes emits windows that such a decoder reconstructs to the instructions it was given.",
 ["inputs","configurations"],"all valid and invalid code tables (NOOP-first opcodes, double instructions with explicit sizes, all sizes 0-255), near/same cache sizes, instruction sequences",
 "Tests use one custom table with one pair of cache sizes.",
 ["src/codetable.cc","src/instruction_map.cc","src/encodetable.cc","src/decodetable.cc","src/vcdecoder.cc","src/addrcache.cc"],
 [("table validation","src/codetable.cc VCDiffCodeTableData::Validate"),("table transfer","src/vcdecoder.cc InitCustomCodeTable/ReadCustomCodeTable"),("opcode maps","src/instruction_map.cc")],
 ["decoder verdict and output vs. reference decoder","writer output vs. given instructions"])
p("C19","Output is only ever appended, and grows at most once per window",
 "The streaming encoder and decoder only append to the caller's output object, leaving what it already contains untouched, while the one-shot interfaces replace its contents; the result is the same for every output type. While decoding, the output string's storage is enlarged no more than once per window however the delta is divided into chunks, and encoding a chunk in the VCDIFF formats enlarges it at most once.",
 ["inputs","histories"],"all deltas, prior output contents, output types and chunkings",
 "Tests append to empty strings and check capacity in one scenario.",
 ["src/google/output_string.h","src/vcdecoder.cc","src/vcencoder.cc","src/encodetable.cc"],
 [("reservation of the whole window","src/vcdecoder.cc AppendNewOutputText"),("output adaptor","src/google/output_string.h")],
 ["calls recorded by an instrumented output object"])
p("C20","Streaming decoding delivers all data that the input so far determines",
 "After any prefix of a valid delta has been fed in any chunking, the decoder has output at least the target data of every window that is completely contained in the prefix and, in an interleaved window, of every instruction that is completely contained in it (size, data and address); nothing is held back until later input arrives.",
 ["inputs","histories"],"all valid deltas, all prefixes, all chunkings",
 "Tests check that some output is available early for one interleaved delta.",
 ["src/vcdecoder.cc"],
 [("output at the end of every chunk","src/vcdecoder.cc AppendNewOutputText"),("interleaved decoding","src/vcdecoder.cc DecodeBody")],
 ["output length after every decode call vs. reference prefix length"])
p("C21","Variable-length integers are coded exactly as RFC 3284 prescribes",
 "Every integer from 0 to the maximum of its type is written as the unique shortest big-endian base-128 form, with the length computed in advance being the length written, and is read back to the same value consuming exactly those bytes. Reading stops with an end-of-data result, consuming nothing, if the input ends inside an integer, and with an error for integers that exceed the maximum of the type, without ever reading beyond the end given.",
 ["inputs"],"all 2^31 32-bit values, dense boundary sets of 64-bit values, all short byte strings, redundant leading zero digits",
 "Tests use a handful of values.",
 ["src/varint_bigendian.cc","src/varint_bigendian.h"],
 [("encoding","src/varint_bigendian.cc EncodeInternal"),("parsing","src/varint_bigendian.cc Parse")],
 ["bytes written and values parsed vs. independent implementation"])
p("C22","Encoding and decoding do a bounded amount of work per byte",
 "The work done to encode grows at most linearly (with a fixed factor) with the size of dictionary and target whatever their content, repetitive data designed to defeat the matcher included, and the work done to decode a delta passed in one call grows at most linearly with the size of the delta plus the target. No input makes either of them hang or run quadratically.",
 ["inputs"],"all inputs, in particular adversarial repetitive ones",
 "Tests run on small inputs, where super-linear behaviour is invisible.",
 ["src/blockhash.cc","src/blockhash.h","src/vcdiffengine.cc","src/vcdecoder.cc"],
 [("limit on hash chain probes","src/blockhash.h kMaxProbes"),("limit on matches checked","src/blockhash.h kMaxMatchesToCheck"),("work per decoded instruction","src/vcdecoder.cc")],
 ["basic-block execution counters (coverage instrumentation)"])
p("C23","The window writer emits exactly the instructions it is given",
 "For every sequence of calls of the public delta window writer (add, copy and run instructions of non-zero size with valid addresses, an optional checksum, output), in both formats, with dictionary and target sizes up to 2^31-1 bytes in sum, each output emits exactly one well-formed window that names the dictionary as its source, declares the true lengths and contains exactly the instructions given since the last output, in order, with their sizes, addresses and data, and the checksum exactly if one was given for that window; an output without instructions emits nothing. Initialising the writer again discards everything pending, so the windows that follow are those of a fresh writer. Decoding what was written with that dictionary yields the data the instructions describe.",
 ["inputs","histories"],"all sequences of writer calls, window counts, abandoned windows, dictionary sizes and addresses up to 2^31-1",
 "Tests issue a few fixed sequences and compare with fixed bytes; no test abandons a window, omits a checksum after one with a checksum, or uses large addresses.",
 ["src/encodetable.cc","src/google/encodetable.h","src/instruction_map.cc","src/addrcache.cc"],
 [("instruction to opcode","src/encodetable.cc EncodeInstruction"),("window layout and lengths","src/encodetable.cc Output, CalculateLengthOfTheDeltaEncoding"),("state reset","src/encodetable.cc Init")],
 ["bytes written vs. calls made","decoder output"])
p("C24","A caller's own writer receives a complete, ordered description of the target",
 "An encoder given a caller-supplied writer calls it in order: initialisation (with the dictionary size) and verification of the dictionary (with exactly its contents) before the header, which gets the encoder's format flags; for every non-empty chunk verification of exactly that chunk, then the instructions, all of non-zero size, which applied to the dictionary and the data already described for this chunk make exactly the chunk, with its Adler-32 checksum given once if and only if the format asks for it, and then exactly one output call; nothing is output for an empty chunk; one finishing call. What the writer appends arrives in the caller's output in that order. If the writer refuses initialisation, dictionary or a chunk, the call fails, nothing is written for it, and after a refused start encoding and finishing fail until a start succeeds. The instructions are the same as for the built-in format, and the writer is destroyed exactly once, with the encoder.",
 ["histories","inputs"],"all histories of sessions, refusals at any point, dictionaries, chunkings and settings",
 "Tests use a mock for a few fixed inputs at engine level; refusals and restarts are not tested.",
 ["src/vcencoder.cc","src/vcdiffengine.cc","src/google/codetablewriter_interface.h"],
 [("order of calls","src/vcencoder.cc StartEncoding, EncodeChunk, FinishEncoding"),("instructions","src/vcdiffengine.cc EncodeInternal, EncodeCopyForBestMatch, AddUnmatchedRemainder")],
 ["calls received by a recording writer","caller's output"])
p("C25","Every refused call says why, and calls that succeed report nothing",
 "Whenever a call of the library returns failure (refused or malformed deltas, exceeded limits, calls in the wrong order, data that a format cannot represent, settings out of range; also a second start of a decoder before it has finished) it has written at least one error message (for a mere call in the wrong order at least a warning) to the standard error stream during that call, and a call that returns success writes neither an error nor a warning, for every input and history.",
 ["inputs","histories"],"all calls of encoders and decoders on valid and invalid data, in any order",
 "Tests ignore the messages.",
 ["src/logging.h","src/vcdecoder.cc","src/vcencoder.cc","src/headerparser.cc","src/decodetable.cc","src/addrcache.cc","src/jsonwriter.cc"],
 [("messages","src/logging.h VCD_ERROR"),("refusals in the decoder","src/vcdecoder.cc, src/headerparser.cc")],
 ["text written to std::cerr during each call"])
p("C26","The address cache encodes and decodes every address alike",
 "For all cache sizes with at most 254 cache modes and every sequence of addresses below a current position up to 2^31-1, encoding an address gives a mode and value that RFC 3284 section 5.3 maps back to that address given the addresses before it, in the shortest form any mode allows, and decoding those bytes returns the address and consumes exactly them. Decoding any bytes in any mode returns an address below the current position, an error, or end of data if they are incomplete; in the latter two cases neither the position nor the cache changes. Initialising again clears the cache.",
 ["inputs","histories"],"all cache sizes, address sequences and magnitudes, arbitrary byte strings in every mode",
 "Tests use the default sizes and a few addresses.",
 ["src/addrcache.cc","src/addrcache.h"],
 [("encoding","src/addrcache.cc EncodeAddress"),("decoding","src/addrcache.cc DecodeAddress"),("cache update","src/addrcache.cc UpdateCache, Init")],
 ["mode, value, consumed bytes and cache contents vs. model"])
p("C27","Matches are used to their full extent, and the longest one is taken",
 "For every dictionary, target, chunking and setting, no copy in an emitted delta could be longer: the target byte after it differs from the byte after its source, unless the chunk, the dictionary or the data of the chunk ends there (a copy never runs on from the dictionary into target data), and the target byte before it, if that is literal data, differs from the byte before its source, unless the source begins there. Adjoining literal data is always in one instruction. Where a stretch of at least 32 bytes of the target occurs, preceded by other data, in up to eight places that all lie multiples of 16 bytes from the start of the dictionary or (with target matching) of the chunk, or all the same distance from such positions, the place where the match is longest is used.",
 ["inputs","configurations"],"all dictionaries, targets, chunkings and settings; any number of competing matches up to eight",
 "Tests check a few fixed encodings.",
 ["src/blockhash.cc","src/vcdiffengine.cc"],
 [("extension of matches","src/blockhash.cc FindBestMatch, MatchingBytesToLeft, MatchingBytesToRight"),("choice of match","src/blockhash.h Match::ReplaceIfBetterMatch"),("instructions","src/vcdiffengine.cc EncodeCopyForBestMatch, AddUnmatchedRemainder")],
 ["instructions of the emitted delta and the bytes around the copies and their sources"])
p("C28","An encoder's memory is bounded by its dictionary and its largest chunk",
 "Hashing a dictionary takes and holds memory of at most a small multiple of the dictionary's size, and encoding takes at most a small multiple of the largest chunk in addition, whatever the content; what is held between chunks does not grow with the number of chunks, encodings or bytes encoded, and everything is released when the encoder and the dictionary are destroyed.",
 ["inputs","histories"],"all dictionaries, contents, settings and lengths of streams",
 "Tests do not observe memory.",
 ["src/blockhash.cc","src/vcdiffengine.cc","src/encodetable.cc","src/jsonwriter.cc","src/vcencoder.cc"],
 [("hash tables","src/blockhash.cc Init, CalcTableSize"),("release of the target hash","src/vcdiffengine.cc EncodeInternal"),("buffers","src/encodetable.cc Output, src/jsonwriter.cc Output")],
 ["live and peak heap memory after every call"])
p("C29","Running out of memory corrupts and leaks nothing and leaves objects usable",
 "If an allocation fails (std::bad_alloc) during any operation of a dictionary, encoder, decoder or code table writer, at any point, the exception reaches the caller or the call reports failure: no call that succeeds has produced wrong data, and what was output before is the beginning of the correct output. Nothing is leaked or corrupted, the objects can be destroyed, and the operation, started again, gives what it always gives (a streaming decoder has to be finished first).",
 ["inputs","fault_sequences"],"all operations, data and allocations that may fail",
 "Tests never run out of memory.",
 ["src/vcencoder.cc","src/vcdecoder.cc","src/vcdiffengine.cc","src/blockhash.cc","src/encodetable.cc","src/instruction_map.cc","src/jsonwriter.cc"],
 [("ownership","src/vcencoder.cc create_impl, src/blockhash.cc CreateDictionaryHash, src/vcdiffengine.cc EncodeInternal"),("start after a failure","src/vcdecoder.cc StartDecoding, VCDiffDecoder::DecodeToInterface, src/encodetable.cc Init")],
 ["outcome of every call, output, blocks not returned, result of the repeated operation"])
p("C30","The vcdiff tool handles streams of any length in bounded memory",
 "Encoding with the vcdiff command, and decoding and self-testing with references to target data disallowed (and sufficiently large limits), work for streams and files of any length, beyond 4 GB too, in time proportional to the length and in memory that depends on the dictionary, the buffer and the data decoded from one buffer, but not on the length. What is decoded is exactly what was encoded, the sizes reported with --stats are the true ones, and a limit of the target file size is enforced whatever its size.",
 ["inputs","configurations"],"all lengths of streams and files, contents, dictionaries, buffer sizes and format options",
 "Tests use files of a few kilobytes.",
 ["src/vcdiff_main.cc","src/vcencoder.cc","src/vcdecoder.cc","src/encodetable.cc"],
 [("read/encode/write loop","src/vcdiff_main.cc Encode"),("read/decode/write loop","src/vcdiff_main.cc Decode"),("comparison","src/vcdiff_main.cc CompareOutput"),("decoded data kept","src/vcdecoder.cc AppendNewOutputText, decoded_target_")],
 ["peak memory of the process, its exit status, digest and length of its output"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
