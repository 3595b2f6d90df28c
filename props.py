"""The checks: for each property the monitor that decides it, the builds it is
run in and how many cases each gets.  (C15, C16 and C30 are run by cli.py.)"""

BASE = ['The executions explored stand for the property: what no generated case triggers is not seen.',
        'clang 18, its sanitizers and valgrind report what happens in the executions they watch.']
REF = 'The independent reference decoder, encoder-side parser and case generators in harness/ref.h and harness/gen.h implement RFC 3284 and the documented extensions correctly.'


def two(n_asan, n_dbg, **kw):
    a = dict(variant='asan', quick=n_asan, **kw)
    d = dict(variant='dbg', quick=n_dbg, base=1000000, **kw)
    return [a, d]


def large(n, n_asan=0, **kw):
    """Cases of many megabytes."""
    a = [dict(variant='plain', name='large', quick=n, base=5000000, args=['--large'], cpu=120, shards=8, **kw)]
    if n_asan:
        a.append(dict(variant='asan', name='large-asan', quick=n_asan, base=6000000, args=['--large'], cpu=240, shards=8, **kw))
    return a


PROPS = {
    'C01': dict(
        monitor='mon_roundtrip', level='exploration', jobs=two(24000, 9000) + large(32, 8),
        technique='runtime monitoring: encode/decode round-trip monitor over generated dictionaries, targets, settings and chunkings, under ASan+UBSan, with and without assertions',
        note='Every generated target, encoded in a random configuration and chunking, is decoded in several chunkings and compared byte for byte; sampling, not proof.',
        rule='Case = dictionary, target derived from it by edits, encoder settings, chunking of target and delta, interface and output type, all drawn from the seed. Distinct by hash of dictionary, target and delta; non-trivial if the target is not empty and the dictionary is long enough to be matched (32 bytes).',
        assumptions=BASE),
    'C02': dict(
        monitor='mon_roundtrip', level='exploration', jobs=two(24000, 9000) + large(24),
        technique='runtime monitoring: RFC 3284 conformance monitor (independent parser and decoder) over every delta the encoder emits, under ASan+UBSan',
        note='Each emitted delta is parsed by an independent RFC 3284 implementation that checks header, lengths, opcode use, addresses and extensions.',
        rule='Case = dictionary, target, encoder settings and chunking drawn from the seed; every emitted window and instruction is observed. Distinct by hash of the delta; non-trivial if at least one window was emitted.',
        assumptions=BASE + [REF]),
    'C03': dict(
        monitor='mon_decode', level='exploration', jobs=two(30000, 12000) + large(32, 8),
        technique='runtime monitoring: differential monitor of the decoder against an RFC 3284 reference on deltas from an independent generator covering all opcodes, modes and window kinds',
        note='Valid deltas are composed instruction by instruction by a generator independent of the encoder; the decoder must accept each and give the modelled target.',
        rule='Case = valid delta composed by the generator (opcodes, address modes, source segments, windows, extensions). Distinct by hash of the delta; non-trivial if its target is not empty.',
        assumptions=BASE + [REF]),
    'C04': dict(
        monitor='mon_decode', level='exploration', jobs=two(18000, 9000), fuzz=True,
        technique='runtime monitoring: chunking-equivalence monitor (verdict, output, prefix order at every moment) over valid, mutated and hostile deltas',
        note='Each delta is decoded at once, byte by byte and in random divisions; verdict, output and every intermediate prefix are compared.',
        rule='Case = delta (valid, mutated, spliced or random) with several divisions into chunks. Distinct by hash of delta and dictionary; non-trivial if the decoder got beyond the header (accepted, output something, or failed later).',
        assumptions=BASE),
    'C05': dict(
        monitor='mon_decode', level='exploration', fuzz=True,
        jobs=[dict(variant='asan', quick=27000, stack=1 << 20, cpu=5), dict(variant='dbg', base=1000000, quick=12000, stack=1 << 20, cpu=5),
              dict(variant='mem', base=2000000, quick=960, valgrind=True, cpu=60)],
        technique='runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and valgrind memcheck over hostile deltas in exact-size and guard-page buffers, with stack, memory and CPU-time watchdogs',
        note='Sanitizers watch every access while hostile deltas are decoded in buffers without slack; MemorySanitizer cannot be used (no instrumented C++ library), memcheck watches for uninitialised data instead.',
        rule='Case = hostile delta (mutated, truncated, spliced, lengths near limits, random) with dictionary, chunking and settings. Distinct by hash of delta and dictionary; non-trivial if it is longer than a header.',
        assumptions=BASE),
    'C06': dict(
        monitor='mon_decode', level='exploration', jobs=two(36000, 12000), fuzz=True,
        technique='runtime monitoring: differential verdict monitor of the decoder against a strict RFC 3284 reference on malformed, truncated and mutated deltas',
        note='Acceptance is compared with an independent strict validator; what that refuses must be refused and what is accepted must have the modelled output.',
        rule='Case = hostile delta with verdict of the model. Distinct by hash of delta and dictionary; non-trivial if the model refuses it.',
        assumptions=BASE + [REF]),
    'C07': dict(
        monitor='mon_limits', level='exploration', jobs=two(24000, 9000) + large(24),
        technique='runtime monitoring: checksum monitor with an independent Adler-32 over encoder output, tampered deltas and wrong dictionaries',
        note='Every emitted checksum is recomputed independently; every accepted tampered delta is checked window by window against its checksums.',
        rule='Evaluation = checksummed delta, as emitted, changed in its data or checksum, or decoded with another dictionary. Distinct by hash of delta and dictionary; non-trivial if a window with a checksum was accepted or refused because of the checksum.',
        assumptions=BASE + [REF]),
    'C08': dict(
        monitor='mon_limits', level='exploration', jobs=two(24000, 9000) + large(16),
        technique='runtime monitoring: limit monitor (verdict model, output bound, allocation meter hooked into the sanitizer allocator)',
        note='Limits at, just below and just above what a delta declares, changed between and during decodes; peak allocation observed through allocator hooks.',
        rule='Case = delta plus limits chosen around its declared sizes, or changed during decoding. Distinct by hash of delta and limits; non-trivial if a limit was set.',
        assumptions=BASE + [REF]),
    'C09': dict(
        monitor='mon_limits', level='exploration', jobs=two(15000, 6000),
        technique='runtime monitoring: target-reference monitor against the model, with retained memory observed through allocator hooks',
        note='Deltas with and without target references under both settings, verdict and output compared with the model; live memory compared over long sequences of windows.',
        rule='Case = delta with a mix of window kinds, setting on or off. Distinct by hash of delta and dictionary; non-trivial if something was decoded or a target reference refused.',
        assumptions=BASE + [REF]),
    'C10': dict(
        monitor='mon_limits', level='exploration', jobs=[dict(variant='asan', quick=15000)],
        technique='runtime monitoring: history monitor comparing a reused decoder with a fresh one after every kind of earlier decode',
        note='Sequences of decodes (successful, failed, aborted, custom table, other dictionary and settings) on one object; each outcome compared with a fresh object.',
        rule='Case = history of up to a dozen decodes on one object. Distinct by hash of the history; non-trivial if it contains both successful and failed decodes.',
        assumptions=BASE + ['Only builds without assertions are used: in debug builds the library ends the process on calls after a failure, as documented.']),
    'C11': dict(
        monitor='mon_encode', level='exploration',
        jobs=[dict(variant='asan', quick=9600, digest=True, shards=16),
              dict(variant='plain', quick=9600, digest=True, shards=16, env={'MALLOC_PERTURB_': '173'}),
              dict(variant='dbg', base=1000000, quick=2400)] + large(16),
        technique='runtime monitoring: determinism monitor comparing deltas across repetitions, reuse histories, buffer lifetimes, builds and allocator fill patterns, under ASan+UBSan',
        note='Each input is encoded repeatedly on fresh and reused objects and in separate processes with different heap contents; all outputs must be identical.',
        rule='Case = dictionary, target, settings and a history of other encodings. Distinct by hash of dictionary and delta; non-trivial if the target is longer than 16 bytes.',
        assumptions=BASE),
    'C12': dict(
        monitor='mon_encode', level='exploration',
        jobs=[dict(variant='asan', quick=24000), dict(variant='dbg', base=1000000, quick=12000), dict(variant='mem', base=2000000, quick=960, valgrind=True, cpu=60)] + large(8, 16),
        technique='runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, valgrind memcheck and the library\'s own assertions over encodings from exact-size and guard-page buffers',
        note='Sanitizers watch every access while dictionaries and targets of all sizes and alignments are hashed and encoded in buffers without slack.',
        rule='Case = dictionary, target, alignment and buffer placement, settings. Distinct by hash of dictionary and target; non-trivial if both are at least a hash block (16 bytes) long.',
        assumptions=BASE),
    'C13': dict(
        monitor='mon_threads', level='exploration',
        jobs=[dict(variant='tsan', quick=4800, shards=32, cpu=60), dict(variant='plain', quick=9600, shards=32, cpu=60)],
        technique='runtime monitoring: ThreadSanitizer plus a result monitor over threads sharing a hashed dictionary, with randomised starts, in many short processes so that first uses collide',
        note='ThreadSanitizer reports unsynchronised accesses in the schedules observed; each thread\'s output is compared with that of a run alone.',
        rule='Case = dictionary shared by 2 to 8 threads with their own targets, settings and decoders. Distinct by hash of dictionary and of the observed order of session begins and ends; non-trivial if sessions of different threads overlapped in time.',
        assumptions=BASE),
    'C14': dict(
        monitor='mon_json', level='exploration', jobs=two(24000, 9000) + large(16),
        technique='runtime monitoring: JSON conformance monitor (strict parser and interpreter) over the encoder\'s JSON output',
        note='Each output is parsed by a strict JSON parser and applied to the dictionary; non-ASCII input must be refused.',
        rule='Evaluation = ASCII (or nearly ASCII) dictionary and target chunks, settings, reuse. Distinct by hash of output or of the refused input; non-trivial if the target is not empty.',
        assumptions=BASE),
    'C15': dict(
        cli=True, level='exploration',
        technique='runtime monitoring: monitor of vcdiff command executions (exit status, files, streams) over generated files, options and pipe timings, plain and under ASan+UBSan',
        note='Real processes on scratch files; every delta is also decoded by an independent RFC 3284 decoder.',
        rule='Case = dictionary and target files, options, routing (files, redirected streams, pipes in pieces) for encode and decode. Distinct by hash of files, options and routing; non-trivial if the target is not empty.',
        assumptions=BASE + [REF]),
    'C16': dict(
        cli=True, level='fault_enumeration',
        technique='runtime monitoring with fault injection: every system call of the vcdiff command on its files is made to fail in turn (strace), plus full devices, size limits, closed streams, hostile deltas and bad arguments',
        note='An exit status of 0 is believed only with the complete correct output; every other ending must carry a message. Enumerates the calls of the scenarios run.',
        rule='Case = scenario x injected fault (call, occurrence, error), or hostile delta, or argument list. Distinct by that tuple; non-trivial if the fault was actually injected or the input is not valid.',
        assumptions=BASE + [REF, 'strace injects the error it is told to.']),
    'C17': dict(
        monitor='mon_encode', level='exploration', jobs=two(24000, 6000) + large(24),
        technique='runtime monitoring: matching monitor that parses the emitted instructions and checks that planted repetitions are covered by copies, and the size bound',
        note='Repetitions with a single origin are planted at every alignment; the instructions emitted for them are observed through an independent parser.',
        rule='Case = dictionary, target with planted repetitions. Distinct by hash of delta and target; non-trivial if a repetition was planted.',
        assumptions=BASE + [REF]),
    'C18': dict(
        monitor='mon_table', level='exploration', jobs=two(9000, 4500),
        technique='runtime monitoring: custom code table monitor (independent table codec and reference decoder) over valid and invalid tables, cache sizes and a writer with custom tables',
        note='Random valid tables and sizes must decode to the modelled target, invalid ones must be refused; writers with custom tables are observed through the reference decoder.',
        rule='Evaluation = code table, cache sizes and delta using it, an invalid variation of these, or a run of a writer with a custom table. Distinct by hash of the delta; all are non-trivial.',
        assumptions=BASE + [REF]),
    'C19': dict(
        monitor='mon_limits', level='exploration', jobs=two(12000, 6000),
        technique='runtime monitoring: instrumented output objects recording every append, clear and growth during encoding and decoding',
        note='Output types that record operations and growth are passed to the library; contents before the call must survive, growth per window is counted.',
        rule='Case = encode or decode into prefilled outputs of several types. Distinct by hash of delta and prefix; non-trivial if data was output after existing contents or in several chunks.',
        assumptions=BASE),
    'C20': dict(
        monitor='mon_decode', level='exploration', jobs=two(12000, 6000),
        technique='runtime monitoring: progress monitor comparing the output length after every decode call with what the model says is determined',
        note='After every chunk the output length is compared with the data the complete windows and instructions so far determine.',
        rule='Case = valid delta, chunking. Distinct by hash of delta and dictionary; non-trivial if some output was determined before the end.',
        assumptions=BASE + [REF]),
    'C21': dict(
        monitor='mon_varint', level='exploration',
        jobs=[dict(variant='plain', name='exhaustive', quick=4096, args=['--exhaustive'], shards=32, cpu=120, thorough=4096),
              dict(variant='asan', quick=2048), dict(variant='dbg', quick=512, base=1000000)],
        technique='runtime monitoring: integer codec monitor, exhaustive over all 32-bit values and dense at 64-bit boundaries, with exact-size buffers under ASan+UBSan',
        note='All 2^31 non-negative 32-bit values are coded and read back; 64-bit values and arbitrary byte strings are sampled around their boundaries.',
        rule='Evaluation = block of 2^19 consecutive 32-bit values, or 64-bit value, or byte string. Distinct by hash of value or bytes; all are non-trivial.',
        assumptions=BASE),
    'C22': dict(
        monitor='mon_work', level='exploration', jobs=[dict(variant='work', quick=504, shards=42, cpu=60, thorough=2520)],
        technique='runtime monitoring: work meter (basic-block counters from coverage instrumentation, bytes moved by memory functions) over adversarial inputs of growing size',
        note='Executed basic blocks and bytes moved are counted for families of repetitive and adversarial inputs of increasing size; growth and level are bounded with a margin.',
        rule='Evaluation = input of a family of repetitive and adversarial inputs at one of three sizes. Distinct by hash of the output and size; all are non-trivial.',
        assumptions=BASE + ['Basic blocks executed in the library and bytes moved by memory functions represent the work done.']),
    'C23': dict(
        monitor='mon_writer', level='exploration', jobs=two(24000, 12000),
        technique='runtime monitoring: call/output monitor of the delta window writer: every window it emits is parsed independently and compared with the calls made, under ASan+UBSan',
        note='Random sequences of writer calls, sessions, abandoned windows and sizes up to 2^31-1; every emitted window is parsed by an independent parser, and decoded where dictionary and target can exist (sparse dictionaries up to 2 GB).',
        rule='Case = one to three sessions of a writer with dictionary size, windows, instructions, checksums, abandoned windows. Distinct by hash of the output and dictionary size; non-trivial if a window was emitted.',
        assumptions=BASE + [REF]),
    'C24': dict(
        monitor='mon_writer', level='exploration', jobs=two(15000, 7500),
        technique='runtime monitoring: trace-specification monitor: a recording writer passed to the encoder checks order, arguments and effect of every call, including refusals injected by the writer',
        note='A recording writer observes every call the encoder makes in histories of sessions with injected refusals; the calls are executed, compared with the chunk, and replayed into the standard writer.',
        rule='Case = history of sessions of one encoder with a recording writer. Distinct by hash of the replayed delta and dictionary; non-trivial if something was encoded.',
        assumptions=BASE),
    'C25': dict(
        monitor='mon_diag', level='exploration', jobs=[dict(variant='asan', quick=36000)],
        technique='runtime monitoring: diagnostics monitor capturing the standard error stream around every call of the library',
        note='Every call on valid, malformed and over-limit data and every misuse is watched for its error message; calls that succeed must write nothing.',
        rule='Case = sequence of calls of a decoder or encoder. Distinct by hash of delta or output and dictionary; all are non-trivial.',
        assumptions=BASE + ['Only builds without assertions are used: in debug builds the library ends the process on some misuses, as documented.']),
    'C26': dict(
        monitor='mon_writer', level='exploration', jobs=two(12000, 6000),
        technique='runtime monitoring: address cache monitor comparing every encoded and decoded address and the cache contents with an independent model, with exact-size buffers under ASan+UBSan',
        note='Sequences of addresses at all magnitudes up to 2^31-1 and arbitrary bytes in all modes and cache sizes; results, consumption and cache contents compared after every step.',
        rule='Case = cache sizes and sequence of addresses and byte strings. Distinct by hash of sizes and addresses; all are non-trivial.',
        assumptions=BASE),
    'C27': dict(
        monitor='mon_encode', level='exploration', jobs=two(15000, 5000) + large(16),
        technique='runtime monitoring: match-quality monitor that parses the emitted instructions and compares the bytes around every copy with those around its source, and plants competing matches',
        note='Every copy in every emitted delta is tried for extension at both ends by an independent observer; planted origins that continue differently show which match was chosen.',
        rule='Case = dictionary and target, arbitrary or with data of several origins. Distinct by hash of delta and dictionary; non-trivial if the delta contains a copy.',
        assumptions=BASE + [REF]),
    'C28': dict(
        monitor='mon_encode', level='exploration', jobs=[dict(variant='asan', quick=4000), dict(variant='asan', name='large-asan', quick=16, base=6000000, args=['--large'], cpu=240, shards=8)],
        technique='runtime monitoring: memory monitor: allocation meter hooked into the sanitizer allocator, read after every chunk and at the peak, over streams of chunks',
        note='Live and peak heap memory are observed through allocator hooks while dictionaries are hashed and streams of few or hundreds of chunks are encoded into an output that keeps nothing; bounds have a margin of two or more over what the code needs.',
        rule='Case = dictionary, settings, one to three sessions of up to 400 chunks. Distinct by hash of dictionary and data and number of chunks; non-trivial if data was encoded.',
        assumptions=BASE + ['Heap memory is taken through malloc or operator new.']),
    'C29': dict(
        monitor='mon_fault', level='exploration', jobs=[dict(variant='asan', quick=8000)],
        technique='runtime monitoring: fault injection into every allocation of an operation, under AddressSanitizer, with block accounting and comparison with the run without a fault',
        note='Every allocation (a sample of 48 where there are more) of an operation of dictionary, encoder, decoder or writer is made to fail, once or from there on; outcome, output, blocks left and reuse are observed.',
        rule='Case = operation with its data; every allocation in it is one fault. Distinct by hash of the data; all are non-trivial.',
        assumptions=BASE + ['The library takes memory through operator new.', 'After an exception a streaming decoder is finished before it is started again.']),
    'C30': dict(
        cli=True, level='exploration',
        technique='runtime monitoring: resource monitor of vcdiff processes (peak memory sampled throughout, processor time, exit status) fed with streams of up to more than 4 GB, output compared by digest',
        note='Real processes read from pipes and files; their peak memory is read from /proc while they run and bounded by what dictionary and buffer account for.',
        rule='Case = stream (content, length), dictionary, buffer size, options, routing. Distinct by that tuple; all are non-trivial.',
        assumptions=BASE + ['Peak memory sampled every 5 ms is the peak.']),
}

# More cases for the small ones, which are cheap compared with the builds.
MORE = {'C03': 4, 'C06': 3, 'C07': 3, 'C13': 1, 'C18': 8, 'C20': 5, 'C21': 5, 'C23': 3, 'C26': 5, 'C22': 1, 'C09': 7}
for _id, _p in PROPS.items():
    for _j in _p.get('jobs', []):
        if _j['variant'] in ('asan', 'dbg', 'plain') and '--large' not in _j.get('args', []) and '--exhaustive' not in _j.get('args', []):
            _j.setdefault('thorough', _j['quick'] * 12)
            _j['quick'] *= MORE.get(_id, 9)
