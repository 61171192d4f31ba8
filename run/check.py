#!/usr/bin/env python3
"""check.py <property>: the registered check of one property (see ../DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vfl import Stage as S, main

SPEC = {
 'C01': dict(
  stages=[S('asm', 'w_oneshot', 2400), S('c', 'w_oneshot', 1600), S('dbg', 'w_oneshot', 500, extra='slow'), S('asan', 'w_oneshot', 500, extra='slow'), S('asm', 'w_big', 4, hang=400, procs=4)],
  rule='a case = generated content (16 families), size, compression parameters, thread counts and decoder API; non-trivial: more than 64 bytes of content; distinct by (content, compressed bytes)',
  floor=dict(evaluations=1000, nontrivial=500, large_dictionaries=3)),
 'C02': dict(
  stages=[S('asm', 'w_cstream', 2400), S('sched', 'w_cstream', 900), S('dbg', 'w_cstream', 500, extra='slow'), S('asm', 'w_big', 4, mode='stream', hang=400, procs=4)],
  rule='a case = content, parameters, thread count, single or dual buffer, timeout and a random script of push/pull/flush/wait/end calls with random piece sizes; non-trivial: more than 64 bytes; distinct by (content, sequence of calls and results)',
  floor=dict(evaluations=500, nontrivial=300, flushes_verified=50, streams_longer_than_dictionary=40, large_dictionaries=3)),
 'C03': dict(
  stages=[S('asm', 'w_conform', 900), S('st', 'w_conform', 60), S('noxx', 'w_conform', 60), S('asan', 'w_conform', 100, extra='slow')],
  rule='a case = content, parameters, thread count, one-shot or a streaming script; every byte of the output is walked by an independent decoder and by liblzma; non-trivial: more than 64 bytes of content; distinct by (content, output)',
  floor=dict(evaluations=800, nontrivial=500, hash_verified=100, liblzma_decodes=500, interval_streams=60, streamed=200)),
 'C04': dict(
  stages=[S('asm', 'w_capacity', 1600), S('c', 'w_capacity', 800), S('asan', 'w_capacity', 200, extra='slow')],
  rule='a case = content, parameters, thread count and a set of destination capacities (0, 1, needed size and its neighbours, random) for compression and decompression, each destination between canaries and an inaccessible page; non-trivial: every (stream, capacity) pair, distinct',
  floor=dict(evaluations=800, nontrivial=1500, capacity_below_size=500, dec_too_small=500, refused=300)),
 'C05': dict(
  stages=[S('asanasm', 'w_decode', 2500, mode='safe', extra='slow'), S('asan', 'w_decode', 4000, mode='safe', extra='slow'), S('asm', 'w_decode', 4000, mode='safe', extra='guard'), S('dbg', 'w_decode', 2500, mode='safe', extra='slow'), S('msan', 'w_decmem', 2500)],
  rule='a case = one byte string (noise, encoder output, synthesised legal or with one defect, structure-aware mutations) given to all one-shot entry points with several capacities and to streaming decoders with random pieces; non-trivial: distinct byte strings',
  floor=dict(evaluations=3000, nontrivial=3000, oneshot_calls=10000, stream_runs=6000, bytes_checked_defined=200000000, streams_completed=1000, reuse_after=500, invalid=500, truncated=200)),
 'C06': dict(
  stages=[S('asm', 'w_decode', 7000, mode='agree'), S('c', 'w_decode', 5000, mode='agree'), S('cclang', 'w_decode', 2000, mode='agree'), S('st', 'w_decode', 1000, mode='agree'), S('dbg', 'w_decode', 1500, mode='agree', extra='slow')],
  rule='a case = one byte string (as C05) given to every decoder, each verdict and content compared with an independent decoder; non-trivial: distinct byte strings',
  floor=dict(evaluations=5000, nontrivial=4000, valid=1500, invalid=1000, truncated=300, stream_runs=8000)),
 'C07': dict(
  stages=[S('asm', 'w_corrupt', 450), S('c', 'w_corrupt', 300), S('dbg', 'w_corrupt', 60, extra='slow')],
  rule='a case = one valid stream (encoder or synthesised, most with checksum) with its proper prefixes (all of them for short streams, else around every structural position) and damaged variants, each given to a selection of 9 decoding paths; non-trivial: distinct damaged or shortened byte strings',
  floor=dict(evaluations=500, nontrivial=10000, prefixes=5000, damaged=5000, hashed_streams=200, multi_block_streams=100)),
 'C08': dict(
  stages=[S('asm', 'w_dstream', 3000), S('c', 'w_dstream', 1500), S('sched', 'w_dstream', 500, extra='noise'), S('dbg', 'w_dstream', 800, extra='slow'), S('st', 'w_dstream', 300)],
  rule='a case = one to three valid streams in a row followed by foreign bytes, decoded 2-4 times with different piece sizes, threads, timeouts and memory limits on long-lived decoder objects; non-trivial: distinct (stream, configuration)',
  floor=dict(evaluations=2000, nontrivial=3000, streams_decoded=4000, timeouts=50, concatenated_sequences=500, multi_block_streams=300)),
 'C13': dict(level='fault_enumeration',
  stages=[S('asm', 'w_fault', 240), S('asan', 'w_fault', 160, extra='slow'), S('st', 'w_fault', 40)],
  rule='a case = one scenario (object kind, parameters, threads, timeout, content, call script) run once per allocation and per thread creation it performs, that one failing, or it and all later ones, or all above a size; then repeated on the same object without faults, freed, and checked for leaks; non-trivial: distinct (scenario, injection point)',
  floor=dict(evaluations=200, nontrivial=4000, faults_delivered=4000, errors_reported=3000, retries=3000)),
 'C11': dict(
  stages=[S('asm', 'w_life', 2200, mode='reuse'), S('sched', 'w_life', 500, mode='reuse', extra='noise'), S('dbg', 'w_life', 500, mode='reuse', extra='slow')],
  rule='a case = the life of one object: a random sequence of parameter changes, one-shot operations (also failing), whole and abandoned streams, cancellations and corrupt inputs; each operation is repeated on a new object with the same parameter history and compared; non-trivial: distinct compared operations',
  floor=dict(evaluations=800, nontrivial=2000, compared_with_fresh=2500, abandoned=300, long_operations=150, small_destinations=200, histories=800)),
 'C17': dict(
  stages=[S('asm', 'w_life', 2400, mode='leak'), S('asan', 'w_life', 800, mode='leak', extra='slow'), S('sched', 'w_life', 600, mode='leak', extra='noise')],
  rule='a case = an object driven through a random history (as C11), freed at a random point including while asynchronous work runs, or one operation repeated 14 times; all allocations and threads of the library are accounted for; non-trivial: distinct histories',
  floor=dict(evaluations=1000, nontrivial=600, objects_freed=1000, freed_while_running=60, growth_runs=60, freed_with_active_stream=40)),
 'C14': dict(
  stages=[S('asm', 'w_params', 2400), S('asan', 'w_params', 700, extra='slow'), S('noxx', 'w_params', 100), S('st', 'w_params', 100)],
  rule='a case = one of: a random sequence of set calls (inside, at and outside the documented ranges), one-shot and streaming operations and stage changes against a model of the parameters, each followed by reading all parameters back; calls in random order; lc/lp/pb changed between flushed parts; a level against its published parameters; two values of one parameter whose outputs must differ; non-trivial: distinct (parameter, value, stage), outputs, call histories',
  floor=dict(evaluations=2000, nontrivial=3000, sets_valid=15000, sets_invalid=8000, sets_locked=2000, gets=300000, frames_checked=800, segment_props=800, level_comparisons=300, effects=200, out_of_order_refused=1000)),
 'C12': dict(
  stages=[S('asm', 'w_time', 700), S('sched', 'w_time', 400), S('asan', 'w_time', 200), S('asm', 'w_time', 14, mode='prompt')],
  rule='a case = one of: a stream (compression or decompression) with a timeout whose library threads are held at a gate before or in the middle of their work while calls of every kind are made, then let go in steps or at once, finished, cancelled, initialised again or freed; a history of streams abandoned at any point under schedule noise; a long operation cancelled at several points, measured in processor time; non-trivial: distinct (sequence of calls and results, output)',
  floor=dict(evaluations=1000, nontrivial=800, held_compressions=300, held_decompressions=400, timed_calls=8000, cancels=200, abandoned_while_held=80, abandoned_half_way=30, streams_verified=1200, cancels_measured=25, decompression_cancels_measured=6, refused_while_held=200)),
 'C20': dict(
  stages=[S('asm', 'w_enc', 2400), S('asan', 'w_enc', 2200, extra='slow'), S('msan', 'w_enc', 1300, extra='slow'), S('dbg', 'w_enc', 700, extra='slow'), S('rmf', 'w_enc', 700), S('asan', 'w_oneshot', 150, extra='slow')],
  rule='a case = content (with repeats of every period, seams and repeats reaching the last byte, buffers full to the last byte), parameters, thread count, one-shot (source and destination next to inaccessible pages) or a stream with flushes; run natively with every library block ending at an inaccessible page, and under the address, undefined-behaviour and memory sanitizers, with the assertions of the debug build and with the match table integrity check; non-trivial: distinct compressed outputs, all of them decoded',
  floor=dict(evaluations=3000, nontrivial=2500, guarded_cases=600, bytes_checked_defined=3000000, structured_tables=60, outputs_decoded=3500, pushes=5000, flushes=1500)),
 'C09': dict(
  stages=[S('tsan', 'w_race', 560), S('tsan', 'w_time', 40, extra='slow'), S('tsan', 'w_cstream', 60, extra='slow'), S('tsan', 'w_life', 40, mode='leak', extra='slow'), S('tsan', 'w_enc', 60, extra='slow'), S('tsan', 'w_dstream', 60, extra='slow')],
  rule='a case = one history of calls with several threads (streams with timeouts, progress and pending-output queries, cancellation and reinitialisation while work runs; one-shot operations; several callers with objects of their own; threads held at a gate; objects freed while work runs) under the race detector with schedule noise; non-trivial: distinct outputs and histories',
  floor=dict(evaluations=500, nontrivial=400, progress_polls=2000, polls_while_running=100, timeouts=1000, cancels=40, independent_callers=100, outputs_decoded=300, sync_events=30000, threads_started=1000)),
 'C10': dict(
  stages=[S('asm', 'w_determ', 1150), S('sched', 'w_determ', 350), S('c', 'w_determ', 200)],
  rule='a case = one compression (one-shot, or a stream without flushes) or decompression done 2 to 5 times: fresh memory filled with other bytes, other bytes around the source, other addresses, processors, schedule noise, threads held, used contexts, other entry points, other segmentations, push and pull, timeouts; all outputs compared; non-trivial: distinct outputs',
  floor=dict(evaluations=1000, nontrivial=900, repetitions_compared=1000, multithreaded_compared=400, stream_repetitions_compared=1000, multi_block_streams_compared=300, decodings_compared=500, invalid_decodings_compared=100, held_repetitions=300, interleavings=500)),
 'C15': dict(
  stages=[S('asm', 'w_mem', 2400), S('st', 'w_mem', 400)],
  rule='a case = a compression (one-shot or stream, single or dual buffer; announced for a level and any level up to it used, for level parameters of both tables, or for the settings of the context, before and after initialisation) with 1 to 8 threads whose allocations are counted by a wrapped allocator and compared with the announced size; or a decompression (context or stream, with small and large limits, to twice over) whose peak is compared with its estimate or its memory limit; non-trivial: distinct pairs of announced and observed bytes',
  floor=dict(evaluations=2500, nontrivial=1200, peaks_compared=1800, peaks_within_5_percent=1300, full_tables=1000, near_estimateCCtxSize=60, near_estimateCCtxSize_byParams=120, near_estimateCCtxSize_usingCCtx=160, near_estimateCStreamSize=200, near_estimateCStreamSize_byParams=200, near_estimateCStreamSize_usingCStream=150, near_estimateDCtxSize=200, near_estimateDStreamSize=200, stream_settings=200, estimated_after_init=40, limits_checked=150, limits_below_content=60, dstream_peaks=200, dstream_peaks_mt=150, streams_verified=700)),
 'C21': dict(
  stages=[S('asm', 'w_indep', 1100, extra='fork'), S('sched', 'w_indep', 300, extra='fork'), S('c', 'w_indep', 250), S('asan', 'w_indep', 200, extra='slow')],
  rule='a case = 2 to 5 callers (one-shot contexts used several times, compression streams with flushes, decompression streams and contexts with valid and damaged frames, the simple functions, queries and objects that come and go), each making a random series of calls on objects of its own; the answers of each run alone (in a process of its own) are compared with those when others run from start to end between two of its calls on the same thread, when the callers take turns call by call in random order, and when all run at once under schedule noise; non-trivial: distinct callers',
  floor=dict(evaluations=1500, nontrivial=4500, answers_compared=1200000, nested_runs=1400, switches=180000, concurrent_sets=1500, alone_in_own_process=3500, call_orders=1400, interleavings=1000)),
 'C22': dict(
  stages=[S(v, 'w_builds', 700, salt='builds') for v in ('asm', 'c', 'cclang', 'o3m0', 'm1', 'm2', 'small', 'no64', 'st', 'noxx')] + [S('o0', 'w_builds', 500, salt='builds')],
  rule='a case = one compression (one-shot, simple functions, stream with flushes), one decompression of a generated legal, damaged or mutated frame (one-shot or in pieces, one or several threads), or a series of parameter calls, done by the library in eleven builds; the digests of every answer (bytes, verdict and content, sizes, parameters) are compared between the builds; non-trivial: distinct outputs and frames',
  floor=dict(evaluations=7000, nontrivial=600, answers_compared=1800, builds_compared=18000, outputs=4000, decoded=1200, refused=600, flushes=6000)),
 'C23': dict(
  stages=[S('asm', 'w_threads', 2500), S('sched', 'w_threads', 400), S('c', 'w_threads', 300)],
  rule='a case = an object of some kind for some number of threads, whose reports and thread creations are compared with the request; or a compression (one-shot or stream) of at least 0x1C000 bytes per thread, or a decompression (one-shot or stream) of a multiple of n blocks with dictionary resets, whose library threads are held as they take up work until all of them have; non-trivial: distinct requests and streams',
  floor=dict(evaluations=2800, nontrivial=1800, counts_compared=800, starts_compared=800, compressions_held=1000, decompressions_held=800, meetings=3500, all_cores=80)),
 'C19': dict(
  stages=[S('asm', 'w_query', 4000), S('c', 'w_query', 1000), S('asan', 'w_query', 500, extra='slow')],
  rule='a case = an encoder stream (one-shot or streaming, objects reused, far repeats at distances up to the dictionary, properties present or omitted) whose size is asked for at its full length, with more bytes behind it, at every proper prefix (short streams) or around every chunk boundary; or foreign bytes (noise, any sequence of chunk headers, more than 4 GB announced, synthesised and damaged streams) compared with an independent header walk at every length; all property bytes; non-trivial: distinct byte strings',
  floor=dict(evaluations=5000, nontrivial=4500, size_queries=1000000, prefixes_refused=600000, sizes_exact=9000, all_prefixes=900, expected_sizes=25000, expected_errors=300000, beyond_4g=1500, header_sequences=350, synth_sizes_exact=350, announced_sufficient=2000, announced_sufficient_omitted=200, announced_at_flush=300, announced_at_flush_beyond=100, omitted_property_queries=200, distances_above_95_percent=70, property_bytes=20000, settings_announced=10000, properties_seen=21, reused_objects=350)),
 'C16': dict(
  stages=[S('asm', 'w_progress', 1300), S('asan', 'w_progress', 200, extra='slow'), S('st', 'w_progress', 150)],
  rule='a case = one or two streams on one object (compression by pushes, dictionary buffer, reads in pieces or by slices, flushes, timeouts, dual buffers, held threads and schedule noise; or decompression with threads, timeouts, memory limits, foreign streams) with the progress asked for after every call and many times while work runs, the pending amount compared with what a complete read delivers; non-trivial: distinct (pending amount, position) pairs and decoded streams',
  floor=dict(evaluations=1300, nontrivial=2000, compression_polls=500000, polls_while_running=200000, progress_steps=40000, input_totals_exact=600, output_totals_exact=600, drains_compared=30000, drains_nonempty=800, drains_in_pieces=400, flushes_compared=80, waits_compared=15000, decompression_polls=200000, dec_polls_while_running=5000, dec_progress_steps=120000, dec_totals_exact=450, dec_ended_mt=250, dec_ended_limited=140, dec_ahead_of_delivery=150, abandoned=60, dec_abandoned=30)),
 'C18': dict(
  stages=[S('asm', 'w_ratio', 760), S('asm', 'w_big', 3, mode='plants', hang=400, procs=3)],
  rule='a case = data with several hundred planted repeats at known positions, distances and lengths (in every block, thread slice, after flushes, at the limits of overlap and dictionary), whose emitted stream is decoded with a record of every match, each reachable repeat having to be covered by matches; or periodic data; or incompressible data; or data of 9 families compressed by one thread, several threads, as a stream, with the three strategies and by liblzma, sizes compared; non-trivial: distinct outputs',
  floor=dict(evaluations=700, nontrivial=650, plants_in_reach=90000, plants_in_block_tails=150, planted_streams=150, planted_oneshot=60, planted_mt=150, planted_several_blocks=100, planted_flushed=25, plants_at_the_very_end=80, periodic=70, noise=35, configurations_compared=350, strategies_compared=60, liblzma_compared=55, levels=10, sparse=40, sparse_isolated=20, large_plants_in_reach=5000)),
}

COMMON = ' Trusts: the compiler sanitizers, the independent decoder in src/vf.cc (itself compared with liblzma), the generators\' reach; executions not generated are not covered.'
TECH = {
 'C01': ('runtime monitoring: round-trip oracle with an independent decoder over generated inputs, parameters, threads; sanitizer variants', 'Every generated compression was decoded by an independent decoder and by every library decoding path and compared byte by byte.'),
 'C02': ('runtime monitoring: random call-history driver with online oracle (output so far decodes to input so far), schedule noise', 'Every generated call history was followed by decoding; at each completed flush the bytes so far were decoded and compared.'),
 'C03': ('runtime monitoring: every emitted byte walked by an independent LZMA2 decoder and liblzma', 'Every stream was parsed completely by two decoders that share no code with the library.'),
 'C04': ('runtime monitoring: capacity sweep with canaries and guard pages, exact size oracle', 'Each (stream, capacity) pair was run with an inaccessible page behind the destination.'),
 'C05': ('sanitizers (ASan, UBSan, assertions) and guard pages over structure-aware hostile inputs, hang watchdog', 'Hostile streams through all decoding entry points under sanitizers; the assembly decoder, which sanitizers cannot instrument, with guard pages around every buffer and allocation.'),
 'C06': ('runtime monitoring: differential oracle, all decoders against an independent decoder', 'Verdict and content of each library decoder compared with the independent decoder for every generated string.'),
 'C07': ('runtime monitoring: exhaustive truncation and generated damage with a content oracle', 'No decoder accepted a shortened or damaged stream with other content, over all prefixes of short streams and generated damage.'),
 'C08': ('runtime monitoring: differential oracle over random segmentations, threads, timeouts, memory limits', 'Content, result codes and final position compared with the independent decoder for each segmentation.'),
 'C13': ('fault enumeration at link-time hooks (every allocation and thread creation of each scenario) with leak accounting, ASan', 'Each scenario is repeated once per allocation and thread-creation point with that point failing (and with persistent failure); retries and accounting follow.'),
 'C11': ('runtime monitoring: differential oracle, long-lived object against a fresh one, over random histories', 'Each operation of a random history is repeated on a fresh object and compared.'),
 'C17': ('runtime monitoring: allocation and thread accounting at link-time hooks, ASan, over random histories', 'Every allocation and thread of the library accounted for at the end of each object\'s life.'),
 'C14': ('runtime monitoring: model-based monitor of parameter calls, stream headers as witnesses of their effect', 'Every set was compared with a model of the documented ranges and stages, every later get with the model, every emitted stream with the settings.'),
 'C12': ('runtime monitoring: library threads held at a gate, online checker of call durations and verdicts; cancellation measured in processor time; schedule noise', 'Every call made while the work was held had to come back, and to report neither completion nor output; after the work was let go every stream had to complete with the right content, every abandoned object had to serve again.'),
 'C20': ('runtime monitoring: AddressSanitizer, UBSan, MemorySanitizer with an oracle for defined output, guard pages around buffers and library blocks, debug assertions, match table integrity check', 'Every access of the executed compressions was checked; every output byte was shown to depend on initialised memory only.'),
 'C09': ('runtime monitoring: ThreadSanitizer over multithreaded call histories with schedule noise, held threads, queries and cancellation while work runs', 'The race detector saw every access of the executed histories; two accesses without a happens-before relation are reported even when they did not collide.'),
 'C21': ('runtime monitoring: differential oracle over recorded answers, callers alone in a process of their own against nested, interleaved call by call, and concurrent', 'Every answer of every caller was compared with what the same calls gave alone.'),
 'C22': ('runtime monitoring: differential oracle across eleven builds of the sources, digests of every answer compared', 'Each generated case was run by every build and all answers compared.'),
 'C23': ('runtime monitoring: thread accounting at link-time hooks, and a rendezvous gate at which library threads are held until all have taken up work', 'In each held operation all threads had to hold work at the same moment before any went on, at every stage.'),
 'C10': ('runtime monitoring: repetition under other schedules, memory contents, addresses and segmentations with byte comparison of the outputs', 'Each generated compression was repeated several times in deliberately different surroundings and the outputs compared byte by byte.'),
 'C15': ('runtime monitoring: allocator monitor (link-time hooks) comparing the peak of live bytes with the announced size or the memory limit', 'Every allocation of the library was counted; each peak was compared with what had been announced for the same settings, or with the limit set.'),
 'C19': ('runtime monitoring: online oracle, an independent walk of the chunk headers and an independent decoder with strict distances, on copies that end at an inaccessible page; AddressSanitizer', 'Every answer was compared with what the bytes say, over all prefixes of short streams and generated header sequences; reads beyond the given size would have faulted.'),
 'C16': ('runtime monitoring: online checker of the values the queries return (bounds, monotony, totals, pending amount against a complete read) over random histories with held threads and schedule noise', 'Every answer was compared with what had been supplied, emitted or delivered at that moment.'),
 'C18': ('runtime monitoring: planted repeats checked against the matches the independent decoder records in the emitted stream; sizes compared across configurations and with liblzma', 'Each planted repeat within reach was looked up among the matches of the emitted stream; sizes compared with fixed allowances.'),
}
TECH = {k: (a, b + COMMON) for k, (a, b) in TECH.items()}
if __name__ == '__main__':
    sys.exit(main(SPEC))
