#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text can be edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
TEST = "The existing tests round-trip a few dozen fixed files and generated buffers at fixed levels"
prop('C01', 'One-shot compression is lossless',
 'For every input (any content, any size including empty) and every accepted combination of level, parameters and thread count, FL2_compress, FL2_compressMt and FL2_compressCCtx into FL2_compressBound() bytes succeed, leave the source unchanged, and yield a stream that FL2_decompress, FL2_decompressMt, FL2_decompressDCtx and the streaming decoder restore to exactly the original bytes. An independent LZMA2 decoder restores the same bytes from it.',
 ['inputs', 'configurations'], 'all inputs x all accepted parameter sets x thread counts x decoder APIs',
 TEST + '; the match finder, the optimal parser and the range coder have data-dependent paths (repeat handling, block overlap, slice boundaries, price tables, chunk closing) that only particular content at particular offsets and parameter values reaches.',
 ['fl2_compress.c', 'lzma2_enc.c', 'radix_mf.c', 'radix_engine.h', 'radix_bitpack.c', 'radix_struct.c', 'range_enc.c', 'fl2_decompress.c', 'lzma2_dec.c', 'lzma_dec_x86_64.S'],
 [('block loop with overlap and dictionary resets', 'fl2_compress.c FL2_compressBuffer'), ('match table build', 'radix_engine.h RMF_buildTable_*'), ('optimal and fast parsers', 'lzma2_enc.c LZMA_encodeChunkBest/Fast'), ('range coder', 'range_enc.c'), ('decoder', 'lzma2_dec.c LZMA_decodeReal_3')],
 [('match table', 'longest earlier match and its link per position; reused as output buffer', 'radix_internal.h')], ['compressed bytes', 'decoded bytes'])
prop('C02', 'Streaming compression is lossless for every call history',
 'Whatever sequence of compressStream (with or without an output buffer), getDictionaryBuffer/updateDictionary, getNextCompressedBuffer, copyCStreamOutput, flushStream, waitCStream and endStream calls a caller makes, with any input and output piece sizes, single or dual buffering, any timeout and any thread count, the concatenation of the output decodes to exactly the concatenation of the input, once and in order. When a flush is reported complete (return value 0), the output delivered so far decodes to all the input supplied so far.',
 ['histories', 'inputs', 'configurations', 'schedules'], 'all call sequences x piece sizes x buffering modes x timeouts x thread counts',
 'The tests drive the stream with a handful of fixed buffer sizes and no mixtures of push, pull, flush and asynchronous calls; dictionary shift, overlap and slice-buffer states depend on the exact history.',
 ['fl2_compress.c', 'dict_buffer.c', 'fl2_pool.c', 'lzma2_enc.c'],
 [('dictionary buffer shift with overlap, dual buffers', 'dict_buffer.c'), ('compressStream state machine', 'fl2_compress.c FL2_compressStream_internal'), ('end marker and hash', 'fl2_compress.c FL2_writeEnd')],
 [('outThread, outPos, threadCount', 'slices not yet delivered', 'fl2_compress_internal.h')], ['bytes returned from each call', 'return values'])
prop('C03', 'Output is a conforming self-describing LZMA2 stream',
 'Everything the compressor emits, one-shot or streaming, is a legal LZMA2 stream for any conforming decoder: it starts with a dictionary reset, uses legal chunk headers and sizes, never refers back further than the dictionary size announced by its property byte (or by FL2_getCCtxDictProp when properties are omitted) or across a dictionary reset, ends with exactly one end marker, and carries the correct XXH32 trailer exactly when the checksum option is on and properties are not omitted. Dictionary resets occur as the reset interval asks (every dictionarySize x interval bytes at most and no earlier than one dictionary size before that; for interval 0 only the initial one, up to 2 GB of content; with an overlap of 0 every block starts with a reset).',
 ['inputs', 'configurations', 'histories'], 'all inputs x parameters x one-shot and streaming use',
 'The tests decode with the library itself, so an encoder and decoder that agree with each other and not with the format go unnoticed, and few parameter values are used.',
 ['lzma2_enc.c', 'fl2_compress.c', 'range_enc.c', 'dict_buffer.c'],
 [('chunk header writer', 'lzma2_enc.c LZMA2_writeChunk/LZMA2_encode'), ('property byte', 'fl2_compress.c FL2_getProp'), ('reset interval', 'fl2_compress.c FL2_compressBuffer, dict_buffer.c')], (), ['every emitted byte'])
prop('C04', 'Capacity is respected and compressBound is enough',
 'FL2_compressBound(n) bytes always suffice for any n-byte input under any parameters and thread count, even incompressible data. With any smaller capacity a one-shot compression either returns a size within the capacity and a complete stream, or an error (dstSize_tooSmall when the result does not fit), and never writes outside the given buffer; likewise one-shot decompression never writes outside dstCapacity and reports dstSize_tooSmall when the content does not fit.',
 ['inputs', 'configurations'], 'all inputs x all capacities x thread counts',
 'The tests always give generous buffers; a one byte overrun or a wrong bound needs particular incompressible data, slice counts and capacities.',
 ['fl2_compress.c', 'lzma2_enc.c', 'fl2_common.c', 'fl2_decompress.c', 'lzma2_dec.c'],
 [('bound', 'fl2_common.c FL2_compressBound'), ('capacity checks', 'fl2_compress.c FL2_compressBuffer/FL2_compressCCtx'), ('uncompressed chunk fallback', 'lzma2_enc.c')], (), ['bytes around the destination buffer', 'return values'])
prop('C05', 'Decoding arbitrary bytes is memory safe and terminates',
 'For arbitrary input bytes (malformed, truncated, hostile or random) every decoding entry point - FL2_decompress, FL2_decompressMt, FL2_decompressDCtx with and without a stored property, FL2_decompressStream single and multithreaded with any piece sizes, FL2_findDecompressedSize - terminates, reads only inside the source it was given, writes only inside the destination, and uses no uninitialised or freed memory, in both the portable and the assembly decoder. The object can afterwards be freed or reinitialised and then decodes valid data correctly.',
 ['inputs', 'histories', 'configurations'], 'all byte strings x entry points x piece sizes x decoder builds',
 'The bundled fuzzer is not part of the tests and only mutates a few streams through one API; a single out-of-range access needs a specific malformed stream.',
 ['lzma2_dec.c', 'lzma_dec_x86_64.S', 'fl2_decompress.c'],
 [('chunk parser', 'lzma2_dec.c LZMA2_nextChunkInfo/LZMA2_parseInput'), ('distance and output limits', 'lzma2_dec.c LZMA_decodeReal_3'), ('streaming input overlap', 'fl2_decompress.c')], (), ['memory accesses', 'return of each call'])
prop('C06', 'All decoders agree with the LZMA2 format',
 'For every byte string the library accepts exactly the streams the LZMA2 format (with this library\'s property byte and hash trailer) defines and returns exactly the content the format assigns to them, including legal streams no version of this encoder would produce. The verdict and the content are the same for the assembly and portable decoders, for one-shot, multithreaded and streaming decoding and for any thread count.',
 ['inputs', 'configurations'], 'all byte strings, legal and not, x all decoder entry points and builds',
 'The tests only decode what this encoder writes; properties such as pb=4, raw chunks between LZMA chunks, state resets without new properties, or a packed size that does not match the data never occur there.',
 ['lzma2_dec.c', 'lzma_dec_x86_64.S', 'fl2_decompress.c'],
 [('chunk state machine', 'lzma2_dec.c LZMA2_decodeChunkToDic'), ('symbol decoder', 'lzma2_dec.c LZMA_decodeReal_3, lzma_dec_x86_64.S'), ('multithreaded block split', 'fl2_decompress.c FL2_decompressDCtxMt')], (), ['decoded bytes', 'return values'])
prop('C07', 'Corruption and truncation never pass as success',
 'If the stored checksum is present, no decoding call reports success unless the XXH32 of what it delivered equals the stored value, so damaged content is reported as an error and never returned as good data. Every proper prefix of a valid stream is reported as incomplete or as an error by every decoder and never as a complete stream, whatever the thread count and piece sizes.',
 ['inputs', 'configurations'], 'all corruptions and truncation points of all streams x decoder entry points',
 'The tests check a few corruptions of one stream; which byte is damaged and where the pieces end decides which path must notice.',
 ['fl2_decompress.c', 'lzma2_dec.c', 'xxhash.c'],
 [('hash check', 'fl2_decompress.c FL2_decompressDCtx, FL2_decompressStream'), ('end of input handling', 'lzma2_dec.c')], (), ['return values', 'decoded bytes'])
prop('C08', 'Streaming decompression does not depend on the pieces',
 'However a stream is cut into input pieces and output buffers (down to single bytes), single or multithreaded, with or without a timeout or a memory limit, streaming decompression delivers the same bytes in order, returns 0 exactly when all content was delivered and the whole stream (end marker and hash) was consumed, and returns 1 before that. At that point the input position is exactly the end of the stream, so data that follows it is left to the caller, and positions never move past the buffers.',
 ['inputs', 'histories', 'configurations'], 'all streams x all segmentations x thread counts, limits and timeouts',
 'The tests use a few fixed buffer sizes; header or symbol bytes split across pieces, and the multithreaded input buffer boundaries, need exact sizes.',
 ['fl2_decompress.c', 'lzma2_dec.c'],
 [('input overlap buffer', 'fl2_decompress.c FL2_decompressOverlappedInput'), ('multithreaded input chain and rewind', 'fl2_decompress.c FL2_loadInputMt'), ('fallback after the memory limit', 'fl2_decompress.c FL2_decompressFailedMt')], (), ['positions', 'return values', 'bytes'])
prop('C09', 'Multithreaded operation is free of data races',
 'No two threads (those the library creates and a caller that uses the API as documented, including progress queries, cancellation and timeouts while work is running) access the same memory without synchronisation with at least one of them writing. This holds for compression and decompression, one-shot and streaming, at any thread count.',
 ['schedules', 'configurations'], 'all thread schedules x thread counts x API modes',
 'A race rarely changes the result of a test run; the tests cannot see it and run few schedules.',
 ['fl2_pool.c', 'fl2_compress.c', 'fl2_decompress.c', 'radix_engine.h', 'radix_mf.c', 'lzma2_enc.c'],
 [('thread pool queue', 'fl2_pool.c'), ('match table work sharing', 'radix_engine.h RMF_getNextList_mt'), ('progress and cancel flags', 'atomic.h, lzma2_enc.c')], (), ['memory accesses of all threads'])
prop('C10', 'Output is deterministic',
 'For the same input, the same parameters and the same thread count, the compressed bytes are always the same: they do not depend on thread scheduling, on the contents of uninitialised memory, on buffer addresses, or (for streaming without flushes) on how input and output were cut into pieces or whether buffers were pushed or pulled. Decompression delivers the same bytes and verdict in every run.',
 ['schedules', 'inputs', 'histories'], 'all schedules x memory contents x segmentations',
 'The tests never compare two compressions of the same data, and one schedule per run cannot show a dependency on timing.',
 ['radix_engine.h', 'radix_mf.c', 'lzma2_enc.c', 'fl2_compress.c', 'dict_buffer.c'],
 [('work division independent of thread timing', 'radix_engine.h, fl2_compress.c'), ('encoder state initialisation', 'lzma2_enc.c')], (), ['compressed bytes across runs'])
prop('C11', 'Reusing a context behaves like a fresh one',
 'A compression or decompression object may be used for any number of operations in a row, with parameter changes between them, after errors (too small destination, corrupt input), after abandoned or cancelled streams, and mixing one-shot and streaming use; each operation, once the object is initialised as documented, gives the result a newly created object with the same parameters gives. After a failed one-shot operation, or a stream that was cancelled (also one that failed), parameters can be set again.',
 ['histories', 'inputs', 'configurations'], 'all sequences of operations on one object',
 'The tests use a context for one or two successful operations; stale match tables, dictionaries, probabilities or locks need particular sequences.',
 ['fl2_compress.c', 'fl2_decompress.c', 'lzma2_enc.c', 'radix_mf.c', 'dict_buffer.c', 'lzma2_dec.c'],
 [('match table reuse when compatible', 'fl2_compress.c FL2_preBeginFrame, radix_mf.c RMF_compatibleParameters'), ('dictionary reuse', 'dict_buffer.c DICT_init'), ('stream re-initialisation', 'FL2_initCStream, FL2_initDStream')], (), ['outputs and return values of each operation'])
prop('C12', 'Timeouts, waiting and cancellation are live and honest',
 'With a timeout set, every streaming call returns within about the timeout, repeating the documented wait always reaches completion, and no call reports completion (or makes output available) before the work is really finished. Cancelling at any moment returns promptly, abandons the operation without blocking forever, leaves the object usable for a new stream, and no call ever deadlocks.',
 ['schedules', 'histories', 'configurations'], 'all points of cancellation and timeout x schedules x call sequences',
 'The tests wait for results with generous conditions and cancel at one or two moments; lost wakeups and early completions depend on the schedule.',
 ['fl2_pool.c', 'fl2_compress.c', 'fl2_decompress.c', 'radix_engine.h', 'fl2_threading.c'],
 [('pool wait with timeout', 'fl2_pool.c FL2POOL_waitAll'), ('asynchronous compress thread', 'fl2_compress.c FL2_compressCurBlock_async'), ('cancel flags', 'radix_mf.c RMF_cancelBuild, lzma2_enc.c')], (), ['call durations', 'return values', 'outputs after waiting'])
prop('C13', 'Resource exhaustion is reported, not suffered',
 'If any memory allocation or thread creation inside the library fails, at any call and in any operation, the call reports failure (NULL or an error code) or completes with a correct result using fewer resources; it never crashes, hangs, corrupts data or leaks. The object can still be freed, and works correctly when the operation is repeated once resources are available.',
 ['fault_sequences', 'histories'], 'every allocation and thread-creation point of every operation, single and persistent failure',
 'The tests never make an allocation fail.',
 ['fl2_compress.c', 'fl2_decompress.c', 'fl2_pool.c', 'radix_mf.c', 'radix_engine.h', 'lzma2_enc.c', 'lzma2_dec.c', 'dict_buffer.c'],
 [('NULL checks and unwinding', 'each create and init function'), ('fallback to one thread', 'fl2_decompress.c FL2_decompressFailedMt')], (), ['return values', 'live allocations and threads'])
prop('C14', 'Parameters are validated, stored and obeyed',
 'Setting a parameter inside its documented range succeeds and is what a later get returns; outside it the call fails with parameter_outOfBound (or lclpMax_exceeded for lc+lp > 4) and other settings stay as they were; while a stream is in progress only lc, lp and pb can change. Levels set exactly what FL2_getLevelParameters reports, level 0 keeps current settings, and the settings govern the output: dictionary size limits distances and the property byte, lc/lp/pb appear in the stream, hash and property options and the reset interval take effect. Error codes are recognised by FL2_isError, named by FL2_getErrorName, and calls out of order give stage_wrong or init_missing instead of undefined behaviour.',
 ['configurations', 'histories'], 'all parameters x values x stages x levels',
 'The tests set a few valid values and never read them back at the borders or in the middle of a stream.',
 ['fl2_compress.c', 'fl2_common.c', 'fast-lzma2.h'],
 [('range checks', 'fl2_compress.c FL2_CCtx_setParameter'), ('lock while streaming', 'fl2_compress.c lockParams'), ('level tables', 'fl2_compress.c FL2_defaultCParameters')], (), ['return values', 'emitted headers'])
prop('C15', 'Memory estimates and limits hold',
 'The memory actually allocated for a compression never exceeds what the matching FL2_estimate* function announced for the same settings (level, parameters, or the context itself; one-shot, single or dual buffered streams), and likewise for decompression contexts and streams, within small fixed overhead (a multithreaded decompression stream: for what its estimate presumes, blocks of up to 4 dictionaries of at least 1 MB compressed to half, plus one 256 KB unit of input). A multithreaded decompression stream given a memory limit stays within it (falling back to single-threaded operation) and still decodes everything correctly.',
 ['configurations', 'inputs'], 'all levels, parameters and thread counts; all limits x streams',
 'The tests never measure memory.',
 ['fl2_compress.c', 'radix_mf.c', 'lzma2_enc.c', 'lzma2_dec.c', 'fl2_decompress.c', 'dict_buffer.c'],
 [('estimates', 'FL2_estimateCCtxSize*, RMF_memoryUsage, LZMA2_encMemoryUsage, LZMA2_decMemoryUsage'), ('limit accounting', 'fl2_decompress.c memTotal')], (), ['allocation sizes'])
prop('C16', 'Progress and pending-output queries are truthful',
 'During any operation the reported compression and decompression progress never exceeds the amount supplied or to be produced, never goes backwards within one stream, and ends at exactly the total: input bytes and (end marker and checksum aside) emitted bytes for compression, decoded bytes for decompression, of which it never reports fewer than were delivered. A new stream starts at zero. FL2_remainingOutputSize always equals the number of bytes that would be delivered if all pending output were read now.',
 ['histories', 'schedules', 'inputs'], 'all call histories x query moments, from the calling thread and while work runs',
 'The tests print progress at most; they never compare it with what was really processed.',
 ['fl2_compress.c', 'fl2_decompress.c', 'lzma2_enc.c', 'radix_mf.c'],
 [('progress weights', 'fl2_compress.c FL2_getCStreamProgress'), ('decoder progress', 'fl2_decompress.c FL2_getDStreamProgress'), ('pending slices', 'fl2_compress.c FL2_remainingOutputSize')], (), ['values returned by the queries'])
prop('C17', 'Everything acquired is released',
 'After an object is freed, at whatever point of its life (unused, in the middle of a stream, while asynchronous work is running, after errors, cancellation or timeouts), every byte and every thread the library acquired for it has been released exactly once. Repeated use of one object does not grow its memory without bound.',
 ['histories', 'schedules', 'fault_sequences'], 'all histories ending in free x schedules',
 'A leak or a double free in a rarely taken path does not make a test fail.',
 ['fl2_compress.c', 'fl2_decompress.c', 'fl2_pool.c', 'radix_mf.c', 'dict_buffer.c', 'lzma2_enc.c', 'lzma2_dec.c'],
 [('destructors', 'FL2_freeCCtx, FL2_freeDCtx, FL2_freeDStream, FL2POOL_free'), ('multithreaded decoder cleanup', 'fl2_decompress.c FL2_lzma2DecMt_cleanup')], (), ['allocations and frees', 'thread creation and joins'])
prop('C18', 'Compression exploits the redundancy it should',
 'Redundancy within the dictionary is found: a repeated block at a distance the window allows costs a small fraction of its size, runs and periodic data shrink to almost nothing, incompressible data grows by no more than the bound, and this holds at every level, offset, block and thread-slice position, in streaming as in one-shot use, up to what the overlap makes unreachable, the last bytes of a block (about as many as the search depth) and the match buffers a user made smaller than the default. Multithreading and streaming cost only a few percent of size against single-threaded one-shot compression of the same data.',
 ['inputs', 'configurations'], 'all inputs with planted redundancy x offsets x distances x levels x thread counts',
 'The tests only check that data round-trips; an encoder that lost matches would still round-trip.',
 ['radix_engine.h', 'radix_mf.c', 'lzma2_enc.c', 'fl2_compress.c', 'dict_buffer.c'],
 [('match finder', 'radix_engine.h'), ('hybrid hash chain', 'lzma2_enc.c LZMA_hashGetMatches'), ('overlap between blocks', 'fl2_compress.c, dict_buffer.c')], (), ['compressed sizes', 'match distances in the stream'])
prop('C19', 'Size and dictionary queries are exact',
 'For every stream the compressor produces, FL2_findDecompressedSize returns exactly the content size whenever srcSize reaches the end marker, and the error value for every prefix that does not reach it; for arbitrary bytes it reads only inside srcSize and returns the 64-bit sum of the sizes in the chunk headers up to the end marker, or the error value when a chunk header is malformed or the bytes run out. FL2_getDictSizeFromProp inverts every property byte, with or without the checksum flag, and gives an error for those that stand for no size. FL2_getCCtxDictProp announces the smallest dictionary that covers the setting before use, and after use one that is large enough for the stream and no larger than the setting needs.',
 ['inputs', 'configurations'], 'all streams, prefixes and byte strings; all property bytes',
 'The tests query the size of a few good streams.',
 ['lzma2_dec.c', 'fl2_decompress.c', 'lzma2_enc.c', 'fl2_compress.c'],
 [('chunk header walk', 'lzma2_dec.c LZMA2_getUnpackSize'), ('dictionary property', 'lzma2_dec.c LZMA2_getDictSizeFromProp, lzma2_enc.c LZMA2_getDictSizeProp')], (), ['return values'])
prop('C20', 'Compression is memory safe on every input',
 'While compressing, in any mode and with any parameters, the library reads only the source it was given and memory it initialised, writes only to the destination and its own allocations, and commits no undefined behaviour (overflowing shifts, signed overflow, out-of-bounds indexing); internal consistency assertions and the match table integrity check hold throughout.',
 ['inputs', 'configurations', 'histories'], 'all inputs x parameters x one-shot and streaming use',
 'Small overreads, overlapping table and output writes, and uses of uninitialised table entries do not change a test result.',
 ['radix_engine.h', 'radix_bitpack.c', 'radix_struct.c', 'radix_mf.c', 'lzma2_enc.c', 'range_enc.c', 'fl2_compress.c', 'dict_buffer.c', 'count.h', 'radix_get.h'],
 [('bounds at the block end', 'radix_engine.h, radix_get.h'), ('output written into the match table behind the read position', 'range_enc.c, lzma2_enc.c'), ('assertions', 'FL2_DEBUG builds')], (), ['memory accesses', 'assertions'])
prop('C21', 'Objects are independent of each other',
 'What a caller gets from an object (context or stream, for compression or decompression) or from the simple functions depends only on the calls made on that object and their arguments, not on other objects: any interleaving with calls on other objects, on the same thread or on other threads, in turn or at the same time, including creating and freeing other objects meanwhile and operations that fail, gives the same outputs, return values, parameters and progress as the same calls made alone in a process of their own.',
 ['histories', 'schedules', 'inputs'], 'all sets of objects x all interleavings of their calls, on one thread, in turn on several, and concurrently',
 'The tests use one object at a time in a fresh process; state shared by accident (a static buffer, a cached table, a remembered parameter) is invisible to them.',
 ['fl2_compress.c', 'fl2_decompress.c', 'lzma2_enc.c', 'lzma2_dec.c', 'radix_mf.c', 'radix_engine.h', 'dict_buffer.c', 'fl2_pool.c', 'fl2_common.c', 'range_enc.c'],
 [('all state lives in the context objects', 'fl2_compress_internal.h FL2_CCtx, fl2_decompress.c FL2_DCtx_s / FL2_DStream_s'), ('encoder tables', 'lzma2_enc.c LZMA2_ECtx')], (), ['answers of each object, call by call'])
prop('C22', 'Every build configuration gives the same results',
 'The compressed bytes for given input and settings, the verdict and content in decompression, the sizes and dictionary properties the queries report, and the acceptance and values of parameters do not depend on how the sources are built: with the assembly decoder or the C one (ordinary, with conditional moves, or for size), by GCC or Clang at any level of optimisation, with any method of unaligned memory access, with or without prefetching, with the range encoder in 64-bit or 32-bit arithmetic and narrow or wide probabilities, single-threaded (for what one thread does) or multithreaded, and with or without XXHASH (checksums apart).',
 ['configurations', 'inputs'], 'all build configurations x inputs x parameters',
 'The tests run two builds, each checked only against itself; the alternative code paths are compiled by other users only.',
 ['lzma2_dec.c', 'lzma_dec_x86_64.S', 'range_enc.c', 'mem.h', 'count.h', 'fl2_compress.c', 'fl2_decompress.c', 'dict_buffer.c', 'compiler.h', 'radix_engine.h', 'atomic.h'],
 [('decoder variants', 'lzma2_dec.c LZMA_SIZE_OPT / USE_CMOV / LZMA2_DEC_OPT, lzma_dec_x86_64.S'), ('range encoder variants', 'range_enc.c __64BIT__'), ('memory access', 'mem.h MEM_FORCE_MEMORY_ACCESS'), ('single-threaded and checksum-free code', 'FL2_SINGLETHREAD, NO_XXHASH')], (), ['digest of every answer, compared between builds'])
prop('C23', 'Threads are used as asked',
 'A context or stream created for n threads reports n (for 0 the cores of the machine, at least one; never more than 200) and keeps reporting it; it never has more than n - 1 threads of its own (one more with a dual buffer or a timeout), single-threaded objects and functions start none, and FL2_compressMt and FL2_decompressMt leave none behind. Where the work suffices, all n threads are given work at the same time: in building the match table and in encoding of every block of at least 0x1C000 bytes per thread, and in decoding, one-shot or streaming, of every n blocks that begin with a dictionary reset.',
 ['configurations', 'schedules', 'inputs'], 'all thread counts x objects x block sizes x streams with dictionary resets',
 'A library that did all the work on one thread, or started too many, would pass every test.',
 ['fl2_pool.c', 'fl2_threading.c', 'fl2_compress.c', 'fl2_decompress.c', 'radix_mf.c', 'lzma2_dec.c'],
 [('thread pool', 'fl2_pool.c FL2POOL_addRange, FL2POOL_thread'), ('slices of a block', 'fl2_compress.c FL2_compressCurBlock_blocking'), ('blocks between dictionary resets', 'fl2_decompress.c FL2_decompressDCtxMt, FL2_loadInputMt; lzma2_dec.c LZMA2_parseInput'), ('count', 'fl2_threading.c FL2_checkNbThreads')], (), ['threads created and alive', 'threads that hold work at the same time'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), max(len(p['title']) for p in P))
