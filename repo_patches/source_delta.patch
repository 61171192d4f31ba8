From 4d2141ff7c43c00f00f1cd048b3e526d0dd90b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:16 +0000
Subject: [PATCH 01/39] fix: FL2POOL_waitAll tests the queue under its mutex
 and reports queued jobs as pending

A timed wait returned 0 (idle) when the only job had not been picked up yet, so
the caller went on with the results of a job that had not started. The test of
the queue before the lock, and the assert in addRange, were data races.
---
 fl2_pool.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fl2_pool.c b/fl2_pool.c
index 8f90b44..fb0eaaa 100644
--- a/fl2_pool.c
+++ b/fl2_pool.c
@@ -154,10 +154,9 @@ void FL2POOL_addRange(void* ctxVoid, FL2POOL_function function, void *opaque, pt
     if (!ctx)
 		return; 
 
+    FL2_pthread_mutex_lock(&ctx->queueMutex);
     /* Callers always wait for jobs to complete before adding a new set */
     assert(!ctx->numThreadsBusy);
-
-    FL2_pthread_mutex_lock(&ctx->queueMutex);
     ctx->function = function;
     ctx->opaque = opaque;
     ctx->queueIndex = first;
@@ -174,8 +173,9 @@ void FL2POOL_add(void* ctxVoid, FL2POOL_function function, void *opaque, ptrdiff
 int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
 {
     FL2POOL_ctx* const ctx = (FL2POOL_ctx*)ctxVoid;
-    if (!ctx || (!ctx->numThreadsBusy && ctx->queueIndex >= ctx->queueEnd) || ctx->shutdown) { return 0; }
+    if (!ctx) { return 0; }
 
+    /* Test the queue with the mutex held, which also makes the results of the jobs visible here */
     FL2_pthread_mutex_lock(&ctx->queueMutex);
     /* Need to test for ctx->queueIndex < ctx->queueEnd in case not all jobs have started */
     if (timeout != 0) {
@@ -186,8 +186,10 @@ int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
         while ((ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown)
             FL2_pthread_cond_wait(&ctx->busyCond, &ctx->queueMutex);
     }
+    /* A job which is still queued is not complete */
+    int const pending = (ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown;
     FL2_pthread_mutex_unlock(&ctx->queueMutex);
-    return ctx->numThreadsBusy && !ctx->shutdown;
+    return pending;
 }
 
 size_t FL2POOL_threadsBusy(void * ctx)
-- 
2.43.0


From 8b80e3f3f3b814b16945129f0f1f42e1a3a0a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 02/39] fix: use atomic access for state shared with the worker
 threads

The asynchronous result, thread count, progress counters, cancel flags and the
match table's next list index were read or written without synchronization
while another thread accessed them (data races). FL2_compressCurBlock() also
returned the asynchronous result before the job could have produced it, and a
non-atomic increment of st_index could lose a concurrent cancellation.
---
 atomic.h         | 10 +++++++-
 fl2_compress.c   | 67 ++++++++++++++++++++++++++----------------------
 fl2_decompress.c | 16 ++++++------
 lzma2_enc.c      |  2 +-
 radix_engine.h   | 10 ++++----
 radix_mf.c       |  6 ++---
 6 files changed, 62 insertions(+), 49 deletions(-)

diff --git a/atomic.h b/atomic.h
index aa4d977..14f0368 100644
--- a/atomic.h
+++ b/atomic.h
@@ -15,7 +15,7 @@
 extern "C" {
 #endif
 
-/* atomic add */
+/* atomic add, and load/store for variables another thread may be accessing */
 
 #if !defined(FL2_SINGLETHREAD) && defined(_WIN32)
 
@@ -40,6 +40,8 @@ typedef LONG volatile FL2_atomic;
 #define ATOMIC_INITIAL_VALUE -1
 #define FL2_atomic_increment(n) InterlockedIncrement(&n)
 #define FL2_atomic_add(n, a) InterlockedAdd(&n, a)
+#define FL2_atomic_load(n) (n)
+#define FL2_atomic_store(n, v) ((n) = (v))
 #define FL2_nonAtomic_increment(n) (++n)
 
 #elif !defined(FL2_SINGLETHREAD) && defined(__GNUC__)
@@ -48,6 +50,8 @@ typedef long FL2_atomic;
 #define ATOMIC_INITIAL_VALUE 0
 #define FL2_atomic_increment(n) __sync_fetch_and_add(&n, 1)
 #define FL2_atomic_add(n, a) __sync_fetch_and_add(&n, a)
+#define FL2_atomic_load(n) __atomic_load_n(&(n), __ATOMIC_SEQ_CST)
+#define FL2_atomic_store(n, v) __atomic_store_n(&(n), v, __ATOMIC_SEQ_CST)
 #define FL2_nonAtomic_increment(n) (n++)
 
 #elif !defined(FL2_SINGLETHREAD) && defined(__STDC_VERSION__) && (__STDC_VERSION__ >= 201112L) && !defined(__STDC_NO_ATOMICS__) /* C11 */
@@ -58,6 +62,8 @@ typedef _Atomic long FL2_atomic;
 #define ATOMIC_INITIAL_VALUE 0
 #define FL2_atomic_increment(n) atomic_fetch_add(&n, 1)
 #define FL2_atomic_add(n, a) atomic_fetch_add(&n, a)
+#define FL2_atomic_load(n) (n)
+#define FL2_atomic_store(n, v) ((n) = (v))
 #define FL2_nonAtomic_increment(n) (n++)
 
 #else  /* No atomics */
@@ -70,6 +76,8 @@ typedef long FL2_atomic;
 #define ATOMIC_INITIAL_VALUE 0
 #define FL2_atomic_increment(n) (n++)
 #define FL2_atomic_add(n, a) (n += (a))
+#define FL2_atomic_load(n) (n)
+#define FL2_atomic_store(n, v) ((n) = (v))
 #define FL2_nonAtomic_increment(n) (n++)
 
 #endif /* FL2_SINGLETHREAD */
diff --git a/fl2_compress.c b/fl2_compress.c
index 0ffeab0..3edf782 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -296,7 +296,7 @@ static size_t FL2_compressCurBlock_blocking(FL2_CCtx* const cctx, int const stre
     /* initialize to length 2 */
     RMF_initTable(cctx->matchTable, cctx->curBlock.data, cctx->curBlock.end);
 
-    if (cctx->canceled) {
+    if (FL2_atomic_load(cctx->canceled)) {
         RMF_resetIncompleteBuild(cctx->matchTable);
         return FL2_ERROR(canceled);
     }
@@ -353,7 +353,7 @@ static size_t FL2_compressCurBlock_blocking(FL2_CCtx* const cctx, int const stre
         if (FL2_isError(cctx->jobs[u].cSize))
             return cctx->jobs[u].cSize;
 
-    cctx->threadCount = nbThreads;
+    FL2_atomic_store(cctx->threadCount, nbThreads);
 
     return FL2_error_no_error;
 }
@@ -363,7 +363,7 @@ static void FL2_compressCurBlock_async(void* const jobDescription, ptrdiff_t con
 {
     FL2_CCtx* const cctx = (FL2_CCtx*)jobDescription;
 
-    cctx->asyncRes = FL2_compressCurBlock_blocking(cctx, (int)n);
+    FL2_atomic_store(cctx->asyncRes, FL2_compressCurBlock_blocking(cctx, (int)n));
 }
 
 /* FL2_compressCurBlock() :
@@ -410,8 +410,11 @@ static size_t FL2_compressCurBlock(FL2_CCtx* const cctx, int const streamProp)
     cctx->encWeight = encWeight;
 
 #ifndef FL2_SINGLETHREAD
-    if(cctx->compressThread != NULL)
+    if (cctx->compressThread != NULL) {
+        /* The result is available when the thread is idle */
         FL2POOL_add(cctx->compressThread, FL2_compressCurBlock_async, cctx, streamProp);
+        return FL2_error_no_error;
+    }
     else
 #endif
         cctx->asyncRes = FL2_compressCurBlock_blocking(cctx, streamProp);
@@ -912,7 +915,7 @@ static size_t FL2_compressStream_internal(FL2_CStream* const fcs, int const endi
     DICT_buffer *const buf = &fcs->buf;
 
     /* no compression can occur while compressed output exists */
-    if (fcs->outThread == fcs->threadCount && DICT_hasUnprocessed(buf)) {
+    if (fcs->outThread == FL2_atomic_load(fcs->threadCount) && DICT_hasUnprocessed(buf)) {
         fcs->streamTotal += fcs->curBlock.end - fcs->curBlock.start;
 
         DICT_getBlock(buf, &fcs->curBlock);
@@ -940,7 +943,7 @@ static size_t FL2_compressStream_internal(FL2_CStream* const fcs, int const endi
  */
 FL2LIB_API size_t FL2LIB_CALL FL2_copyCStreamOutput(FL2_CStream* fcs, FL2_outBuffer *output)
 {
-    for (; fcs->outThread < fcs->threadCount; ++fcs->outThread) {
+    for (; fcs->outThread < FL2_atomic_load(fcs->threadCount); ++fcs->outThread) {
         const BYTE* const outBuf = RMF_getTableAsOutputBuffer(fcs->matchTable, fcs->jobs[fcs->outThread].block.start) + fcs->outPos;
         BYTE* const dstBuf = (BYTE*)output->dst + output->pos;
         size_t const dstCapacity = output->size - output->pos;
@@ -965,7 +968,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_copyCStreamOutput(FL2_CStream* fcs, FL2_outBuf
 
 static size_t FL2_compressStream_input(FL2_CStream* fcs, FL2_inBuffer* input)
 {
-    CHECK_F(fcs->asyncRes);
+    CHECK_F(FL2_atomic_load(fcs->asyncRes));
 
     DICT_buffer * const buf = &fcs->buf;
 
@@ -978,19 +981,19 @@ static size_t FL2_compressStream_input(FL2_CStream* fcs, FL2_inBuffer* input)
             DICT_shift(buf);
         }
         
-        CHECK_F(fcs->asyncRes);
+        CHECK_F(FL2_atomic_load(fcs->asyncRes));
 
         DICT_put(buf, input);
         
         if (!DICT_availSpace(buf)) {
             /* break if the compressor is not available */
-            if (fcs->outThread < fcs->threadCount)
+            if (fcs->outThread < FL2_atomic_load(fcs->threadCount))
                 break;
 
             CHECK_F(FL2_compressStream_internal(fcs, 0));
         }
 
-        CHECK_F(fcs->asyncRes);
+        CHECK_F(FL2_atomic_load(fcs->asyncRes));
     }
 
     return FL2_error_no_error;
@@ -1019,17 +1022,17 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressStream(FL2_CStream* fcs, FL2_outBuffer
     size_t const prevIn = input->pos;
     size_t const prevOut = (output != NULL) ? output->pos : 0;
 
-    if (output != NULL && fcs->outThread < fcs->threadCount)
+    if (output != NULL && fcs->outThread < FL2_atomic_load(fcs->threadCount))
         FL2_copyCStreamOutput(fcs, output);
 
     CHECK_F(FL2_compressStream_input(fcs, input));
 
-    if(output != NULL && fcs->outThread < fcs->threadCount)
+    if(output != NULL && fcs->outThread < FL2_atomic_load(fcs->threadCount))
         FL2_copyCStreamOutput(fcs, output);
 
     CHECK_F(FL2_loopCheck(fcs, prevIn == input->pos && (output == NULL || prevOut == output->pos)));
 
-    return fcs->outThread < fcs->threadCount;
+    return fcs->outThread < FL2_atomic_load(fcs->threadCount);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_getDictionaryBuffer(FL2_CStream * fcs, FL2_dictBuffer * dict)
@@ -1037,7 +1040,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_getDictionaryBuffer(FL2_CStream * fcs, FL2_dic
     if (!fcs->lockParams)
         return FL2_ERROR(init_missing);
 
-    CHECK_F(fcs->asyncRes);
+    CHECK_F(FL2_atomic_load(fcs->asyncRes));
 
     DICT_buffer *buf = &fcs->buf;
 
@@ -1057,7 +1060,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_updateDictionary(FL2_CStream * fcs, size_t add
     if (DICT_update(&fcs->buf, addedSize))
         CHECK_F(FL2_compressStream_internal(fcs, 0));
 
-    return fcs->outThread < fcs->threadCount;
+    return fcs->outThread < FL2_atomic_load(fcs->threadCount);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_getNextCompressedBuffer(FL2_CStream* fcs, FL2_cBuffer* cbuf)
@@ -1069,7 +1072,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_getNextCompressedBuffer(FL2_CStream* fcs, FL2_
     CHECK_F(FL2_waitCStream(fcs));
 #endif
 
-    if (fcs->outThread < fcs->threadCount) {
+    if (fcs->outThread < FL2_atomic_load(fcs->threadCount)) {
         cbuf->src = RMF_getTableAsOutputBuffer(fcs->matchTable, fcs->jobs[fcs->outThread].block.start) + fcs->outPos;
         cbuf->size = fcs->jobs[fcs->outThread].cSize - fcs->outPos;
         ++fcs->outThread;
@@ -1081,14 +1084,16 @@ FL2LIB_API size_t FL2LIB_CALL FL2_getNextCompressedBuffer(FL2_CStream* fcs, FL2_
 FL2LIB_API unsigned long long FL2LIB_CALL FL2_getCStreamProgress(const FL2_CStream * fcs, unsigned long long *outputSize)
 {
     if (outputSize != NULL)
-        *outputSize = fcs->streamCsize + fcs->progressOut;
+        *outputSize = fcs->streamCsize + FL2_atomic_load(fcs->progressOut);
 
     U64 const encodeSize = fcs->curBlock.end - fcs->curBlock.start;
 
-    if (fcs->progressIn == 0 && fcs->curBlock.end != 0)
-        return fcs->streamTotal + ((fcs->matchTable->progress * encodeSize / fcs->curBlock.end * fcs->rmfWeight) >> 4);
+    long const progressIn = FL2_atomic_load(fcs->progressIn);
+
+    if (progressIn == 0 && fcs->curBlock.end != 0)
+        return fcs->streamTotal + ((FL2_atomic_load(fcs->matchTable->progress) * encodeSize / fcs->curBlock.end * fcs->rmfWeight) >> 4);
 
-    return fcs->streamTotal + ((fcs->rmfWeight * encodeSize) >> 4) + ((fcs->progressIn * fcs->encWeight) >> 4);
+    return fcs->streamTotal + ((fcs->rmfWeight * encodeSize) >> 4) + ((progressIn * fcs->encWeight) >> 4);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_waitCStream(FL2_CStream * fcs)
@@ -1096,16 +1101,16 @@ FL2LIB_API size_t FL2LIB_CALL FL2_waitCStream(FL2_CStream * fcs)
 #ifndef FL2_SINGLETHREAD
     if (FL2POOL_waitAll(fcs->compressThread, fcs->timeout) != 0)
         return FL2_ERROR(timedOut);
-    CHECK_F(fcs->asyncRes);
+    CHECK_F(FL2_atomic_load(fcs->asyncRes));
 #endif
-    return fcs->outThread < fcs->threadCount;
+    return fcs->outThread < FL2_atomic_load(fcs->threadCount);
 }
 
 FL2LIB_API void FL2LIB_CALL FL2_cancelCStream(FL2_CStream *fcs)
 {
 #ifndef FL2_SINGLETHREAD
     if (fcs->compressThread != NULL) {
-        fcs->canceled = 1;
+        FL2_atomic_store(fcs->canceled, 1);
 
         RMF_cancelBuild(fcs->matchTable);
         FL2POOL_waitAll(fcs->compressThread, 0);
@@ -1118,10 +1123,10 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelCStream(FL2_CStream *fcs)
 
 FL2LIB_API size_t FL2LIB_CALL FL2_remainingOutputSize(const FL2_CStream* fcs)
 {
-    CHECK_F(fcs->asyncRes);
+    CHECK_F(FL2_atomic_load(fcs->asyncRes));
 
     size_t cSize = 0;
-    for (size_t u = fcs->outThread; u < fcs->threadCount; ++u)
+    for (size_t u = fcs->outThread; u < FL2_atomic_load(fcs->threadCount); ++u)
         cSize += fcs->jobs[u].cSize;
 
     return cSize;
@@ -1174,7 +1179,7 @@ static void FL2_writeEnd(FL2_CStream* const fcs)
 
 static size_t FL2_flushStream_internal(FL2_CStream* fcs, int const ending)
 {
-    CHECK_F(fcs->asyncRes);
+    CHECK_F(FL2_atomic_load(fcs->asyncRes));
 
     DEBUGLOG(4, "FL2_flushStream_internal : %u to compress, %u to write",
         (U32)(fcs->buf.end - fcs->buf.start),
@@ -1182,7 +1187,7 @@ static size_t FL2_flushStream_internal(FL2_CStream* fcs, int const ending)
 
     CHECK_F(FL2_compressStream_internal(fcs, ending));
 
-    return fcs->outThread < fcs->threadCount;
+    return fcs->outThread < FL2_atomic_load(fcs->threadCount);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *output)
@@ -1192,7 +1197,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *o
 
     size_t const prevOut = (output != NULL) ? output->pos : 0;
 
-    if (output != NULL && fcs->outThread < fcs->threadCount)
+    if (output != NULL && fcs->outThread < FL2_atomic_load(fcs->threadCount))
         FL2_copyCStreamOutput(fcs, output);
 
     size_t res = FL2_flushStream_internal(fcs, 0);
@@ -1200,7 +1205,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *o
 
     if (output != NULL && res != 0) {
         FL2_copyCStreamOutput(fcs, output);
-        res = fcs->outThread < fcs->threadCount;
+        res = fcs->outThread < FL2_atomic_load(fcs->threadCount);
     }
 
     CHECK_F(FL2_loopCheck(fcs, output != NULL && prevOut == output->pos));
@@ -1215,7 +1220,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_endStream(FL2_CStream* fcs, FL2_outBuffer *out
 
     size_t const prevOut = (output != NULL) ? output->pos : 0;
     
-    if (output != NULL && fcs->outThread < fcs->threadCount)
+    if (output != NULL && fcs->outThread < FL2_atomic_load(fcs->threadCount))
         FL2_copyCStreamOutput(fcs, output);
 
     CHECK_F(FL2_flushStream_internal(fcs, 1));
@@ -1230,7 +1235,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_endStream(FL2_CStream* fcs, FL2_outBuffer *out
 
     if (output != NULL && res != 0) {
         FL2_copyCStreamOutput(fcs, output);
-        res = fcs->outThread < fcs->threadCount || DICT_hasUnprocessed(&fcs->buf);
+        res = fcs->outThread < FL2_atomic_load(fcs->threadCount) || DICT_hasUnprocessed(&fcs->buf);
     }
 
     CHECK_F(FL2_loopCheck(fcs, output != NULL && prevOut == output->pos));
diff --git a/fl2_decompress.c b/fl2_decompress.c
index 048b03c..2665df4 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -732,7 +732,7 @@ static size_t FL2_decompressBlockMt(FL2_DStream* const fds, size_t const thread)
     /* Flag to indicate this block ends with the terminator */
     BYTE const last = decmt->isFinal && (thread == decmt->numThreads - 1);
 
-    while (!decmt->canceled) {
+    while (!FL2_atomic_load(decmt->canceled)) {
         size_t srcSize = cur->length - inPos;
         size_t const dicPos = dec->dic_pos;
 
@@ -759,7 +759,7 @@ static size_t FL2_decompressBlockMt(FL2_DStream* const fds, size_t const thread)
         }
     }
 
-    if (decmt->canceled)
+    if (FL2_atomic_load(decmt->canceled))
         return FL2_ERROR(canceled);
 
     return FL2_error_no_error;
@@ -1094,7 +1094,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_initDStream(FL2_DStream* fds)
 {
     DEBUGLOG(4, "FL2_initDStream");
 
-    if (fds->wait)
+    if (FL2_atomic_load(fds->wait))
         return FL2_ERROR(stage_wrong);
 
     FL2_resetDStream(fds);
@@ -1116,7 +1116,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_setDStreamTimeout(FL2_DStream * fds, unsigned
                 return FL2_ERROR(memory_allocation);
         }
     }
-    else if (!fds->wait) {
+    else if (!FL2_atomic_load(fds->wait)) {
         /* Only free the thread if decompression not underway */
         FL2POOL_free(fds->decompressThread);
         fds->decompressThread = NULL;
@@ -1140,7 +1140,7 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
 {
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
-        fds->decmt->canceled = 1;
+        FL2_atomic_store(fds->decmt->canceled, 1);
 
         FL2POOL_waitAll(fds->decompressThread, 0);
 
@@ -1152,7 +1152,7 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
 
 FL2LIB_API unsigned long long FL2LIB_CALL FL2_getDStreamProgress(const FL2_DStream * fds)
 {
-    return fds->streamTotal + fds->progress;
+    return fds->streamTotal + FL2_atomic_load(fds->progress);
 }
 
 static size_t FL2_initDStream_prop(FL2_DStream* const fds, BYTE prop)
@@ -1276,7 +1276,7 @@ static void FL2_decompressStream_async(void* const jobDescription, ptrdiff_t con
     FL2_DStream* const fds = (FL2_DStream*)jobDescription;
 
     fds->asyncRes = FL2_decompressStream_blocking(fds, fds->asyncOutput, fds->asyncInput);
-    fds->wait = 0;
+    FL2_atomic_store(fds->wait, 0);
 
     (void)n;
 }
@@ -1289,7 +1289,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressStream(FL2_DStream* fds, FL2_outBuff
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
         /* Calling FL2_decompressStream() while waiting for decompressThread to fall idle is not allowed */
-        if (fds->wait)
+        if (FL2_atomic_load(fds->wait))
             return FL2_ERROR(stage_wrong);
 
         fds->asyncOutput = output;
diff --git a/lzma2_enc.c b/lzma2_enc.c
index da2e09b..174cf75 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -2092,7 +2092,7 @@ size_t LZMA2_encode(LZMA2_ECtx *const enc,
 
         pos = next_index;
 
-        if (*canceled)
+        if (FL2_atomic_load(*canceled))
             return FL2_ERROR(canceled);
     }
     return out_dest - RMF_getTableAsOutputBuffer(tbl, start);
diff --git a/radix_engine.h b/radix_engine.h
index 7bccaab..fa15e33 100644
--- a/radix_engine.h
+++ b/radix_engine.h
@@ -99,7 +99,7 @@ static void RMF_initReference(FL2_matchTable* const tbl, const void* const data,
     }
     SetNull(end - 1);
     tbl->end_index = (U32)st_index;
-    tbl->st_index = ATOMIC_INITIAL_VALUE;
+    FL2_atomic_store(tbl->st_index, ATOMIC_INITIAL_VALUE);
 }
 #endif
 
@@ -897,7 +897,7 @@ static void RMF_recurseListsReference(RMF_builder* const tbl,
 /* Atomically take a list from the head table */
 static ptrdiff_t RMF_getNextList_mt(FL2_matchTable* const tbl)
 {
-    if (tbl->st_index < tbl->end_index) {
+    if (FL2_atomic_load(tbl->st_index) < tbl->end_index) {
         long pos = FL2_atomic_increment(tbl->st_index);
         if (pos < tbl->end_index)
             return pos;
@@ -908,8 +908,8 @@ static ptrdiff_t RMF_getNextList_mt(FL2_matchTable* const tbl)
 /* Non-atomically take a list from the head table */
 static ptrdiff_t RMF_getNextList_st(FL2_matchTable* const tbl)
 {
-    if (tbl->st_index < tbl->end_index) {
-        long pos = FL2_nonAtomic_increment(tbl->st_index);
+    if (FL2_atomic_load(tbl->st_index) < tbl->end_index) {
+        long pos = FL2_atomic_increment(tbl->st_index); /* the caller of an async build may be cancelling it */
         if (pos < tbl->end_index)
             return pos;
     }
@@ -949,7 +949,7 @@ RMF_structuredBuildTable
 
         while (next_progress < pos) {
             /* initial value of next_progress ensures only thread 0 executes this */
-            tbl->progress += tbl->list_heads[tbl->stack[next_progress]].count;
+            FL2_atomic_store(tbl->progress, tbl->progress + tbl->list_heads[tbl->stack[next_progress]].count);
             ++next_progress;
         }
         pos = tbl->stack[pos];
diff --git a/radix_mf.c b/radix_mf.c
index 346f894..305f38c 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -271,14 +271,14 @@ size_t RMF_threadCount(const FL2_matchTable* const tbl)
 void RMF_initProgress(FL2_matchTable * const tbl)
 {
     if (tbl != NULL)
-        tbl->progress = 0;
+        FL2_atomic_store(tbl->progress, 0);
 }
 
 void RMF_initTable(FL2_matchTable* const tbl, const void* const data, size_t const end)
 {
     DEBUGLOG(5, "RMF_initTable : size %u", (U32)end);
 
-    tbl->st_index = ATOMIC_INITIAL_VALUE;
+    FL2_atomic_store(tbl->st_index, ATOMIC_INITIAL_VALUE);
 
     if (tbl->is_struct)
         RMF_structuredInit(tbl, data, end);
@@ -685,7 +685,7 @@ int RMF_buildTable(FL2_matchTable* const tbl,
     else
         RMF_bitpackBuildTable(tbl, job, multi_thread, block);
 
-    if (job == 0 && tbl->st_index >= RADIX_CANCEL_INDEX) {
+    if (job == 0 && FL2_atomic_load(tbl->st_index) >= RADIX_CANCEL_INDEX) {
         RMF_initListHeads(tbl);
         return 1;
     }
-- 
2.43.0


From d027992e0da184f9c9bf95cd14a24812d0abf5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 03/39] fix: reset the list heads of a cancelled build only
 after all builders have stopped

Builder 0 cleared the shared list heads while other builder threads were still
taking lists from them.
---
 fl2_compress.c | 8 ++++++--
 radix_mf.c     | 7 ++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 3edf782..3460195 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -314,8 +314,10 @@ static size_t FL2_compressCurBlock_blocking(FL2_CCtx* const cctx, int const stre
 
     FL2POOL_waitAll(cctx->factory, 0);
 
-    if (err)
+    if (err) {
+        RMF_resetIncompleteBuild(cctx->matchTable);
         return FL2_ERROR(canceled);
+    }
 
 #ifdef RMF_CHECK_INTEGRITY
     err = RMF_integrityCheck(cctx->matchTable, cctx->curBlock.data, cctx->curBlock.start, cctx->curBlock.end, cctx->params.rParams.depth);
@@ -334,8 +336,10 @@ static size_t FL2_compressCurBlock_blocking(FL2_CCtx* const cctx, int const stre
 
 #else /* FL2_SINGLETHREAD */
 
-    if (err)
+    if (err) {
+        RMF_resetIncompleteBuild(cctx->matchTable);
         return FL2_ERROR(canceled);
+    }
 
 #ifdef RMF_CHECK_INTEGRITY
     err = RMF_integrityCheck(cctx->matchTable, cctx->curBlock.data, cctx->curBlock.start, cctx->curBlock.end, cctx->params.rParams.depth);
diff --git a/radix_mf.c b/radix_mf.c
index 305f38c..bddf200 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -685,11 +685,8 @@ int RMF_buildTable(FL2_matchTable* const tbl,
     else
         RMF_bitpackBuildTable(tbl, job, multi_thread, block);
 
-    if (job == 0 && FL2_atomic_load(tbl->st_index) >= RADIX_CANCEL_INDEX) {
-        RMF_initListHeads(tbl);
-        return 1;
-    }
-    return 0;
+    /* The caller must reset the list heads when all threads have finished with them */
+    return job == 0 && FL2_atomic_load(tbl->st_index) >= RADIX_CANCEL_INDEX;
 }
 
 void RMF_cancelBuild(FL2_matchTable * const tbl)
-- 
2.43.0


From 61d3266a2faabdc0b6b3048e52b4eac030f47531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 04/39] fix: FL2_flushStream waits for an asynchronous
 compression before reporting completion

With a compression thread the job had only been started when the return value
was taken, so 0 (flush complete) was returned with all of the data outstanding.
---
 fl2_compress.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 3460195..ee2be7d 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1204,13 +1204,16 @@ FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *o
     if (output != NULL && fcs->outThread < FL2_atomic_load(fcs->threadCount))
         FL2_copyCStreamOutput(fcs, output);
 
-    size_t res = FL2_flushStream_internal(fcs, 0);
+    CHECK_F(FL2_flushStream_internal(fcs, 0));
+
+    size_t res = FL2_waitCStream(fcs);
     CHECK_F(res);
 
     if (output != NULL && res != 0) {
         FL2_copyCStreamOutput(fcs, output);
         res = fcs->outThread < FL2_atomic_load(fcs->threadCount);
     }
+    res |= DICT_hasUnprocessed(&fcs->buf);
 
     CHECK_F(FL2_loopCheck(fcs, output != NULL && prevOut == output->pos));
 
-- 
2.43.0


From 056ac17fc944dad9bccf78d91e9e98aafc92f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 05/39] fix: FL2_initCStream cancels an abandoned stream and
 discards its pending output

Buffers used by a running compression thread were freed or reused, the level
was ignored because parameters were locked, and if allocation then failed the
pending output referred to a freed match table.
---
 fl2_compress.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index ee2be7d..0015be5 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -441,6 +441,12 @@ static BYTE FL2_getProp(FL2_CCtx* const cctx, size_t const dictionarySize)
 
 static void FL2_preBeginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
 {
+    /* Any output still pending is in the match table */
+    cctx->outThread = 0;
+    cctx->threadCount = 0;
+    cctx->curBlock.start = 0;
+    cctx->curBlock.end = 0;
+
     /* Free unsuitable match table before reallocating anything else */
     if (cctx->matchTable && !RMF_compatibleParameters(cctx->matchTable, &cctx->params.rParams, dictReduce)) {
         RMF_freeMatchTable(cctx->matchTable);
@@ -862,6 +868,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_initCStream(FL2_CStream* fcs, int compressionL
 {
     DEBUGLOG(4, "FL2_initCStream level %d", compressionLevel);
 
+    /* The previous stream may have been abandoned, even with compression in progress */
+    FL2_cancelCStream(fcs);
+
     fcs->endMarked = 0;
     fcs->wroteProp = 0;
     fcs->loopCount = 0;
-- 
2.43.0


From 3e5bcb92f25a303c5b41c3a4311fc82772c43dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 06/39] fix: FL2_compressCCtx does not write a property byte
 for empty input if omitted

The byte is wrong in a stream without properties, and did not fit in a buffer
of the minimum size of 1.
---
 fl2_compress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0015be5..7d2d768 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -585,7 +585,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if(dstBuf >= end)
         return FL2_ERROR(dstSize_tooSmall);
 
-    if (cSize == 0)
+    if (cSize == 0 && !cctx->params.omitProp)
         *dstBuf++ = FL2_getProp(cctx, 0);
 
     *dstBuf++ = LZMA2_END_MARKER;
-- 
2.43.0


From bc182246394a9f42278d4c441ad69479b57d4587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 07/39] fix: FL2_compressCCtx leaves the context usable after a
 failure or an abandoned stream

Parameters stayed locked after an error, and after an abandoned stream the level
was ignored.
---
 fl2_compress.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 7d2d768..f7d4c5b 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -558,6 +558,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if (dstCapacity < 2U - cctx->params.omitProp) /* empty LZMA2 stream is byte sequence {0, 0} */
         return FL2_ERROR(dstSize_tooSmall);
 
+    /* End any abandoned stream, which locks the parameters */
+    FL2_cancelCStream(cctx);
+
     if (compressionLevel > 0)
         FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, compressionLevel);
 
@@ -575,6 +578,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
 
     size_t const cSize = FL2_compressBuffer(cctx, src, srcSize, dst, dstCapacity);
 
+    FL2_endFrame(cctx);
+
     if (FL2_isError(cSize))
         return cSize;
 
@@ -601,8 +606,6 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
         dstBuf += XXHASH_SIZEOF;
     }
 #endif
-    
-    FL2_endFrame(cctx);
 
     return dstBuf - (BYTE*)dst;
 }
-- 
2.43.0


From bf60bd880ea699dda401783471dc859db960d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 08/39] fix: FL2_freeCCtx stops the compression thread before
 freeing the buffers it uses

---
 fl2_compress.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index f7d4c5b..6b6d399 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -203,17 +203,19 @@ FL2LIB_API void FL2LIB_CALL FL2_freeCCtx(FL2_CCtx* cctx)
 
     DEBUGLOG(3, "FL2_freeCCtx : %u threads", cctx->jobCount);
 
+#ifndef FL2_SINGLETHREAD
+    /* Stop the threads before freeing anything they use */
+    FL2_cancelCStream(cctx);
+    FL2POOL_free(cctx->compressThread);
+    FL2POOL_free(cctx->factory);
+#endif
+
     DICT_destruct(&cctx->buf);
 
     for (unsigned u = 0; u < cctx->jobCount; ++u) {
         LZMA2_freeECtx(cctx->jobs[u].enc);
     }
 
-#ifndef FL2_SINGLETHREAD
-    FL2POOL_free(cctx->factory);
-    FL2POOL_free(cctx->compressThread);
-#endif
-
     RMF_freeMatchTable(cctx->matchTable);
     free(cctx);
 }
-- 
2.43.0


From 0a7e6604732dd7b3acc3b1cc30a0868d88f2b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 09/39] fix: free the context if its compression thread can't
 be created

---
 fl2_compress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 6b6d399..d5ddce6 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -164,8 +164,10 @@ static FL2_CCtx* FL2_createCCtx_internal(unsigned nbThreads, int const dualBuffe
     }
     if (dualBuffer) {
       cctx->compressThread = FL2POOL_create(1);
-      if (cctx->compressThread == NULL)
+      if (cctx->compressThread == NULL) {
+        FL2_freeCCtx(cctx);
         return NULL;
+      }
     }
 #endif
 
-- 
2.43.0


From 7c548a007a7937e4949740fd09c99a65fecd314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 10/39] fix: FL2_updateDictionary reports init_missing if no
 stream was initialized

---
 fl2_compress.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index d5ddce6..0bf3b80 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1077,6 +1077,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_getDictionaryBuffer(FL2_CStream * fcs, FL2_dic
 
 FL2LIB_API size_t FL2LIB_CALL FL2_updateDictionary(FL2_CStream * fcs, size_t addedSize)
 {
+    if (!fcs->lockParams)
+        return FL2_ERROR(init_missing);
+
     if (DICT_update(&fcs->buf, addedSize))
         CHECK_F(FL2_compressStream_internal(fcs, 0));
 
-- 
2.43.0


From 60c4d517fa31000ad491c9f15120d0832bcc155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 11/39] fix: FL2_remainingOutputSize excludes output already
 read

---
 fl2_compress.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0bf3b80..f08386c 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1152,6 +1152,10 @@ FL2LIB_API size_t FL2LIB_CALL FL2_remainingOutputSize(const FL2_CStream* fcs)
     for (size_t u = fcs->outThread; u < FL2_atomic_load(fcs->threadCount); ++u)
         cSize += fcs->jobs[u].cSize;
 
+    /* Part of the first may have been read already */
+    if (cSize != 0)
+        cSize -= fcs->outPos;
+
     return cSize;
 }
 
-- 
2.43.0


From 2acd5735c3984c25c89bca131d7f3cb031c70f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 12/39] fix: FL2_estimateCStreamSize handles level 0 and
 rejects levels out of range

Level 0 (default) omitted the dictionary buffers, and other invalid levels read
outside the parameter table.
---
 fl2_compress.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index f08386c..09bb011 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1328,6 +1328,11 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCCtxSize_usingCCtx(const FL2_CCtx * cc
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize(int compressionLevel, unsigned nbThreads, int dualBuffer)
 {
+    if (compressionLevel == 0)
+        compressionLevel = FL2_CLEVEL_DEFAULT;
+
+    CLAMPCHECK(compressionLevel, 1, FL2_MAX_CLEVEL);
+
     return FL2_estimateCCtxSize(compressionLevel, nbThreads)
         + (FL2_defaultCParameters[compressionLevel].dictionarySize << (dualBuffer != 0));
 }
-- 
2.43.0


From 78d9b4178ae85706150938f4b2a7b090bb0cc81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 13/39] fix: allocate the hash chains according to the strategy
 about to be used

The strategy of the previous operation (or the initial value) was tested, so
memory was allocated for other strategies contrary to the estimate, and hybrid
mode allocated it late, inside the encoder.
---
 lzma2_enc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index 174cf75..c2e6aa1 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -866,7 +866,7 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
  */
 int LZMA2_hashAlloc(LZMA2_ECtx *const enc, const FL2_lzma2Parameters* const options)
 {
-    if (enc->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
+    if (options->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
         return LZMA_hashCreate(enc, options->second_dict_bits);
 
     return 0;
-- 
2.43.0


From cc462ce5ad7866075b69f4e86074aeb5d3b4017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 14/39] fix: report a failure to allocate the match finder's
 builder tables

The result was ignored and the missing builders were then used.
---
 fl2_compress.c | 2 +-
 radix_mf.c     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 09bb011..60a0281 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -470,7 +470,7 @@ static size_t FL2_beginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
     }
     else {
         DEBUGLOG(5, "Have compatible match table");
-        RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce);
+        CHECK_F(RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce));
     }
 
     cctx->dictMax = 0;
diff --git a/radix_mf.c b/radix_mf.c
index bddf200..befa9c7 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -228,7 +228,10 @@ FL2_matchTable* RMF_createMatchTable(const RMF_parameters* const p, size_t const
     tbl->unreduced_dict_size = unreduced_dict_size;
     tbl->builders = NULL;
 
-    RMF_applyParameters_internal(tbl, &params);
+    if (FL2_isError(RMF_applyParameters_internal(tbl, &params))) {
+        RMF_freeMatchTable(tbl);
+        return NULL;
+    }
 
     RMF_initListHeads(tbl);
 
-- 
2.43.0


From 84c97915b95bf9e87024bad1ba138630de83e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 15/39] fix: clear the hash chain size if its allocation fails

The next use of the encoder took the missing table to be large enough.
---
 lzma2_enc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index c2e6aa1..bc6f9c6 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -852,8 +852,10 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
     enc->hash_alloc_3 = (ptrdiff_t)1 << dictionary_bits_3;
     enc->hash_buf = malloc(sizeof(LZMA2_hc3) + (enc->hash_alloc_3 - 1) * sizeof(S32));
 
-    if (enc->hash_buf == NULL)
+    if (enc->hash_buf == NULL) {
+        enc->hash_alloc_3 = 0;
         return 1;
+    }
 
     LZMA_hashReset(enc, dictionary_bits_3);
 
-- 
2.43.0


From 85b28c9f9ab4ad9932a95ed6c2c92177e490c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 16/39] fix: reject an LZMA chunk whose compressed size exceeds
 what its data uses

Decoding continued with the unused bytes taken as the next chunk header, so the
decoders which parse headers beforehand gave a different result.
---
 lzma2_dec.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 80bfcd7..71fca4f 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1128,8 +1128,12 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
                 return FL2_ERROR(corruption_detected);
         }
 
-        if (p->unpack_size == 0)
+        if (p->unpack_size == 0) {
+            /* error if chunk output is complete but part of its input was not used */
+            if (!LZMA2_IS_UNCOMPRESSED_STATE(p->control) && p->pack_size != 0)
+                return FL2_ERROR(corruption_detected);
             p->state2 = LZMA2_STATE_CONTROL;
+        }
     }
     return LZMA_STATUS_NOT_FINISHED;
 }
-- 
2.43.0


From b9ae04241989ad4e92f799c23ca6da0657ff367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 17/39] fix: require properties in the first LZMA chunk after a
 dictionary reset

need_init_prop was never tested, and pb was not initialized.
---
 lzma2_dec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 71fca4f..28ff64c 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -958,7 +958,7 @@ size_t LZMA2_initDecoder(LZMA2_DCtx *const p, BYTE const dict_prop, BYTE *const
     p->dic_buf_size = dic_buf_size;
     p->prop.lc = 3;
     p->prop.lp = 0;
-    p->prop.lc = 2;
+    p->prop.pb = 2;
     p->prop.dic_size = (U32)dict_size;
 
     p->state2 = LZMA2_STATE_CONTROL;
@@ -1061,12 +1061,14 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             unsigned const mode = LZMA2_GET_LZMA_MODE(p->control);
             BYTE const init_dic = (mode == 3);
             BYTE const init_state = (mode != 0);
-            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2))
+            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2)
+                || (!LZMA2_IS_THERE_PROP(mode) && p->need_init_prop))
                 return FL2_ERROR(corruption_detected);
 
             LZMA_initDicAndState(p, init_dic, init_state);
             p->need_init_dic = 0;
             p->need_init_state2 = 0;
+            p->need_init_prop = 0;
         }
     }
     if (p->state2 == LZMA2_STATE_DATA) {
-- 
2.43.0


From 1621bbe8be667c0a094c1e0c7b0adc88af3fa7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 18/39] fix: don't read beyond the end of the input when
 decoding the end of a corrupt chunk

A symbol started before the end of the chunk data may need up to 20 bytes.
---
 lzma2_dec.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 28ff64c..40ba93b 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -864,7 +864,23 @@ static size_t LZMA_decodeToDic(LZMA2_DCtx *const p, size_t const dic_limit, cons
 
         const BYTE *buf_limit;
         if (finish_mode == LZMA_FINISH_END) {
-            buf_limit = src + in_size;
+            if (in_size <= LZMA_REQUIRED_INPUT_MAX) {
+                /* A symbol in a corrupt stream can extend beyond the input, so decode the last ones from a padded copy */
+                BYTE tail[LZMA_REQUIRED_INPUT_MAX * 2] = { 0 };
+                memcpy(tail, src, in_size);
+                p->buf = tail;
+
+                CHECK_F(LZMA_decodeReal2(p, dic_limit, tail + in_size));
+
+                size_t const processed = (size_t)(p->buf - tail);
+                if (processed > in_size)
+                    return FL2_ERROR(corruption_detected);
+                (*src_len) += processed;
+                src += processed;
+                in_size -= processed;
+                continue;
+            }
+            buf_limit = src + in_size - LZMA_REQUIRED_INPUT_MAX;
         }
         else {
             if (in_size <= LZMA_REQUIRED_INPUT_MAX) {
-- 
2.43.0


From 8763a1f1753081d5e17979d60e5dc5068a368225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 19/39] fix: reject an end of payload marker when using the
 assembler decoder

The marker is not allowed in LZMA2. The portable decoder reports corruption, but
the assembler version continued with a distance of zero.
---
 lzma2_dec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 40ba93b..944389c 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -776,6 +776,9 @@ static size_t LZMA_decodeReal2(LZMA2_DCtx *const p, size_t const limit, const BY
         do {
             if (LZMA_decodeReal_3(p, limit2, buf_limit) != 0)
                 return FL2_ERROR(corruption_detected);
+            /* The end of payload marker is not allowed in LZMA2. Only the assembler decoder gets this far. */
+            if (p->remain_len >= kMatchSpecLenStart)
+                return FL2_ERROR(corruption_detected);
         } while (p->dic_pos < limit2 && p->buf == buf_limit && LZMA_tryDummy(p));
 
         if (p->check_dic_size == 0 && p->processed_pos >= p->prop.dic_size)
-- 
2.43.0


From 74e32354b03e4767969f5c6be7c1d6c09f8ba82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 20/39] fix: the dictionary size for property 40 is 4 GB - 1

(size_t)-1 is an error code, so valid streams with this property were rejected.
---
 lzma2_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 944389c..9268acd 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -929,7 +929,7 @@ size_t LZMA2_getDictSizeFromProp(BYTE const dict_prop)
         return FL2_ERROR(corruption_detected);
 
     size_t const dict_size = (dict_prop == 40)
-        ? (size_t)-1
+        ? (size_t)0xFFFFFFFF
         : (((size_t)2 | (dict_prop & 1)) << (dict_prop / 2 + 11));
     return dict_size;
 }
-- 
2.43.0


From 75c8ccbaea98942deac54d4c329c72fa7ccb7e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 21/39] fix: FL2_decompressDCtx doesn't read a property byte
 from empty input

---
 fl2_decompress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 2665df4..dfccdd5 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -320,6 +320,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressDCtx(FL2_DCtx* dctx,
     const BYTE *srcBuf = src;
 
     if (prop == LZMA2_PROP_UNINITIALIZED) {
+        if (srcSize == 0)
+            return FL2_ERROR(srcSize_wrong);
         prop = *(const BYTE*)src;
         ++srcBuf;
         --srcSize;
-- 
2.43.0


From 638fa67a3de19a4b8c7f440812f34528d0e7f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 22/39] fix: multithreaded decoding verifies that each block
 was decoded completely

If the chunk headers and the data disagreed, uninitialized memory was returned
as content, or the streaming decoder looped forever.
---
 fl2_decompress.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index dfccdd5..ddcfeb0 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -175,9 +175,11 @@ static void FL2_decompressCtxBlock(void* const jobDescription, ptrdiff_t const n
 
     blocks[n].res = LZMA2_decodeToDic(blocks[n].dec, blocks[n].unpackSize, blocks[n].src, &srcLen, blocks[n].finish);
 
-    /* If no error occurred, store into res the dic_pos value, which is the end of the decompressed data in the buffer */
+    /* If no error occurred, store into res the dic_pos value, which is the end of the decompressed data in the buffer.
+     * The chunk headers gave the size, so the block is corrupt if it was not filled using all of its input. */
     if (!FL2_isError(blocks[n].res))
-        blocks[n].res = blocks[n].dec->dic_pos;
+        blocks[n].res = (blocks[n].dec->dic_pos == blocks[n].unpackSize && srcLen == blocks[n].packSize)
+            ? blocks[n].dec->dic_pos : FL2_ERROR(corruption_detected);
 }
 
 static size_t FL2_decompressCtxBlocksMt(FL2_DCtx* const dctx, const BYTE *const src, BYTE *const dst, size_t const dstCapacity, size_t const nbThreads)
@@ -747,6 +749,10 @@ static size_t FL2_decompressBlockMt(FL2_DStream* const fds, size_t const thread)
 
         FL2_atomic_add(fds->progress, (long)(dec->dic_pos - dicPos));
 
+        /* The block can only be completed by its last input buffer */
+        if (cur != ti->inBlock.last && (res == LZMA_STATUS_OUTPUT_FULL || res == LZMA_STATUS_FINISHED))
+            return FL2_ERROR(corruption_detected);
+
         if (res == LZMA_STATUS_FINISHED)
             DEBUGLOG(4, "Found end mark");
 
@@ -764,6 +770,10 @@ static size_t FL2_decompressBlockMt(FL2_DStream* const fds, size_t const thread)
     if (FL2_atomic_load(decmt->canceled))
         return FL2_ERROR(canceled);
 
+    /* The output buffer size is from the chunk headers. It is not initialized beyond dic_pos. */
+    if (dec->dic_pos != ti->bufSize)
+        return FL2_ERROR(corruption_detected);
+
     return FL2_error_no_error;
 }
 
-- 
2.43.0


From 703b3e4a2c21ecfc4fb6e9aa3212fcc2e4d17ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 23/39] fix: FL2_decompressStream checks the property byte is
 available and valid

With MT decoding the byte was read even if the input was empty, and errors from
initialization were ignored, leaving the decoder without a dictionary.
---
 fl2_decompress.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index ddcfeb0..9bdc1e5 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1210,13 +1210,13 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
 
     if (input->pos < input->size
 #ifndef FL2_SINGLETHREAD
-        || decmt
+        || (decmt && fds->stage != FL2DEC_STAGE_INIT)
 #endif
         ) {
         if (fds->stage == FL2DEC_STAGE_INIT) {
             BYTE prop = ((const BYTE*)input->src)[input->pos];
+            CHECK_F(FL2_initDStream_prop(fds, prop));
             ++input->pos;
-            FL2_initDStream_prop(fds, prop);
             fds->stage = FL2DEC_STAGE_DECOMP;
         }
 #ifndef FL2_SINGLETHREAD
-- 
2.43.0


From a8f85e3d1b67d9dd7dc081935a002d368fc31a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 24/39] fix: cancellation of decompression can't deadlock or
 use a missing MT decoder

The decompression thread waited for itself when it found no progress was being
made, and FL2_cancelDStream crashed if a timeout was set for a single-threaded
decoder.
---
 fl2_decompress.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 9bdc1e5..58da75e 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1152,11 +1152,13 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
 {
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
-        FL2_atomic_store(fds->decmt->canceled, 1);
+        if (fds->decmt != NULL)
+            FL2_atomic_store(fds->decmt->canceled, 1);
 
         FL2POOL_waitAll(fds->decompressThread, 0);
 
-        fds->decmt->canceled = 0;
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 0;
     }
     FL2_lzma2DecMt_cleanup(fds->decmt);
 #endif
@@ -1263,7 +1265,10 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         /* No progress was made */
         ++fds->loopCount;
         if (fds->loopCount > 2) {
-            FL2_cancelDStream(fds);
+#ifndef FL2_SINGLETHREAD
+            /* This may be the decompression thread, so can't wait for it */
+            FL2_lzma2DecMt_cleanup(decmt);
+#endif
             return FL2_ERROR(buffer);
         }
     }
-- 
2.43.0


From 8eacd30f6b77c933174a2125aadb3d6f9779bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 25/39] fix: a rejected FL2_decompressStream call leaves the
 progress counters alone

They may be in use by the decompression thread at that time.
---
 fl2_decompress.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 58da75e..12c2736 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1300,15 +1300,17 @@ static void FL2_decompressStream_async(void* const jobDescription, ptrdiff_t con
 
 FL2LIB_API size_t FL2LIB_CALL FL2_decompressStream(FL2_DStream* fds, FL2_outBuffer* output, FL2_inBuffer* input)
 {
+#ifndef FL2_SINGLETHREAD
+    /* Calling FL2_decompressStream() while waiting for decompressThread to fall idle is not allowed */
+    if (fds->decompressThread != NULL && FL2_atomic_load(fds->wait))
+        return FL2_ERROR(stage_wrong);
+#endif
+
     fds->streamTotal += fds->progress;
     fds->progress = 0;
 
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
-        /* Calling FL2_decompressStream() while waiting for decompressThread to fall idle is not allowed */
-        if (FL2_atomic_load(fds->wait))
-            return FL2_ERROR(stage_wrong);
-
         fds->asyncOutput = output;
         fds->asyncInput = input;
         /* FL2_decompressStream_async will reset fds->wait upon completion */
-- 
2.43.0


From ef2ec84c47b29e11ae641da272e80696b8e98be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 26/39] fix: FL2_freeDStream stops the decompression thread
 before freeing its decoder

---
 fl2_decompress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 12c2736..b3d0ff5 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1081,11 +1081,13 @@ FL2LIB_API size_t FL2LIB_CALL FL2_freeDStream(FL2_DStream* fds)
 {
     if (fds != NULL) {
         DEBUGLOG(3, "FL2_freeDStream");
-        LZMA_destructDCtx(&fds->dec);
 #ifndef FL2_SINGLETHREAD
+        /* Stop the thread before freeing anything it uses */
+        FL2_cancelDStream(fds);
         FL2POOL_free(fds->decompressThread);
         FL2_lzma2DecMt_free(fds->decmt);
 #endif
+        LZMA_destructDCtx(&fds->dec);
 #ifndef NO_XXHASH
         XXH32_freeState(fds->xxh);
 #endif
-- 
2.43.0


From 5915b61d8114e8e415f0b0ca5a04f6247711cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 27/39] fix: MT decoding doesn't rewind the input beyond the
 start of the current call

Bytes before the initial position need not be the ones supplied in the last call.
---
 fl2_decompress.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index b3d0ff5..19a6ca9 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -894,6 +894,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
 {
     FL2_decBlock *inBlock = &decmt->threads[decmt->numThreads].inBlock;
     LZMA2_parseRes res = CHUNK_CONTINUE;
+    size_t const startPos = input->pos;
     /* Continue while input is available or the parse pos is not beyond the end */
     while (input->pos < input->size || inBlock->endPos < inBlock->last->length) {
         if (inBlock->endPos < inBlock->last->length) {
@@ -910,7 +911,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
                 if (end != 0) {
                     inBlock = &decmt->threads[decmt->numThreads - 1].inBlock;
                     /* rewind input in case data beyond terminator was read. Required for xxhash and container formats */
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - startPos, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                     return end;
@@ -923,7 +924,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
             FL2_decInbuf *const next = FL2_createInbufNode(decmt, inBlock->last);
             if (next == NULL) {
                 if (inBlock->endPos < inBlock->last->length) {
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - startPos, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                 }
-- 
2.43.0


From 3d5f6c198ecc0fec34282d6e6ace634b608daf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 28/39] fix: the MT decoder's memory total includes the head
 and can't underflow

It was set to zero before buffers of an abandoned stream were freed and
subtracted, after which the memory limit was always exceeded.
---
 fl2_decompress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 19a6ca9..968377b 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -600,9 +600,10 @@ static void FL2_lzma2DecMt_init(FL2_decMt *const decmt)
         decmt->failState = 0;
         decmt->isFinal = 0;
         decmt->canceled = 0;
-        decmt->memTotal = 0;
         FL2_freeOutputBuffers(decmt);
         LZMA2_freeExtraInbufNodes(decmt);
+        /* Only the head remains */
+        decmt->memTotal = sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1;
         decmt->threads[0].inBlock.first = decmt->head;
         decmt->threads[0].inBlock.last = decmt->head;
         decmt->threads[0].inBlock.startPos = 0;
-- 
2.43.0


From fa700ffb741b7a49edd405fb1d372641e3fb38ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 29/39] fix: MT decoder cleanup resets the block pointers to
 the remaining input buffer

A call made after an error used freed nodes.
---
 fl2_decompress.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 968377b..3a5afa9 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -580,6 +580,12 @@ static void FL2_lzma2DecMt_cleanup(FL2_decMt *const decmt)
     if (decmt) {
         FL2_freeOutputBuffers(decmt);
         LZMA2_freeExtraInbufNodes(decmt);
+        /* Don't refer to freed nodes if the caller continues without reinitializing */
+        decmt->threads[0].inBlock.first = decmt->head;
+        decmt->threads[0].inBlock.last = decmt->head;
+        decmt->threads[0].inBlock.startPos = 0;
+        decmt->threads[0].inBlock.endPos = 0;
+        decmt->threads[0].inBlock.unpackSize = 0;
     }
 }
 
@@ -600,15 +606,9 @@ static void FL2_lzma2DecMt_init(FL2_decMt *const decmt)
         decmt->failState = 0;
         decmt->isFinal = 0;
         decmt->canceled = 0;
-        FL2_freeOutputBuffers(decmt);
-        LZMA2_freeExtraInbufNodes(decmt);
+        FL2_lzma2DecMt_cleanup(decmt);
         /* Only the head remains */
         decmt->memTotal = sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1;
-        decmt->threads[0].inBlock.first = decmt->head;
-        decmt->threads[0].inBlock.last = decmt->head;
-        decmt->threads[0].inBlock.startPos = 0;
-        decmt->threads[0].inBlock.endPos = 0;
-        decmt->threads[0].inBlock.unpackSize = 0;
     }
 }
 
-- 
2.43.0


From 8d7f14255d63c6ff820b6d0780741b8860b9b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 30/39] fix: a block of an MT stream may be completed before
 its last input buffer

---
 fl2_decompress.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 3a5afa9..fe1b003 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -750,10 +750,6 @@ static size_t FL2_decompressBlockMt(FL2_DStream* const fds, size_t const thread)
 
         FL2_atomic_add(fds->progress, (long)(dec->dic_pos - dicPos));
 
-        /* The block can only be completed by its last input buffer */
-        if (cur != ti->inBlock.last && (res == LZMA_STATUS_OUTPUT_FULL || res == LZMA_STATUS_FINISHED))
-            return FL2_ERROR(corruption_detected);
-
         if (res == LZMA_STATUS_FINISHED)
             DEBUGLOG(4, "Found end mark");
 
@@ -766,6 +762,10 @@ static size_t FL2_decompressBlockMt(FL2_DStream* const fds, size_t const thread)
             inPos -= cur->length - LZMA_REQUIRED_INPUT_MAX;
             cur = cur->next;
         }
+        else if (dec->dic_pos == ti->bufSize || res == LZMA_STATUS_FINISHED) {
+            /* The block is complete but did not use all of its input */
+            return FL2_ERROR(corruption_detected);
+        }
     }
 
     if (FL2_atomic_load(decmt->canceled))
-- 
2.43.0


From f1d9004308d4aebb19a60e9f729e17ea0ad5b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 31/39] fix: reject a chunk whose compressed data is too short
 for the range coder

---
 lzma2_dec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 9268acd..8b0aadd 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1141,10 +1141,10 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
                 return FL2_ERROR(corruption_detected);
 
             /* Error conditions:
-               1. need input but chunk is finished
+               1. need input but all input of the chunk was available
                2. have output space, input not needed, but nothing was written*/
             if (res == LZMA_STATUS_NEEDS_MORE_INPUT)
-                return (p->pack_size == 0) ? FL2_ERROR(corruption_detected) : res;
+                return (cur_finish_mode == LZMA_FINISH_END) ? FL2_ERROR(corruption_detected) : res;
             else if (in_cur == 0 && p->dic_pos == dic_pos)
                 return FL2_ERROR(corruption_detected);
         }
-- 
2.43.0


From 6c667901391e2bd3d7c92677d5184810eecc3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 32/39] fix: 2-byte repeats starting in the overlap region left
 the table entries beyond it unset

---
 radix_engine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix_engine.h b/radix_engine.h
index fa15e33..193bd03 100644
--- a/radix_engine.h
+++ b/radix_engine.h
@@ -60,7 +60,7 @@ static size_t RMF_handleRepeat2(RMF_builder* const tbl, const BYTE* const data_b
 
     ptrdiff_t const rpt_index = i;
     /* No point if it's in the overlap region */
-    if (i >= (ptrdiff_t)start) {
+    if (last_2 >= (ptrdiff_t)start) {
         U32 len = depth + (data_block[last_2 + depth] == data_block[last_2]);
         /* Set matches at distance 2 and available length */
         for (i = last_2; i > rpt_index && len <= RADIX_MAX_LENGTH; i -= 2) {
-- 
2.43.0


From 00ee76b295c4cbd7ea67f9901ef38b3583ea98e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 33/39] fix: repeat handling in the match finder read up to 63
 bytes beyond the end of the data

---
 radix_mf.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/radix_mf.c b/radix_mf.c
index befa9c7..835627e 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -303,7 +303,7 @@ static void RMF_handleRepeat(RMF_buildMatch* const match_buffer,
     const BYTE* const data = data_block + match_buffer[pos].from;
     const BYTE* const data_2 = data - rpt_len;
 
-    while (data[length] == data_2[length] && length < max_len)
+    while (length < max_len && data[length] == data_2[length])
         ++length;
 
     for (; length <= max_len && count; --count) {
@@ -554,6 +554,8 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
             U32 rpt_dist = 0;
             size_t const prev_st_index = st_index;
             U32 const rpt_depth = depth - 1;
+            /* No reads beyond max_depth. Anything longer is extended when the match is read. */
+            U32 const max_rpt = MIN(tbl->max_len, max_depth);
             /* Last element done separately */
             --list_count;
             do {
@@ -562,7 +564,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                 size_t const next_link = tbl->match_buffer[next_index].from;
                 if ((link - next_link) > rpt_depth) {
                     if (rpt > 0)
-                        RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                        RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, max_rpt);
 
                     rpt = -1;
                     U32 const prev = tbl->tails_8[radix_8].prev_index;
@@ -584,7 +586,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                     U32 const dist = (U32)(link - next_link);
                     if (rpt < 0 || dist != rpt_dist) {
                         if (rpt > 0)
-                            RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                            RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, max_rpt);
 
                         rpt = 0;
                         rpt_head_next = next_index;
@@ -611,7 +613,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
             } while (--list_count != 0);
 
             if (rpt > 0)
-                RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, max_rpt);
 
             size_t const radix_8 = tbl->match_buffer[pos].src.chars[slot];
             U32 const prev = tbl->tails_8[radix_8].prev_index;
-- 
2.43.0


From b60f32ef018007d31ead5f7903a0c84612218638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 34/39] fix: match buffer size of a reused match table follows
 the dictionary size set

A context that was first used with a larger dictionary kept the match buffer
size of that dictionary, so its output differed from that of a new context
with the same parameters, and more memory was used than estimated.
---
 radix_mf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/radix_mf.c b/radix_mf.c
index 835627e..f618b85 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -262,6 +262,8 @@ BYTE RMF_compatibleParameters(const FL2_matchTable* const tbl, const RMF_paramet
 size_t RMF_applyParameters(FL2_matchTable* const tbl, const RMF_parameters* const p, size_t const dict_reduce)
 {
     RMF_parameters params = RMF_clampParams(*p);
+    /* The match buffer size depends on the dictionary size set, not on the one the table was created for */
+    tbl->unreduced_dict_size = params.dictionary_size;
     RMF_reduceDict(&params, dict_reduce);
     return RMF_applyParameters_internal(tbl, &params);
 }
-- 
2.43.0


From b1e787ef2ea42d1eeb9fdff1a0c1fca48cd6bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 35/39] fix: memory estimates include the list heads and stacks
 of the match table

---
 radix_mf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix_mf.c b/radix_mf.c
index f618b85..988da7e 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -733,7 +733,7 @@ BYTE* RMF_getTableAsOutputBuffer(FL2_matchTable* const tbl, size_t const pos)
 
 size_t RMF_memoryUsage(size_t const dict_size, unsigned const buffer_resize, unsigned const thread_count)
 {
-    size_t size = (size_t)(4U + RMF_isStruct(dict_size)) * dict_size;
+    size_t size = sizeof(FL2_matchTable) + (size_t)(4U + RMF_isStruct(dict_size)) * dict_size;
     size_t const buf_size = RMF_calBufSize(dict_size, buffer_resize);
     size += ((buf_size - 1) * sizeof(RMF_buildMatch) + sizeof(RMF_builder)) * thread_count;
     return size;
-- 
2.43.0


From d25748d07473495355871cee0e897a1195514351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 36/39] fix: stream memory estimate includes the dictionary
 buffers before they are allocated

---
 fl2_compress.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 60a0281..c8cb2dd 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1345,5 +1345,12 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_byParams(const FL2_compres
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_usingCStream(const FL2_CStream* fcs)
 {
-    return FL2_estimateCCtxSize_usingCCtx(fcs);
+    size_t const dictSize = fcs->params.rParams.dictionary_size;
+    size_t size = FL2_estimateCCtxSize_usingCCtx(fcs);
+
+    /* The dictionary buffers are allocated, or enlarged, when the stream is initialized */
+    if (dictSize > fcs->buf.size)
+        size += (dictSize - fcs->buf.size) << fcs->buf.async;
+
+    return size;
 }
-- 
2.43.0


From 6c11dc22a7cf648dfcf798f024ff6da0e842e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 37/39] fix: FL2_getDictSizeFromProp accepts the first byte of
 a stream with a checksum

---
 fl2_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index fe1b003..37c3eac 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -34,7 +34,7 @@ FL2LIB_API unsigned long long FL2LIB_CALL FL2_findDecompressedSize(const void *s
 
 FL2LIB_API size_t FL2LIB_CALL FL2_getDictSizeFromProp(unsigned char prop)
 {
-    return LZMA2_getDictSizeFromProp(prop);
+    return LZMA2_getDictSizeFromProp(prop & FL2_LZMA_PROP_MASK);
 }
 
 typedef struct
-- 
2.43.0


From 97793e72362b1b53ab73dbc70ceb25d33cc928f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 38/39] fix: compression progress reaches the exact total

---
 fl2_compress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index c8cb2dd..773918c 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1116,7 +1116,8 @@ FL2LIB_API unsigned long long FL2LIB_CALL FL2_getCStreamProgress(const FL2_CStre
     if (progressIn == 0 && fcs->curBlock.end != 0)
         return fcs->streamTotal + ((FL2_atomic_load(fcs->matchTable->progress) * encodeSize / fcs->curBlock.end * fcs->rmfWeight) >> 4);
 
-    return fcs->streamTotal + ((fcs->rmfWeight * encodeSize) >> 4) + ((progressIn * fcs->encWeight) >> 4);
+    /* The weights total 16. Rounding each part would lose a byte at the end. */
+    return fcs->streamTotal + ((fcs->rmfWeight * encodeSize + (U64)progressIn * fcs->encWeight) >> 4);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_waitCStream(FL2_CStream * fcs)
-- 
2.43.0


From 057c941090fdbe237cd1f093af889aa830c6ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 39/39] fix: a dictionary reset by an uncompressed chunk ends a
 block in multithreaded decompression

LZMA2_parseInput reported CHUNK_DICT_RESET only for LZMA chunks, so blocks beginning with an
uncompressed chunk were joined to the one before and not given to a thread of their own.
---
 lzma2_dec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 8b0aadd..0999339 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1392,6 +1392,8 @@ LZMA2_parseRes LZMA2_parseInput(const BYTE* const in_buf, size_t const pos, ptrd
             return CHUNK_ERROR;
         inf->unpack_size = (((U32)in_buf[pos + 1] << 8) | in_buf[pos + 2]) + 1;
         inf->pack_size = 3 + inf->unpack_size;
+        if (control == LZMA2_CONTROL_COPY_RESET_DIC)
+            return CHUNK_DICT_RESET;
     }
     else {
         S32 const has_prop = LZMA2_IS_THERE_PROP(LZMA2_GET_LZMA_MODE(control));
-- 
2.43.0

