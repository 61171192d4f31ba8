// C21: objects are independent of each other. A set of callers, each with objects of its own, records what it sees: alone (in a process of
// its own), one inside another on one thread, call by call in a random order, and all at once. Every record must be the same.
#include "declib.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <unistd.h>
#include <sys/wait.h>
struct Ev { const char *op; u64 v; };
struct Turns;                                                           // whose turn it is
struct Actor { u64 seed; int kind; std::string what; std::vector<Ev> log; std::function<void()> point; u64 calls = 0;
    void rec(const char *op, u64 v) { log.push_back({ op, v }); step(); } void step() { ++calls; if (point) point(); } };
static u64 code(size_t c) { return FL2_isTimedOut(c) ? 3 : FL2_isError(c) ? 1000 + (u64)FL2_getErrorCode(c) : c; }
static u64 hb(const u8 *p, size_t c) { return FL2_isError(c) ? 1000 + (u64)FL2_getErrorCode(c) : mix64(hash_bytes(p, c), c); }
static size_t cap_n = 250000;
static Params small_params(Rng &r) { Params p = gen_params(r, PP_SMALLDICT); p.high = false; if (p.level > 5) p.level = 2; if (p.dict > (2u << 20) || !p.dict) { p.dict = 1u << 20; p.add(FL2_p_dictionarySize, p.dict); } return p; }
static Bytes data(Rng &r, size_t cap) { Bytes b = gen_data(r, r.chance(35) ? r.range(cap / 3, cap) : r.logsize(1, cap)); if (r.chance(15)) { static const char *ab = "abcd"; for (auto &c : b) c = (u8)ab[r.below(3)]; } return b; }
static void params_of(Actor &A, FL2_CCtx *c) { for (int p : { FL2_p_compressionLevel, FL2_p_highCompression, FL2_p_dictionaryLog, FL2_p_dictionarySize, FL2_p_overlapFraction, FL2_p_resetInterval, FL2_p_bufferResize, FL2_p_hybridChainLog, FL2_p_hybridCycles, FL2_p_searchDepth, FL2_p_fastLength, FL2_p_divideAndConquer, FL2_p_strategy, FL2_p_literalCtxBits, FL2_p_literalPosBits, FL2_p_posBits, FL2_p_omitProperties }) A.rec("get", code(FL2_CCtx_getParameter(c, (FL2_cParameter)p))); A.rec("prop", FL2_getCCtxDictProp(c)); A.rec("threads", FL2_getCCtxThreadCount(c)); }
static Src frame(Rng &r) { if (r.chance(40)) return gen_src(r, cap_n / 2, 40); SynthOpt o = synth_opt(r, cap_n); o.target = r.range(10000, cap_n); if (o.max_chunk) o.max_chunk = std::max<size_t>(o.max_chunk, 500); o.dict_prop = (u8)r.below(10); Src s; s.f = synth_frame(r, o).frame; s.how = "synth"; s.clean = true; return s; }
// one-shot compression: a context used several times with changing parameters
static void a_cctx(Actor &A, Rng &r) {
    unsigned thr = (unsigned)r.range(1, 3); FL2_CCtx *c = thr == 1 && r.chance(50) ? FL2_createCCtx() : FL2_createCCtxMt(thr); A.rec("create", c != nullptr); if (!c) return; params_of(A, c);
    for (int k = (int)r.range(1, 3); k; --k) { if (r.chance(75)) { Params p = small_params(r); A.rec("apply", code(apply_params(c, p))); } if (r.chance(30)) params_of(A, c);
        Bytes in = data(r, cap_n), o(FL2_compressBound(in.size()) + 8); size_t cap = r.chance(15) ? r.below(in.size() + 1) : o.size(); int lv = r.chance(25) ? (int)r.range(1, 4) : 0; size_t z = FL2_compressCCtx(c, o.data(), cap, in.data(), in.size(), lv); A.rec("compress", hb(o.data(), z)); }
    FL2_freeCCtx(c); A.rec("free", 0);
}
static void a_cstream(Actor &A, Rng &r) {
    unsigned thr = (unsigned)r.range(1, 3); int dual = r.chance(30); unsigned to = r.chance(15) ? 1 : 0; FL2_CStream *f = thr == 1 && !dual && r.chance(50) ? FL2_createCStream() : FL2_createCStreamMt(thr, dual); A.rec("create", f != nullptr); if (!f) return; bool exact = !dual && !to;
    if (r.chance(80)) { Params p = small_params(r); A.rec("apply", code(apply_params(f, p))); } FL2_setCStreamTimeout(f, to); size_t total = 0;
    for (int k = (int)r.range(1, 2); k; --k) { size_t e = FL2_initCStream(f, r.chance(30) ? (int)r.range(1, 3) : 0); A.rec("init", code(e)); if (FL2_isError(e)) break; Bytes in; COpt o; o.flush_pct = 0; o.query_pct = exact ? 5 : 0; o.in_max = r.logsize(2000, 300000); o.out_max = r.logsize(3000, 300000); if (r.chance(50)) in = gen_seams(r, r.logsize(1000, 3 * cap_n / 2), o.cuts); else { in = data(r, 2 * cap_n); size_t c = 0; while (r.chance(60)) { c += r.range(1, in.size() / 2 + 1); if (c < in.size()) o.cuts.push_back(c); } } if (o.cuts.size() > 12) o.cuts.resize(12); if (!exact) o.cuts.clear();
        bool part = exact && r.chance(15); if (part) o.stop_after = r.below(in.size() + 1); Actor *a = &A; if (exact) o.observe = [a, f](const char *op, size_t fed, size_t got, bool) { unsigned long long out = 0, n = FL2_getCStreamProgress(f, &out); a->rec(op, mix64(fed, got, mix64(n, out))); }; else o.observe = [a](const char *, size_t, size_t, bool) { a->step(); };
        Rng q(r.next()); CRun R = cstream_run(f, in, q, o); A.rec("result", mix64(code(R.err), hash_bytes(R.out), R.ended + 2 * R.stuck)); total += R.out.size(); if (r.chance(20)) { FL2_cancelCStream(f); A.rec("cancel", 0); } }
    if (exact && r.chance(50)) params_of(A, f); FL2_freeCStream(f); A.rec("free", total);
}
static void a_dstream(Actor &A, Rng &r) {
    unsigned thr = (unsigned)r.range(1, 3), to = r.chance(15) ? 1 : 0; FL2_DStream *d = thr == 1 && r.chance(50) ? FL2_createDStream() : FL2_createDStreamMt(thr); A.rec("create", d != nullptr); if (!d) return; if (r.chance(20)) FL2_setDStreamMemoryLimitMt(d, r.logsize(10000, 30 << 20)); FL2_setDStreamTimeout(d, to);
    for (int k = (int)r.range(1, 3); k; --k) { Src s = frame(r); DOpt o; o.in_max = r.logsize(500, 300000); o.out_max = r.logsize(2000, 300000); o.style = r.chance(60) ? 0 : 4; Actor *a = &A; bool exact = thr == 1 && !to; if (exact) o.observe = [a, d](size_t fed, size_t got, size_t c) { a->rec("ds", mix64(fed, got, mix64(code(c), FL2_getDStreamProgress(d)))); }; else o.observe = [a](size_t, size_t, size_t) { a->step(); };
        Rng q(r.next()); DResult R = dstream_run(d, s.f, q, o); A.rec("verdict", R.ended ? 0 : FL2_isError(R.code) ? 1 : 2); if (R.ended || exact) A.rec("content", mix64(hash_bytes(R.out), R.consumed)); if (FL2_isError(R.code) && exact) A.rec("error", code(R.code)); if (r.chance(15)) { FL2_cancelDStream(d); A.rec("cancel", 0); } }
    FL2_freeDStream(d); A.rec("free", 0);
}
static void a_dctx(Actor &A, Rng &r) {
    unsigned thr = (unsigned)r.range(1, 3); FL2_DCtx *d = thr == 1 ? FL2_createDCtx() : FL2_createDCtxMt(thr); A.rec("create", d != nullptr); if (!d) return; A.rec("threads", FL2_getDCtxThreadCount(d));
    for (int k = (int)r.range(1, 4); k; --k) { Src s = frame(r); unsigned long long n = FL2_findDecompressedSize(s.f.data(), s.f.size()); A.rec("size", n); if (n > 4000000) n = 4000000; Bytes o((size_t)n + 40, 0xA5); size_t cap = r.chance(20) ? r.below(n + 1) : o.size(); bool raw = r.chance(15) && s.f.size() > 1; if (raw) { A.rec("init", code(FL2_initDCtx(d, s.f[0]))); }
        size_t z = raw ? FL2_decompressDCtx(d, o.data(), cap, s.f.data() + 1, s.f.size() - 1) : FL2_decompressDCtx(d, o.data(), cap, s.f.data(), s.f.size()); if (FL2_isError(z) && thr > 1) A.rec("decompress", 1); else A.rec("decompress", hb(o.data(), z)); }
    FL2_freeDCtx(d); A.rec("free", 0);
}
static void a_simple(Actor &A, Rng &r) {
    for (int k = (int)r.range(2, 5); k; --k) { if (r.chance(50)) { Bytes in = data(r, cap_n / 2), o(FL2_compressBound(in.size())); unsigned thr = (unsigned)r.range(1, 2); int lv = (int)r.range(0, 2); size_t z = thr == 1 ? FL2_compress(o.data(), o.size(), in.data(), in.size(), lv) : FL2_compressMt(o.data(), o.size(), in.data(), in.size(), lv, thr); A.rec("compress", hb(o.data(), z)); }
        else { Src s = frame(r); unsigned long long n = FL2_findDecompressedSize(s.f.data(), s.f.size()); A.rec("size", n); if (n > 4000000) n = 4000000; Bytes o((size_t)n + 9); unsigned thr = (unsigned)r.range(1, 3); size_t z = thr == 1 ? FL2_decompress(o.data(), o.size(), s.f.data(), s.f.size()) : FL2_decompressMt(o.data(), o.size(), s.f.data(), s.f.size(), thr); if (FL2_isError(z)) A.rec("decompress", 1); else A.rec("decompress", hb(o.data(), z)); } }
}
// questions that involve no data, and objects that come and go
static void a_query(Actor &A, Rng &r) {
    for (int k = (int)r.range(5, 25); k; --k) switch (r.below(8)) {
    case 0: { FL2_compressionParameters q; memset(&q, 0, sizeof q); int lv = (int)r.range(1, 12), hi = (int)r.below(2); size_t e = FL2_getLevelParameters(lv, hi, &q); A.rec("level", FL2_isError(e) ? code(e) : mix64(q.dictionarySize, q.chainLog + 100 * q.searchDepth, q.fastLength + 1000 * q.cyclesLog + 1000000 * (u64)q.strategy)); break; }
    case 1: A.rec("estimate", FL2_estimateCCtxSize((int)r.range(1, 10), (unsigned)r.range(1, 8))); break;
    case 2: { size_t n = r.logsize(1, 1u << 30); A.rec("bound", FL2_compressBound(n)); break; }
    case 3: { u8 p = (u8)r.next(); A.rec("dictsize", FL2_getDictSizeFromProp(p)); A.rec("memory", code(FL2_estimateDCtxSize((unsigned)r.range(1, 4)))); break; }
    case 4: { FL2_CCtx *c = FL2_createCCtxMt((unsigned)r.range(1, 4)); if (!c) break; for (int j = (int)r.range(1, 6); j; --j) A.rec("set", code(FL2_CCtx_setParameter(c, (FL2_cParameter)r.below(20), r.chance(70) ? r.below(300) : r.next()))); params_of(A, c); A.rec("estimate_cctx", FL2_estimateCCtxSize_usingCCtx(c)); FL2_freeCCtx(c); A.step(); break; }
    case 5: { FL2_DStream *d = FL2_createDStreamMt((unsigned)r.range(1, 3)); A.step(); if (!d) break; A.rec("initd", code(r.chance(50) ? FL2_initDStream(d) : FL2_initDStream_withProp(d, (u8)r.below(60)))); A.rec("dmem", code(FL2_estimateDStreamSize(r.logsize(1 << 10, 1 << 28), (unsigned)r.range(0, 3)))); FL2_freeDStream(d); A.step(); break; }
    case 6: { FL2_CStream *c = FL2_createCStreamMt((unsigned)r.range(1, 3), (int)r.below(2)); A.step(); if (!c) break; A.rec("smem", code(FL2_estimateCStreamSize((int)r.range(1, 8), (unsigned)r.range(1, 4), (int)r.below(2)))); A.rec("smem_using", code(FL2_estimateCStreamSize_usingCStream(c))); FL2_CCtx_setParameter(c, FL2_p_dictionarySize, 1u << 20); A.rec("init", code(FL2_initCStream(c, (int)r.below(3)))); unsigned long long o; A.rec("progress", FL2_getCStreamProgress(c, &o)); FL2_freeCStream(c); A.step(); break; }
    default: { u8 h[8]; for (u8 &b : h) b = (u8)r.next(); A.rec("dprop", FL2_getDictSizeFromProp((u8)r.below(64))); A.rec("find", FL2_findDecompressedSize(h, sizeof h)); const char *e = FL2_getErrorName((size_t)0 - r.below(20)); A.rec("name", hash_bytes((const u8 *)e, strlen(e))); } }
}
static void act(Actor &A) { A.log.clear(); Rng r(A.seed); switch (A.kind) { case 0: a_cctx(A, r); break; case 1: a_cstream(A, r); break; case 2: a_dstream(A, r); break; case 3: a_dctx(A, r); break; case 4: a_simple(A, r); break; default: a_query(A, r); } }
static const char *KIND[] = { "one-shot context", "compression stream", "decompression stream", "decompression context", "simple functions", "queries" };
typedef std::vector<Ev> Log;
static bool same(const Log &a, const Log &b, const char *how, int kind, const std::string &all) {
    size_t n = std::min(a.size(), b.size()), i = 0; while (i < n && a[i].v == b[i].v && !strcmp(a[i].op, b[i].op)) ++i;
    vf_stat("records_compared"); vf_stat("answers_compared", n); if (i == a.size() && i == b.size()) return true;
    vf_viol("not-independent", "%s, %s: answer %zu differs (%s) of %zu/%zu; callers: %s", KIND[kind], how, i, i < n ? a[i].op : "end", a.size(), b.size(), all.c_str()); return false; }
// one turn at a time, handed on at random after each call
struct Turns { std::mutex m; std::condition_variable cv; std::vector<bool> live; size_t cur = 0; Rng r; u64 switches = 0, order = 7; unsigned keep;
    Turns(size_t n, u64 seed, unsigned k) : live(n, true), r(seed), keep(k) { cur = r.below(n); }
    void next() { std::vector<size_t> c; for (size_t i = 0; i < live.size(); ++i) if (live[i]) c.push_back(i); if (c.empty()) return; size_t k = c[r.below(c.size())]; if (k != cur) ++switches; cur = k; order = mix64(order, k); cv.notify_all(); }
    void wait(size_t me) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return cur == me; }); }
    void pass(size_t me) { std::unique_lock<std::mutex> l(m); if (r.chance(keep)) return; next(); cv.wait(l, [&] { return cur == me; }); }
    void done(size_t me) { std::unique_lock<std::mutex> l(m); live[me] = false; next(); } };
static Log alone_in_child(Actor &A, bool &ok) {
    int fd[2]; ok = false; if (pipe(fd)) return {}; vf_flush(); fflush(stdout); pid_t p = fork(); if (p < 0) { close(fd[0]); close(fd[1]); return {}; }
    if (p == 0) { close(fd[0]); int n = dup(1); (void)n; A.point = nullptr; act(A); u64 k = A.log.size(); std::vector<u64> v{ k }; for (auto &e : A.log) { v.push_back((u64)(uintptr_t)e.op); v.push_back(e.v); } const char *b = (const char *)v.data(); size_t left = v.size() * 8; while (left) { ssize_t w = write(fd[1], b, left); if (w <= 0) break; b += w; left -= (size_t)w; } _exit(0); }
    close(fd[1]); std::vector<u8> all; u8 buf[65536]; ssize_t g; while ((g = read(fd[0], buf, sizeof buf)) > 0) all.insert(all.end(), buf, buf + g); close(fd[0]); int st; waitpid(p, &st, 0); Log L; if (all.size() < 8) return L; u64 k; memcpy(&k, all.data(), 8); if (all.size() != 8 + 16 * k) return L; for (u64 i = 0; i < k; ++i) { u64 o, v; memcpy(&o, all.data() + 8 + 16 * i, 8); memcpy(&v, all.data() + 16 + 16 * i, 8); L.push_back({ (const char *)(uintptr_t)o, v }); } ok = true; return L;    // the same program: the names are where they were
}
static void one_case(u64 idx, Rng &r, bool forks) {
    unsigned n = (unsigned)r.range(2, 5); std::vector<Actor> as(n); std::string all; bool twins = r.chance(35); int kk = (int)r.pick({ 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5 });
    for (auto &a : as) { a.seed = r.next(); a.kind = twins && r.chance(70) ? kk : (int)r.pick({ 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5 }); all += std::string(all.empty() ? "" : ", ") + KIND[a.kind]; } vf_info("%s", all.c_str());
    std::vector<Log> ref(n); vfh_noise(0, 1, 1);
    for (unsigned i = 0; i < n; ++i) { bool ok = false; if (forks) { ref[i] = alone_in_child(as[i], ok); if (!ok) { vf_viol("alone-failed", "%s: the process that ran it alone ended", KIND[as[i].kind]); return; } vf_stat("alone_in_own_process"); } else { as[i].point = nullptr; act(as[i]); ref[i] = as[i].log; } vf_stat("callers"); vf_stat("answers", ref[i].size()); vf_distinct("nontrivial", mix64(hash_bytes((const u8 *)KIND[as[i].kind], 4), ref[i].empty() ? 0 : ref[i].back().v, as[i].seed)); }
    if (idx < 3) vf_sample("%s: %zu answers of the first one", all.c_str(), ref[0].size());
    // one inside another: at some of its calls, a caller runs the others from start to end on the same thread
    if (r.chance(60)) { unsigned o = (unsigned)r.below(n); u64 left = r.range(1, 4); unsigned pc = (unsigned)r.pick({ 3, 20, 60 }); Rng q(r.next()); bool in = false, bad = false; Actor &A = as[o]; std::vector<Actor> inner = as;
        A.point = [&] { if (in || !left || bad || !q.chance(pc)) return; --left; in = true; unsigned k = (unsigned)q.below(n); if (k == o) k = (k + 1) % n; inner[k].point = nullptr; act(inner[k]); vf_stat("nested_runs"); if (!same(ref[k], inner[k].log, "run between two calls of another", inner[k].kind, all)) bad = true; in = false; };
        act(A); A.point = nullptr; if (bad || !same(ref[o], A.log, "with others run between its calls", A.kind, all)) return; }
    // call by call
    { Turns T(n, r.next(), (unsigned)r.pick({ 0, 0, 50, 80 })); vfh_noise((int)r.pick({ 0, 0, 20 }), 50, r.next()); std::vector<std::thread> ts; for (unsigned i = 0; i < n; ++i) { as[i].point = [&T, i] { T.pass(i); }; ts.emplace_back([&, i] { T.wait(i); act(as[i]); T.done(i); }); } for (auto &t : ts) t.join(); vfh_noise(0, 1, 1);
      vf_stat("switches", T.switches); vf_distinct("call_orders", T.order); for (unsigned i = 0; i < n; ++i) if (!same(ref[i], as[i].log, "call by call with others", as[i].kind, all)) return; }
    // all at once
    { vfh_reset(); vfh_noise((int)r.pick({ 0, 10, 60, 200 }), (unsigned)r.pick({ 20, 200, 1000 }), r.next()); std::atomic<unsigned> ready{0}; std::vector<std::thread> ts; std::vector<Rng> d; for (unsigned i = 0; i < n; ++i) d.emplace_back(r.next());
      for (unsigned i = 0; i < n; ++i) { as[i].point = nullptr; ts.emplace_back([&, i] { ready++; while (ready < n) std::this_thread::yield(); act(as[i]); }); } for (auto &t : ts) t.join(); vfh_noise(0, 1, 1); vf_stat("sync_events", vfh_events()); vf_distinct("interleavings", vfh_order_hash()); vf_stat("concurrent_sets");
      for (unsigned i = 0; i < n; ++i) if (!same(ref[i], as[i].log, "at the same time as others", as[i].kind, all)) return; }
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv); bool forks = a.extra.find("fork") != std::string::npos; if (a.extra.find("slow") != std::string::npos) cap_n = 80000;
    vf_loop(a, [&](u64 i, Rng &r) { vfh_reset(); one_case(i, r, forks); vf_flush(); });
    return 0;
}
