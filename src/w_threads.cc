// C23: threads are used as asked. Counts reported and threads started are compared with the request; library threads are held at a gate as
// they take up work, so that all of them have to arrive before any goes on: work that is not handed to all cannot pass unnoticed.
#include "declib.h"
#include <thread>
#include <atomic>
#include <unistd.h>
static const unsigned MAXT = 200;                                          // FL2_MAXTHREADS
static const size_t PER_THREAD = 0x1C000;
static void nap(long us) { struct timespec ts = { us / 1000000, us % 1000000 * 1000 }; nanosleep(&ts, nullptr); }
static bool started_at_most(long n, const char *what) { vf_stat("starts_compared"); if (vfh_tcreates() > n) { vf_viol("too-many-threads", "%s: %ld threads started, at most %ld wanted", what, vfh_tcreates(), n); return false; } return true; }
// what the objects say about themselves
static void counts(u64 idx, Rng &r) {
    unsigned n = r.chance(75) ? (unsigned)r.range(1, 9) : r.chance(50) ? 0 : (unsigned)r.pick({ 16u, 33u, 100u, 199u, 200u, 201u, 1000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu }); int kind = (int)r.below(6), dual = (int)r.below(2); vf_info("object %d for %u threads, dual=%d", kind, n, dual); vfh_reset();
    static unsigned all = 0; unsigned want = n > MAXT ? MAXT : n, got = 0; long extra = 0; const char *what = "";
    if (kind == 0) { what = "FL2_createCCtxMt"; FL2_CCtx *c = FL2_createCCtxMt(n); if (!c) { vf_viol("create", "%s", what); return; } got = FL2_getCCtxThreadCount(c); if (r.chance(30)) { Bytes in = gen_data(r, r.logsize(1, 300000)), o(FL2_compressBound(in.size())); FL2_CCtx_setParameter(c, FL2_p_dictionarySize, 1 << 20); if (got <= 16) FL2_compressCCtx(c, o.data(), o.size(), in.data(), in.size(), 1); if (FL2_getCCtxThreadCount(c) != got) vf_viol("count-changed", "%u, then %u", got, FL2_getCCtxThreadCount(c)); } started_at_most((long)got - 1, what); FL2_freeCCtx(c); }
    else if (kind == 1) { what = "FL2_createCStreamMt"; FL2_CStream *c = FL2_createCStreamMt(n, dual); if (!c) { vf_viol("create", "%s", what); return; } got = FL2_getCCtxThreadCount(c); extra = dual; if (r.chance(30)) { FL2_setCStreamTimeout(c, (unsigned)r.below(3)); extra = 1; if (r.chance(50)) FL2_setCStreamTimeout(c, 1); } if (FL2_getCCtxThreadCount(c) != got) vf_viol("count-changed", "%u, then %u", got, FL2_getCCtxThreadCount(c)); started_at_most((long)got - 1 + extra + (dual ? 0 : extra), what); if (vfh_live_threads() > (long)got - 1 + extra) vf_viol("too-many-threads", "%s: %ld alive for %u", what, vfh_live_threads(), got); FL2_freeCStream(c); }
    else if (kind == 2) { what = "FL2_createDCtxMt"; FL2_DCtx *d = FL2_createDCtxMt(n); if (!d) { vf_viol("create", "%s", what); return; } got = FL2_getDCtxThreadCount(d); started_at_most((long)got - 1, what); FL2_freeDCtx(d); }
    else if (kind == 3) { what = "single-threaded objects"; FL2_CCtx *c = FL2_createCCtx(); FL2_DCtx *d = FL2_createDCtx(); FL2_CStream *f = FL2_createCStream(); FL2_DStream *s = FL2_createDStream(); if (!c || !d || !f || !s) { vf_viol("create", "%s", what); return; } n = want = 1; got = FL2_getCCtxThreadCount(c); if (got == 1) got = FL2_getDCtxThreadCount(d); if (got == 1) got = FL2_getCCtxThreadCount(f);
        Bytes in = gen_data(r, r.range(300000, 700000)), o(FL2_compressBound(in.size())), b(in.size() + 1); FL2_CCtx_setParameter(c, FL2_p_dictionarySize, 1 << 20); size_t z = FL2_compressCCtx(c, o.data(), o.size(), in.data(), in.size(), 1); if (!FL2_isError(z)) FL2_decompressDCtx(d, b.data(), b.size(), o.data(), z); z = FL2_compress(o.data(), o.size(), in.data(), in.size(), 1); if (!FL2_isError(z)) { FL2_decompress(b.data(), b.size(), o.data(), z); o.resize(z); DOpt q; FL2_initDStream(s); Rng y(3); dstream_run(s, o, y, q); } started_at_most(0, what); FL2_freeCCtx(c); FL2_freeDCtx(d); FL2_freeCStream(f); FL2_freeDStream(s); }
    else if (kind == 4) { what = "FL2_createDStreamMt"; FL2_DStream *d = FL2_createDStreamMt(n); if (!d) { vf_viol("create", "%s", what); return; } got = n == 0 ? (all ? all : 1) : want; if (n && FL2_isError(FL2_initDStream(d))) vf_viol("init", "%s", what); if (n) started_at_most((long)want - 1, what); FL2_freeDStream(d); }
    else { what = "simple functions"; unsigned k = n > 12 ? 12 : n; Bytes in = gen_data(r, r.range(1, 900000)), o(FL2_compressBound(in.size())), b(in.size() + 1); size_t z = FL2_compressMt(o.data(), o.size(), in.data(), in.size(), 1, k); if (k) started_at_most((long)k - 1, "FL2_compressMt"); vfh_reset(); if (!FL2_isError(z)) { size_t y = FL2_decompressMt(b.data(), b.size(), o.data(), z, k); if (y != in.size()) vf_viol("wrong-output", "FL2_decompressMt with %u threads", k); } else vf_viol("error", "FL2_compressMt with %u threads: %s", k, enm(z)); if (k) started_at_most((long)k - 1, "FL2_decompressMt"); got = want; if (n == 0) got = all ? all : 1; }
    if (n == 0) { if (!all && kind < 3) all = got; long cpus = sysconf(_SC_NPROCESSORS_CONF); if (got < 1 || (long)got > std::max(cpus, 1L) || (all && got != all)) vf_viol("count", "%s for all cores: %u threads, another object %u, %ld processors", what, got, all, cpus); vf_stat("all_cores"); }
    else if (got != want) vf_viol("count", "%s for %u threads reports %u, expected %u", what, n, got, want);
    if (vfh_live_threads()) vf_viol("threads-left", "%s: %ld threads alive after the object was freed", what, vfh_live_threads()); vf_stat("counts_compared"); vf_distinct("nontrivial", mix64((u64)kind, n, (u64)dual)); if (idx < 2) vf_sample("%s for %u threads: %u", what, n, got);
}
struct Meet { u64 full = 0, most = 0; long alive = 0; bool partial = false; };
// runs op while the gate is closed; each time all n - 1 threads stand at the gate they are let through once
static Meet hold(unsigned n, const std::function<void()> &op) {
    Meet M; std::atomic<bool> done{false}; vfh_round(); vfh_gate(-2); std::thread t([&] { op(); done = true; }); double t0 = now_s(); u64 last = 0;
    while (!done) { u64 w = (u64)vfh_arrived(); M.alive = std::max(M.alive, vfh_live_threads()); M.most = std::max(M.most, w); if (w != last) { last = w; t0 = now_s(); }
        if (w + 1 >= n) { M.full++; vfh_round(); t0 = now_s(); last = 0; continue; }
        if (w > 0 && now_s() - t0 > 12) { M.partial = true; break; }                  // some stand at the gate, the others were given nothing
        nap(100); }
    vfh_gate(-1); t.join(); return M; }
static void judge_meet(const Meet &M, unsigned n, u64 least, const char *what) {
    vf_stat("meetings", M.full); vf_stat("held_operations"); if (M.alive > (long)n - 1 || M.most + 1 > n) vf_viol("too-many-threads", "%s: %ld threads alive, %llu at work besides the caller, for %u", what, M.alive, (unsigned long long)M.most, n);
    if (M.partial) vf_viol("idle-threads", "%s: only %llu of %u threads were given work at the same time, apart from the caller", what, (unsigned long long)M.most, n - 1); else if (M.full < least) vf_viol("idle-threads", "%s: all %u threads worked %llu times together, expected %llu (most: %llu)", what, n, (unsigned long long)M.full, (unsigned long long)least, (unsigned long long)M.most + 1); }
static void compress(u64 idx, Rng &r) {
    unsigned n = (unsigned)r.range(2, 8); size_t size = (size_t)(n * PER_THREAD * (r.chance(30) ? 1.0 : 1 + (double)r.below(100) / 60)); if (r.chance(30)) size += r.below(1000); Bytes in = gen_data(r, size, r.chance(50) ? -1 : 0); in.resize(size); int api = (int)r.below(3); Bytes out; size_t err = 0; vfh_reset(); vfh_gate(-1);
    Params p; p.level = (int)r.range(1, 4); p.add(FL2_p_dictionarySize, p.dict = 4u << 20); if (r.chance(30)) p.add(FL2_p_strategy, r.below(3)); if (r.chance(30)) p.add(FL2_p_searchDepth, r.range(6, 70)); if (r.chance(20)) p.add(FL2_p_divideAndConquer, r.below(2)); vf_info("compression api=%d %s threads=%u size=%zu", api, p.desc().c_str(), n, size); Meet M; u64 rounds = 1;
    if (api == 0) { if (size > 1u << 20) in.resize(size = 1u << 20); /* the dictionary of level 1 */ out.resize(FL2_compressBound(size)); M = hold(n, [&] { size_t z = FL2_compressMt(out.data(), out.size(), in.data(), size, p.level, n); if (FL2_isError(z)) err = z; else out.resize(z); }); }
    else if (api == 1) { FL2_CCtx *c = FL2_createCCtxMt(n); if (!c) return; apply_params(c, p); nap(3000); rounds = r.range(1, 2); out.resize(FL2_compressBound(size)); size_t z = 0; M = hold(n, [&] { for (u64 k = 0; k < rounds; ++k) z = FL2_compressCCtx(c, out.data(), out.size(), in.data(), size, 0); }); if (FL2_isError(z)) err = z; else out.resize(z); FL2_freeCCtx(c); }
    else { FL2_CStream *f = FL2_createCStreamMt(n, 0); if (!f) return; apply_params(f, p); err = FL2_initCStream(f, 0); if (!FL2_isError(err)) { out.resize(FL2_compressBound(size) + 100); err = 0; rounds = 1; M = hold(n, [&] { FL2_inBuffer ib = { in.data(), in.size(), 0 }; FL2_outBuffer ob = { out.data(), out.size(), 0 }; size_t e = 0; while (ib.pos < ib.size && !FL2_isError(e)) e = FL2_compressStream(f, &ob, &ib); while (!FL2_isError(e) && (e = FL2_endStream(f, &ob)) == 1) {} if (FL2_isError(e)) err = e; out.resize(ob.pos); }); } FL2_freeCStream(f); }
    if (err) { vf_viol("error", "%s", enm(err)); return; } judge_meet(M, n, 2 * rounds, "compression"); FrameResult F = judge(out); if (F.st != REF_OK || F.r.out != in) vf_viol("wrong-output", "%s", F.why.c_str()); vf_stat("compressions_held"); vf_distinct("nontrivial", mix64(hash_bytes(out), n)); if (idx < 4) vf_sample("%u threads compress %zu bytes: met %llu times", n, size, (unsigned long long)M.full);
}
// blocks that each begin with a dictionary reset, one after the other
static Bytes blocks(Rng &r, unsigned k, Bytes &content, bool hash) {
    Bytes f(1, 20); for (unsigned i = 0; i < k; ++i) { size_t n = r.logsize(200, 60000); Bytes d = gen_data(r, n); if (d.empty()) d.push_back(1); Bytes o(FL2_compressBound(d.size())); FL2_CCtx *c = FL2_createCCtx(); FL2_CCtx_setParameter(c, FL2_p_dictionarySize, 1 << 20);
#ifndef NO_XXHASH
        FL2_CCtx_setParameter(c, FL2_p_doXXHash, 0);
#endif
        size_t z = FL2_compressCCtx(c, o.data(), o.size(), d.data(), d.size(), 1); FL2_freeCCtx(c); if (FL2_isError(z) || z < 3) continue; f.insert(f.end(), o.begin() + 1, o.begin() + (long)z - 1); content.insert(content.end(), d.begin(), d.end()); }
    f.push_back(0); if (hash) { f[0] |= 0x80; u32 h = ref_xxh32(content.data(), content.size()); for (int i = 3; i >= 0; --i) f.push_back((u8)(h >> (8 * i))); } return f; }
static void decompress(u64 idx, Rng &r) {
    unsigned n = (unsigned)r.range(2, 8), times = (unsigned)r.range(1, 3); Bytes content, f = blocks(r, n * times, content, r.chance(50)), out(content.size() + 10); int api = (int)r.below(3); size_t z = 0; Meet M; vfh_reset(); vf_info("decompression api=%d of %zu bytes, %u blocks, threads=%u", api, f.size(), n * times, n); 
    if (api == 0) { M = hold(n, [&] { z = FL2_decompressMt(out.data(), out.size(), f.data(), f.size(), n); }); }
    else if (api == 1) { FL2_DCtx *d = FL2_createDCtxMt(n); if (!d) return; nap(3000); M = hold(n, [&] { z = FL2_decompressDCtx(d, out.data(), out.size(), f.data(), f.size()); }); FL2_freeDCtx(d); }
    else { FL2_DStream *d = FL2_createDStreamMt(n); if (!d) return; size_t e = FL2_initDStream(d); if (FL2_isError(e)) { vf_viol("init", "%s", enm(e)); FL2_freeDStream(d); return; } size_t step = r.chance(50) ? f.size() : r.logsize(300, 100000), ostep = r.chance(50) ? out.size() : r.logsize(500, 300000); bool ended = false;
        M = hold(n, [&] { size_t pos = 0, got = 0, c = 1; u64 calls = 0; while (!ended && !FL2_isError(c) && ++calls < 2000000) { FL2_inBuffer ib = { f.data() + pos, std::min(step, f.size() - pos), 0 }; FL2_outBuffer ob = { out.data() + got, std::min(ostep, out.size() - got), 0 }; c = FL2_decompressStream(d, &ob, &ib); pos += ib.pos; got += ob.pos; ended = c == 0; } z = FL2_isError(c) ? c : got; }); FL2_freeDStream(d); if (!ended && !FL2_isError(z)) vf_viol("wrong-output", "the stream did not end"); }
    if (FL2_isError(z)) { vf_viol("error", "%s", enm(z)); return; } out.resize(z); if (out != content) vf_viol("wrong-output", "other content"); judge_meet(M, n, times, api < 2 ? "one-shot decompression" : "stream decompression"); vf_stat("decompressions_held"); vf_distinct("nontrivial", mix64(hash_bytes(f), n)); if (idx < 8) vf_sample("%u threads decompress %u blocks: met %llu times", n, n * times, (unsigned long long)M.full);
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv);
    vf_loop(a, [&](u64 i, Rng &r) { int k = (int)r.below(10); if (k < 3) counts(i, r); else if (k < 7) compress(i, r); else decompress(i, r); vf_flush(); });
    return 0;
}
