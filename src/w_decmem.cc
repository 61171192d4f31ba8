// C05: decoding uses initialised memory only. The memory sanitizer watches the library; what is delivered has to be defined. Destinations and the
// library's own blocks are uninitialised at the start, so is everything behind the source; a decision or an address that depends on them is reported.
#include "declib.h"
extern "C" { void __msan_unpoison(const volatile void *, size_t) __attribute__((weak)); void __msan_poison(const volatile void *, size_t) __attribute__((weak)); void __msan_unpoison_param(size_t) __attribute__((weak)); intptr_t __msan_test_shadow(const volatile void *, size_t) __attribute__((weak)); }
static void pre() { if (__msan_unpoison_param) __msan_unpoison_param(8); }
__attribute__((noinline)) static void post() { char c; if (__msan_unpoison) __msan_unpoison((char *)&c - (192 << 10), 192 << 10); }
template <class F> static auto L(F f) -> decltype(f()) { pre(); auto x = f(); post(); return x; }
struct Raw { u8 *p; size_t n; Raw(size_t k) : p((u8 *)malloc(k + 64)), n(k) { if (__msan_poison) __msan_poison(p, n + 64); } ~Raw() { if (__msan_unpoison) __msan_unpoison(p, n + 64); free(p); } void put(const u8 *s, size_t k) { if (k) { memcpy(p, s, k); if (__msan_unpoison) __msan_unpoison(p, k); } } };
static bool defined(u8 *p, size_t n, const char *what) {
    if (!__msan_test_shadow || !n) return true; vf_stat("bytes_checked_defined", n); intptr_t k = __msan_test_shadow(p, n); if (k >= 0) vf_viol("uninitialised-output", "byte %zd of %zu delivered by %s is not initialised", (ssize_t)k, n, what); __msan_unpoison(p, n); return k < 0;
}
static FL2_DCtx *g_c[2]; static FL2_DStream *g_s[2];
static void one(u64 idx, Rng &r) {
    Src s = gen_src(r, r.chance(8) ? 300000 : 15000); const Bytes &f = s.f; size_t n = f.size(); vf_info("%s, %zu bytes", s.how.c_str(), n); FrameResult F = ref_frame(f.data(), n, 16u << 20); size_t olen = F.r.out.size(), cap = F.st == REF_OK && r.chance(70) ? olen : r.chance(50) ? olen + r.below(3000) : r.below(olen + 2); unsigned t = (unsigned)r.range(2, 4); unsigned char prop = n ? f[0] & 0x3F : 0;
    auto oneshot = [&](const char *nm, const std::function<size_t(u8 *, size_t, const u8 *, size_t)> &call, size_t skip) { if (skip > n) return; Raw d(cap), in(n - skip); in.put(f.data() + skip, n - skip); size_t z = L([&] { return call(d.p, cap, in.p, n - skip); }); vf_stat("oneshot_calls"); if (FL2_isError(z)) { vf_stat("errors"); return; } if (z > cap) { vf_viol("size-above-capacity", "%s returned %zu for capacity %zu", nm, z, cap); return; } if (!defined(d.p, z, nm)) return; if (F.st == REF_OK && z == olen && memcmp(d.p, F.r.out.data(), z)) vf_viol("wrong-content", "%s", nm); else vf_stat("decoded"); };
    oneshot("FL2_decompress", [&](u8 *d, size_t c, const u8 *q, size_t m) { return FL2_decompress(d, c, q, m); }, 0);
    if (r.chance(50)) oneshot("FL2_decompressMt", [&](u8 *d, size_t c, const u8 *q, size_t m) { return FL2_decompressMt(d, c, q, m, t); }, 0);
    for (int k = 0; k < 2; ++k) { if (!g_c[k] || r.chance(20)) { L([&] { return FL2_freeDCtx(g_c[k]); }); g_c[k] = L([&] { return k ? FL2_createDCtxMt(t) : FL2_createDCtx(); }); if (!g_c[k]) return; }
        bool given = n && r.chance(40) && !(f[0] & 0x80); if (given) { size_t e = L([&] { return FL2_initDCtx(g_c[k], prop); }); if (FL2_isError(e)) { L([&] { return FL2_freeDCtx(g_c[k]); }); g_c[k] = nullptr; continue; } }
        oneshot(k ? "FL2_decompressDCtx multithreaded" : "FL2_decompressDCtx", [&](u8 *d, size_t c, const u8 *q, size_t m) { return FL2_decompressDCtx(g_c[k], d, c, q, m); }, given ? 1 : 0); }
    { Raw in(n); in.put(f.data(), n); unsigned long long v = L([&] { return FL2_findDecompressedSize(in.p, n); }); (void)v; vf_stat("size_queries"); }
    for (int k = 0; k < 2; ++k) { if (!g_s[k] || r.chance(35)) { L([&] { return FL2_freeDStream(g_s[k]); }); g_s[k] = L([&] { return k ? FL2_createDStreamMt(t) : FL2_createDStream(); }); if (!g_s[k]) return; }
        FL2_DStream *d = g_s[k]; size_t lim = k && r.chance(40) ? r.logsize(1000, 4 << 20) : (size_t)1 << 30; L([&] { FL2_setDStreamMemoryLimitMt(d, lim); return 0; }); bool given = n && r.chance(25) && !(f[0] & 0x80); size_t e = L([&] { return given ? FL2_initDStream_withProp(d, prop) : FL2_initDStream(d); }); if (FL2_isError(e)) continue;
        size_t pos = given ? 1 : 0, got = 0, im = std::max<size_t>(r.logsize(1, 100000), n / 1000), om = std::max<size_t>(r.logsize(1, 100000), olen / 1000); int idle = 0; u64 calls = 0; vf_info("mt=%d given=%d in=%zu out=%zu limit=%zu", k, given, im, om, lim);
        for (;;) { size_t a = std::min(n - pos, (size_t)r.range(0, im)), b = (size_t)r.range(0, om); Raw in(a), out(b); in.put(f.data() + pos, a); FL2_inBuffer ib = { in.p, a, 0 }; FL2_outBuffer ob = { out.p, b, 0 }; size_t c = L([&] { return FL2_decompressStream(d, &ob, &ib); }); ++calls; vf_stat("stream_calls");
            if (ib.pos > a || ob.pos > b) { vf_viol("position", "past the end of a buffer"); break; } if (!defined(out.p, ob.pos, k ? "FL2_decompressStream multithreaded" : "FL2_decompressStream")) break; if (F.st == REF_OK && (got + ob.pos > olen || memcmp(out.p, F.r.out.data() + got, ob.pos))) { vf_viol("wrong-content", "stream at %zu", got); break; }
            pos += ib.pos; got += ob.pos; L([&] { return FL2_getDStreamProgress(d); }); if (FL2_isError(c)) { vf_stat("errors"); break; } if (c == 0) { vf_stat("streams_completed"); break; } idle = ib.pos || ob.pos ? 0 : idle + 1; if (idle > 40 || calls > 60000 || got > (20u << 20)) break; }
        vf_stat("stream_runs"); }
    vf_stat("bytes", n); if (n) vf_distinct("nontrivial", hash_bytes(f)); if (idx < 3) vf_sample("%s, %zu bytes: %s", s.how.c_str(), n, F.st == REF_OK ? "complete" : F.why.c_str());
}
int main(int argc, char **argv) { Args a = vf_args(argc, argv); vf_loop(a, [&](u64 i, Rng &r) { one(i, r); }); return 0; }
