// C04: capacity is respected and compressBound is enough.
#include "fl2h.h"
// destination between canaries and guard pages
struct Dst { Guard g; size_t cap; size_t pre; Dst(size_t c, Rng &r) : cap(c) { pre = 64 + r.below(64); g.alloc(c + pre, true); memset(g.p, 0x3C, c + pre); } u8 *p() { return g.p + pre; } bool intact() { for (size_t i = 0; i < pre; ++i) if (g.p[i] != 0x3C) return false; return true; } bool untouched_from(size_t k) { for (size_t i = k; i < cap; ++i) if (p()[i] != 0x3C) return false; return true; } };
static const char *g_api;
static void one(u64 idx, Rng &r, bool slow) {
    Params p = gen_params(r, 0); int api = (int)r.below(8); unsigned thr = r.chance(40) ? 1 : (unsigned)r.range(2, 8);
    int kind = r.chance(45) ? r.pick({ 0, 0, 10, 9, 15 }) : (int)r.below(GEN_KINDS); size_t cap = slow ? 400000 : r.chance(12) ? 5u << 20 : r.chance(30) ? 1500000 : 200000; if (p.level > 6 || p.high) cap = std::min<size_t>(cap, 1000000);
    size_t n; switch (r.below(4)) { case 0: n = r.below(100); break; case 1: n = std::min(cap, (size_t)(65536 * r.range(1, 40) + r.below(21) - 10)); break; default: n = gen_size(r, cap); }
    if (!slow && r.chance(3)) { p = Params(); p.level = (int)r.range(1, 3); p.dict = ((size_t)1 << 20) + (r.chance(50) ? 0 : r.below(5000)); p.add(FL2_p_dictionarySize, p.dict); p.add(FL2_p_overlapFraction, r.range(10, 14)); p.add(FL2_p_resetInterval, r.range(1, 3)); api = 3; kind = r.pick({ 0, 0, 10 }); n = r.range(1500000, 7000000); thr = r.chance(50) ? (unsigned)r.range(1, 8) : (unsigned)r.range(9, 64); vf_stat("many_short_blocks"); }
    Bytes in = gen_data(r, n, kind); n = in.size();
    vf_info("%s api=%d threads=%u kind=%s size=%zu", p.desc().c_str(), api, thr, gen_kind_name(kind), n);
    FL2_CCtx *cc = nullptr; if (api >= 2) { cc = FL2_createCCtxMt(thr); if (!cc) { vf_viol("create", "creation failed"); return; } size_t e = apply_params(cc, p); if (FL2_isError(e)) { vf_viol("param", "%s", enm(e)); FL2_freeCCtx(cc); return; } }
    g_api = api == 0 ? "FL2_compress" : api == 1 ? "FL2_compressMt" : "FL2_compressCCtx";
    bool raw = api >= 2 && p.omit; u8 prop = cc ? FL2_getCCtxDictProp(cc) : 0;
    auto run = [&](u8 *d, size_t c) { return api == 0 ? FL2_compress(d, c, in.data(), n, p.level) : api == 1 ? FL2_compressMt(d, c, in.data(), n, p.level, thr) : FL2_compressCCtx(cc, d, c, in.data(), n, 0); };
    auto check = [&](Dst &d, size_t c, size_t z, const char *w) {
        if (!d.intact()) vf_viol("underrun", "%s wrote before the destination (capacity %zu)", w, c);
        if (FL2_isError(z)) return; if (z > c) { vf_viol("size-above-capacity", "%s returned %zu for capacity %zu", w, z, c); return; }
        Bytes o(d.p(), d.p() + z); FrameResult F = judge(o, raw, prop); if (F.st != REF_OK || F.r.out != in || F.consumed != z) vf_viol("incomplete", "%s returned %zu for capacity %zu, but this is not the whole stream (%s)", w, z, c, F.why.c_str()); };
    size_t bound = FL2_compressBound(n); if (bound < n || FL2_isError(bound)) vf_viol("bound", "compressBound(%zu) = %zu", n, bound);
    Dst full(bound, r); size_t z0 = run(full.p(), bound);
    if (FL2_isError(z0)) { vf_viol("bound-not-enough", "%s into compressBound(%zu)=%zu bytes: %s", g_api, n, bound, enm(z0)); if (cc) FL2_freeCCtx(cc); return; }
    check(full, bound, z0, g_api); vf_stat("bound_runs"); if (n) vf_max("bound_use_permille", z0 * 1000 / bound); if (n > 200000) vf_max("overhead_bytes_of_large_inputs", z0 > n ? z0 - n : 0); if (n > 200000 && z0 > n) vf_max("overhead_permille_of_allowed", (z0 - n) * 1000 / (bound - n));
    Bytes good(full.p(), full.p() + z0);
    int tries = slow ? 2 : n < 100000 ? 8 : n < 1000000 ? 3 : 2;
    for (int i = 0; i < tries; ++i) {
        size_t c; switch (i == 0 && z0 ? 0 : r.below(6)) { case 0: c = z0 ? z0 - 1 : 0; break; case 1: c = z0; break; case 2: c = z0 - std::min<size_t>(z0, r.range(1, 8)); break; case 3: c = r.below(std::min<size_t>(z0 + 1, 8)); break; case 4: c = z0 + r.below(6); break; default: c = r.below(z0 + 1); break; }
        Dst d(c, r); size_t z = run(d.p(), c); check(d, c, z, g_api); vf_stat("capacity_runs"); vf_distinct("nontrivial", mix64(hash_bytes(good), c));
        if (c < z0) vf_stat("capacity_below_size");
        if (FL2_isError(z)) { vf_stat("refused"); if (strcmp(enm(z), enm((size_t)-FL2_error_dstSize_tooSmall))) vf_viol("wrong-error", "%s with capacity %zu (needs %zu): %s", g_api, c, z0, enm(z)); else if (c >= bound) vf_viol("bound-not-enough", "refused at capacity %zu", c); if (c >= z0) vf_stat("refused_although_it_would_fit"); }
        else if (z > z0 + 64 + z0 / 8 || z < z0 - std::min<size_t>(z0, 64 + z0 / 8)) vf_stat("size_differs_between_runs");
    }
    if (cc) FL2_freeCCtx(cc);
    // one-shot decompression
    for (int i = 0; i < tries; ++i) {
        size_t c; switch (r.below(5)) { case 0: c = n; break; case 1: c = n ? n - 1 : 0; break; case 2: c = r.below(n + 1); break; case 3: c = n - std::min<size_t>(n, r.range(1, 300)); break; default: c = n + r.below(300); break; }
        int da = (int)r.below(4); unsigned dt = (unsigned)r.range(1, 8); size_t z; Dst d(c, r); Guard src(good.size()); memcpy(src.p, good.data(), good.size());
        if (raw) { FL2_DCtx *x = FL2_createDCtxMt(dt); FL2_initDCtx(x, prop); z = FL2_decompressDCtx(x, d.p(), c, src.p, good.size()); FL2_freeDCtx(x); } else z = oneshot(da, dt, d.p(), c, src.p, good.size());
        if (!d.intact()) vf_viol("dec-underrun", "decompression api %d wrote before the destination (capacity %zu of %zu)", da, c, n);
        if (c >= n) { if (FL2_isError(z)) vf_viol("dec-error", "decompression api %d threads %u into %zu bytes (content %zu): %s", da, dt, c, n, enm(z)); else if (z != n || memcmp(d.p(), in.data(), n)) vf_viol("dec-mismatch", "decompression api %d gives %zu bytes of %zu or other content", da, z, n); else if (!d.untouched_from(n)) vf_viol("dec-excess", "bytes written beyond the %zu content bytes", n); vf_stat("dec_fits"); }
        else { if (!FL2_isError(z)) vf_viol("dec-short-ok", "decompression api %d threads %u into %zu bytes succeeded (%zu), content is %zu", da, dt, c, z, n); else if (strcmp(enm(z), enm((size_t)-FL2_error_dstSize_tooSmall))) vf_viol("dec-wrong-error", "decompression api %d threads %u into %zu of %zu bytes: %s", da, dt, c, n, enm(z)); vf_stat("dec_too_small"); }
    }
    if (idx < 3) vf_sample("%s %s threads=%u: %zu bytes -> %zu, bound %zu", p.desc().c_str(), g_api, thr, n, z0, bound);
}
// streaming output buffers of any size
static void stream(u64 idx, Rng &r) { Params p = gen_params(r, PP_SMALLDICT); if (p.level > 4) p.level = 3; p.high = false; size_t n = r.logsize(1, 300000); Bytes in = gen_data(r, n);
    FL2_CStream *f = FL2_createCStreamMt((unsigned)r.range(1, 4), (int)r.below(2)); if (!f) return; apply_params(f, p); vf_info("stream %s size=%zu", p.desc().c_str(), n);
    if (!FL2_isError(FL2_initCStream(f, 0))) { FL2_inBuffer ib = { in.data(), n, 0 }; Bytes o; bool bad = false; size_t omax = std::max<size_t>(n / 300, r.logsize(4, 100000));
        for (int ph = 0; ph < 2 && !bad;) { size_t c = r.logsize(1, omax); Dst d(c, r); size_t off = r.chance(30) ? r.below(c) : 0; FL2_outBuffer ob = { d.p(), c, off }; size_t z = ph ? FL2_endStream(f, &ob) : FL2_compressStream(f, &ob, &ib);
            if (FL2_isError(z)) { vf_viol("stream-error", "%s", enm(z)); bad = true; break; } if (ob.pos > c || ob.pos < off) { vf_viol("stream-position", "position %zu of %zu", ob.pos, c); bad = true; break; }
            if (!d.intact() || !d.untouched_from(ob.pos)) { vf_viol("stream-overrun", "bytes written outside the delivered part"); bad = true; } for (size_t i = 0; i < off; ++i) if (d.p()[i] != 0x3C) { vf_viol("stream-overrun", "bytes written before the position"); bad = true; break; }
            o.insert(o.end(), d.p() + off, d.p() + ob.pos); vf_stat("stream_outputs"); if (!ph) { if (ib.pos == n && z == 0) ph = 1; } else if (z == 0) ph = 2; }
        FrameResult F = judge(o, p.omit, 16); if (!bad && (p.omit ? F.r.out != in : F.st != REF_OK || F.r.out != in)) vf_viol("stream-mismatch", "%s", F.why.c_str()); }
    FL2_freeCStream(f); }
int main(int argc, char **argv) { Args a = vf_args(argc, argv); bool slow = a.extra == "slow"; vf_loop(a, [&](u64 i, Rng &r) { if (r.chance(15)) stream(i, r); else one(i, r, slow); }); return 0; }
