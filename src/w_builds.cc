// C22: every build configuration gives the same results. This worker is linked with the library built in many ways; it reports a digest of
// each answer, and the driver compares the digests of the same case across the builds.
#include "declib.h"
#ifdef FL2_SINGLETHREAD
static const bool ST = true;
#else
static const bool ST = false;
#endif
#ifdef NO_XXHASH
static const bool NX = true;
#else
static const bool NX = false;
#endif
// a frame without its checksum and without the flag that announces it
static u64 body(const Bytes &z, bool raw) { if (z.empty()) return 1; if (raw) return hash_bytes(z); bool h = z[0] & 0x80; return mix64(hash_bytes(z.data() + 1, z.size() - 1 - (h && z.size() > 5 ? 4 : 0)), z[0] & 0x7F); }
static void report(const char *what, const Bytes &z, bool raw, const Params &p, unsigned thr, size_t n) {
    char k[80]; snprintf(k, sizeof k, "%s:threads%u", what, thr); vf_ref(k, body(z, raw), "%zu bytes from %zu (%s)", z.size(), n, p.desc().c_str());
    if (!NX && !raw && (z.empty() || (z[0] & 0x80))) { snprintf(k, sizeof k, "%s:threads%u:checksum", what, thr); vf_ref(k, hash_bytes(z), "%zu bytes", z.size()); } vf_stat("outputs"); vf_distinct("nontrivial", mix64(body(z, raw), n)); }
static size_t ecode(size_t c) { return FL2_isError(c) ? 1000 + (size_t)FL2_getErrorCode(c) : c; }
static Bytes content(Rng &r, size_t cap) { Bytes b = gen_data(r, gen_size(r, cap)); if (r.chance(12)) { static const char *ab = "abcd"; unsigned k = (unsigned)r.range(2, 4); for (auto &c : b) c = (u8)ab[r.below(k)]; } return b; }
static Params params(Rng &r, unsigned &thr) { Params p = gen_params(r, PP_SMALLDICT); if (p.level > 8 || (p.high && p.level > 2)) { p.level = 5; p.high = false; } thr = r.chance(55) ? 1 : (unsigned)r.range(2, 5); return p; }
static void oneshot_c(u64 idx, Rng &r, size_t cap) {
    unsigned thr; Params p = params(r, thr); Bytes in = content(r, cap); int api = (int)r.below(8); bool tight = r.chance(10); vf_info("one-shot %s threads=%u size=%zu api=%d", p.desc().c_str(), thr, in.size(), api); if (ST && thr > 1) return; size_t n = in.size(); Bytes o(FL2_compressBound(n)); size_t z;
    vf_ref("bound", o.size(), "%zu", n);
    if (api == 0) { z = thr == 1 ? FL2_compress(o.data(), o.size(), in.data(), n, p.level) : FL2_compressMt(o.data(), o.size(), in.data(), n, p.level, thr); p.omit = false; }
    else { FL2_CCtx *c = thr == 1 ? FL2_createCCtx() : FL2_createCCtxMt(thr); if (!c) return; size_t e = apply_params(c, p); if (FL2_isError(e)) { vf_viol("param", "%s", enm(e)); FL2_freeCCtx(c); return; } z = FL2_compressCCtx(c, o.data(), o.size(), in.data(), n, 0); vf_ref("prop", FL2_getCCtxDictProp(c), "%s", p.desc().c_str());
        if (tight && !FL2_isError(z) && !p.hash) { Bytes t(z); size_t y = FL2_compressCCtx(c, t.data(), z - 1, in.data(), n, 0), x = FL2_compressCCtx(c, t.data(), z, in.data(), n, 0); if (thr == 1) vf_ref("exact", mix64(ecode(y), ecode(x)), "capacity %zu", z); } FL2_freeCCtx(c); }
    if (FL2_isError(z)) { vf_viol("error", "%s", enm(z)); return; } o.resize(z); report("oneshot", o, p.omit, p, thr, n); if (idx < 2) vf_sample("one-shot %s threads=%u: %zu to %zu bytes", p.desc().c_str(), thr, n, z);
}
static void stream_c(u64 idx, Rng &r, size_t cap) {
    unsigned thr; Params p = params(r, thr); int dual = thr > 1 && r.chance(30); COpt o; o.flush_pct = 0; o.in_max = r.logsize(2000, 500000); o.out_max = r.logsize(5000, 500000); Bytes in; if (r.chance(40)) { in = gen_seams(r, r.logsize(1000, cap), o.cuts); if (o.cuts.size() > 20) o.cuts.resize(20); } else { in = content(r, cap); size_t c = 0; while (r.chance(50)) { c += r.range(1, in.size() / 2 + 1); if (c < in.size()) o.cuts.push_back(c); } } u64 q = r.next(); vf_info("stream %s threads=%u dual=%d size=%zu flushes=%zu", p.desc().c_str(), thr, dual, in.size(), o.cuts.size()); if (ST && thr > 1) return;
    FL2_CStream *f = thr == 1 ? FL2_createCStream() : FL2_createCStreamMt(thr, dual); if (!f) return; size_t e = apply_params(f, p); if (!FL2_isError(e)) e = FL2_initCStream(f, 0); if (FL2_isError(e)) { vf_viol("init", "%s", enm(e)); FL2_freeCStream(f); return; }
    Rng s(q); CRun R = cstream_run(f, in, s, o); FL2_freeCStream(f); if (R.err || !R.ended) { vf_viol("error", "%s", R.err ? enm(R.err) : "stuck"); return; } std::string w = "stream"; report(w.c_str(), R.out, p.omit, p, thr, in.size()); vf_stat("flushes", R.flushes.size()); (void)idx;
}
static void decode_c(u64 idx, Rng &r, size_t cap) {
    // streams that do not come from the library under test
    SynthOpt so = synth_opt(r, cap / 3); if (r.chance(50)) so.target = r.range(2000, cap / 2); so.hash = r.chance(40); if (r.chance(25)) so.defect = (int)r.range(1, SYNTH_DEFECTS - 1); Bytes f = synth_frame(r, so).frame; bool clean = !so.defect; if (clean && r.chance(25)) { std::string h; f = mutate_frame(r, f, &h); clean = false; }
    unsigned thr = r.chance(60) ? 1 : (unsigned)r.range(2, 4); int api = (int)r.below(4); size_t im = r.logsize(20, 200000), om = r.logsize(100, 200000); u64 q = r.next(); bool small = r.chance(15), raw = r.chance(10) && f.size() > 1; vf_info("decode %zu bytes defect=%d threads=%u api=%d", f.size(), so.defect, thr, api); if ((ST && thr > 1) || f.empty()) return; bool hashed = f[0] & 0x80;
    unsigned long long n = FL2_findDecompressedSize(f.data(), f.size()); vf_ref("size", n, "%zu bytes", f.size()); vf_ref("dict", FL2_getDictSizeFromProp(f[0]), "prop %02x", f[0]);
    if (hashed && NX) return;                                             // no way to verify
    if (n > 8000000) n = 8000000; char k[80];
    if (api < 2) { Bytes o((size_t)n + 20, 0x11); size_t c = small && n ? (size_t)(q % n) : o.size(), z;
        if (raw) { FL2_DCtx *d = thr == 1 ? FL2_createDCtx() : FL2_createDCtxMt(thr); if (!d) return; size_t e = FL2_initDCtx(d, f[0] & 0x7F); z = FL2_isError(e) ? e : FL2_decompressDCtx(d, o.data(), c, f.data() + 1, f.size() - 1); FL2_freeDCtx(d); }
        else z = oneshot(thr == 1 ? (api ? D_CTX : D_SIMPLE) : (api ? D_CTXMT : D_MT), thr, o.data(), c, f.data(), f.size());
        snprintf(k, sizeof k, "decode"); vf_ref(k, FL2_isError(z) ? 1 : mix64(z, hash_bytes(o.data(), z)), "%s %zu", FL2_isError(z) ? enm(z) : "ok", z); vf_stat(FL2_isError(z) ? "refused" : "decoded"); }
    else { FL2_DStream *d = thr == 1 ? FL2_createDStream() : FL2_createDStreamMt(thr); if (!d) return; DOpt o; o.in_max = im; o.out_max = om; o.raw = raw; o.prop = f[0] & 0x7F; Bytes g(f.begin() + (raw ? 1 : 0), f.end()); Rng s(q); DResult R = dstream_run(d, g, s, o); FL2_freeDStream(d); int v = R.ended ? 0 : FL2_isError(R.code) ? 1 : 2;
        vf_ref("dstream", v ? (u64)v : mix64(hash_bytes(R.out), R.consumed), "%s, %zu bytes", v == 1 ? enm(R.code) : v ? "incomplete" : "complete", R.out.size()); vf_stat(v ? "refused" : "decoded"); if (v && thr == 1) vf_ref("before-error", hash_bytes(R.out), "%zu bytes", R.out.size()); }
    vf_distinct("nontrivial", hash_bytes(f)); if (idx < 6) vf_sample("decode %zu bytes, defect %d, %u threads", f.size(), so.defect, thr);
}
static void ask(Rng &r) {
    FL2_CCtx *c = FL2_createCCtx(); if (!c) return; static const FL2_cParameter P[] = { FL2_p_compressionLevel, FL2_p_highCompression, FL2_p_dictionaryLog, FL2_p_dictionarySize, FL2_p_overlapFraction, FL2_p_resetInterval, FL2_p_bufferResize, FL2_p_hybridChainLog, FL2_p_hybridCycles, FL2_p_searchDepth, FL2_p_fastLength, FL2_p_divideAndConquer, FL2_p_strategy, FL2_p_literalCtxBits, FL2_p_literalPosBits, FL2_p_posBits, FL2_p_omitProperties };
    u64 h = 1; int n = (int)r.range(5, 40); for (int k = 0; k < n; ++k) { FL2_cParameter p = P[r.below(sizeof P / sizeof *P)]; size_t v = r.chance(60) ? r.below(20) : r.chance(70) ? r.below(400) : r.logsize(1, 1u << 30); h = mix64(h, ecode(FL2_CCtx_setParameter(c, p, v)), ecode(FL2_CCtx_getParameter(c, p))); }
    for (FL2_cParameter p : P) h = mix64(h, ecode(FL2_CCtx_getParameter(c, p))); vf_ref("params", mix64(h, FL2_getCCtxDictProp(c)), "%d calls", n); FL2_freeCCtx(c);
    int lv = (int)r.range(0, 12), hi = (int)r.below(2); FL2_compressionParameters q; memset(&q, 0, sizeof q); size_t e = FL2_getLevelParameters(lv, hi, &q); vf_ref("level", FL2_isError(e) ? ecode(e) : mix64(mix64(q.dictionarySize, q.overlapFraction, q.chainLog), mix64(q.cyclesLog, q.searchDepth, q.fastLength), mix64(q.divideAndConquer, q.strategy)), "level %d high %d", lv, hi);
    vf_stat("questions", (u64)n + 2); vf_distinct("nontrivial", h);
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv); size_t cap = a.extra.find("slow") != std::string::npos ? 150000 : 700000;
    vf_loop(a, [&](u64 i, Rng &r) { int k = (int)r.below(20); if (k < 7) oneshot_c(i, r, r.chance(10) ? 3 * cap : cap); else if (k < 12) stream_c(i, r, r.chance(20) ? 3 * cap : cap); else if (k < 19) decode_c(i, r, cap); else ask(r); vf_flush(); });
    return 0;
}
