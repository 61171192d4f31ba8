// C15: what is allocated stays within the announced estimates; the memory limit of a decompression stream holds.
#include "declib.h"
#include <sys/mman.h>
static size_t slack(unsigned thr) { return 24576 + (size_t)thr * 2048; }       // the objects' own structures, pool, hash state
static void bound(const char *what, size_t est, size_t peak, unsigned thr, const std::string &how) {
    vf_stat("peaks_compared"); if (peak > est) vf_max("worst_excess", peak - est); vf_max("largest_peak_mb", peak >> 20); if (FL2_isError(est)) { vf_viol("estimate-error", "%s: %s (%s)", what, enm(est), how.c_str()); return; }
    if (peak > est + slack(thr)) vf_viol("estimate-exceeded", "%s announced %zu bytes, %zu were allocated (%zu more) (%s)", what, est, peak, peak - est, how.c_str());
    vf_distinct("nontrivial", mix64(est, peak)); if (peak + peak / 20 >= est) { vf_stat("peaks_within_5_percent"); vf_stat((std::string("near_") + (what + 4)).c_str()); }
}
static u8 *source(size_t n, Rng &r, bool real) { static u8 *m; static size_t mn; if (!m) { mn = (size_t)1100 << 20; m = (u8 *)mmap(nullptr, mn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } if (real) { static Bytes b; b = gen_data(r, n); return b.data(); } (void)n; return m; }
struct Peak { size_t base; Peak() { vfh.track = true; base = vfh_live_bytes(); vfh_peak_reset(); } size_t get() { return vfh_peak_bytes() - base; } };
static Bytes dstbuf(size_t n) { return Bytes(n); }
static void comp(u64 idx, Rng &r) {
    int kind = (int)r.below(6); unsigned thr = r.chance(25) ? 1 : (unsigned)r.range(2, 8); char t[300]; FL2_compressionParameters cp;
    if (kind == 0) { // announced for a level, any level up to it used, one-shot
        int L = (int)r.range(1, 10), l = r.chance(60) ? L : (int)r.range(1, L); size_t est = FL2_estimateCCtxSize(r.chance(10) && L == 6 ? 0 : L, thr); FL2_getLevelParameters(l, 0, &cp); size_t n = std::min<size_t>(cp.dictionarySize + r.below(1000), (r.chance(12) ? 17u << 20 : 5u << 20)); bool real = n < (3u << 20) && r.chance(50); snprintf(t, sizeof t, "level %d within the budget of level %d, %u threads, %zu bytes", l, L, thr, n); vf_info("%s", t); u8 *s = source(n, r, real); Bytes d = dstbuf(real ? FL2_compressBound(n) : n / 20 + 1000000);
        Peak pk; size_t z; if (r.chance(50)) z = FL2_compressMt(d.data(), d.size(), s, n, l, thr); else { FL2_CCtx *c = FL2_createCCtxMt(thr); if (!c) return; z = FL2_compressCCtx(c, d.data(), d.size(), s, n, l); FL2_freeCCtx(c); } if (FL2_isError(z)) vf_viol("error", "%s", enm(z)); bound("FL2_estimateCCtxSize", est, pk.get(), thr, t); vf_stat("oneshot_levels"); if (n >= cp.dictionarySize) vf_stat("full_tables"); vf_distinct("levels", L * 100 + l);
    } else if (kind == 1) { // the same with a level's parameters, both tables
        int high = (int)r.below(2), l = (int)r.range(1, high ? 6 : 8); FL2_getLevelParameters(l, high, &cp); size_t est = FL2_estimateCCtxSize_byParams(&cp, thr); bool full = cp.dictionarySize <= (8u << 20); size_t n = full ? cp.dictionarySize + r.below(1000) : (2u << 20); snprintf(t, sizeof t, "%slevel %d by parameters, %u threads, %zu bytes", high ? "high " : "", l, thr, n); vf_info("%s", t); u8 *s = source(n, r, false); Bytes d = dstbuf(n / 20 + 1000000);
        Peak pk; FL2_CCtx *c = FL2_createCCtxMt(thr); if (!c) return; FL2_CCtx_setParameter(c, FL2_p_highCompression, high); size_t z = FL2_compressCCtx(c, d.data(), d.size(), s, n, l); FL2_freeCCtx(c); if (FL2_isError(z)) vf_viol("error", "%s", enm(z)); bound("FL2_estimateCCtxSize_byParams", est, pk.get(), thr, t); vf_stat("oneshot_params"); if (full) vf_stat("full_tables"); vf_distinct("levels", 5000 + high * 100 + l);
    } else if (kind == 2) { // the context's own settings
        Params p = gen_params(r, PP_SMALLDICT); p.high = false; bool big = r.chance(6); if (big) { p.dict = (size_t)((64u << 20) + r.below(20u << 20)); p.add(FL2_p_dictionarySize, p.dict); } Peak pk; bool st = r.chance(20); FL2_CCtx *c = st ? FL2_createCStreamMt(thr, (int)r.below(2)) : FL2_createCCtxMt(thr); if (!c) return; apply_params(c, p); size_t dict = FL2_CCtx_getParameter(c, FL2_p_dictionarySize), n = big ? 3u << 20 : dict + r.below(100000); if (r.chance(15)) n = r.logsize(1, n); bool real = !big && n < (2u << 20) && r.chance(40); size_t est = FL2_estimateCCtxSize_usingCCtx(c); snprintf(t, sizeof t, "%s, %u threads, %zu bytes", p.desc().c_str(), thr, n); vf_info("%s", t); u8 *s = source(n, r, real); Bytes d = dstbuf(real ? FL2_compressBound(n) : n / 20 + 1000000);
        size_t z = FL2_compressCCtx(c, d.data(), d.size(), s, n, 0); if (FL2_isError(z)) vf_viol("error", "%s", enm(z)); if (r.chance(30)) FL2_compressCCtx(c, d.data(), d.size(), s, n / 2, 0); bound("FL2_estimateCCtxSize_usingCCtx", est, pk.get(), thr, t); FL2_freeCCtx(c); vf_stat("oneshot_settings"); if (n >= dict) vf_stat("full_tables");
    } else { // streams: by level, by parameters, by the stream's own settings
        int dual = (int)r.below(2); FL2_CStream *f; size_t est; const char *what; Peak pk; int l = 0, high = 0; unsigned to = r.chance(20) ? 1 : 0;
        if (kind == 3) { l = (int)r.range(1, 9); est = FL2_estimateCStreamSize(l, thr, dual); what = "FL2_estimateCStreamSize"; snprintf(t, sizeof t, "level %d, %u threads, dual %d", l, thr, dual); f = !dual && thr == 1 && r.chance(50) ? FL2_createCStream() : FL2_createCStreamMt(thr, dual); if (!f) return; vf_stat("stream_levels"); }
        else if (kind == 4) { high = (int)r.below(2); l = (int)r.range(1, high ? 8 : 9); FL2_getLevelParameters(l, high, &cp); est = FL2_estimateCStreamSize_byParams(&cp, thr, dual); what = "FL2_estimateCStreamSize_byParams"; snprintf(t, sizeof t, "%slevel %d by parameters, %u threads, dual %d", high ? "high " : "", l, thr, dual); f = FL2_createCStreamMt(thr, dual); if (!f) return; FL2_CStream_setParameter(f, FL2_p_highCompression, high); vf_stat("stream_params"); }
        else { Params p = gen_params(r, PP_SMALLDICT); p.high = false; if (r.chance(10)) { p.dict = (size_t)((64u << 20) + r.below(20u << 20)); p.add(FL2_p_dictionarySize, p.dict); } f = FL2_createCStreamMt(thr, dual); if (!f) return; apply_params(f, p); if (r.chance(30)) { size_t e = FL2_initCStream(f, 0); if (FL2_isError(e)) vf_viol("error", "init: %s", enm(e)); vf_stat("estimated_after_init"); } est = r.chance(70) ? FL2_estimateCStreamSize_usingCStream(f) : FL2_estimateCStreamSize_usingCStream(f); what = "FL2_estimateCStreamSize_usingCStream"; snprintf(t, sizeof t, "%s, %u threads, dual %d", p.desc().c_str(), thr, dual); vf_stat("stream_settings"); }
        vf_info("%s", t); FL2_setCStreamTimeout(f, to); size_t e = FL2_initCStream(f, l); if (FL2_isError(e)) { vf_viol("error", "init: %s (%s)", enm(e), t); FL2_freeCStream(f); return; } size_t dict = FL2_CStream_getParameter(f, FL2_p_dictionarySize), n = dict <= (2u << 20) && r.chance(70) ? dict * 2 + r.below(dict) : r.logsize(1, 2 << 20); u8 *s = source(n, r, n < (2u << 20)); Bytes d = dstbuf(1 << 16); FL2_inBuffer ib = { s, n, 0 }; int ph = 0; u64 guard = 0;
        for (;;) { FL2_outBuffer ob = { d.data(), d.size(), 0 }; size_t c = ib.pos < n ? FL2_compressStream(f, &ob, &ib) : ph == 0 ? FL2_flushStream(f, &ob) : FL2_endStream(f, &ob); if (FL2_isTimedOut(c)) continue; if (FL2_isError(c)) { vf_viol("error", "%s (%s)", enm(c), t); break; } if (ib.pos == n && c == 0 && ++ph == 2) break; if (++guard > 1000000) break; }
        bound(what, est, pk.get(), thr, t); FL2_freeCStream(f); vf_stat("full_tables"); vf_distinct("levels", 9000 + high * 100 + l + dual * 1000);
    }
    if (idx < 5) vf_sample("%s", t);
}
static Bytes frame(Rng &r, Bytes &content, size_t dict, unsigned reset, size_t n, bool half) {
    content = gen_data(r, n, half ? (int)r.pick({ 4, 5, 8, 11 }) : -1); n = content.size(); Bytes c(FL2_compressBound(n)); Params p; p.level = 1; p.dict = dict; p.add(FL2_p_dictionarySize, dict); p.add(FL2_p_resetInterval, reset); FL2_CCtx *x = FL2_createCCtxMt(4); apply_params(x, p); size_t z = FL2_compressCCtx(x, c.data(), c.size(), content.data(), n, 0); FL2_freeCCtx(x); if (FL2_isError(z)) { vf_viol("error", "frame: %s", enm(z)); z = 0; } c.resize(z); return c; }
static void dec(u64 idx, Rng &r) {
    unsigned thr = r.chance(30) ? 1 : (unsigned)r.range(2, 6); char t[300]; int kind = (int)r.below(4);
    if (kind == 0) { Bytes content, f = r.chance(50) ? frame(r, content, 1u << 20, 1, r.range(1, 6u << 20), false) : enc_frame(r, 500000); FrameResult F = ref_frame(f.data(), f.size()); Bytes o(F.r.out.size() + 1); size_t est = FL2_estimateDCtxSize(thr); Peak pk; FL2_DCtx *d = thr == 1 ? FL2_createDCtx() : FL2_createDCtxMt(thr); if (!d) return; size_t z = FL2_decompressDCtx(d, o.data(), o.size(), f.data(), f.size()); snprintf(t, sizeof t, "one-shot decompression, %u threads, %zu -> %zu", thr, f.size(), F.r.out.size()); vf_info("%s", t); bound("FL2_estimateDCtxSize", est, pk.get(), thr, t); FL2_freeDCtx(d); if (F.st == REF_OK && (z != F.r.out.size() || memcmp(o.data(), F.r.out.data(), z))) vf_viol("other-content", "one-shot"); vf_stat("dctx_peaks"); return; }
    Bytes content, f; size_t n; bool synth = kind == 3 && r.chance(60); if (synth) { SynthOpt o = synth_opt(r, 3000000); o.target = r.logsize(1000, 3000000); SynthOut s = synth_frame(r, o); f = s.frame; content = s.content; } else { size_t dict = r.chance(60) ? 1u << 20 : (1u << 20) + r.below(2u << 20); n = r.chance(80) ? r.range(1u << 20, 16u << 20) : r.logsize(1, 4u << 20); f = frame(r, content, dict, kind == 3 ? (unsigned)r.below(9) : (unsigned)r.range(1, 4), n, kind < 3); } if (f.empty()) return;
    size_t dict = FL2_getDictSizeFromProp(f[0]), limit = (size_t)1 << 29; if (FL2_isError(dict)) return;
    bool limited = kind == 3 && thr > 1; bool full_blocks = !limited && (thr == 1 || (!synth && dict >= (1u << 20) && f.size() * 2 <= content.size()));   // what the estimate presumes: blocks to 4 dictionaries, halved
    size_t est = FL2_estimateDStreamSize(dict, thr); size_t base = vfh_live_bytes(); vfh.track = true; base = vfh_live_bytes(); vfh_peak_reset();
    FL2_DStream *d = thr == 1 ? FL2_createDStream() : FL2_createDStreamMt(thr); if (!d) return; size_t fixed = vfh_live_bytes() - base; if (limited) { limit = r.chance(50) ? r.logsize(1000, 40u << 20) : r.chance(50) ? dict * 2 + dict / 3 + r.below(4 * dict + 1) : r.below(30u << 20); FL2_setDStreamMemoryLimitMt(d, limit); }
    u64 sd = r.next(); Rng q(sd); DOpt o; o.in_max = std::max<size_t>(q.logsize(1000, 8 << 20), f.size() / 200 + 1); o.out_max = std::max<size_t>(q.logsize(1000, 8 << 20), content.size() / 200 + 1); o.style = (int)q.pick({ 0, 0, 3 }); if (o.style == 3) o.out_max = content.size() + 1; int rounds = r.chance(25) ? 2 : 1; if (r.chance(20)) FL2_setDStreamTimeout(d, 1);
    snprintf(t, sizeof t, "decompression stream, %u threads, dictionary %zu, %zu -> %zu, limit %zu, pieces to %zu / %zu", thr, dict, f.size(), content.size(), limit, o.in_max, o.out_max); vf_info("%s", t);
    for (int k = 0; k < rounds; ++k) { DResult R = dstream_run(d, f, q, o); if (!R.ended) { vf_viol("not-decoded", "%s (%s)", FL2_isError(R.code) ? enm(R.code) : "incomplete", t); break; } if (R.out != content) { vf_viol("other-content", "%s", t); break; } vf_stat("streams_verified"); }
    size_t peak = vfh_peak_bytes() - base; 
    if (limited) { // after falling back: what was buffered, within the limit, and one dictionary
        size_t dbuf = FL2_estimateDStreamSize(dict, 1); vf_stat("limits_checked"); if (limit < content.size()) vf_stat("limits_below_content"); size_t lid = fixed + limit + dbuf + slack(thr); if (peak > lid) vf_viol("limit-exceeded", "%zu bytes allocated; limit %zu, dictionary %zu, object %zu (%s)", peak, limit, dbuf, fixed, t); vf_max("peak_permille_of_limit_and_dictionary", peak * 1000 / lid); vf_distinct("nontrivial", mix64(limit, peak)); }
    else if (full_blocks) { bound("FL2_estimateDStreamSize", est + (thr > 1 ? 1u << 18 : 0), peak, thr, t);   // input is held in units of 256 KB
        vf_stat(thr == 1 ? "dstream_peaks" : "dstream_peaks_mt"); }
    FL2_freeDStream(d); if (idx < 9) vf_sample("%s: peak %zu", t, peak);
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv);
    vf_loop(a, [&](u64 i, Rng &r) { if (r.chance(55)) comp(i, r); else dec(i, r); vfh.track = false; });
    return 0;
}
