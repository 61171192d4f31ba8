// C03: what the compressor emits is a conforming, self-describing LZMA2 stream.
#include "fl2h.h"
static void one(u64 idx, Rng &r, bool slow) {
    Params p = gen_params(r, r.chance(85) ? PP_SMALLDICT : 0); bool stream = r.chance(50); unsigned thr = r.chance(35) ? 1 : (unsigned)r.range(2, 8); int dual = r.chance(40);
    if (r.chance(stream ? 6 : 0)) { p.dict = ((size_t)1 << 26) + r.below(3); p = Params(); p.dict = ((size_t)1 << 26) + r.below(3); p.add(FL2_p_dictionarySize, p.dict); p.level = (int)r.range(1, 4);
#ifdef NO_XXHASH
        p.hash = false;
#endif
       p.omit = false; p.lc = 3; p.lp = 0; p.pb = 2; p.reset = 4; p.overlap = 2; }
    bool lvl = !p.dict && r.chance(30);
    int kind = (int)r.below(GEN_KINDS); size_t cap = slow ? 800000 : r.chance(45) ? 12u << 20 : 1500000; if (p.level > 6 || p.high) cap = std::min<size_t>(cap, 3000000); if (p.level > 4 && r.chance(60)) cap = std::min<size_t>(cap, 4000000);
    if (p.dict && r.chance(25) && !slow && p.dict < (3u << 20)) cap = std::max<size_t>(cap, p.dict * 4);
    size_t n = cap > 2000000 && r.chance(60) ? r.range(1000000, cap) : gen_size(r, cap); Bytes in = gen_data(r, n, kind); n = in.size();
    vf_info("%s %s threads=%u dual=%d kind=%s size=%zu", p.desc().c_str(), stream ? "stream" : "oneshot", thr, dual, gen_kind_name(kind), n);
    FL2_CCtx *c = stream ? FL2_createCStreamMt(thr, dual) : FL2_createCCtxMt(thr); if (!c) { vf_viol("create", "creation failed"); return; }
    size_t e = apply_params(c, p); if (FL2_isError(e)) { vf_viol("param", "%s", enm(e)); FL2_freeCCtx(c); return; }
    size_t setting = FL2_CCtx_getParameter(c, FL2_p_dictionarySize), interval = FL2_CCtx_getParameter(c, FL2_p_resetInterval); Bytes out;
    if (stream) {
        e = FL2_initCStream(c, 0); if (FL2_isError(e)) { vf_viol("init", "%s", enm(e)); FL2_freeCCtx(c); return; }
        COpt o; o.in_max = std::max<size_t>(r.logsize(1000, 3 << 20), n / 200 + 1); o.out_max = std::max<size_t>(r.logsize(1000, 2 << 20), n / 200 + 1); o.flush_pct = (int)r.pick({ 0, 0, 0, 3 }); o.push_pct = (int)r.pick({ 0, 50, 100 }); o.pull_pct = (int)r.pick({ 0, 50, 100 });
        CRun R = cstream_run(c, in, r, o); if (R.err || !R.ended) { vf_viol("stream-error", "%s: %s", R.op, R.err ? enm(R.err) : "not ended"); FL2_freeCCtx(c); return; } out = std::move(R.out); vf_stat("streamed");
    } else { out.resize(FL2_compressBound(n)); size_t z = FL2_compressCCtx(c, out.data(), out.size(), in.data(), n, 0); if (FL2_isError(z)) { vf_viol("compress-error", "%s", enm(z)); FL2_freeCCtx(c); return; } out.resize(z); vf_stat("oneshot"); }
    u8 prop = FL2_getCCtxDictProp(c); FL2_freeCCtx(c);
    if (prop > 40) { vf_viol("prop", "FL2_getCCtxDictProp gives %u", prop); return; }
    FrameResult F = judge(out, p.omit, prop);
    if (F.st != REF_OK) { vf_viol("ref-reject", "independent decoder: %s after %zu of %zu content bytes", F.why.c_str(), F.r.out.size(), n); return; }
    if (F.r.out != in) { vf_viol("ref-mismatch", "content differs (%zu bytes, expected %zu)", F.r.out.size(), n); return; }
    if (F.consumed != out.size()) vf_viol("trailing", "stream ends at %zu of %zu bytes", F.consumed, out.size());
    if (!p.omit) { if (F.has_hash != p.hash) vf_viol("hash-flag", "checksum flag %d, option %d", F.has_hash, p.hash); if (out[0] & 0x40) vf_viol("reserved-bit", "property byte %02x", out[0]); if ((out[0] & 0x7F) > prop) vf_viol("prop-differs", "property byte %u, above FL2_getCCtxDictProp %u", out[0] & 0x7F, prop);
        if (p.hash) vf_stat("hash_verified"); } else vf_stat("omit_properties");
    // the second opinion
    { Bytes x; size_t used = 0; size_t off = p.omit ? 0 : 1; size_t body = F.r.consumed; int q = ref_dict_size(prop) > (300u << 20) ? -2 : xz_lzma2(out.data() + off, body, (u32)ref_dict_size(prop), x, n, &used); if (q >= 0) { vf_stat("liblzma_decodes"); if (q != 0 || used != body) vf_viol("liblzma-reject", "liblzma: result %d after %zu bytes", q, x.size()); else if (x != in) vf_viol("liblzma-mismatch", "liblzma decodes something else"); } }
    if (n && (F.r.chunks.empty() || !(F.r.chunks[0].control == 1 || F.r.chunks[0].control >= 0xE0))) vf_viol("first-chunk", "the stream does not start with a dictionary reset");
    size_t pos = 0, last = 0, resets = 0; size_t maxgap = 0, mingap = ~(size_t)0;
    for (auto &k : F.r.chunks) {
        if (vf_verbose && (k.control == 1 || k.control >= 0xE0)) fprintf(stderr, "reset control %02x at %zu unpack %zu\n", k.control, pos, k.unpack);
        bool dr = k.control == 1 || k.control >= 0xE0; if (dr) { if (resets) { maxgap = std::max(maxgap, pos - last); mingap = std::min(mingap, pos - last); } last = pos; ++resets; }
        if (k.has_props) { if ( k.props != (p.pb * 5 + p.lp) * 9 + p.lc) vf_viol("lclppb", "props byte %u for lc=%u lp=%u pb=%u", k.props, p.lc, p.lp, p.pb); }
        pos += k.unpack;
    }
    if (resets > 0) maxgap = std::max(maxgap, n - last);
    if (interval && resets) {
        if (maxgap > setting * interval) vf_viol("reset-interval", "%zu bytes without a dictionary reset; dictionary %zu, interval %zu", maxgap, setting, interval);
        if (resets > 1 || n > setting * interval) { vf_stat("interval_streams"); if (vf_verbose) fprintf(stderr, "gap min %zu max %zu of %zu resets %zu overlap %u\n", mingap, maxgap, setting * interval, resets, p.overlap); }
        // ... and not earlier than a whole block before it is used up
        if (resets > 1 && p.overlap && mingap + 64 < setting * (interval - 1)) vf_viol("reset-early", "dictionary reset after %zu bytes; dictionary %zu, interval %zu, overlap %u", mingap, setting, interval, p.overlap);
    } else if (!interval && p.overlap && resets > 1) vf_viol("reset-interval", "%zu dictionary resets with interval 0", resets);
    vf_stat("dict_resets", resets); vf_stat("chunks", F.r.chunks.size()); vf_stat("raw_chunks", F.r.unc_chunks); vf_max("max_distance", F.r.max_dist); vf_stat("bytes", n);
    if (F.r.max_dist > ref_dict_size(prop)) vf_viol("distance", "distance %zu, dictionary %zu", F.r.max_dist, ref_dict_size(prop));
    if (n > 64) vf_distinct("nontrivial", mix64(hash_bytes(in), hash_bytes(out)));
    if (idx < 3) vf_sample("%s %s threads=%u: %zu -> %zu bytes, %zu chunks, %zu dictionary resets, max distance %zu of %zu", p.desc().c_str(), stream ? "stream" : "one-shot", thr, n, out.size(), F.r.chunks.size(), resets, F.r.max_dist, ref_dict_size(prop));
}
int main(int argc, char **argv) { Args a = vf_args(argc, argv); bool slow = a.extra == "slow"; vf_loop(a, [&](u64 i, Rng &r) { one(i, r, slow); }); return 0; }
