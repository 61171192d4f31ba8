// C02: streaming compression is lossless for every call history.
#include "fl2h.h"
static void one(u64 idx, Rng &r, bool slow) {
    Params p = gen_params(r, PP_SMALLDICT); if (p.high && r.chance(70)) { p.high = false; }
    unsigned thr = r.chance(40) ? 1 : (unsigned)r.range(2, 6); int dual = r.chance(45); unsigned timeout = r.chance(35) ? (unsigned)r.pick({ 1, 1, 2, 10, 1000 }) : 0;
    bool lvl_init = r.chance(30);
    int kind = (int)r.below(GEN_KINDS); size_t cap = slow ? (r.chance(20) ? 2500000 : 300000) : r.chance(35) ? 6u << 20 : 1500000; if (p.level > 6 || p.high) cap = std::min<size_t>(cap, 2500000);
    Bytes in = gen_data(r, !slow && r.chance(20) ? r.range(900000, cap) : r.chance(60) ? r.logsize(1, cap) : gen_size(r, cap), kind); size_t n = in.size();
    COpt o; bool seams = r.chance(slow ? 25 : 30); if (seams) { in = gen_seams(r, r.logsize(200, slow ? 60000 : 250000), o.cuts); n = in.size(); if (r.chance(6)) { p.add(FL2_p_dictionarySize, 128u << 20); p.high = false; dual = 0; vf_stat("structured_tables"); } vf_stat("seam_streams"); }
    o.in_max = r.logsize(64, 3 << 20); o.out_max = r.logsize(16, 2 << 20); if (n / o.in_max > 400) o.in_max = n / 400 + 1; if (n / o.out_max > 600) o.out_max = n / 600 + 1;
    o.push_pct = (int)r.pick({ 0, 30, 50, 100 }); o.pull_pct = (int)r.pick({ 0, 30, 100 }); o.flush_pct = (int)r.pick({ 0, 0, 2, 10, 40 }); o.nullout_pct = (int)r.pick({ 0, 20, 100 }); o.query_pct = (int)r.pick({ 0, 5, 30 }); o.change_lclppb = r.chance(15);
    vf_info("%s threads=%u dual=%d timeout=%u kind=%s size=%zu in_max=%zu out_max=%zu push=%d pull=%d flush=%d null=%d", p.desc().c_str(), thr, dual, timeout, gen_kind_name(kind), n, o.in_max, o.out_max, o.push_pct, o.pull_pct, o.flush_pct, o.nullout_pct);
    vfh_noise(timeout || dual || thr > 1 ? (int)r.pick({ 0, 0, 10, 40 }) : 0, 100, r.next());
    FL2_CStream *f = thr == 1 && !dual && r.chance(50) ? FL2_createCStream() : FL2_createCStreamMt(thr, dual); if (!f) { vf_viol("create", "stream creation failed"); return; }
    int rounds = r.chance(25) ? 2 : 1;
    for (int k = 0; k < rounds; ++k) {
        size_t e = k ? 0 : apply_params(f, p); if (FL2_isError(e)) { vf_viol("param", "setting valid parameters failed: %s", enm(e)); break; }
        if (timeout || r.chance(10)) { e = FL2_setCStreamTimeout(f, timeout); if (FL2_isError(e)) { vf_viol("timeout-set", "%s", enm(e)); break; } }
        Params q = p; if (lvl_init && k == 0) { q = Params(); q.level = (int)r.range(1, 3); }
        e = FL2_initCStream(f, lvl_init && k == 0 ? q.level : 0); if (FL2_isError(e)) { vf_viol("init", "FL2_initCStream: %s", enm(e)); break; }
        if (k) { o.cuts.clear(); in = gen_data(r, r.logsize(1, 200000)); n = in.size(); }
        CRun R = cstream_run(f, in, r, o);
        vf_stat("calls", R.calls); vf_stat("timeouts", R.timeouts); vf_stat("pulls", R.pulls); vf_stat("pushes", R.pushes); vf_stat("flushes", R.flushes.size()); vf_distinct("call_histories", R.ophash);
        if (!R.note.empty()) vf_viol("api", "%s", R.note.c_str());
        if (R.stuck) { vf_viol("stuck", "no end after %llu calls, last %s", (unsigned long long)R.calls, R.op); break; }
        if (R.err) { vf_viol("stream-error", "%s failed: %s (fed %zu of %zu, got %zu)", R.op, enm(R.err), R.fed, n, R.out.size()); break; }
        bool raw = p.omit; u8 prop = 40; if (raw) { prop = FL2_getCCtxDictProp(f); if (prop > 40) prop = 40; }
        FrameResult F = judge(R.out, raw, prop);
        if (F.st != REF_OK) { vf_viol("ref-reject", "independent decoder: %s after %zu of %zu bytes", F.why.c_str(), F.r.out.size(), n); break; }
        if (F.r.out != in) { size_t i = 0; while (i < n && i < F.r.out.size() && F.r.out[i] == in[i]) ++i; vf_viol("ref-mismatch", "content differs at %zu (%zu bytes, expected %zu)", i, F.r.out.size(), n); break; }
        if (F.consumed != R.out.size()) { vf_viol("ref-trailing", "frame ends at %zu of %zu output bytes", F.consumed, R.out.size()); break; }
        for (auto &fl : R.flushes) { // the output at a completed flush decodes to the input so far
            size_t off = raw || fl.second == 0 ? 0 : 1; RefResult x = ref_lzma2(R.out.data() + off, fl.second - off, SIZE_MAX);
            if (x.out.size() != fl.first || memcmp(x.out.data(), in.data(), fl.first)) { vf_viol("flush-incomplete", "flush reported complete after %zu input bytes, but the %zu output bytes so far decode to %zu", fl.first, fl.second, x.out.size()); break; }
            vf_stat("flushes_verified");
        }
        Bytes d(n + 1); size_t z;
        if (raw) { FL2_DCtx *c = FL2_createDCtx(); FL2_initDCtx(c, prop); z = FL2_decompressDCtx(c, d.data(), n, R.out.data(), R.out.size()); FL2_freeDCtx(c); }
        else z = oneshot((int)r.below(4), (unsigned)r.range(1, 6), d.data(), n, R.out.data(), R.out.size());
        if (FL2_isError(z)) vf_viol("decode-error", "library decoder: %s", enm(z)); else if (z != n || memcmp(d.data(), in.data(), n)) vf_viol("decode-mismatch", "library decoder: %zu bytes, expected %zu", z, n);
        vf_stat("streams"); vf_stat("bytes", n); vf_stat("dict_resets", F.r.dict_resets); if (dual) vf_stat("dual_buffer_streams"); if (timeout) vf_stat("timeout_streams"); if (n > (1u << 20)) vf_stat("streams_longer_than_dictionary");
        if (n > 64) vf_distinct("nontrivial", mix64(hash_bytes(in), R.ophash));
        if (idx < 3) vf_sample("%s threads=%u dual=%d timeout=%u: %zu bytes in %llu calls -> %zu, %zu flushes", p.desc().c_str(), thr, dual, timeout, n, (unsigned long long)R.calls, R.out.size(), R.flushes.size());
    }
    FL2_freeCStream(f); vfh_noise(0, 1, 1);
}
int main(int argc, char **argv) { Args a = vf_args(argc, argv); bool slow = a.extra == "slow"; vf_loop(a, [&](u64 i, Rng &r) { one(i, r, slow); }); return 0; }
