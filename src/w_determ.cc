// C10: output is deterministic. The same work is repeated under other schedules, memory contents, addresses, entry points and segmentations.
#include "declib.h"
#include <thread>
#include <atomic>
#include <sched.h>
#include <unistd.h>
static int ncpu = 8;
static void pin(int k) { cpu_set_t s; CPU_ZERO(&s); static unsigned base = (unsigned)getpid(); base = base * 5 + 3; for (int i = 0; i < k; ++i) CPU_SET((base + i) % ncpu, &s); sched_setaffinity(0, sizeof s, &s); }
// the surroundings of one repetition
struct World {
    std::string desc; std::thread opener; std::atomic<bool> stop{false};
    World(Rng &r, bool plain) { if (plain) { vfh.fill = -1; vfh_noise(0, 1, 1); desc = "plain"; return; }
        char b[120]; vfh.fill = (int)r.pick({ -1, 0, 255, 256, 256, 1 }); int noise = (int)r.pick({ 0, 5, 50, 200 }), cpus = (int)r.pick({ 0, 0, 0, 2, 3, 1 }); bool gate = r.chance(25); if (cpus) pin(cpus); vfh_noise(noise, (unsigned)r.pick({ 20, 100, 400 }), r.next()); unsigned us = (unsigned)r.range(200, 6000), per = (unsigned)r.range(1, 5);
        if (gate) { vfh_gate(0); opener = std::thread([this, us, per] { for (unsigned k = 0; k < 6 && !stop; ++k) { struct timespec ts = { 0, (long)us * 1000 / 2 }; nanosleep(&ts, nullptr); vfh_gate((long)per * (k + 1)); } vfh_gate(-1); }); vf_stat("held_repetitions"); }
        snprintf(b, sizeof b, "fill=%d noise=%d cpus=%d gate=%d", vfh.fill, noise, cpus, gate); desc = b; }
    ~World() { stop = true; if (opener.joinable()) opener.join(); vfh_gate(-1); vfh.fill = -1; vfh_noise(0, 1, 1); pin(ncpu); }
};
// a copy of the input somewhere else, with other things before and after it
struct Placed { Bytes b; u8 *p; Placed(Rng &r, const Bytes &in, bool plain) { size_t off = plain ? 0 : r.range(0, 70), pad = plain ? 0 : r.range(0, 600); b.resize(off + in.size() + pad + 1); int f = (int)r.below(4); if (!plain) for (auto &c : b) c = f == 0 ? 0 : f == 1 ? 255 : f == 2 ? (u8)r.next() : in.empty() ? 7 : in[r.below(in.size())]; p = b.data() + off; if (!in.empty()) memcpy(p, in.data(), in.size()); if (!plain && f == 3 && in.size() > 8) for (size_t i = 0; i < pad; ++i) p[in.size() + i] = p[(in.size() - 1) - i % (in.size() / 2)]; } };
static void worked_before(FL2_CCtx *c, Rng &r) { Params q = gen_params(r, PP_SMALLDICT); q.high = false; if (q.level > 6) q.level = 3; if (r.chance(70)) apply_params(c, q); Bytes in = gen_data(r, r.logsize(1, 200000)), o(FL2_compressBound(in.size())); FL2_compressCCtx(c, o.data(), o.size(), in.data(), in.size(), 0); reset_params(c); vf_stat("used_contexts"); }
static void differ(const Bytes &a, const Bytes &b, const char *what, const std::string &w) { size_t m = std::min(a.size(), b.size()), i = 0; while (i < m && a[i] == b[i]) ++i; vf_viol("output-differs", "%s: %zu bytes against %zu, first difference at %zu (%s)", what, b.size(), a.size(), i, w.c_str()); }
static void oneshot_c(u64 idx, Rng &r, bool slow) {
    bool level_only = r.chance(20); Params p; if (level_only) { p.level = (int)r.range(1, 4); } else { p = gen_params(r, PP_SMALLDICT); p.high = false; if (p.level > 8) p.level = 5; } unsigned thr = r.chance(20) ? 1 : (unsigned)r.range(2, 8);
    size_t n = r.chance(45) ? r.range(300000, slow ? 700000 : 3000000) : r.logsize(1, 400000); std::vector<size_t> cuts; Bytes in = r.chance(20) ? gen_seams(r, n, cuts) : gen_data(r, n); n = in.size(); if (r.chance(15)) { static const char *ab = "abcd"; unsigned k = (unsigned)r.range(2, 4); for (auto &c : in) c = (u8)ab[r.below(k)]; }
    size_t bound = FL2_compressBound(n); Bytes first; int reps = (int)r.range(2, 4); vf_info("one-shot %s threads=%u size=%zu level_only=%d", p.desc().c_str(), thr, n, level_only);
    for (int k = 0; k < reps; ++k) {
        World w(r, k == 0); Placed src(r, in, k == 0); Bytes dst(bound + 64, (u8)(k == 0 ? 0 : r.next())); size_t off = k == 0 ? 0 : r.below(64), cap = k && r.chance(20) ? first.size() : bound; size_t z; std::string how = w.desc; vfh_reset();
        if (level_only && k && r.chance(60)) { if (thr == 1 && r.chance(50)) z = FL2_compress(dst.data() + off, cap, src.p, n, p.level); else z = FL2_compressMt(dst.data() + off, cap, src.p, n, p.level, thr); how += " simple"; }
        else { FL2_CCtx *c = thr == 1 && r.chance(50) ? FL2_createCCtx() : k && r.chance(30) ? FL2_createCStreamMt(thr, (int)r.below(2)) : FL2_createCCtxMt(thr); if (!c) return; if (k && r.chance(25)) { worked_before(c, r); how += " used"; }
            if (level_only) { int lv = r.chance(50) ? p.level : 0; if (!lv) FL2_CCtx_setParameter(c, FL2_p_compressionLevel, p.level); else if (k == 0) lv = p.level; z = FL2_compressCCtx(c, dst.data() + off, cap, src.p, n, lv); } else { size_t e = apply_params(c, p); if (FL2_isError(e)) vf_viol("param", "%s", enm(e)); z = FL2_compressCCtx(c, dst.data() + off, cap, src.p, n, 0); }
            FL2_freeCCtx(c); }
        vf_distinct("interleavings", vfh_order_hash()); vf_stat("sync_events", vfh_events());
        if (FL2_isError(z)) { if (cap == bound) { vf_viol("error", "%s (%s)", enm(z), how.c_str()); return; } vf_stat("exact_capacity_refused"); continue; } Bytes o(dst.begin() + off, dst.begin() + off + z);
        if (k == 0) { first = o; vf_distinct("nontrivial", hash_bytes(o)); } else { vf_stat("repetitions_compared"); if (thr > 1 && n > 300000) vf_stat("multithreaded_compared"); if (o != first) { differ(first, o, "one-shot compression", how); return; } }
        if (idx < 2 && k == 1) vf_sample("%s threads=%u size=%zu: %zu bytes again under %s", p.desc().c_str(), thr, n, first.size(), how.c_str());
    }
}
static void stream_c(u64 idx, Rng &r, bool slow) {
    Params p = gen_params(r, PP_SMALLDICT); p.high = false; if (p.level > 8) p.level = 5; unsigned thr = (unsigned)r.range(1, 6); int dual = (int)r.below(2); size_t n = r.chance(45) ? r.range(900000, slow ? 1600000 : 3000000) : r.logsize(1, 600000); Bytes in = gen_data(r, n), first; n = in.size(); int reps = (int)r.range(2, 4); vf_info("stream %s threads=%u dual=%d size=%zu", p.desc().c_str(), thr, dual, n);
    for (int k = 0; k < reps; ++k) {
        World w(r, k == 0); vfh_reset(); FL2_CStream *f = thr == 1 && !dual && r.chance(50) ? FL2_createCStream() : FL2_createCStreamMt(thr, dual); if (!f) return; if (k && r.chance(25)) worked_before(f, r); unsigned to = r.chance(35) ? (unsigned)r.pick({ 1, 1, 3 }) : 0; size_t e = apply_params(f, p); FL2_setCStreamTimeout(f, to); if (!FL2_isError(e)) e = FL2_initCStream(f, 0); if (FL2_isError(e)) { vf_viol("init", "%s", enm(e)); FL2_freeCStream(f); return; }
        COpt o; o.flush_pct = 0; o.change_lclppb = false; o.in_max = std::max<size_t>(r.logsize(100, 4 << 20), n / 300 + 1); o.out_max = std::max<size_t>(r.logsize(100, 2 << 20), n / 300 + 1); o.push_pct = (int)r.pick({ 0, 30, 100 }); o.pull_pct = (int)r.pick({ 0, 30, 100 }); CRun R = cstream_run(f, in, r, o); FL2_freeCStream(f); vf_distinct("interleavings", vfh_order_hash()); vf_stat("sync_events", vfh_events()); vf_stat("stream_timeouts", R.timeouts);
        if (R.err || R.stuck || !R.ended) { vf_viol("error", "stream: %s %s (%s)", R.op, R.err ? enm(R.err) : "stuck", w.desc.c_str()); return; }
        if (k == 0) { first = R.out; vf_distinct("nontrivial", hash_bytes(R.out)); } else { vf_stat("stream_repetitions_compared"); if (n > 1000000) vf_stat("multi_block_streams_compared"); if (R.out != first) { char t[160]; snprintf(t, sizeof t, "stream, timeout %u, pieces to %zu / %zu, push %d%%, pull %d%%", to, o.in_max, o.out_max, o.push_pct, o.pull_pct); differ(first, R.out, t, w.desc); return; } }
    }
    (void)idx;
}
static void decode(u64, Rng &r, bool slow) {
    Src x = gen_src(r, slow ? 60000 : 400000, 45); Bytes &f = x.f; FrameResult F = ref_frame(f.data(), f.size(), 64u << 20); size_t olen = F.r.out.size(); bool valid = F.st == REF_OK && F.hash_ok; bool stream = r.chance(50); unsigned thr = (unsigned)r.range(1, 5); int reps = (int)r.range(3, 5); u64 sd = r.next(); vf_info("decode %s stream=%d threads=%u", x.how.c_str(), stream, thr);
    int code0 = 0; Bytes out0; size_t consumed0 = 0; size_t cap = stream ? 0 : r.chance(70) ? olen + r.below(20) : r.below(olen + 1);
    for (int k = 0; k < reps; ++k) {
        World w(r, k == 0); int code; Bytes out; size_t used = 0;
        if (stream) { FL2_DStream *d = thr == 1 ? FL2_createDStream() : FL2_createDStreamMt(thr); if (!d) return; unsigned to = k && r.chance(30) ? 1 : 0; FL2_setDStreamTimeout(d, to); Rng q(sd); DOpt o; o.in_max = std::max<size_t>(q.logsize(1, 200000), f.size() / 300 + 1); o.out_max = std::max<size_t>(q.logsize(1, 400000), olen / 300 + 1); o.out_limit = 66u << 20; DResult R = dstream_run(d, f, q, o); FL2_freeDStream(d); code = R.ended ? 0 : FL2_isError(R.code) ? 1 : 2; out = R.out; used = R.consumed; if (R.bad) vf_viol("contract", "%s", R.bad); }
        else { Placed src(r, f, k == 0); out.assign(cap + 1, (u8)r.next()); size_t z = oneshot(thr == 1 ? (int)r.pick({ (int)D_SIMPLE, (int)D_CTX }) : (int)r.pick({ (int)D_MT, (int)D_CTXMT }), thr, out.data(), cap, src.p, f.size()); code = FL2_isError(z) ? 1 : 0; out.resize(code ? 0 : std::min(z, cap)); }
        if (k == 0) { code0 = code; out0 = out; consumed0 = used; vf_distinct("nontrivial", mix64(hash_bytes(f), cap)); continue; }
        vf_stat("decodings_compared"); if (!valid) vf_stat("invalid_decodings_compared");
        if (code != code0) { vf_viol("verdict-differs", "%s decompression: %d, then %d (0 complete, 1 error, 2 incomplete) (%s)", stream ? "stream" : "one-shot", code0, code, w.desc.c_str()); return; }
        if (code == 0 && (out != out0 || used != consumed0)) { vf_viol("content-differs", "decompression delivered other bytes (%s)", w.desc.c_str()); return; }
        if (code && stream && memcmp(out.data(), out0.data(), std::min(out.size(), out0.size()))) { vf_viol("content-differs", "decompression delivered other bytes before its end (%s)", w.desc.c_str()); return; }
    }
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv); bool slow = a.extra.find("slow") != std::string::npos; ncpu = (int)sysconf(_SC_NPROCESSORS_ONLN);
    vf_loop(a, [&](u64 i, Rng &r) { int k = (int)r.below(10); if (k < 4) oneshot_c(i, r, slow); else if (k < 8) stream_c(i, r, slow); else decode(i, r, slow); vf_flush(); });
    return 0;
}
