// C13: every allocation and every thread creation of a scenario is made to fail, once and persistently.
#include "declib.h"
#include <unistd.h>
#include <memory>
// A scenario: (re)runnable steps over objects that start absent.
//   run(retry): performs the whole operation; returns "" when the result is correct, "E..." for a reported error, "!..." for a wrong result
//   free(): frees what exists
struct Scen { std::string name; std::function<std::string(bool retry)> run; std::function<void()> free_; };
static std::string err(size_t c) { return std::string("E:") + enm(c); }
static std::string cmp(const Bytes &got, const Bytes &want) { return got == want ? "" : "!wrong content"; }
static std::string decodes(const Bytes &c, const Bytes &want) { FrameResult F = ref_frame(c.data(), c.size()); if (F.st != REF_OK) return "!reported success but the stream is not valid: " + F.why; if (F.r.out != want) return "!reported success but the stream holds other content"; return ""; }
static bool g_resource(size_t c) { int e = FL2_getErrorCode(c); return e == FL2_error_memory_allocation || e == FL2_error_init_missing || e == FL2_error_canceled || e == FL2_error_stage_wrong || e == FL2_error_GENERIC; }

static Scen make(Rng &r, bool slow) {
    Scen s; int kind = (int)r.below(9); auto in = std::make_shared<Bytes>(); unsigned th = (unsigned)(r.chance(35) ? 1 : r.range(2, 4));
    Params p = gen_params(r, PP_SMALLDICT); p.high = false; if (p.level > 8) p.level = 3; if (slow && p.level > 6) p.level = 5; char nm[200];
    size_t n = r.chance(20) ? r.below(2000) : r.chance(25) && !slow ? r.range(600000, 1600000) : r.range(2000, slow ? 60000 : 250000); *in = gen_data(r, n); u64 script = r.next();
    if (kind <= 3) { // compression
        if (kind == 0) { s.name = "FL2_compressMt"; int lv = p.level; s.run = [=](bool) { Bytes c(FL2_compressBound(in->size())); size_t z = FL2_compressMt(c.data(), c.size(), in->data(), in->size(), std::min(lv, 2), th); if (FL2_isError(z)) return err(z); c.resize(z); return decodes(c, *in); }; s.free_ = [] {}; }
        else if (kind == 1) { s.name = "FL2_compressCCtx"; auto x = std::make_shared<FL2_CCtx *>(nullptr); bool twice = r.chance(40);
            s.run = [=](bool) { if (!*x) *x = FL2_createCCtxMt(th); if (!*x) return std::string("E:create"); reset_params(*x); size_t e = apply_params(*x, p); if (FL2_isError(e)) return "!parameters: " + err(e); for (int k = 0; k <= twice; ++k) { Bytes c(FL2_compressBound(in->size())); size_t z = FL2_compressCCtx(*x, c.data(), c.size(), in->data(), in->size(), 0); if (FL2_isError(z)) return err(z); c.resize(z); FrameResult F = judge(c, p.omit, FL2_getCCtxDictProp(*x)); if (F.st != REF_OK) return "!reported success but the stream is not valid: " + F.why; if (F.r.out != *in) return std::string("!reported success but other content"); } return std::string(); };
            s.free_ = [=] { FL2_freeCCtx(*x); *x = nullptr; }; }
        else { int dual = (int)r.below(2); unsigned to = r.chance(35) ? (unsigned)r.range(1, 5) : 0; s.name = std::string("compression stream") + (dual ? " dual" : "") + (to ? " timeout" : ""); auto x = std::make_shared<FL2_CStream *>(nullptr); bool twice = r.chance(30), both = r.chance(30);
            s.run = [=](bool retry) { if (!*x) *x = FL2_createCStreamMt(th, dual); if (!*x) return std::string("E:create"); FL2_CStream *f = *x; if (retry) FL2_cancelCStream(f);
                size_t e = FL2_setCStreamTimeout(f, to); if (FL2_isError(e)) return err(e);
                for (int k = 0; k <= twice; ++k) { reset_params(f); e = apply_params(f, p); if (FL2_isError(e)) return retry ? "!parameters after a failure: " + err(e) : err(e); e = FL2_initCStream(f, 0); if (FL2_isError(e)) return err(e);
                    Rng q(script); COpt o; o.in_max = o.out_max = 400000; o.in_max = 1 << 20; CRun R = cstream_run(f, *in, q, o); if (R.stuck) return std::string("!stuck after ") + R.op; if (FL2_isError(R.err)) return err(R.err); if (!R.ended) return "!stream ended oddly " + R.note;
                    FrameResult F = judge(R.out, p.omit, FL2_getCCtxDictProp(f)); if (F.st != REF_OK) return "!reported success but the stream is not valid: " + F.why; if (F.r.out != *in) return std::string("!reported success but other content");
                    if (both && !k) { Bytes c(FL2_compressBound(in->size())); size_t z = FL2_compressCCtx(f, c.data(), c.size(), in->data(), in->size(), 0); if (FL2_isError(z)) return err(z); c.resize(z); FrameResult G = judge(c, p.omit, FL2_getCCtxDictProp(f)); if (G.st != REF_OK || G.r.out != *in) return std::string("!one-shot use of the stream object gives a wrong stream"); } }
                return std::string(); };
            s.free_ = [=] { FL2_freeCStream(*x); *x = nullptr; }; }
    } else { // decompression
        auto f = std::make_shared<Bytes>(), want = std::make_shared<Bytes>();
        if (r.chance(25)) { FL2_CCtx *c = FL2_createCCtx(); apply_params(c, p); FL2_CCtx_setParameter(c, FL2_p_omitProperties, 0); f->resize(FL2_compressBound(n)); size_t z = FL2_compressCCtx(c, f->data(), f->size(), in->data(), n, 0); f->resize(FL2_isError(z) ? 0 : z); FL2_freeCCtx(c); *want = *in; }
        else { SynthOpt o = synth_opt(r, slow ? 60000 : 600000); o.target = std::max<size_t>(o.target, 100); o.resets_pct = (int)r.pick({ 5, 60, 60, 90 }); SynthOut v = synth_frame(r, o); *f = v.frame; *want = v.content; }
        if (kind == 4) { s.name = "FL2_decompress(Mt)"; s.run = [=](bool) { Bytes o(want->size() + 1); size_t z = th == 1 ? FL2_decompress(o.data(), want->size(), f->data(), f->size()) : FL2_decompressMt(o.data(), want->size(), f->data(), f->size(), th); if (FL2_isError(z)) return err(z); o.resize(z); return cmp(o, *want); }; s.free_ = [] {}; }
        else if (kind == 5) { s.name = "FL2_decompressDCtx"; auto x = std::make_shared<FL2_DCtx *>(nullptr); s.run = [=](bool) { if (!*x) *x = th == 1 ? FL2_createDCtx() : FL2_createDCtxMt(th); if (!*x) return std::string("E:create"); for (int k = 0; k < 2; ++k) { Bytes o(want->size() + 1); size_t z = FL2_decompressDCtx(*x, o.data(), want->size(), f->data(), f->size()); if (FL2_isError(z)) return err(z); o.resize(z); auto c = cmp(o, *want); if (!c.empty()) return c; } return std::string(); }; s.free_ = [=] { FL2_freeDCtx(*x); *x = nullptr; }; }
        else { bool mt = r.chance(75); unsigned to = r.chance(35) ? (unsigned)r.range(1, 5) : 0; size_t lim = r.chance(30) ? r.logsize(30000, 4 << 20) : (size_t)1 << 30; s.name = std::string("decompression stream") + (mt ? " Mt" : "") + (to ? " timeout" : "") + (lim < (1u << 30) ? " limit" : ""); auto x = std::make_shared<FL2_DStream *>(nullptr); bool twice = r.chance(30);
            s.run = [=](bool) { if (!*x) *x = mt ? FL2_createDStreamMt(th) : FL2_createDStream(); if (!*x) return std::string("E:create"); size_t e = FL2_setDStreamTimeout(*x, to); if (FL2_isError(e)) return err(e); FL2_setDStreamMemoryLimitMt(*x, lim);
                for (int k = 0; k <= twice; ++k) { Rng q(script); DOpt o; o.in_max = std::max<size_t>(q.logsize(100, 300000), f->size() / 300); o.out_max = std::max<size_t>(q.logsize(100, 300000), want->size() / 300); o.style = (int)q.pick({ 0, 3 }); if (o.style == 3) o.out_max = want->size() + 10; DResult D = dstream_run(*x, *f, q, o); if (D.stalled) return std::string("!stuck"); if (FL2_isError(D.code)) return err(D.code); if (!D.ended) return std::string("!no end and no error"); auto c = cmp(D.out, *want); if (!c.empty()) return c; }
                return std::string(); };
            s.free_ = [=] { FL2_freeDStream(*x); *x = nullptr; }; }
    }
    snprintf(nm, sizeof nm, ", %u threads, %zu bytes, ", th, n); s.name += nm + p.desc(); return s;
}
static void one(u64 idx, Rng &r, bool slow) {
    Scen s = make(r, slow); vf_info("%s", s.name.c_str()); if (idx < 4) vf_sample("%s", s.name.c_str());
    vfh.track = true; vfh.fill = r.chance(50) ? (int)r.below(256) : 256; vfh_reset(); size_t b0 = vfh_live_blocks(), y0 = vfh_live_bytes(); long t0 = vfh_live_threads();
    auto leak = [&](const char *when, const char *pt) { if (vfh_live_blocks() != b0 || vfh_live_bytes() != y0) vf_viol("leak", "%s: %ld blocks, %ld bytes remain allocated %s (%s)", s.name.c_str(), (long)(vfh_live_blocks() - b0), (long)(vfh_live_bytes() - y0), when, pt); if (vfh_live_threads() != t0) vf_viol("thread-leak", "%s: %ld threads remain %s (%s)", s.name.c_str(), vfh_live_threads() - t0, when, pt); b0 = vfh_live_blocks(); y0 = vfh_live_bytes(); t0 = vfh_live_threads(); };
    std::string base = s.run(false); s.free_(); long A = vfh_allocs(), T = vfh_tcreates(); leak("after a run without faults", "none");
    if (!base.empty()) { vf_viol("baseline", "%s without faults: %s", s.name.c_str(), base.c_str()); return; }
    vf_max("allocations_in_scenario", A); vf_max("threads_in_scenario", T); vf_stat("scenarios");
    long total = (A + T) * 2 + 3; u64 hn = hash_bytes((const u8 *)s.name.data(), s.name.size());
    // all points when there are few enough; a long scenario (thousands of blocks) has its first ones and a sample of the rest
    const long LIM = slow ? 60 : 120; if (A > LIM) vf_stat("scenarios_sampled"); else vf_stat("scenarios_enumerated_completely");
    for (long q = 0; q < total; ++q) {
        if (A > LIM && q < 2 * A && q / 2 >= LIM / 2 && q / 2 < A - 10 && r.below(A) >= (u64)LIM / 2) continue;
        char pt[80]; vfh_reset(); if (q % 8 == 0) vf_flush();
        if (q < 2 * A) { vfh.fail_at = q / 2; vfh.fail_after = q & 1; snprintf(pt, sizeof pt, "allocation %ld of %ld fails%s", q / 2, A, q & 1 ? " and all later" : ""); }
        else if (q < 2 * (A + T)) { long k = q - 2 * A; vfh.tfail_at = k / 2; vfh.tfail_after = k & 1; snprintf(pt, sizeof pt, "thread creation %ld of %ld fails%s", k / 2, T, k & 1 ? " and all later" : ""); }
        else { size_t lim = (size_t[]){ 1000, 300000, 3000000 }[q - 2 * (A + T)]; vfh.fail_above = lim; snprintf(pt, sizeof pt, "allocations above %zu fail", lim); }
        vf_info("%s", pt);
        std::string x = s.run(false); long failed = vfh_failed(); vf_stat("injection_points"); vf_stat(failed ? "faults_delivered" : "faults_not_reached"); vf_distinct("nontrivial", mix64(hn, q, failed));
        if (x[0] == '!') { vf_viol("wrong-result", "%s, %s: %s", s.name.c_str(), pt, x.c_str() + 1); }
        else if (x[0] == 'E') { vf_stat("errors_reported"); if (!failed) vf_viol("error-without-fault", "%s, %s: %s", s.name.c_str(), pt, x.c_str()); } else if (failed) vf_stat("completed_despite_fault");
        // resources are available again: the same object must do the work
        vfh_reset();
        if (r.chance(x[0] == 'E' ? 85 : 15)) { std::string y = s.run(true); vf_stat("retries"); if (!y.empty()) vf_viol("retry", "%s: repeated after the failure (%s -> %s) with resources available: %s", s.name.c_str(), pt, x.c_str(), y.c_str()); }
        s.free_(); leak("after the objects were freed", pt);
    }
    vfh.track = false; vfh.fill = -1;
}
int main(int argc, char **argv) { Args a = vf_args(argc, argv); bool slow = a.extra.find("slow") != std::string::npos; vf_loop(a, [&](u64 i, Rng &r) { one(i, r, slow); }); return 0; }
