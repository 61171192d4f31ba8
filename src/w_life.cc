// C11 (mode reuse): each operation on a long-lived object gives what a new object with the same parameters gives.
// C17 (mode leak): whatever an object lived through, freeing it releases everything once; repetition does not grow it.
#include "declib.h"
static bool leak;
typedef std::vector<Params> Hist; static const int RESET = -77;
static size_t replay(FL2_CCtx *c, const Hist &h) { for (auto &p : h) { if (p.level == RESET) reset_params(c); else { size_t e = apply_params(c, p); if (FL2_isError(e)) return e; } } return 0; }
static size_t g_diff;
struct CObj { FL2_CCtx *c = nullptr; unsigned th = 1; int dual = 0; bool stream_obj = false; Hist h; Params last; bool active = false; unsigned timeout = 0; std::string log; };
struct Out { size_t code = 0; Bytes b; };
static Out comp(FL2_CCtx *c, const Bytes &in, size_t cap) { Out o; o.b.resize(cap); o.code = FL2_compressCCtx(c, o.b.data(), cap, in.data(), in.size(), 0); if (!FL2_isError(o.code)) o.b.resize(o.code); return o; }
static bool active_error(size_t e) { return FL2_isError(e) != 0; }
static Out stream(FL2_CStream *f, const Bytes &in, u64 seed, const COpt &o, int level) { Out R; size_t e = FL2_initCStream(f, level); if (FL2_isError(e)) { R.code = e; return R; } Rng q(seed); CRun x = cstream_run(f, in, q, o); R.code = x.stuck ? (size_t)-1 : x.err; R.b = std::move(x.out); if (!x.ended && o.stop_after == SIZE_MAX && !R.code) R.code = (size_t)-1; return R; }
static void compare(CObj &o, const Bytes &in, Out &a, const std::function<Out(FL2_CCtx *)> &again, const char *what, bool exact = true) {
    // the same operation on an object that did nothing else
    if (leak) return;
    FL2_CCtx *f = FL2_createCStreamMt(o.th, o.dual); if (!f) return; size_t e = replay(f, o.h); if (FL2_isError(e)) { vf_viol("harness", "replayed parameters refused: %s", enm(e)); FL2_freeCStream(f); return; }
    u8 prop_a = FL2_getCCtxDictProp(o.c); Out b = again(f); u8 prop_b = FL2_getCCtxDictProp(f); vf_stat("compared_with_fresh");
    for (int p = FL2_p_compressionLevel; p <= FL2_p_omitProperties; ++p) { size_t x = FL2_CCtx_getParameter(o.c, (FL2_cParameter)p), y = FL2_CCtx_getParameter(f, (FL2_cParameter)p); if (x != y) vf_viol("parameter-changed", "%s: parameter %d is %zu in the reused object and %zu in a new one with the same settings (%s)", what, p, x, y, o.log.c_str()); }
    FL2_freeCStream(f);
    if (FL2_isError(a.code) != FL2_isError(b.code) || (FL2_isError(a.code) && a.code != b.code)) { vf_viol("verdict-differs", "%s: reused object: %s; new object: %s (%s)", what, FL2_isError(a.code) ? enm(a.code) : "success", FL2_isError(b.code) ? enm(b.code) : "success", o.log.c_str()); return; }
    if (FL2_isError(a.code)) { vf_stat("same_error"); return; }
    FrameResult F = judge(a.b, o.last.omit, prop_a);
    if (F.st != REF_OK) { vf_viol("invalid-stream", "%s by a reused object: %s (%s)", what, F.why.c_str(), o.log.c_str()); return; }
    if (F.r.out != in) { vf_viol("other-content", "%s by a reused object decodes to %zu bytes, not the %zu given (%s)", what, F.r.out.size(), in.size(), o.log.c_str()); return; }
    if (!o.last.omit && F.has_hash != o.last.hash) vf_viol("hash-option", "%s: checksum flag %d, option %d (%s)", what, F.has_hash, o.last.hash, o.log.c_str());
    FrameResult G = judge(b.b, o.last.omit, prop_b); if (G.st != REF_OK) return;
    if (prop_a != prop_b || F.prop != G.prop) vf_viol("property-differs", "%s: property %u (%u) in the reused object, %u (%u) in a new one (%s)", what, F.prop, prop_a, G.prop, prop_b, o.log.c_str());
    if (F.r.dict_resets != G.r.dict_resets) vf_stat("resets_differ");
    if (a.b != b.b) { if (exact) vf_viol("other-bytes", "%s: %zu bytes from the reused object, %zu from a new one, and not the same (%s)", what, a.b.size(), b.b.size(), o.log.c_str()); vf_stat("bytes_differ"); size_t d = a.b.size() > b.b.size() ? a.b.size() - b.b.size() : b.b.size() - a.b.size(); vf_max("size_difference", d); vf_max("size_difference_permille", d * 1000 / (b.b.size() + 1)); if (d > 64 + b.b.size() / 50) vf_viol("size-differs", "%s: %zu bytes from the reused object, %zu from a new one (%s)", what, a.b.size(), b.b.size(), o.log.c_str()); } else vf_stat("bytes_equal");
    vf_distinct("nontrivial", hash_bytes(a.b) ^ hash_bytes(in));
}
static Bytes somedata(Rng &r, bool slow) { size_t cap = slow ? 30000 : r.chance(15) ? 2600000 : 200000; return gen_data(r, r.chance(8) ? r.below(3) : gen_size(r, cap)); }
static void quiet_params(Rng &r, Params &p, bool slow) { if (p.level > (slow ? 4 : 6)) p.level = 2; if (p.high && slow) p.high = false; }
static void c_life(Rng &r, bool slow) {
    CObj o; o.th = (unsigned)(r.chance(40) ? 1 : r.range(2, 4)); o.dual = r.below(2); o.c = FL2_createCStreamMt(o.th, o.dual); if (!o.c) return; o.last = Params(); int ops = (int)r.range(3, slow ? 7 : 12);
    { Params z; z.level = RESET; o.h.push_back(z); reset_params(o.c);
#ifdef NO_XXHASH
      o.last.hash = false;
#endif
      Params p = gen_params(r, PP_SMALLDICT); quiet_params(r, p, slow); o.h.push_back(p); o.last = p; size_t e = apply_params(o.c, p); if (FL2_isError(e)) vf_viol("parameters", "%s refused: %s", p.desc().c_str(), enm(e)); }
    for (int k = 0; k < ops; ++k) {
        int op = (int)r.below(11); char t[160];
        if (op <= 2) { // change parameters; a stream in progress has to be ended first
            bool was = o.active; if (o.active) { if (r.chance(40)) { size_t e = FL2_initCStream(o.c, 0); if (FL2_isError(e)) vf_viol("reinit", "FL2_initCStream after an abandoned stream: %s (%s)", enm(e), o.log.c_str()); } FL2_cancelCStream(o.c); o.active = false; o.log += " end"; }
            if (r.chance(50)) { Params z; z.level = RESET; o.h.push_back(z); reset_params(o.c); o.last = Params();
#ifdef NO_XXHASH
                o.last.hash_opt = false;
#endif
            }
            Params p = gen_params(r, PP_SMALLDICT); quiet_params(r, p, slow); bool hash_set = false, omit_set = false; for (auto &q : p.set) { if (q.first == FL2_p_doXXHash) hash_set = true; if (q.first == FL2_p_omitProperties) omit_set = true; }
            if (!omit_set && o.last.omit) { p.add(FL2_p_omitProperties, 0); p.omit = false; } if (!hash_set) p.hash_opt = o.last.hash_opt; p.hash = p.hash_opt && !p.omit;
            size_t e = apply_params(o.c, p); vf_stat("parameter_changes"); if (FL2_isError(e)) { vf_viol("parameters-refused", "%s after%s: %s", p.desc().c_str(), o.log.c_str(), enm(e)); break; } o.h.push_back(p); o.last = p; snprintf(t, sizeof t, " set[%.100s]%s", p.desc().c_str(), was ? "*" : ""); o.log += t;
        } else if (op <= 4) { // one-shot, enough room
            Bytes in = somedata(r, slow); size_t cap = FL2_compressBound(in.size()); bool was = o.active; Out a = comp(o.c, in, cap); o.active = false; snprintf(t, sizeof t, " oneshot(%zu%s)", in.size(), was ? ",active" : ""); o.log += t; vf_info("%s", t);
            if (FL2_isError(a.code)) { vf_viol("oneshot-failed", "%s:%s", enm(a.code), o.log.c_str()); break; } compare(o, in, a, [&](FL2_CCtx *f) { return comp(f, in, cap); }, "FL2_compressCCtx"); vf_stat("oneshots");
        } else if (op == 5) { // destination too small
            Bytes in = somedata(r, slow); size_t cap = r.below(std::max<size_t>(in.size() / 2, 1)); Out a = comp(o.c, in, cap); if (!FL2_isError(a.code)) o.active = false; /* refused at once, it leaves a stream in progress alone */ snprintf(t, sizeof t, " small(%zu/%zu:%s)", in.size(), cap, FL2_isError(a.code) ? "err" : "ok"); o.log += t; compare(o, in, a, [&](FL2_CCtx *f) { return comp(f, in, cap); }, "FL2_compressCCtx, small destination"); vf_stat("small_destinations");
        } else if (op <= 8) { // a whole stream
            Bytes in = somedata(r, slow); unsigned to = r.chance(30) ? (unsigned)r.range(1, 4) : 0; size_t e = FL2_setCStreamTimeout(o.c, to); if (FL2_isError(e)) { if (o.active) { FL2_cancelCStream(o.c); o.active = false; e = FL2_setCStreamTimeout(o.c, to); } if (FL2_isError(e)) { vf_viol("timeout-refused", "%s:%s", enm(e), o.log.c_str()); break; } }
            int lvl = 0; if (r.chance(15)) { lvl = (int)r.range(1, 3); Params p; p.level = lvl; p.high = o.last.high; Params keep = o.last; if (lvl) { p.omit = keep.omit; p.hash = keep.hash; p.hash_opt = keep.hash_opt; o.h.push_back(p); o.last = p; } }
            u64 sd = r.next(); COpt c; c.in_max = std::max<size_t>(r.logsize(1, 1 << 20), in.size() / 300 + 1); c.out_max = r.logsize(200, 1 << 20); c.change_lclppb = false; c.flush_pct = 0; if (r.chance(34)) { /* at fixed positions: how often a call reports output may depend on a worker thread */ size_t q = 0; while (c.cuts.size() < 4 && q + 1 < in.size()) { q += r.range(1, in.size() - q); if (q < in.size()) c.cuts.push_back(q); } }
            bool was = o.active; Out a = stream(o.c, in, sd, c, lvl); o.active = false; snprintf(t, sizeof t, " stream(%zu,timeout %u,level %d%s)", in.size(), to, lvl, was ? ",active" : ""); o.log += t; vf_info("%s", t);
            if (FL2_isError(a.code)) { vf_viol("stream-failed", "%s:%s", a.code == (size_t)-1 ? "no end" : enm(a.code), o.log.c_str()); break; } compare(o, in, a, [&](FL2_CCtx *f) { FL2_setCStreamTimeout(f, to); return stream(f, in, sd, c, lvl); }, "stream", to == 0 || c.cuts.empty()); vf_stat("streams");
        } else { // an abandoned stream
            Bytes in = somedata(r, slow); unsigned to = r.chance(50) ? (unsigned)r.range(1, 3) : 0; if (o.active) FL2_cancelCStream(o.c); FL2_setCStreamTimeout(o.c, to);
            COpt c; c.stop_after = r.below(in.size() + 1); c.in_max = std::max<size_t>(r.logsize(1, 1 << 20), in.size() / 300 + 1); u64 sd = r.next(); Out a = stream(o.c, in, sd, c, 0); if (FL2_isError(a.code)) { vf_viol("stream-failed", "%s:%s", a.code == (size_t)-1 ? "stuck" : enm(a.code), o.log.c_str()); break; }
            o.active = true; bool cancel = r.chance(40); if (r.chance(30)) { size_t e = FL2_endStream(o.c, nullptr); if (FL2_isError(e) && !FL2_isTimedOut(e)) vf_stat("end_error"); }
            if (cancel) { FL2_cancelCStream(o.c); o.active = false; } snprintf(t, sizeof t, " abandon(%zu of %zu,timeout %u%s)", c.stop_after, in.size(), to, cancel ? ",cancel" : ""); o.log += t; vf_stat("abandoned");
        }
        vf_stat("operations"); if (leak && r.chance(12)) break;
    }
    vf_distinct("histories", hash_bytes((const u8 *)o.log.data(), o.log.size())); if (leak) { vf_stat(o.active ? "freed_with_active_stream" : "freed_idle"); vf_distinct("nontrivial", hash_bytes((const u8 *)o.log.data(), o.log.size())); }
    static int shown; if (shown++ < 2) vf_sample("threads=%u dual=%d:%.300s", o.th, o.dual, o.log.c_str());
    FL2_freeCStream(o.c);
}
// several streams of many dictionaries each through one object, some left in the middle; the last operations compared with a new object's
static void c_long(Rng &r) {
    CObj o; o.th = (unsigned)r.range(1, 3); o.dual = (int)r.below(2); o.c = FL2_createCStreamMt(o.th, o.dual); if (!o.c) return; { Params z; z.level = RESET; o.h.push_back(z); reset_params(o.c); } o.last = Params();
#ifdef NO_XXHASH
    o.last.hash = false; o.last.hash_opt = false;
#endif
    { Params p; p.level = 1; p.hash = o.last.hash; p.hash_opt = o.last.hash_opt; p.add(FL2_p_dictionarySize, p.dict = 1 << 20); p.add(FL2_p_resetInterval, (long)r.range(1, 6)); p.add(FL2_p_overlapFraction, (long)r.below(r.chance(50) ? 2 : 15)); size_t e = apply_params(o.c, p); if (FL2_isError(e)) { vf_viol("parameters", "%s refused: %s", p.desc().c_str(), enm(e)); FL2_freeCStream(o.c); return; } o.h.push_back(p); Params keep = p; o.last = keep; }
    vf_info("long: %s threads=%u dual=%d", o.last.desc().c_str(), o.th, o.dual); int ops = (int)r.range(2, 3); auto data = [&] { Bytes t = gen_data(r, r.range(20000, 90000)), d; if (t.empty()) t.push_back(1); size_t n = r.range(1, 6500000); while (d.size() < n) { size_t at = r.below(t.size()), k = std::min(t.size() - at, (size_t)r.range(1, 60000)); d.insert(d.end(), t.begin() + (long)at, t.begin() + (long)(at + k)); d.push_back((u8)r.next()); } d.resize(n); return d; };
    for (int k = 0; k < ops; ++k) {
        Bytes in = data(); int how = k == ops - 1 ? (int)r.below(2) : (int)r.below(3); if (r.chance(80)) how = std::max(how, 1); u64 sd = r.next(); COpt c; c.in_max = c.out_max = 1 << 20; c.flush_pct = 0; if (r.chance(34)) c.cuts.push_back(r.below(in.size() + 1)); char t[100];
        if (how == 0) { size_t cap = FL2_compressBound(in.size()); Out a = comp(o.c, in, cap); if (FL2_isError(a.code)) { vf_viol("oneshot-failed", "%s:%s", enm(a.code), o.log.c_str()); break; } snprintf(t, sizeof t, " oneshot(%zu)", in.size()); o.log += t; compare(o, in, a, [&](FL2_CCtx *f) { return comp(f, in, cap); }, "FL2_compressCCtx"); }
        else if (how == 1) { Out a = stream(o.c, in, sd, c, 0); if (FL2_isError(a.code)) { vf_viol("stream-failed", "%s:%s", a.code == (size_t)-1 ? "no end" : enm(a.code), o.log.c_str()); break; } snprintf(t, sizeof t, " stream(%zu)", in.size()); o.log += t; compare(o, in, a, [&](FL2_CCtx *f) { return stream(f, in, sd, c, 0); }, "stream"); }
        else { c.stop_after = in.size(); Out a = stream(o.c, in, sd, c, 0); snprintf(t, sizeof t, " abandon(%zu)", in.size()); o.log += t; if (r.chance(50)) FL2_cancelCStream(o.c); }
        vf_stat("long_operations"); }
    vf_distinct("histories", hash_bytes((const u8 *)o.log.data(), o.log.size())); FL2_freeCStream(o.c);
}
static void d_life(Rng &r, bool slow) {
    FL2_DCtx *c = nullptr; FL2_DStream *s = nullptr; unsigned th = (unsigned)r.range(1, 4); bool ctx = r.chance(40); if (ctx) c = th == 1 ? FL2_createDCtx() : FL2_createDCtxMt(th); else s = th == 1 ? FL2_createDStream() : FL2_createDStreamMt(th); std::string log; char t[160]; int ops = (int)r.range(3, 14); bool async = false;
    for (int k = 0; k < ops; ++k) {
        Src x = gen_src(r, slow ? 20000 : r.chance(15) ? 1000000 : 60000, 60);
        if (!ctx && th > 1 && r.chance(slow ? 6 : 10)) { // incompressible, in one piece: a chain of input buffers
            Bytes d(r.range(300000, slow ? 700000 : 1600000)); for (u8 &b : d) b = (u8)r.next(); x.f.resize(FL2_compressBound(d.size())); FL2_CCtx *q = FL2_createCCtx(); FL2_CCtx_setParameter(q, FL2_p_dictionarySize, 2 << 20); size_t z = FL2_compressCCtx(q, x.f.data(), x.f.size(), d.data(), d.size(), 1); FL2_freeCCtx(q); if (FL2_isError(z)) { vf_viol("harness", "%s", enm(z)); break; } x.f.resize(z); vf_stat("buffer_chains"); }
        Bytes &f = x.f; FrameResult F = ref_frame(f.data(), f.size(), 64u << 20); size_t olen = F.r.out.size();
        if (ctx) {
            size_t cap = r.chance(75) ? olen + r.below(50) : r.below(olen + 1); bool ini = f.size() && !(f[0] & 0x80) && r.chance(25); auto run = [&](FL2_DCtx *d) { Out o; o.b.resize(cap); if (ini) { size_t e = FL2_initDCtx(d, f[0]); if (FL2_isError(e)) { o.code = e; o.b.clear(); return o; } } o.code = FL2_decompressDCtx(d, o.b.data(), cap, f.data() + ini, f.size() - ini); o.b.resize(FL2_isError(o.code) ? 0 : std::min(o.code, cap)); return o; };
            Out a = run(c); snprintf(t, sizeof t, " dctx(%zu->%zu/%zu%s:%s)", f.size(), olen, cap, ini ? ",init" : "", FL2_isError(a.code) ? enm(a.code) : "ok"); log += t; vf_info("%s", t); vf_stat("decodings");
            if (!leak) { FL2_DCtx *n = th == 1 ? FL2_createDCtx() : FL2_createDCtxMt(th); Out b = run(n); FL2_freeDCtx(n); vf_stat("compared_with_fresh"); if (a.code != b.code) vf_viol("verdict-differs", "FL2_decompressDCtx: reused %s, new %s (%s)", FL2_isError(a.code) ? enm(a.code) : "success", FL2_isError(b.code) ? enm(b.code) : "success", log.c_str()); else if (a.b != b.b) vf_viol("other-content", "FL2_decompressDCtx: other bytes than a new context (%s)", log.c_str()); vf_distinct("nontrivial", hash_bytes(f) ^ k); }
        } else {
            unsigned to = r.chance(35) ? (unsigned)r.range(1, 2) : 0; size_t lim = r.chance(25) ? r.logsize(1000, 8 << 20) : (size_t)1 << 30; bool raw = f.size() && !(f[0] & 0x80) && r.chance(25); Bytes body(f); if (raw) body.erase(body.begin()); size_t lvl = r.below(4);
            // reconfigured between streams: an operation still running must be ended first
            if (async && r.chance(50)) { FL2_cancelDStream(s); async = false; log += " cancel"; }
            size_t e = FL2_setDStreamTimeout(s, to); if (FL2_isError(e)) { vf_viol("timeout-refused", "%s:%s", enm(e), log.c_str()); break; } FL2_setDStreamMemoryLimitMt(s, lim);
            u64 sd = r.next(); size_t part = r.chance(25) ? r.below(body.size() + 1) : body.size(); body.resize(part); DOpt o; o.raw = raw; o.prop = f.empty() ? 0 : f[0]; { Rng q(sd); o.in_max = std::max<size_t>(q.logsize(1, 200000), body.size() / 500 + 1); o.out_max = std::max<size_t>(q.logsize(1, 200000), olen / 500 + 1); o.style = (int)q.pick({ 0, 0, 3, 4 }); if (o.style == 3) o.out_max = olen + 10; o.out_limit = 70u << 20; }
            Rng q(sd); DResult a = dstream_run(s, body, q, o); async = false; snprintf(t, sizeof t, " dstream(%zu of %zu->%zu,timeout %u%s:%s)", part, f.size(), a.out.size(), to, raw ? ",prop" : "", a.ended ? "end" : FL2_isError(a.code) ? enm(a.code) : "open"); log += t; vf_info("%s", t); vf_stat("decodings");
            if (!leak) { FL2_DStream *n = th == 1 ? FL2_createDStream() : FL2_createDStreamMt(th); FL2_setDStreamTimeout(n, to); FL2_setDStreamMemoryLimitMt(n, lim); Rng q2(sd); DResult b = dstream_run(n, body, q2, o); vf_stat("compared_with_fresh");
                bool ae = FL2_isError(a.code), be = FL2_isError(b.code); if (a.ended != b.ended || ae != be) vf_viol("verdict-differs", "decompression stream: reused %s, new %s (%s)", a.ended ? "complete" : ae ? enm(a.code) : "incomplete", b.ended ? "complete" : be ? enm(b.code) : "incomplete", log.c_str()); else if (a.ended && a.out != b.out) vf_viol("other-content", "decompression stream: other bytes than a new object (%s)", log.c_str());
                else if (!a.ended) { size_t m = std::min(a.out.size(), b.out.size()); if (memcmp(a.out.data(), b.out.data(), m)) vf_viol("other-content", "decompression stream: other bytes before the error than a new object (%s)", log.c_str()); } FL2_freeDStream(n); vf_distinct("nontrivial", hash_bytes(f) ^ mix64(k, sd)); }
            // start something and leave it running, or cancel it in the middle
            if (r.chance(20) && !f.empty()) { FL2_setDStreamTimeout(s, 1); FL2_initDStream(s); Bytes ob(r.logsize(1, 500000)); static Bytes keep_in, keep_out; keep_in = f; keep_out.assign(ob.size(), 0); FL2_inBuffer ib = { keep_in.data(), keep_in.size(), 0 }; FL2_outBuffer obf = { keep_out.data(), keep_out.size(), 0 }; size_t c2 = FL2_decompressStream(s, &obf, &ib); snprintf(t, sizeof t, " start(%s)", FL2_isTimedOut(c2) ? "timed out" : "done"); log += t; if (FL2_isTimedOut(c2)) { vf_stat("left_running"); FL2_cancelDStream(s); if (leak && r.chance(60)) { FL2_initDStream(s); FL2_inBuffer i2 = { keep_in.data(), keep_in.size(), 0 }; FL2_outBuffer o2 = { keep_out.data(), keep_out.size(), 0 }; c2 = FL2_decompressStream(s, &o2, &i2); if (FL2_isTimedOut(c2)) { vf_stat("freed_while_running"); FL2_freeDStream(s); s = nullptr; keep_in.clear(); keep_in.shrink_to_fit(); break; } } } }
        }
        vf_stat("operations"); if (leak && r.chance(10)) break;
    }
    vf_distinct("histories", hash_bytes((const u8 *)log.data(), log.size())); if (leak) vf_distinct("nontrivial", hash_bytes((const u8 *)log.data(), log.size()));
    static int shown; if (shown++ < 2) vf_sample("decoder threads=%u:%.300s", th, log.c_str());
    FL2_freeDCtx(c); FL2_freeDStream(s);
}
// free while asynchronous compression runs
static void c_async_free(Rng &r, bool slow) {
    unsigned th = (unsigned)r.range(1, 4); int dual = r.below(2); FL2_CStream *f = FL2_createCStreamMt(th, dual); if (!f) return; Params p = gen_params(r, PP_SMALLDICT); quiet_params(r, p, slow); apply_params(f, p); FL2_setCStreamTimeout(f, 1); FL2_initCStream(f, 0); size_t n = slow ? 200000 : r.range(100000, 3000000); Bytes in = gen_data(r, n); FL2_inBuffer ib = { in.data(), n, 0 }; size_t c = 0; int k = 0; do { c = FL2_compressStream(f, nullptr, &ib); } while (!FL2_isError(c) && c == 0 && ib.pos < n && ++k < 10); if (!FL2_isTimedOut(c)) c = FL2_endStream(f, nullptr); if (FL2_isTimedOut(c)) vf_stat("freed_while_running"); vf_stat("async_frees"); FL2_freeCStream(f); }
static void growth(Rng &r, bool slow) {
    int kind = (int)r.below(4); size_t at3 = 0, mx = 0; long b3 = 0; unsigned th = (unsigned)r.range(1, 3); Bytes in = gen_data(r, r.range(1000, slow ? 20000 : 300000)); size_t base = vfh_live_bytes(); u64 sd = r.next(); size_t b0 = vfh_live_blocks();
    FL2_CStream *f = nullptr; FL2_DCtx *dc = nullptr; FL2_DStream *ds = nullptr; Bytes fr; if (kind < 2) { f = FL2_createCStreamMt(th, r.below(2)); Params p = gen_params(r, PP_SMALLDICT); quiet_params(r, p, slow); apply_params(f, p); } else { SynthOpt o = synth_opt(r, 200000); o.resets_pct = 60; fr = synth_frame(r, o).frame; if (r.chance(40)) { std::string h; fr = mutate_frame(r, fr, &h); } if (kind == 2) dc = FL2_createDCtxMt(th); else ds = FL2_createDStreamMt(th); }
    Bytes out(FL2_compressBound(in.size()) + (4 << 20));
    for (int k = 0; k < 14; ++k) {
        if (kind == 0) FL2_compressCCtx(f, out.data(), k & 1 ? 100 : out.size(), in.data(), in.size(), 0); else if (kind == 1) { COpt c; if (k & 1) c.stop_after = in.size() / 2; stream(f, in, sd, c, 0); if (k & 1) FL2_cancelCStream(f); } else if (kind == 2) FL2_decompressDCtx(dc, out.data(), out.size(), fr.data(), fr.size()); else { Rng q(sd); DOpt o; o.in_max = o.out_max = 300000; o.out_limit = 64u << 20; dstream_run(ds, fr, q, o); if (k & 1) FL2_cancelDStream(ds); }
        if (k < 4) { at3 = std::max(at3, vfh_live_bytes() - base); b3 = std::max(b3, (long)(vfh_live_blocks() - b0)); } else if (vfh_live_bytes() - base > at3 || (long)(vfh_live_blocks() - b0) > b3) { vf_viol("growth", "kind %d: %zu bytes in %ld blocks after repetition %d, at most %zu in %ld before", kind, vfh_live_bytes() - base, (long)(vfh_live_blocks() - b0), k, at3, b3); break; }
    }
    vf_stat("growth_runs"); FL2_freeCStream(f); FL2_freeDCtx(dc); FL2_freeDStream(ds);
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv); bool slow = a.extra.find("slow") != std::string::npos; leak = a.mode == "leak"; if (a.extra.find("noise") != std::string::npos) vfh_noise(30, 100, a.seed);
    vf_loop(a, [&](u64 i, Rng &r) {
        if (!leak) { if (!slow && i % 25 == 7) { c_long(r); return; } if (r.chance(60)) c_life(r, slow); else d_life(r, slow); return; }
        vfh.track = true; vfh_reset(); size_t b0 = vfh_live_blocks(), y0 = vfh_live_bytes(); long t0 = vfh_live_threads(); int k = (int)r.below(10);
        if (k < 4) c_life(r, slow); else if (k < 7) d_life(r, slow); else if (k < 9) c_async_free(r, slow); else growth(r, slow);
        vf_stat("objects_freed"); vf_stat("allocations", vfh_allocs()); vf_stat("threads_started", vfh_tcreates());
        if (vfh_live_blocks() != b0 || vfh_live_bytes() != y0) vf_viol("leak", "%ld blocks (%ld bytes) of %ld allocations were not released", (long)(vfh_live_blocks() - b0), (long)(vfh_live_bytes() - y0), vfh_allocs());
        if (vfh_live_threads() != t0) vf_viol("thread-leak", "%ld of %ld threads were not joined", vfh_live_threads() - t0, vfh_tcreates());
    });
    return 0;
}
