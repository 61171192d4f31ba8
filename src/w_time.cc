// C12: timeouts, waiting and cancellation are live and honest.
#include "declib.h"
#include <thread>
#include <atomic>
static double cpu_s() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const double LIMIT = 12;      // a timed call with the library's threads held must be back long before this
struct Open { // opens the gate after a while, unless stopped before
    std::atomic<bool> off{false}, fired{false}; std::thread t;
    explicit Open(double s) { t = std::thread([this, s] { double e = now_s() + s; while (!off && now_s() < e) { struct timespec ts = { 0, 500000 }; nanosleep(&ts, nullptr); } if (!off) { fired = true; vfh_gate(-1); } }); }
    void stop() { off = true; if (t.joinable()) t.join(); }
    ~Open() { stop(); }
};
// runs a call with a lid on its duration while the gate is closed
template <class F> static size_t timed(const char *name, unsigned timeout, F f, double *took = nullptr) {
    size_t c; double t0 = now_s(); bool fired; { Open o(LIMIT + timeout / 1000.0); c = f(); o.stop(); fired = o.fired; }
    double d = now_s() - t0; if (took) *took = d; vf_stat("timed_calls"); vf_max("longest_timed_call_ms", (u64)(d * 1000));
    if (fired) vf_viol("call-blocked", "%s with a timeout of %u ms did not return while the work was held (%.1f s)", name, timeout, d);
    return c;
}
static bool content(const Bytes &out, const Bytes &in, const char *what) {
    FrameResult F = judge(out); if (F.st != REF_OK) { vf_viol("invalid-stream", "%s: %s after %zu of %zu bytes", what, F.why.c_str(), F.r.out.size(), in.size()); return false; }
    if (F.r.out != in || F.consumed != out.size()) { vf_viol("other-content", "%s: decodes to %zu bytes, not the %zu given", what, F.r.out.size(), in.size()); return false; } vf_stat("streams_verified"); return true;
}
static Params tparams(Rng &r) { Params p; p.level = (int)r.range(1, 4); p.dict = 1u << 20; p.add(FL2_p_dictionarySize, p.dict); if (r.chance(30)) p.add(FL2_p_overlapFraction, r.below(15)); if (r.chance(30)) p.add(FL2_p_resetInterval, r.below(4)); if (r.chance(20)) p.add(FL2_p_bufferResize, r.below(5)); return p; }
// ---- the rest of a stream after the gate was opened; false: given up
static bool finish(FL2_CStream *f, Rng &r, const Bytes &in, size_t pos, Bytes &out, unsigned timeout, bool ending) {
    double t0 = now_s(); u64 to = 0; Bytes buf(r.logsize(16, 300000));
    auto late = [&]() { if (now_s() - t0 > 90) { vf_viol("never-completes", "no completion 90 s after the work was let go (%llu timeouts, fed %zu of %zu)", (unsigned long long)to, pos, in.size()); return true; } return false; };
    for (;;) {
        if (late()) return false;
        int how = (int)r.below(10); size_t c;
        if (how < 2) { c = FL2_waitCStream(f); if (FL2_isTimedOut(c)) { ++to; continue; } if (FL2_isError(c)) { vf_viol("error", "waitCStream: %s", enm(c)); return false; }
            size_t rem = FL2_remainingOutputSize(f); if ((rem > 0) != (c == 1)) vf_viol("wait-verdict", "FL2_waitCStream returned %zu with %zu bytes pending", c, rem); vf_stat("waits_verified"); continue; }
        if (how < 4) { FL2_cBuffer cb; c = FL2_getNextCompressedBuffer(f, &cb); if (FL2_isTimedOut(c)) { ++to; continue; } if (FL2_isError(c)) { vf_viol("error", "getNextCompressedBuffer: %s", enm(c)); return false; } if (c) out.insert(out.end(), (const u8 *)cb.src, (const u8 *)cb.src + cb.size); continue; }
        FL2_outBuffer ob = { buf.data(), buf.size(), 0 };
        if (pos < in.size() && !ending) { FL2_inBuffer ib = { in.data() + pos, std::min(in.size() - pos, (size_t)r.logsize(1, 2 << 20)), 0 }; c = FL2_compressStream(f, &ob, &ib); pos += ib.pos; }
        else if (!ending && r.chance(15)) c = FL2_flushStream(f, &ob);
        else { ending = true; c = FL2_endStream(f, &ob); if (c == 0) { out.insert(out.end(), buf.begin(), buf.begin() + ob.pos); vf_stat("timeouts_while_running", to); return true; } }
        out.insert(out.end(), buf.begin(), buf.begin() + ob.pos);
        if (FL2_isTimedOut(c)) ++to; else if (FL2_isError(c)) { vf_viol("error", "%s (fed %zu of %zu)", enm(c), pos, in.size()); return false; }
    }
}
static void roundtrip(FL2_CStream *f, Rng &r, const char *what) {
    Bytes in = gen_data(r, r.logsize(1, 60000)), out; size_t e = FL2_initCStream(f, 0); if (FL2_isError(e)) { vf_viol("unusable", "%s: FL2_initCStream: %s", what, enm(e)); return; }
    if (finish(f, r, in, 0, out, 0, false)) content(out, in, what);
}
static void abandon(FL2_CStream *&f, Rng &r, int how) { // with the gate closed or open: cancel, initialise again or free
    Open o(0.003); double t0 = now_s();
    if (how == 0) FL2_cancelCStream(f); else if (how == 1) { size_t e = FL2_initCStream(f, 0); if (FL2_isError(e)) vf_viol("unusable", "FL2_initCStream over an abandoned stream: %s", enm(e)); } else { FL2_freeCStream(f); f = nullptr; }
    vf_max("longest_abandon_ms", (u64)((now_s() - t0) * 1000)); vf_stat(how == 0 ? "cancels" : how == 1 ? "reinits" : "frees"); o.t.join(); vfh_gate(-1);
}
// ---- compression with the library's threads held
static void cgate(u64 idx, Rng &r) {
    Params p = tparams(r); unsigned thr = (unsigned)r.range(1, 4), timeout = (unsigned)r.pick({ 1, 1, 2, 5, 40 }); int dual = (int)r.below(2);
    Bytes in = gen_data(r, r.chance(40) ? r.range(1000000, 3400000) : r.logsize(1, 300000)), out; size_t pos = 0;
    vf_info("%s threads=%u dual=%d timeout=%u size=%zu", p.desc().c_str(), thr, dual, timeout, in.size());
    FL2_CStream *f = FL2_createCStreamMt(thr, dual); if (!f) return; size_t e = apply_params(f, p); if (!FL2_isError(e)) e = FL2_setCStreamTimeout(f, timeout); if (!FL2_isError(e)) e = FL2_initCStream(f, 0);
    if (FL2_isError(e)) { vf_viol("init", "%s", enm(e)); FL2_freeCStream(f); return; }
    int episodes = (int)r.range(1, 4); bool ok = true, ending = false; u64 held = 0; std::string log;
    for (int k = 0; k < episodes && ok; ++k) {
        // let what was let go so far come to rest, then hold everything
        if (k) { double t0 = now_s(); size_t c; while (FL2_isTimedOut(c = FL2_waitCStream(f)) && now_s() - t0 < 90) {} if (FL2_isTimedOut(c)) { vf_viol("never-completes", "wait still times out 90 s after the work was let go (%s)", log.c_str()); ok = false; break; }
            Bytes buf(200000); for (;;) { FL2_outBuffer ob = { buf.data(), buf.size(), 0 }; c = FL2_copyCStreamOutput(f, &ob); if (FL2_isError(c)) { vf_viol("error", "copyCStreamOutput: %s", enm(c)); ok = false; break; } out.insert(out.end(), buf.begin(), buf.begin() + ob.pos); if (!c) break; } }
        if (!ok) break;
        vfh_gate(0); bool busy = false; int ops = (int)r.range(3, 14); Bytes buf(r.logsize(1, 100000)); log += " |";
        for (int i = 0; i < ops && ok; ++i) {
            int op = (int)r.below(12); size_t c = 0; const char *nm = ""; FL2_outBuffer ob = { buf.data(), buf.size(), 0 }; double d = 0; bool given = false, no_input = false;
            if (!busy && i == ops - 2) op = 9;
            if (op <= 2) { nm = "compressStream"; if (pos >= in.size() || ending) continue; FL2_inBuffer ib = { in.data() + pos, std::min(in.size() - pos, (size_t)r.logsize(1, 3 << 20)), 0 }; bool nul = r.chance(30) && (busy || FL2_remainingOutputSize(f) == 0); c = timed(nm, timeout, [&] { return FL2_compressStream(f, nul ? nullptr : &ob, &ib); }, &d); pos += ib.pos; no_input = ib.pos < ib.size; given = true; }
            else if (op == 3) { nm = "getDictionaryBuffer"; if (pos >= in.size() || ending) continue; FL2_dictBuffer db = { nullptr, 0 }; c = timed(nm, timeout, [&] { return FL2_getDictionaryBuffer(f, &db); }, &d);
                if (!FL2_isError(c) && db.size) { size_t n = std::min<size_t>(in.size() - pos, r.chance(50) ? db.size : r.below(db.size + 1)); memcpy(db.dst, in.data() + pos, n); log += " dict" + std::to_string(n); nm = "updateDictionary"; c = timed(nm, timeout, [&] { return FL2_updateDictionary(f, n); }, &d); pos += n; } }
            else if (op == 4) { nm = "getNextCompressedBuffer"; FL2_cBuffer cb = { nullptr, 0 }; c = timed(nm, timeout, [&] { return FL2_getNextCompressedBuffer(f, &cb); }, &d);
                if (busy && !FL2_isTimedOut(c)) vf_viol("early-output", "FL2_getNextCompressedBuffer returned %zu while the compression is held (%s)", c, log.c_str());
                if (!FL2_isError(c) && c) out.insert(out.end(), (const u8 *)cb.src, (const u8 *)cb.src + cb.size); }
            else if (op == 5) { nm = "copyCStreamOutput"; c = timed(nm, timeout, [&] { return FL2_copyCStreamOutput(f, &ob); }, &d); given = true; if (busy && c != 0 && !FL2_isTimedOut(c)) vf_viol("early-output", "FL2_copyCStreamOutput returned %zu while the compression is held", c); }
            else if (op <= 7) { nm = "waitCStream"; c = timed(nm, timeout, [&] { return FL2_waitCStream(f); }, &d); if (busy && !FL2_isTimedOut(c)) vf_viol("early-completion", "FL2_waitCStream returned %zu while the compression is held (%s)", c, log.c_str()); }
            else if (op <= 9) { nm = "flushStream"; if (ending) continue; bool nul = r.chance(30) && (busy || FL2_remainingOutputSize(f) == 0); c = timed(nm, timeout, [&] { return FL2_flushStream(f, nul ? nullptr : &ob); }, &d); given = true; if (busy && c == 0) vf_viol("early-completion", "FL2_flushStream reported completion while the compression is held (%s)", log.c_str()); }
            else if (op == 10) { nm = "endStream"; if (pos < in.size() && !r.chance(5)) continue; if (pos < in.size()) in.resize(pos); ending = true; c = timed(nm, timeout, [&] { return FL2_endStream(f, &ob); }, &d); given = true; if (busy && c == 0) vf_viol("early-completion", "FL2_endStream reported completion while the compression is held (%s)", log.c_str());
                if (c == 0) { out.insert(out.end(), buf.begin(), buf.begin() + ob.pos); vfh_gate(-1); content(out, in, "ended with nothing held"); FL2_freeCStream(f); return; } }
            else { unsigned long long os = 0; u64 pr = FL2_getCStreamProgress(f, &os); if (pr > pos) vf_viol("progress", "progress %llu of %zu supplied", (unsigned long long)pr, pos); if (busy && FL2_remainingOutputSize(f) != 0) vf_viol("early-output", "FL2_remainingOutputSize is %zu while the compression is held", FL2_remainingOutputSize(f)); continue; }
            log += std::string(" ") + nm + (FL2_isTimedOut(c) ? "=T" : FL2_isError(c) ? "=E" : c ? "=1" : "=0");
            if (given) { if (busy && ob.pos) vf_viol("early-output", "%s delivered %zu bytes while the compression is held (%s)", nm, ob.pos, log.c_str()); out.insert(out.end(), buf.begin(), buf.begin() + ob.pos); }
            if (FL2_isTimedOut(c)) { if (!busy) { busy = true; ++held; }
                if (vfh_gate_waiting() == 0 && timeout >= 5) { struct timespec ts = { 0, 20000000 }; nanosleep(&ts, nullptr); if (vfh_gate_waiting() == 0) vf_stat("timed_out_unheld"); }
                if (timeout == 40 && d < 0.010) { int quick = 1; for (int q = 0; q < 3; ++q) { double dd; size_t w = timed("waitCStream", timeout, [&] { return FL2_waitCStream(f); }, &dd); if (FL2_isTimedOut(w) && dd < 0.010) ++quick; } if (quick == 4) vf_viol("timeout-too-early", "%s timed out after %.1f ms, the timeout is %u ms", nm, d * 1000, timeout); } }
            else if (FL2_isError(c)) { vf_viol("error", "%s: %s (%s)", nm, enm(c), log.c_str()); ok = false; }
            else if (no_input && busy && c == 0) vf_viol("input-left", "compressStream returned 0 with input left over (%s)", log.c_str());
        }
        if (!ok) break;
        int fin = (int)r.below(10);
        if (fin < 3) { if (busy) vf_stat("abandoned_while_held"); abandon(f, r, r.chance(60) ? 0 : r.chance(50) ? 1 : 2); if (!f) return; if (r.chance(70)) roundtrip(f, r, "stream after a cancelled one"); FL2_freeCStream(f); return; }
        if (fin < 6) { for (int s = (int)r.range(1, 6); s; --s) { // let the work go in steps; what is ready may be read at any time
                vfh_gate((long)r.range(1, 4)); double d; size_t c = timed("waitCStream", timeout, [&] { return FL2_waitCStream(f); }, &d); if (!FL2_isError(c) && c == 1) { FL2_outBuffer ob = { buf.data(), buf.size(), 0 }; FL2_copyCStreamOutput(f, &ob); out.insert(out.end(), buf.begin(), buf.begin() + ob.pos); vf_stat("stepwise_output"); } vf_stat("steps"); }
            if (r.chance(25)) { vf_stat("abandoned_half_way"); abandon(f, r, r.chance(60) ? 0 : r.chance(50) ? 1 : 2); if (!f) return; roundtrip(f, r, "stream after one cancelled half way"); FL2_freeCStream(f); return; } }
        vfh_gate(-1);
    }
    vfh_gate(-1); vf_stat("held_compressions", held);
    if (ok && finish(f, r, in, pos, out, timeout, ending)) { if (content(out, in, ("stream held at times:" + log).c_str())) vf_distinct("nontrivial", mix64(hash_bytes((const u8 *)log.data(), log.size()), hash_bytes(out))); if (idx < 4) vf_sample("%s threads=%u dual=%d timeout=%u size=%zu:%s", p.desc().c_str(), thr, dual, timeout, in.size(), log.c_str()); }
    FL2_freeCStream(f);
}
// ---- decompression with the library's threads held
static void dgate(u64 idx, Rng &r) {
    Bytes content_; Bytes fr; { Params p = tparams(r); if (!r.chance(30)) { p.add(FL2_p_resetInterval, 1); } content_ = gen_data(r, r.chance(50) ? r.range(1000000, 5000000) : r.logsize(1, 400000)); fr.resize(FL2_compressBound(content_.size())); FL2_CCtx *c = FL2_createCCtxMt(4); apply_params(c, p); size_t z = FL2_compressCCtx(c, fr.data(), fr.size(), content_.data(), content_.size(), 0); FL2_freeCCtx(c); if (FL2_isError(z)) { vf_viol("error", "compression: %s", enm(z)); return; } fr.resize(z); }
    unsigned thr = (unsigned)r.below(5), timeout = (unsigned)r.pick({ 1, 1, 2, 5, 40 }); vf_info("decompression threads=%u timeout=%u frame=%zu content=%zu", thr, timeout, fr.size(), content_.size());
    FL2_DStream *d = thr ? FL2_createDStreamMt(thr) : FL2_createDStream(); if (!d) return; size_t e = FL2_setDStreamTimeout(d, timeout); if (FL2_isError(e)) { vf_viol("error", "setDStreamTimeout: %s", enm(e)); FL2_freeDStream(d); return; }
    for (int round = 0; round < 2; ++round) {
        e = FL2_initDStream(d); if (FL2_isError(e)) { vf_viol("unusable", "FL2_initDStream: %s", enm(e)); break; }
        Bytes out; size_t pos = 0; bool done = false, bad = false, gone = false; u64 calls = 0; double t0 = now_s(); std::string log;
        while (!done && !bad) {
            if (now_s() - t0 > 120) { vf_viol("never-completes", "decompression incomplete after 120 s: %zu of %zu bytes (%s)", out.size(), content_.size(), log.c_str()); bad = true; break; }
            bool hold = r.chance(calls < 12 ? 50 : 4); ++calls; size_t n = r.chance(60) ? r.logsize(1, 3 << 20) : content_.size() + 1, m = std::min(fr.size() - pos, r.chance(50) ? (size_t)r.logsize(1, 1 << 20) : fr.size());
            u8 *ob_ = (u8 *)malloc(n); memset(ob_, 0xA5, std::min<size_t>(n, 4096)); FL2_outBuffer ob = { ob_, n, 0 }; FL2_inBuffer ib = { fr.data() + pos, m, 0 };
            if (hold) vfh_gate(0);
            double took; size_t c = timed("decompressStream", timeout, [&] { return FL2_decompressStream(d, &ob, &ib); }, &took); bool was = false;
            if (FL2_isTimedOut(c) && hold) { was = true; vf_stat("held_decompressions"); log += " H";
                for (int i = (int)r.range(1, 4); i; --i) { size_t w;
                    switch (r.below(4)) {
                    case 0: case 1: w = timed("waitDStream", timeout, [&] { return FL2_waitDStream(d); }, &took); if (!FL2_isTimedOut(w)) vf_viol("early-completion", "FL2_waitDStream returned %zd while the decompression is held (%s)", (ssize_t)w, log.c_str()); break;
                    case 2: { FL2_outBuffer o2 = { ob_, n, 0 }; FL2_inBuffer i2 = { fr.data() + pos, m, 0 }; w = timed("decompressStream", timeout, [&] { return FL2_decompressStream(d, &o2, &i2); }); if (!FL2_isError(w)) { vf_viol("early-completion", "a second FL2_decompressStream returned %zu while the first is held", w); } else vf_stat("refused_while_held"); break; }
                    default: { u64 pg = FL2_getDStreamProgress(d); if (pg > content_.size()) vf_viol("progress", "progress %llu of %zu", (unsigned long long)pg, content_.size()); w = FL2_initDStream(d); if (!FL2_isError(w)) vf_viol("init-while-held", "FL2_initDStream succeeded while a call is still running"); else vf_stat("refused_while_held"); } } }
                if (timeout == 40) { int q = 0; for (int i = 0; i < 3; ++i) { size_t w = timed("waitDStream", timeout, [&] { return FL2_waitDStream(d); }, &took); if (FL2_isTimedOut(w) && took < 0.010) ++q; } if (q == 3) vf_viol("timeout-too-early", "FL2_waitDStream times out after %.1f ms, the timeout is %u ms", took * 1000, timeout); }
                for (size_t i = 0; i < std::min<size_t>(n, 4096); ++i) if (ob_[i] != 0xA5) { vf_viol("early-output", "output byte %zu was written while the decompression is held", i); break; }
                if (r.chance(12)) { Open o(0.003); double t1 = now_s(); bool fre = r.chance(30); if (fre) { FL2_freeDStream(d); d = nullptr; } else FL2_cancelDStream(d); vf_stat("cancels"); vf_max("longest_abandon_ms", (u64)((now_s() - t1) * 1000)); o.t.join(); vfh_gate(-1); free(ob_); gone = true; break; }
                if (r.chance(40)) for (int s = (int)r.range(1, 5); s; --s) { vfh_gate((long)r.range(1, 4)); size_t w = timed("waitDStream", timeout, [&] { return FL2_waitDStream(d); }); vf_stat("steps"); if (!FL2_isTimedOut(w)) break; }
            }
            vfh_gate(-1);
            if (FL2_isTimedOut(c)) { double t1 = now_s(); do { c = FL2_waitDStream(d); vf_stat("waits"); } while (FL2_isTimedOut(c) && now_s() - t1 < 90); if (FL2_isTimedOut(c)) { vf_viol("never-completes", "wait still times out 90 s after the work was let go (%s)", log.c_str()); bad = true; FL2_cancelDStream(d); free(ob_); break; } }
            else if (was) log += "?";
            if (FL2_isError(c)) { vf_viol("error", "%s at %zu of %zu (%s)", enm(c), out.size(), content_.size(), log.c_str()); bad = true; free(ob_); break; }
            pos += ib.pos; out.insert(out.end(), ob_, ob_ + ob.pos); free(ob_); log += c ? "1" : "0"; if (log.size() > 600) log.resize(600);
            if (c == 0) done = true;
        }
        if (gone) { if (!d) return; log += " cancelled"; continue; }   // the next round uses the object again
        if (bad) break;
        if (out != content_) { vf_viol("other-content", "%zu bytes delivered, not the %zu (%s)", out.size(), content_.size(), log.c_str()); break; }
        vf_stat("streams_verified"); vf_distinct("nontrivial", mix64(hash_bytes((const u8 *)log.data(), log.size()), hash_bytes(out))); if (idx < 6) vf_sample("decompression threads=%u timeout=%u of %zu bytes: %s", thr, timeout, fr.size(), log.c_str());
        if (r.chance(50)) break;
    }
    vfh_gate(-1); if (d) FL2_freeDStream(d);
}
// ---- cancelling a long compression costs little of what the rest would have cost
static Bytes words(Rng &r, size_t n) { std::vector<std::string> w; for (int i = 0; i < 4000; ++i) { std::string t; for (int k = (int)r.range(3, 11); k; --k) t += (char)('a' + r.below(26)); w.push_back(t); } Bytes b; while (b.size() < n) { auto &t = w[r.below(4000)]; b.insert(b.end(), t.begin(), t.end()); b.push_back((u8)('0' + r.below(10))); } b.resize(n); return b; }
static void prompt(u64 idx, Rng &r) {
    // words of all letters: the match table is built in many small steps
    unsigned thr = (unsigned)r.range(1, 4); int dual = (int)r.below(2); unsigned timeout = r.chance(60) || !dual ? 1 : 0; Params p; p.level = (int)r.range(7, 9); p.dict = 8u << 20; p.add(FL2_p_dictionarySize, p.dict); if (r.chance(50)) { p.add(FL2_p_strategy, 2); p.add(FL2_p_hybridCycles, 40); }
    Bytes in = words(r, 5u << 20); int kind = 0;
    FL2_CStream *f = FL2_createCStreamMt(thr, dual); if (!f) return; apply_params(f, p); FL2_setCStreamTimeout(f, timeout); vf_info("cancel: %s threads=%u dual=%d timeout=%u", p.desc().c_str(), thr, dual, timeout);
    auto start = [&]() { size_t e = FL2_initCStream(f, 0); if (FL2_isError(e)) { vf_viol("unusable", "FL2_initCStream: %s", enm(e)); return false; } FL2_inBuffer ib = { in.data(), in.size(), 0 }; while (ib.pos < ib.size) { e = FL2_compressStream(f, nullptr, &ib); if (FL2_isError(e) && !FL2_isTimedOut(e)) { vf_viol("error", "%s", enm(e)); return false; } } if (timeout) { e = FL2_flushStream(f, nullptr); if (FL2_isError(e) && !FL2_isTimedOut(e)) { vf_viol("error", "%s", enm(e)); return false; } } return true; };
    if (!timeout) { // a dual-buffered stream without timeout works in the background when its first buffer fills
        Bytes more = in; in.insert(in.end(), more.begin(), more.end()); }
    double c0 = cpu_s(); if (!start()) { FL2_freeCStream(f); return; } double t0 = now_s(); while (FL2_isTimedOut(FL2_waitCStream(f)) && now_s() - t0 < 200) {} double full = cpu_s() - c0; FL2_cancelCStream(f); vf_flush();
    vf_max("full_ms", (u64)(full * 1000));
    auto share_at = [&](double frac, double &used) -> double { // share of the remaining work that was done after the cancellation; < 0: not measured
        double b = cpu_s(); if (!start()) return -1; while (cpu_s() - b < full * frac) { struct timespec ts = { 0, 300000 }; nanosleep(&ts, nullptr); }
        double at = cpu_s() - b, w = cpu_s(); FL2_cancelCStream(f); used = cpu_s() - w; vf_flush(); if (at > full * 0.85) return -1; vf_stat("cancels_measured"); return used / (full - at); };
    for (int k = 0; k < 6; ++k) { // at different moments
        double frac = 0.04 + 0.13 * k, used = 0, s = share_at(frac, used); if (s < 0) continue; vf_max("cancel_share_permille", (u64)(s * 1000));
        if (s > 0.4 && used > 0.12) { double u2, u3, s2 = share_at(frac, u2), s3 = share_at(frac, u3); if (s2 > 0.4 && u2 > 0.12 && s3 > 0.4 && u3 > 0.12) { vf_viol("cancel-slow", "three cancellations at %.0f%% of the work used %.0f%%, %.0f%% and %.0f%% of the processor time the rest would have taken (full %.2f s)", frac * 100, s * 100, s2 * 100, s3 * 100, full); break; } vf_stat("slow_not_repeated"); }
    }
    roundtrip(f, r, "stream after cancelled ones"); vf_distinct("nontrivial", mix64(idx, (u64)(full * 1e6))); FL2_freeCStream(f);
}
static void dprompt(u64 idx, Rng &r) {
    Params p; p.level = 1; p.dict = 1u << 20; p.add(FL2_p_dictionarySize, p.dict); p.add(FL2_p_resetInterval, 1); Bytes one = gen_data(r, 4u << 20, (int)r.pick({ 4, 5, 8, 11 })), in; for (int i = 0; i < 12; ++i) in.insert(in.end(), one.begin(), one.end());
    Bytes fr(FL2_compressBound(in.size())); { FL2_CCtx *c = FL2_createCCtxMt(4); apply_params(c, p); size_t z = FL2_compressCCtx(c, fr.data(), fr.size(), in.data(), in.size(), 0); FL2_freeCCtx(c); if (FL2_isError(z)) return; fr.resize(z); }
    unsigned thr = (unsigned)r.range(2, 4); vf_info("cancel decompression threads=%u frame=%zu", thr, fr.size()); FL2_DStream *d = FL2_createDStreamMt(thr); if (!d) return; FL2_setDStreamTimeout(d, 1); Bytes out(in.size());
    auto run = [&](double until) -> double { double c0 = cpu_s(); size_t e = FL2_initDStream(d); if (FL2_isError(e)) { vf_viol("unusable", "FL2_initDStream: %s", enm(e)); return -1; } FL2_inBuffer ib = { fr.data(), fr.size(), 0 }; FL2_outBuffer ob = { out.data(), out.size(), 0 };
        for (;;) { size_t c = FL2_decompressStream(d, &ob, &ib); while (FL2_isTimedOut(c)) { if (cpu_s() - c0 > until) return -2; c = FL2_waitDStream(d); } if (FL2_isError(c)) { vf_viol("error", "%s", enm(c)); return -1; } if (c == 0) return cpu_s() - c0; } };
    double full = run(1e9); if (full < 0 || out != in) { if (full >= 0) vf_viol("other-content", "decompression after a cancellation"); FL2_freeDStream(d); return; } vf_max("full_decompression_ms", (u64)(full * 1000));
    auto share_at = [&](double frac, double &used) -> double { double b = cpu_s(); if (run(full * frac) != -2) return -1; double at = cpu_s() - b, w = cpu_s(); FL2_cancelDStream(d); used = cpu_s() - w; vf_flush(); if (at > full * 0.8) return -1; vf_stat("decompression_cancels_measured"); return used / (full - at); };
    for (int k = 0; k < 4; ++k) { double frac = 0.03 + 0.1 * k, used = 0, s = share_at(frac, used); if (s < 0) continue; vf_max("decompression_cancel_share_permille", (u64)(s * 1000)); if (vf_verbose) fprintf(stderr, "%.2f %.3f\n", frac, s);
        if (s > 0.6 && used > 0.05) { double u2, u3, s2 = share_at(frac, u2), s3 = share_at(frac, u3); if (s2 > 0.6 && s3 > 0.6) { vf_viol("cancel-slow", "three cancellations of a decompression at %.0f%% used %.0f%%, %.0f%% and %.0f%% of the processor time the rest would have taken (full %.2f s)", frac * 100, s * 100, s2 * 100, s3 * 100, full); break; } } }
    memset(out.data(), 0, out.size()); if (run(1e9) >= 0 && out != in) vf_viol("other-content", "decompression after cancelled ones"); FL2_freeDStream(d); vf_distinct("nontrivial", mix64(idx, (u64)(full * 1e6)));
}
// ---- cancel or reinitialise at any point of an ordinary history
static void anytime(u64 idx, Rng &r) {
    Params p = tparams(r); unsigned thr = (unsigned)r.range(1, 4), timeout = r.chance(70) ? (unsigned)r.pick({ 1, 1, 2 }) : 0; int dual = (int)r.below(2); FL2_CStream *f = FL2_createCStreamMt(thr, dual); if (!f) return; apply_params(f, p); FL2_setCStreamTimeout(f, timeout); u64 h = 5; vf_info("%s threads=%u dual=%d timeout=%u", p.desc().c_str(), thr, dual, timeout);
    vfh_noise((int)r.pick({ 0, 20, 100 }), 300, r.next());
    for (int k = (int)r.range(2, 4); k && f; --k) {
        size_t e = FL2_initCStream(f, 0); if (FL2_isError(e)) { vf_viol("unusable", "FL2_initCStream: %s", enm(e)); break; }
        Bytes in = gen_data(r, r.logsize(1, 2500000)); COpt o; o.in_max = r.logsize(1000, 3 << 20); o.out_max = r.logsize(100, 1 << 20); if (in.size() / o.out_max > 600) o.out_max = in.size() / 600 + 1; o.flush_pct = (int)r.pick({ 0, 5, 30 }); bool all = r.chance(30); if (!all) o.stop_after = r.below(in.size() + 1);
        CRun R = cstream_run(f, in, r, o); h = mix64(h, R.ophash); if (R.err) { vf_viol("error", "%s: %s", R.op, enm(R.err)); break; } if (R.stuck) { vf_viol("never-completes", "%s after %llu calls", R.op, (unsigned long long)R.calls); break; } vf_stat("timeouts_while_running", R.timeouts);
        if (all) { content(R.out, in, "complete stream between cancelled ones"); }
        if (r.chance(60)) { size_t c = FL2_flushStream(f, nullptr); (void)c; } if (r.chance(30)) { struct timespec ts = { 0, (long)r.below(3000000) }; nanosleep(&ts, nullptr); }
        double t0 = now_s(); int how = (int)r.below(10); if (how < 5) FL2_cancelCStream(f); else if (how < 6) { FL2_freeCStream(f); f = nullptr; } else if (how < 7) { FL2_cancelCStream(f); FL2_cancelCStream(f); } vf_stat("abandons"); vf_max("longest_abandon_ms", (u64)((now_s() - t0) * 1000));
        if (f && how < 5 && r.chance(30)) { // the object as a plain context
            Bytes d(FL2_compressBound(in.size())); size_t z = FL2_compressCCtx(f, d.data(), d.size(), in.data(), in.size(), 0); if (FL2_isError(z)) vf_viol("unusable", "compressCCtx after a cancellation: %s", enm(z)); else { d.resize(z); content(d, in, "one-shot after a cancellation"); } }
    }
    if (f) { roundtrip(f, r, "stream after others"); FL2_freeCStream(f); } vfh_noise(0, 1, 1); vf_distinct("nontrivial", h); vf_distinct("interleavings", vfh_order_hash());
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv);
    vf_loop(a, [&](u64 i, Rng &r) { if (a.mode == "prompt") { if (i % 4 == 3) dprompt(i, r); else prompt(i, r); return; } int k = (int)r.below(10); if (k < 5) cgate(i, r); else if (k < 8) dgate(i, r); else anytime(i, r); vfh_gate(-1); });
    return 0;
}
