// C16: progress and pending-output queries against what was really supplied, emitted and delivered.
#include "declib.h"
typedef unsigned long long ull;
struct CMon { // online checker of the compression side
    FL2_CStream *f; ull last = 0, last_out = 0; size_t fed = 0, got = 0; bool dead = false; u64 polls = 0; size_t over = 0; std::string log;
    void start() { last = last_out = 0; fed = got = 0; }
    void poll(const char *when) {
        ull o = ~0ull, p = FL2_getCStreamProgress(f, polls & 1 ? &o : nullptr); polls++; vf_stat("compression_polls");
        if (p > fed) { vf_viol("progress-beyond", "%s: %llu bytes reported, %zu supplied", when, p, fed); dead = true; }
        if (p < last) { vf_viol("progress-backwards", "%s: %llu bytes reported after %llu (supplied %zu)", when, p, last, fed); dead = true; }
        if (p > last) { vf_stat("progress_steps"); } last = p;
        if (o != ~0ull) { if (o < last_out) { vf_viol("output-backwards", "%s: %llu output bytes reported after %llu", when, o, last_out); dead = true; } last_out = o; }
    }
};
static void comp(u64 idx, Rng &r, bool slow) {
    Params p = gen_params(r, PP_SMALLDICT); if (p.level > 5) p.level = 2; if (p.high && p.level > 1) p.level = 1; unsigned thr = r.chance(35) ? 1 : (unsigned)r.range(2, 6); int dual = (int)r.below(2); unsigned timeout = r.chance(60) ? 1 : 0;
    size_t n = r.chance(55) ? r.range(900000, slow ? 1500000 : 4500000) : gen_size(r, 700000); vf_info("%s threads=%u dual=%d timeout=%u size=%zu", p.desc().c_str(), thr, dual, timeout, n);
    FL2_CStream *f = FL2_createCStreamMt(thr, dual); if (!f) return; CMon m; m.f = f; m.poll("unused stream"); size_t e = apply_params(f, p); if (FL2_isError(e)) { vf_viol("param", "%s", enm(e)); FL2_freeCStream(f); return; } FL2_setCStreamTimeout(f, timeout);
    bool hold = timeout && r.chance(30); int rounds = r.chance(35) ? 2 : 1; std::string how = p.desc(); u64 drains = 0; if (r.chance(60)) vfh_noise((int)r.pick({ 50, 300 }), 200, r.next());
    for (int k = 0; k < rounds && !m.dead; ++k) {
        Bytes in = gen_data(r, n); n = in.size(); m.start(); e = FL2_initCStream(f, 0); if (FL2_isError(e)) { vf_viol("init", "%s", enm(e)); break; }
        m.poll("after initialisation"); if (m.last || FL2_remainingOutputSize(f)) { vf_viol("fresh-stream", "progress %llu, pending %zu on a stream just initialised (%s)", m.last, FL2_remainingOutputSize(f), k ? "used before" : "new"); break; }
        size_t inmax = std::max<size_t>(r.logsize(100, 2 << 20), n / 150 + 1), outmax = std::max<size_t>(r.logsize(20, 2 << 20), n / 150 + 1); Bytes buf(std::max<size_t>(outmax, 64)); Bytes all; size_t &got = m.got; bool ending = false, done = false; u64 guard = 0; int quit_at = r.chance(12) ? (int)r.range(1, 40) : -1; bool prop = false;
        auto take = [&](size_t c) { all.insert(all.end(), buf.begin(), buf.begin() + c); got += c; };
        // everything pending, read at once, against the announced amount
        auto drain = [&](const char *when) { size_t a = FL2_remainingOutputSize(f); if (FL2_isError(a)) { vf_viol("pending-error", "%s: %s", when, enm(a)); m.dead = true; return; } size_t s = 0; bool viacb = r.chance(40); int pieces = 0;
            for (;;) { if (viacb && r.chance(50)) { FL2_cBuffer cb; size_t c = FL2_getNextCompressedBuffer(f, &cb); if (FL2_isTimedOut(c)) { vf_stat("reads_timed_out"); return; } if (FL2_isError(c)) { vf_viol("error", "getNextCompressedBuffer: %s", enm(c)); m.dead = true; return; } if (!c) break; all.insert(all.end(), (const u8 *)cb.src, (const u8 *)cb.src + cb.size); got += cb.size; s += cb.size; ++pieces; continue; }
                FL2_outBuffer ob = { buf.data(), buf.size(), 0 }; size_t c = FL2_copyCStreamOutput(f, &ob); take(ob.pos); s += ob.pos; ++pieces; size_t rest = FL2_remainingOutputSize(f); if (!FL2_isError(rest) && a >= s && a && rest != a - s) { vf_viol("pending-rest", "%s: %zu bytes pending, of %zu of which %zu were read", when, rest, a, s); m.dead = true; return; } if (c == 0) break; }
            if (a == 0 && s > 0 && timeout) { vf_stat("finished_between"); return; }       // work ended after the question
            if (a == 0 && s > 0 && viacb) { vf_stat("finished_between"); return; }         // ... which that call waits for
            if (s != a) { vf_viol("pending-size", "%s: %zu bytes announced, %zu read", when, a, s); m.dead = true; } else { vf_stat("drains_compared"); if (a) { vf_stat("drains_nonempty"); ++drains; } if (pieces > 2) vf_stat("drains_in_pieces"); vf_distinct("nontrivial", mix64(a, got)); } };
        while (!done && !m.dead && ++guard < 400000) {
            if (hold && r.chance(12)) vfh_gate((long)r.below(30)); else if (hold) vfh_gate(-1);
            int what = (int)r.below(100); size_t c = 0; const char *op = ""; size_t before = m.last; (void)before;
            FL2_outBuffer ob = { buf.data(), r.chance(50) ? buf.size() : (size_t)r.range(1, buf.size()), 0 };
            if (what < 14) { op = "read"; if (r.chance(50)) { c = FL2_copyCStreamOutput(f, &ob); take(ob.pos); } else drain("between calls"); c = 0; }
            else if (what < 20) { op = "wait"; c = FL2_waitCStream(f); if (c == 1 && FL2_remainingOutputSize(f) == 0) { vf_viol("pending-zero", "FL2_waitCStream reports output, none is pending"); break; } if (c == 0 && FL2_remainingOutputSize(f) != 0) { vf_viol("pending-size", "FL2_waitCStream reports no output, %zu bytes are pending", FL2_remainingOutputSize(f)); break; } if (c <= 1) vf_stat("waits_compared"); }
            else if (m.fed < n && !ending) { size_t w = std::min(n - m.fed, r.logsize(1, inmax)); if (r.chance(20)) { op = "dictionary"; FL2_dictBuffer d; c = FL2_getDictionaryBuffer(f, &d); if (!FL2_isError(c) && d.size) { w = std::min<size_t>(w, d.size); memcpy(d.dst, in.data() + m.fed, w); c = FL2_updateDictionary(f, w); if (!FL2_isError(c) || FL2_isTimedOut(c)) m.fed += w; } }
                else { op = "compress"; FL2_inBuffer ib = { in.data() + m.fed, w, 0 }; bool null = r.chance(25); c = FL2_compressStream(f, null ? nullptr : &ob, &ib); if (!null) take(ob.pos); m.fed += ib.pos; if (null && c == 1) { m.poll(op); drain("after a call without output"); } } }
            else if (!ending && r.chance(30)) { op = "flush"; c = FL2_flushStream(f, &ob); take(ob.pos); if (c == 0) { m.poll("completed flush"); if (m.last != m.fed) vf_viol("progress-short", "completed flush: %llu of %zu bytes reported", m.last, m.fed); else vf_stat("flushes_compared"); } }
            else { op = "end"; ending = true; bool null = r.chance(20); c = FL2_endStream(f, null ? nullptr : &ob); if (!null) take(ob.pos); else if (c == 1 || c == 0) { m.poll(op); drain("end of the stream"); if (c == 0) { m.dead = m.dead; } } if (c == 0 && (!null || FL2_remainingOutputSize(f) == 0)) done = true; }
            if (FL2_isTimedOut(c)) { vf_stat("timeouts"); int q = (int)r.below(12); for (int i = 0; i < q; ++i) { m.poll("while work runs"); vf_stat("polls_while_running"); if (r.chance(30)) { struct timespec ts = { 0, (long)r.below(300000) }; nanosleep(&ts, nullptr); } } if (r.chance(20)) drain("while work runs"); }
            else if (FL2_isError(c)) { vf_viol("error", "%s: %s", op, enm(c)); break; }
            else { m.poll(op); if (!r.below(6)) m.poll(op); }
            if (quit_at >= 0 && --quit_at == 0) { vfh_gate(-1); if (r.chance(50)) FL2_cancelCStream(f); vf_stat("abandoned"); break; }
        }
        vfh_gate(-1); if (!done) continue;
        m.polls |= 1; m.poll("ended stream"); ull fin = m.last, fo = m.last_out;
        bool raw = p.omit; FrameResult F = judge(all, raw, FL2_getCCtxDictProp(f)); if (F.st != REF_OK || F.r.out != in) { vf_viol("ref-reject", "%s", F.st != REF_OK ? F.why.c_str() : "other content"); break; }
        if (fin != n) vf_viol("progress-total", "ended stream: %llu of %zu bytes reported (%zu blocks at least)", fin, n, F.r.dict_resets); else vf_stat("input_totals_exact");
        size_t trailer = 1 + (F.has_hash ? 4 : 0), body = all.size() - trailer;      // the end marker and the checksum come from no compression
        if (n == 0) body = 0;                                                          // nor does the property byte of an empty stream
        if (fo != body && fo != all.size()) vf_viol("output-total", "ended stream: %llu output bytes reported, %zu emitted, %zu of them end marker and checksum", fo, all.size(), trailer); else vf_stat("output_totals_exact");
        vf_stat("streams_ended"); if (drains) vf_stat("streams_with_drains"); if (idx < 6) vf_sample("%s: %zu -> %zu, %llu polls, %llu drains", how.c_str(), n, all.size(), (ull)m.polls, (ull)drains);
    }
    vfh_noise(0, 0, 0); FL2_freeCStream(f);
}
static void dec(u64 idx, Rng &r, bool slow) {
    Bytes f, content; std::string how; int kind = (int)r.below(10);
    if (kind < 4) { size_t n = r.chance(60) ? r.range(900000, slow ? 1500000 : 6000000) : gen_size(r, 900000); content = gen_data(r, n); n = content.size(); Params p; p.dict = 1u << 20; p.add(FL2_p_dictionarySize, p.dict); p.level = 1; p.add(FL2_p_resetInterval, r.range(1, 4)); FL2_CCtx *c = FL2_createCCtxMt(4); apply_params(c, p); f.resize(FL2_compressBound(n)); size_t z = FL2_compressCCtx(c, f.data(), f.size(), content.data(), n, 0); FL2_freeCCtx(c); if (FL2_isError(z)) return; f.resize(z); how = "encoder"; }
    else if (kind < 6) { f = enc_frame(r, 400000); how = "encoder, any settings"; } else if (kind < 9) { SynthOpt o = synth_opt(r, 400000); SynthOut s = synth_frame(r, o); f = s.frame; how = "synthesised"; } else { Src s = gen_src(r, 100000, 0); f = s.f; how = s.how; }
    FrameResult F = ref_frame(f.data(), f.size()); bool legal = F.st == REF_OK && F.hash_ok; if (kind < 6 && !legal) { vf_viol("ref-reject", "%s", F.why.c_str()); return; } if (legal) content = F.r.out;
    ull total = FL2_findDecompressedSize(f.data(), f.size());
    unsigned thr = r.chance(40) ? 1 : (unsigned)r.range(2, 6), timeout = r.chance(60) ? 1 : 0; size_t limit = r.chance(35) ? r.logsize(1000, 8u << 20) : 0; vf_info("decompress %s, %u threads, timeout %u, limit %zu, %zu -> %zu", how.c_str(), thr, timeout, limit, f.size(), content.size());
    FL2_DStream *d = thr == 1 ? FL2_createDStream() : FL2_createDStreamMt(thr); if (!d) return; if (limit) FL2_setDStreamMemoryLimitMt(d, limit); FL2_setDStreamTimeout(d, timeout); if (r.chance(50)) vfh_noise((int)r.pick({ 50, 300 }), 200, r.next()); bool hold = thr > 1 && timeout && r.chance(30);
    int rounds = r.chance(40) ? 2 : 1; bool dead = false;
    for (int k = 0; k < rounds && !dead; ++k) {
        size_t e = FL2_initDStream(d); if (FL2_isError(e)) { vf_viol("init", "%s", enm(e)); break; } ull last = FL2_getDStreamProgress(d); if (last) { vf_viol("fresh-stream", "progress %llu on a stream just initialised", last); break; }
        size_t pos = 0, got = 0; size_t inmax = std::max<size_t>(r.logsize(20, 4 << 20), f.size() / 100 + 1), outmax = std::max<size_t>(r.logsize(20, 4 << 20), content.size() / 100 + 1); Bytes buf(outmax); bool done = false; int quit_at = r.chance(12) ? (int)r.range(1, 30) : -1; int idle = 0; bool differs = false; u64 ahead = 0;
        auto poll = [&](const char *when) { ull p = FL2_getDStreamProgress(d); vf_stat("decompression_polls"); if (p < last) { vf_viol("dec-backwards", "%s: %llu bytes reported after %llu", when, p, last); dead = true; } if (legal && p > content.size()) { vf_viol("dec-beyond", "%s: %llu bytes reported of %zu", when, p, content.size()); dead = true; } if (!legal && total != FL2_CONTENTSIZE_ERROR && p > total) { vf_viol("dec-beyond", "%s: %llu bytes reported, headers announce %llu", when, p, total); dead = true; } if (p < got) { vf_viol("dec-short", "%s: %llu bytes reported, %zu delivered", when, p, got); dead = true; } if (p > got) ++ahead; if (p > last) vf_stat("dec_progress_steps"); last = p; };
        for (u64 guard = 0; guard < 400000 && !done && !dead; ++guard) {
            if (hold && r.chance(15)) vfh_gate((long)r.below(20)); else if (hold) vfh_gate(-1);
            size_t w = std::min(f.size() - pos, r.logsize(1, inmax)), q = r.logsize(1, outmax); if (idle) { w = std::min(f.size() - pos, std::max<size_t>(w, 64)); q = buf.size(); } FL2_inBuffer ib = { f.data() + pos, w, 0 }; FL2_outBuffer ob = { buf.data(), q, 0 };
            size_t c = FL2_decompressStream(d, &ob, &ib); bool left = false;
            while (FL2_isTimedOut(c)) { vf_stat("dec_timeouts"); int m = (int)r.below(6); for (int i = 0; i < m && !dead; ++i) { poll("while work runs"); vf_stat("dec_polls_while_running"); if (r.chance(30)) { struct timespec ts = { 0, (long)r.below(300000) }; nanosleep(&ts, nullptr); } } if (quit_at > 0 && r.chance(5)) { vfh_gate(-1); FL2_cancelDStream(d); left = true; break; } if (hold && r.chance(50)) vfh_gate(r.chance(50) ? -1 : (long)r.below(20)); c = FL2_waitDStream(d); }
            if (left) { vf_stat("dec_abandoned"); quit_at = 0; break; }
            pos += ib.pos; if (legal && (got + ob.pos > content.size() || memcmp(buf.data(), content.data() + got, ob.pos))) differs = true; got += ob.pos; idle = ib.pos + ob.pos ? 0 : idle + 1;
            poll("between calls"); if (FL2_isError(c)) { if (legal) vf_viol("dec-error", "%s", enm(c)); break; } if (c == 0) done = true; if (idle > 60) { if (pos >= f.size()) break; if (idle > 2000) { break; } }
            if (quit_at >= 0 && --quit_at == 0) { vfh_gate(-1); if (r.chance(50)) FL2_cancelDStream(d); vf_stat("dec_abandoned"); break; }
        }
        vfh_gate(-1); if (differs) vf_viol("other-content", "delivered bytes differ"); if (!done) { if (legal && quit_at != 0 && !dead) vf_viol("dec-stuck", "not ended after %zu of %zu bytes, %zu delivered", pos, f.size(), got); continue; }
        if (legal) { ull p = FL2_getDStreamProgress(d); if (p != content.size() || got != content.size()) vf_viol("dec-total", "ended: %llu bytes reported, %zu delivered, content %zu", p, got, content.size()); else vf_stat("dec_totals_exact"); vf_stat(thr > 1 ? "dec_ended_mt" : "dec_ended"); if (limit) vf_stat("dec_ended_limited"); vf_distinct("nontrivial", hash_bytes(f) + k); } if (ahead) vf_stat("dec_ahead_of_delivery");
    }
    vfh_noise(0, 0, 0); FL2_freeDStream(d); if (idx < 6) vf_sample("%s, %u threads, %zu -> %zu", how.c_str(), thr, f.size(), content.size());
}
int main(int argc, char **argv) {
    Args a = vf_args(argc, argv); bool slow = a.extra.find("slow") != std::string::npos;
    vf_loop(a, [&](u64 i, Rng &r) { vfh_reset(); if (r.chance(55)) comp(i, r, slow); else dec(i, r, slow); });
    return 0;
}
