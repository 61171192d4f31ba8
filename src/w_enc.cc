// C20: compression is memory safe. The sanitizers, guard pages and assertions judge; the outputs are decoded as well.
#include "fl2h.h"
#include <memory>
extern "C" { void __msan_unpoison(const volatile void *, size_t) __attribute__((weak)); void __msan_unpoison_param(size_t) __attribute__((weak)); intptr_t __msan_test_shadow(const volatile void *, size_t) __attribute__((weak)); }
// In memory sanitizer builds only the library is instrumented: what the workload hands over is declared initialised.
static void pre() { if (__msan_unpoison_param) __msan_unpoison_param(8); }
__attribute__((noinline)) static void post() { char c; if (__msan_unpoison) __msan_unpoison((char *)&c - (192 << 10), 192 << 10); }
template <class F> static auto L(F f) -> decltype(f()) { pre(); auto x = f(); post(); return x; }
static bool defined(const u8 *p, size_t n, const char *what) {
    if (!__msan_test_shadow) return true; vf_stat("bytes_checked_defined", n); intptr_t k = n ? __msan_test_shadow(p, n) : -1; if (k < 0) { return true; }
    vf_viol("uninitialised-output", "byte %zd of %zu of %s depends on uninitialised memory", (ssize_t)k, n, what); __msan_unpoison(p, n); return false;
}
static Bytes input(Rng &r, size_t cap, std::vector<size_t> &cuts, size_t dict) {
    int k = (int)r.below(10); size_t n = r.chance(8) ? r.below(20) : r.chance(40) ? gen_size(r, cap) : r.logsize(1, cap);
    if (dict <= cap && r.chance(35)) n = dict + r.below(3) - 1;                       // the buffers full to the last byte
    Bytes b = k < 3 ? gen_seams(r, n, cuts) : gen_data(r, n); b.resize(n);
    if (n > 40 && r.chance(60)) { // the end is where reads could run over: repeats of all periods, matches up to the last byte
        size_t t = std::min(n / 2, (size_t)r.logsize(2, 600)); 
        if (r.chance(60)) { unsigned per = (unsigned)r.range(1, 70); for (size_t i = n - t; i < n; ++i) if (i >= per) b[i] = b[i - per]; if (r.chance(30)) b[n - 1 - r.below(std::min<size_t>(t, 8))] ^= 1; }
        else { size_t from = r.below(n - t + 1); memmove(b.data() + n - t, b.data() + from, std::min(t, n - from)); } }
    if (n > 5000 && r.chance(20)) { size_t t = (size_t)r.range(2, 40), at = n - t; for (int c = (int)r.range(1, 40); c; --c) { size_t to = r.below(n - 2 * t); memcpy(b.data() + to, b.data() + at, t); } }  // the tail seen often before
    while (!cuts.empty() && cuts.back() >= n) cuts.pop_back();
    return b;
}
static void verify(const u8 *c, size_t z, const Bytes &in, bool raw, u8 prop, const char *what) {
    Bytes t(c, c + z); FrameResult F = judge(t, raw, prop); if (F.st != REF_OK) vf_viol("ref-reject", "%s: %s after %zu of %zu bytes", what, F.why.c_str(), F.r.out.size(), in.size()); else if (F.r.out != in) vf_viol("ref-mismatch", "%s: decodes to other content", what); else { vf_stat("outputs_decoded"); vf_distinct("nontrivial", hash_bytes(t)); }
    vf_stat("matches", F.r.nmatch + F.r.nrep); vf_stat("literals", F.r.nlit);
}
static void one(u64 idx, Rng &r, bool slow) {
    Params p = gen_params(r, PP_SMALLDICT); if (p.high) p.high = false; if (slow && p.level > 8) p.level = 4; bool big = r.chance(slow ? 4 : 3); if (big) { p.dict = (size_t)128 << 20; p.add(FL2_p_dictionarySize, p.dict); vf_stat("structured_tables"); }
    unsigned thr = r.chance(50) ? 1 : (unsigned)r.range(2, 5); size_t cap = slow ? (r.chance(12) ? 1300000 : 60000) : r.chance(25) ? 2500000 : 300000; std::vector<size_t> cuts; Bytes in = input(r, cap, cuts, big || !p.dict ? 1u << 20 : p.dict); size_t n = in.size();
    bool guard = !__msan_unpoison && !big && r.chance(slow ? 10 : 60); if (guard) { vfh.guard = true; vf_stat("guarded_cases"); } int how = (int)r.below(10);
    vf_info("%s threads=%u size=%zu how=%d guard=%d", p.desc().c_str(), thr, n, how, guard);
    if (how < 5) { // one-shot: source and destination end (or begin) at inaccessible pages
        Guard src(n, r.chance(80)); if (n) memcpy(src.p, in.data(), n); size_t bound = FL2_compressBound(n), dcap = r.chance(75) ? bound : r.below(bound + 1); Guard dst(dcap, r.chance(80)); memset(dst.p, 0x77, dcap); vf_stat("oneshot");
        FL2_CCtx *c = L([&] { return thr == 1 ? FL2_createCCtx() : FL2_createCCtxMt(thr); }); if (!c) { vf_viol("create", "no context"); vfh.guard = false; return; }
        size_t e = L([&] { return apply_params(c, p); }); if (FL2_isError(e)) vf_viol("param", "%s", enm(e));
        for (int rep = r.chance(20) ? 2 : 1; rep; --rep) {
            size_t z = L([&] { return FL2_compressCCtx(c, dst.p, dcap, src.p, n, 0); });
            if (FL2_isError(z)) { if (dcap >= bound || FL2_getErrorCode(z) != FL2_error_dstSize_tooSmall) vf_viol("compress-error", "%s (capacity %zu of bound %zu)", enm(z), dcap, bound); else vf_stat("refused_too_small"); }
            else if (defined(dst.p, z, "the compressed data")) verify(dst.p, z, in, p.omit, p.omit ? std::min<u8>(40, FL2_getCCtxDictProp(c)) : 0, "one-shot"); }
        L([&] { FL2_freeCCtx(c); return 0; });
    } else { // a stream
        int dual = (int)r.below(2); unsigned timeout = r.chance(20) && !__msan_unpoison ? 1 : 0; FL2_CStream *f = L([&] { return FL2_createCStreamMt(thr, dual); }); if (!f) { vf_viol("create", "no stream"); vfh.guard = false; return; } vf_stat("streams");
        size_t e = L([&] { return apply_params(f, p); }); if (!FL2_isError(e) && timeout) e = FL2_setCStreamTimeout(f, timeout);
        for (int rep = r.chance(20) ? 2 : 1; rep && !FL2_isError(e); --rep) {
            e = L([&] { return FL2_initCStream(f, 0); }); if (FL2_isError(e)) break; Bytes out; size_t pos = 0, cut = 0; bool ok = true; size_t unit = r.logsize(1000, 3 << 20), osz = r.logsize(40, 1 << 20); if (n / osz > 500) osz = n / 500 + 1;
            auto flush = [&](bool end) { for (;;) { Guard o(osz); FL2_outBuffer ob = { o.p, osz, 0 }; size_t c = L([&] { return end ? FL2_endStream(f, &ob) : FL2_flushStream(f, &ob); }); if (FL2_isError(c) && !FL2_isTimedOut(c)) { vf_viol("stream-error", "%s", enm(c)); return false; } if (!defined(o.p, ob.pos, "the stream")) return false; out.insert(out.end(), o.p, o.p + ob.pos); if (c == 0) return true; } };
            while (pos < n && ok) {
                size_t to = n; if (cut < cuts.size()) { if (pos >= cuts[cut]) { ++cut; ok = flush(false); vf_stat("flushes"); continue; } to = cuts[cut]; } size_t k = std::min(to - pos, unit);
                if (r.chance(50)) { FL2_dictBuffer db = { nullptr, 0 }; size_t c = L([&] { return FL2_getDictionaryBuffer(f, &db); }); if (__msan_unpoison) __msan_unpoison(&db, sizeof db); if (FL2_isTimedOut(c)) continue; if (FL2_isError(c)) { vf_viol("stream-error", "%s", enm(c)); ok = false; break; }
                    if (db.size) { k = std::min<size_t>(k, db.size); memcpy(db.dst, in.data() + pos, k); if (__msan_unpoison) __msan_unpoison(db.dst, k); pos += k; c = L([&] { return FL2_updateDictionary(f, k); }); if (FL2_isError(c) && !FL2_isTimedOut(c)) { vf_viol("stream-error", "%s", enm(c)); ok = false; break; } vf_stat("pushes"); }
                    for (;;) { Guard o(osz); FL2_outBuffer ob = { o.p, osz, 0 }; c = L([&] { return FL2_copyCStreamOutput(f, &ob); }); if (FL2_isError(c)) { vf_viol("stream-error", "%s", enm(c)); ok = false; break; } if (!defined(o.p, ob.pos, "the stream")) ok = false; out.insert(out.end(), o.p, o.p + ob.pos); if (c == 0) { if (timeout) c = FL2_waitCStream(f); if (c == 0 || FL2_isError(c)) break; } }
                } else { Guard s(k), o(osz); memcpy(s.p, in.data() + pos, k); FL2_inBuffer ib = { s.p, k, 0 }; FL2_outBuffer ob = { o.p, osz, 0 }; size_t c = L([&] { return FL2_compressStream(f, &ob, &ib); }); pos += std::min(ib.pos, k); if (FL2_isError(c) && !FL2_isTimedOut(c)) { vf_viol("stream-error", "%s", enm(c)); ok = false; break; } if (!defined(o.p, ob.pos, "the stream")) ok = false; out.insert(out.end(), o.p, o.p + ob.pos); }
            }
            if (ok && flush(true)) verify(out.data(), out.size(), in, p.omit, p.omit ? std::min<u8>(40, FL2_getCCtxDictProp(f)) : 0, "stream");
        }
        if (FL2_isError(e)) vf_viol("param", "%s", enm(e)); L([&] { FL2_freeCStream(f); return 0; });
    }
    if (guard) { vfh.guard = false; if (vfh_guard_bad()) vf_viol("overwrite", "%ld of the library's blocks were written past their end", vfh_guard_bad()); vf_max("guarded_blocks", vfh_guard_blocks()); }
    vf_stat("bytes", n); if (idx < 3) vf_sample("%s threads=%u size=%zu %s", p.desc().c_str(), thr, n, how < 5 ? "one-shot" : "stream");
}
int main(int argc, char **argv) { Args a = vf_args(argc, argv); bool slow = a.extra == "slow"; vf_loop(a, [&](u64 i, Rng &r) { one(i, r, slow); }); return 0; }
