// C01: whatever one-shot compression produces, every decoder restores exactly.
#include "fl2h.h"

static void one(u64 idx, Rng &r, bool slow) {
    Params p = gen_params(r, 0);
    int api = (int)r.below(10);                     // 0: FL2_compress, 1: FL2_compressMt, else CCtx
    unsigned thr = r.chance(35) ? 1 : (unsigned)r.range(2, 8);
    int kind = (int)r.below(GEN_KINDS);
    size_t cap = slow ? 600000 : r.chance(8) ? 7u << 20 : r.chance(30) ? 2600000 : 300000;
    if (p.level > 7 || p.high) cap = std::min<size_t>(cap, 1500000);
    size_t n = gen_size(r, cap);
    Bytes in = gen_data(r, n, kind); n = in.size();
    vf_info("%s api=%d threads=%u kind=%s size=%zu", p.desc().c_str(), api, thr, gen_kind_name(kind), n);
    size_t bound = FL2_compressBound(n); Bytes c(bound); size_t z; u8 prop = 0; bool raw = false;
    u64 h0 = hash_bytes(in);
    if (api == 0) { z = FL2_compress(c.data(), bound, in.data(), n, p.level); }
    else if (api == 1) { z = FL2_compressMt(c.data(), bound, in.data(), n, p.level, thr); }
    else {
        FL2_CCtx *cc = thr == 1 && r.chance(50) ? FL2_createCCtx() : FL2_createCCtxMt(thr);
        if (!cc) { vf_viol("create", "context creation failed"); return; }
        size_t e = apply_params(cc, p); if (FL2_isError(e)) { vf_viol("param", "setting valid parameters failed: %s", enm(e)); FL2_freeCCtx(cc); return; }
        raw = p.omit; z = FL2_compressCCtx(cc, c.data(), bound, in.data(), n, 0);
        if (raw) prop = FL2_getCCtxDictProp(cc);
        // the parameter set may hold a dictionary larger than the input; the property must still cover the data
        FL2_freeCCtx(cc);
    }
    if (FL2_isError(z)) { vf_viol("compress-error", "compression into compressBound() bytes failed: %s", enm(z)); return; }
    if (z > bound) { vf_viol("size", "returned size %zu above the capacity %zu", z, bound); return; }
    if (hash_bytes(in) != h0) { vf_viol("source", "the source buffer was changed"); return; }
    c.resize(z);
    // independent decoder
    FrameResult F = judge(c, raw, prop);
    if (F.st != REF_OK) vf_viol("ref-reject", "independent decoder: %s after %zu of %zu bytes", F.why.c_str(), F.r.out.size(), n);
    else { if (F.r.out != in) { size_t i = 0; while (i < n && i < F.r.out.size() && F.r.out[i] == in[i]) ++i; vf_viol("ref-mismatch", "independent decoder: content differs at %zu (%zu bytes, expected %zu)", i, F.r.out.size(), n); }
        if (F.consumed != z) vf_viol("ref-trailing", "frame ends at %zu, compressor reported %zu", F.consumed, z); }
    vf_stat("matches", F.r.nmatch + F.r.nrep); vf_stat("chunks", F.r.chunks.size()); vf_stat("raw_chunks", F.r.unc_chunks); vf_stat("dict_resets", F.r.dict_resets); vf_max("max_distance", F.r.max_dist);
    // the library's own decoders
    int dapi = (int)r.below(4); unsigned dthr = (unsigned)r.range(2, 8); Bytes o(n + 1, 0xA5); size_t q;
    if (!raw) q = oneshot(dapi, dthr, o.data(), n, c.data(), z);
    else { FL2_DCtx *d = dapi & 1 ? FL2_createDCtxMt(dthr) : FL2_createDCtx(); size_t e = FL2_initDCtx(d, prop); q = FL2_isError(e) ? e : FL2_decompressDCtx(d, o.data(), n, c.data(), z); FL2_freeDCtx(d); }
    if (FL2_isError(q)) vf_viol("decode-error", "decompression api %d threads %u failed: %s", dapi, dthr, enm(q));
    else if (q != n) vf_viol("decode-size", "decompressed size %zu, expected %zu", q, n);
    else if (memcmp(o.data(), in.data(), n)) { size_t i = 0; while (o[i] == in[i]) ++i; vf_viol("decode-mismatch", "decompressed content differs at %zu", i); }
    if (r.chance(40)) {
        FL2_DStream *d = r.chance(50) ? FL2_createDStreamMt((unsigned)r.range(2, 6)) : FL2_createDStream(); DOpt op; op.raw = raw; op.prop = prop; op.style = r.chance(30) ? 3 : 0; op.out_max = std::max<size_t>(n, 1) + 100;
        DResult D = dstream_run(d, c, r, op); FL2_freeDStream(d);
        if (!D.ended || D.out != in) vf_viol("stream-decode", "streaming decompression: code %s, %zu bytes of %zu", FL2_isError(D.code) ? enm(D.code) : D.code ? "1" : "0", D.out.size(), n);
        vf_stat("stream_decodes");
    }
    unsigned long long fs = raw ? n : FL2_findDecompressedSize(c.data(), z); if (fs != n) vf_viol("findsize", "FL2_findDecompressedSize gives %llu, expected %zu", fs, n);
    vf_stat("roundtrips"); vf_stat("bytes", n); vf_stat(std::string("kind_").append(gen_kind_name(kind)).c_str());
    if (n > 64) vf_distinct("nontrivial", mix64(h0, hash_bytes(c)));
    if (n > p.dict && p.dict) vf_stat("multi_block");
    if (thr > 1 && n > 300000 && api) vf_stat("multi_thread_encodes");
    if (idx < 3) vf_sample("%s threads=%u kind=%s: %zu -> %zu bytes, %zu chunks, max distance %zu", p.desc().c_str(), thr, gen_kind_name(kind), n, z, F.r.chunks.size(), F.r.max_dist);
}
int main(int argc, char **argv) { Args a = vf_args(argc, argv); bool slow = a.extra == "slow"; vf_loop(a, [&](u64 i, Rng &r) { one(i, r, slow); }); return 0; }
