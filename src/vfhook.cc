#include "vfhook.h"
#include <pthread.h>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <atomic>
#include <mutex>
#include <sys/mman.h>
#include <malloc.h>

VfHook vfh;
extern "C" void __msan_unpoison(const volatile void *, size_t) __attribute__((weak));
extern "C" void __msan_poison(const volatile void *, size_t) __attribute__((weak));
static void raw(void *p, size_t n) { if (__msan_poison && p) __msan_poison(p, n); }     // fresh memory is uninitialised (memory sanitizer builds)
// Everything here uses bare atomics: this file is compiled without sanitizers, so they give the race
// detector no happens-before edges that the library itself does not have.
static std::atomic<long> n_alloc{0}, n_failed{0}, n_tcreate{0}, n_threads{0};
static std::atomic<uint64_t> n_events{0}, order_hash{0};
static std::atomic<size_t> live_bytes{0}, live_blocks{0}, peak_bytes{0};
static std::atomic<int> next_tid{0};
static std::atomic_flag tab_lock = ATOMIC_FLAG_INIT;
static const size_t TABN = 1 << 16; static struct { void *p; size_t n; size_t map; } tab[TABN];
static size_t slot(void *p) { uint64_t h = (uint64_t)p * 0x9E3779B97F4A7C15ull; return (size_t)(h >> 48) & (TABN - 1); }
static void lock() { while (tab_lock.test_and_set(std::memory_order_acquire)) sched_yield(); }
static void unlock() { tab_lock.clear(std::memory_order_release); }
static std::atomic<long> guard_bad{0}, guard_blocks{0}; long vfh_guard_bad() { return guard_bad; } long vfh_guard_blocks() { return guard_blocks; }
static void tab_add(void *p, size_t n, size_t map = 0) {
    lock(); size_t i = slot(p); while (tab[i].p) i = (i + 1) & (TABN - 1); tab[i].p = p; tab[i].n = n; tab[i].map = map; unlock();
    live_blocks++; size_t v = (live_bytes += n); size_t pk = peak_bytes; while (v > pk && !peak_bytes.compare_exchange_weak(pk, v)) {}
}
static size_t tab_del(void *p) {
    lock(); size_t i = slot(p); while (tab[i].p && tab[i].p != p) i = (i + 1) & (TABN - 1);
    size_t n = 0, map = 0; bool f = tab[i].p == p;
    if (f) { n = tab[i].n; map = tab[i].map; tab[i].p = nullptr;
        for (size_t j = (i + 1) & (TABN - 1); tab[j].p; j = (j + 1) & (TABN - 1)) { size_t k = slot(tab[j].p); if (((j - k) & (TABN - 1)) >= ((j - i) & (TABN - 1))) { tab[i] = tab[j]; tab[j].p = nullptr; i = j; } } }
    unlock(); if (f) { live_blocks--; live_bytes -= n; }
    if (map) { unsigned char *q = (unsigned char *)p + n, *e = (unsigned char *)p - ((size_t)p & 4095) ; e += map - 4096; for (; q < e; ++q) if (*q != 0xC9) { guard_bad++; break; } }
    return map;
}
static void *guard_new(size_t n, size_t a) {
    if (a < 16) a = 16; size_t len = (n + a + 4095) / 4096 * 4096; unsigned char *b = (unsigned char *)mmap(nullptr, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (b == MAP_FAILED) return nullptr;
    mprotect(b + len, 4096, PROT_NONE); unsigned char *p = (unsigned char *)(((size_t)b + len - n) & ~(a - 1)); memset(p + n, 0xC9, b + len - (p + n));
    guard_blocks++; size_t map = (size_t)(b + len) - ((size_t)p & ~(size_t)4095) + 4096; 
    if ((unsigned char *)((size_t)p & ~(size_t)4095) > b) munmap(b, (size_t)p / 4096 * 4096 - (size_t)b);
    tab_add(p, n, map); return p;
}
static void release(void *p) { if (!p) return; size_t map = live_blocks ? tab_del(p) : 0; if (map) munmap((void *)((size_t)p & ~(size_t)4095), map); else { if (__msan_unpoison) __msan_unpoison(p, malloc_usable_size(p)); free(p); } }
static thread_local uint64_t t_rng = 0; static thread_local int t_id = -1;
static std::atomic<uint64_t> g_gen{1}; static thread_local uint64_t t_gen = 0;
static void ev(int op) {
    if (t_id < 0) t_id = next_tid++;
    if (op < 12) {
    n_events.fetch_add(1, std::memory_order_relaxed);
    uint64_t h = order_hash.load(std::memory_order_relaxed), v; do { v = (h ^ (uint64_t)(t_id * 16 + op)) * 0x100000001b3ull; v ^= v >> 31; } while (!order_hash.compare_exchange_weak(h, v, std::memory_order_relaxed)); }
    if (vfh.noise <= 0) return;
    uint64_t g = g_gen.load(std::memory_order_relaxed);
    if (t_gen != g) { t_gen = g; t_rng = vfh.noise_seed * 0x9E3779B97F4A7C15ull + (uint64_t)t_id * 0xD1342543DE82EF95ull + 1; }
    t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17;
    if ((int)((t_rng >> 20) % (op >= 12 ? 200000 : 1000)) >= vfh.noise) return;
    switch ((t_rng >> 40) & 3) {
    case 0: sched_yield(); break;
    case 1: { for (volatile int i = 0; i < (int)((t_rng >> 44) & 2047); i = i + 1) {} break; }
    default: { struct timespec ts = { 0, (long)(1000 * (1 + (t_rng >> 44) % (vfh.noise_max_us ? vfh.noise_max_us : 1))) }; nanosleep(&ts, nullptr); }
    }
}
static std::atomic<long> g_gate{-1}, g_wait{0}; static std::atomic<uint64_t> g_stops{0}; static thread_local bool t_lib = false;
void vfh_gate(long n) { g_gate = n; } long vfh_gate_waiting() { return g_wait; } uint64_t vfh_gate_stops() { return g_stops; }
// rounds: at a closed gate each thread waits for the round after the one it arrived in
static std::mutex g_rm; static std::atomic<long> g_round{0}, g_arrived{0};
void vfh_round() { std::lock_guard<std::mutex> l(g_rm); g_round++; g_arrived = 0; } long vfh_arrived() { std::lock_guard<std::mutex> l(g_rm); return g_arrived; }
static void gate() {
    if (g_gate.load(std::memory_order_relaxed) == -2 && t_lib) { long my; { std::lock_guard<std::mutex> l(g_rm); my = g_round; g_arrived++; } g_stops++; while (g_gate.load() == -2 && g_round.load() == my) { struct timespec ts = { 0, 100000 }; nanosleep(&ts, nullptr); } return; }
    long v = g_gate.load(std::memory_order_relaxed); if (v < 0 || !t_lib) return; bool w = false;
    for (;;) { v = g_gate.load(std::memory_order_relaxed); if (v < 0) break; if (v > 0) { if (g_gate.compare_exchange_weak(v, v - 1)) break; continue; }
        if (!w) { w = true; g_wait++; g_stops++; } struct timespec ts = { 0, 200000 }; nanosleep(&ts, nullptr); }
    if (w) g_wait--;
}
void vfh_noise(int pm, unsigned us, uint64_t seed) { vfh.noise_seed = seed; vfh.noise_max_us = us; vfh.noise = pm; g_gen++; }
void vfh_reset() { vfh.fail_at = -1; vfh.fail_after = false; vfh.fail_above = 0; vfh.tfail_at = -1; vfh.tfail_after = false; n_alloc = 0; n_failed = 0; n_tcreate = 0; n_events = 0; order_hash = 0; next_tid = t_id < 0 ? 0 : 1; if (t_id >= 0) t_id = 0; peak_bytes = live_bytes.load(); }
long vfh_allocs() { return n_alloc; }
long vfh_failed() { return n_failed; }
long vfh_tcreates() { return n_tcreate; }
size_t vfh_live_bytes() { return live_bytes; }
size_t vfh_live_blocks() { return live_blocks; }
size_t vfh_peak_bytes() { return peak_bytes; }
void vfh_peak_reset() { peak_bytes = live_bytes.load(); }
long vfh_live_threads() { return n_threads; }
uint64_t vfh_events() { return n_events; }
uint64_t vfh_order_hash() { return order_hash; }

static bool refuse(size_t n) {
    long k = n_alloc++; bool f = (vfh.fail_at >= 0 && (k == vfh.fail_at || (vfh.fail_after && k > vfh.fail_at))) || (vfh.fail_above && n > vfh.fail_above);
    if (f) { n_failed++; errno = ENOMEM; } return f;
}
static void fresh(void *p, size_t n) {
    if (vfh.fill < 0 || !p) return;
    if (vfh.fill < 256) memset(p, vfh.fill, n); else { uint64_t x = (uint64_t)n * 0x9E3779B97F4A7C15ull + (uint64_t)n_alloc * 77 + vfh.noise_seed; unsigned char *q = (unsigned char *)p; size_t i = 0; for (; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(q + i, &x, 8); } for (; i < n; ++i) q[i] = (unsigned char)(x >> (i % 8 * 8)); }
}
extern "C" {
void *vf_malloc(size_t n) { if (refuse(n)) return nullptr; void *p = vfh.guard ? guard_new(n, 16) : malloc(n); fresh(p, n); raw(p, n); if (p && vfh.track && !vfh.guard) tab_add(p, n); return p; }
void *vf_calloc(size_t a, size_t b) { if (refuse(a * b)) return nullptr; void *p = vfh.guard ? guard_new(a * b, 16) : calloc(a, b); if (p && vfh.track && !vfh.guard) tab_add(p, a * b); return p; }
void vf_free(void *p) { release(p); }
void *vf_realloc(void *o, size_t n) { if (refuse(n)) return nullptr; if (vfh.guard) { void *p = guard_new(n, 16); if (p && o) { size_t k = 0; lock(); size_t i = slot(o); while (tab[i].p && tab[i].p != o) i = (i + 1) & (TABN - 1); if (tab[i].p) k = tab[i].n; unlock(); memcpy(p, o, k < n ? k : n); release(o); } return p; }
    if (o && live_blocks) tab_del(o); void *p = realloc(o, n); if (p && vfh.track) tab_add(p, n); return p; }
int vf_posix_memalign(void **m, size_t a, size_t n) { if (refuse(n)) return ENOMEM; if (vfh.guard) { *m = guard_new(n, a); fresh(*m, n); raw(*m, n); return *m ? 0 : ENOMEM; } int r = posix_memalign(m, a, n); if (!r) { fresh(*m, n); raw(*m, n); if (vfh.track) tab_add(*m, n); } return r; }
void *vf_aligned_alloc(size_t a, size_t n) { if (refuse(n)) return nullptr; void *p = vfh.guard ? guard_new(n, a) : aligned_alloc(a, n); fresh(p, n); raw(p, n); if (p && vfh.track && !vfh.guard) tab_add(p, n); return p; }

struct Start { void *(*f)(void *); void *a; };
static void *tramp(void *v) { Start s = *(Start *)v; free(v); t_id = -1; t_lib = true; if (g_gate != -2) gate(); ev(1); void *r = s.f(s.a); return r; }
int vf_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    long k = n_tcreate++; if (vfh.tfail_at >= 0 && (k == vfh.tfail_at || (vfh.tfail_after && k > vfh.tfail_at))) { n_failed++; return EAGAIN; }
    ev(2); Start *s = (Start *)malloc(sizeof(Start)); s->f = f; s->a = a; int r = pthread_create(t, at, tramp, s); if (r) free(s); else n_threads++; ev(3); return r; }
int vf_pthread_join(pthread_t t, void **r) { ev(4); int x = pthread_join(t, r); if (!x) n_threads--; return x; }
int vf_pthread_mutex_lock(pthread_mutex_t *m) { ev(5); int r = pthread_mutex_lock(m); ev(6); return r; }
int vf_pthread_mutex_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); ev(7); gate(); return r; }
int vf_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { int r = pthread_cond_wait(c, m); ev(8); return r; }
int vf_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { int r = pthread_cond_timedwait(c, m, t); ev(9); return r; }
int vf_pthread_cond_signal(pthread_cond_t *c) { ev(10); return pthread_cond_signal(c); }
int vf_pthread_cond_broadcast(pthread_cond_t *c) { ev(11); return pthread_cond_broadcast(c); }
// variant "sched": -finstrument-functions calls these at every function of the library
void __cyg_profile_func_enter(void *, void *) { if (vfh.noise > 0) ev(12); }
void __cyg_profile_func_exit(void *, void *) { if (vfh.noise > 0) ev(13); }
}
