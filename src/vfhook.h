// Link-time instrumentation: in the library's object files the allocation and pthread symbols are
// renamed (objcopy --redefine-syms) so that they come here. Nothing in /repo is changed.
#pragma once
#include <cstddef>
#include <cstdint>
struct VfHook {
    // allocation faults
    long fail_at = -1;        // the allocation with this number (0-based since vfh_reset) fails
    bool fail_after = false;  // ... and all later ones
    size_t fail_above = 0;    // requests larger than this fail (0: off)
    long fail_at_free = -1;
    // thread creation faults
    long tfail_at = -1; bool tfail_after = false;
    // allocation contents
    int fill = -1;            // byte pattern for fresh memory (-1: leave), 256: random
    bool track = false;       // account for live bytes
    bool guard = false;       // each block ends at an inaccessible page (with the bytes that alignment leaves checked when freed)
    // schedule noise
    int noise = 0;            // 0 off; per mille probability of a perturbation at each hook point
    unsigned noise_max_us = 50;
    uint64_t noise_seed = 1;
};
extern VfHook vfh;
void vfh_reset();                    // counters to zero, faults off
long vfh_allocs();                   // allocations seen since reset
long vfh_failed();                   // allocations refused since reset
long vfh_tcreates();                 // thread creations seen since reset
size_t vfh_live_bytes();             // (track) bytes live now
size_t vfh_live_blocks();
size_t vfh_peak_bytes(); void vfh_peak_reset();
long vfh_live_threads();             // created by the library and not joined
uint64_t vfh_events();               // synchronisation events seen since reset
uint64_t vfh_order_hash();           // hash of the order of those events across threads
long vfh_guard_bad(); long vfh_guard_blocks();   // blocks freed with damaged tails; blocks guarded
void vfh_noise(int per_mille, unsigned max_us, uint64_t seed);

// The gate holds the threads the library created: closed, such a thread stops when it starts and after each
// mutex it releases (never while holding one). -1: open; n >= 0: n more passes, then closed.
void vfh_gate(long passes); long vfh_gate_waiting(); uint64_t vfh_gate_stops();
// -2: a thread that arrives waits for the next vfh_round(), whatever the others do. vfh_arrived: how many arrived in this round.
void vfh_round(); long vfh_arrived();
