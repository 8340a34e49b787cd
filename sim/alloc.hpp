// Replaced global allocator: live accounting, deterministic contents, injected failure.
#ifndef SIM_ALLOC_HPP
#define SIM_ALLOC_HPP
#include "core.hpp"
namespace sim {
struct AllocState {
    volatile bool armed;      // inside a region where failures may be injected / counted
    u64 live, live_bytes, count;     // since process start
    u64 seq;                  // allocations seen while armed
    u64 fail_at;              // 1-based index while armed (0 = never)
    u64 fail_len;             // number of consecutive failures from fail_at
    u64 injected;
    unsigned char fill;
    u64 armed_live;           // allocated while armed and not yet released
};
void alloc_forget();          // start a new account of armed allocations
extern AllocState g_alloc;
// RAII: allocations inside are counted, and number `at` (1-based) .. at+len-1 fail
struct AllocFault {
    u64 live0, inj0;
    AllocFault(u64 at, u64 len) { live0 = g_alloc.live; inj0 = g_alloc.injected; g_alloc.seq = 0; g_alloc.fail_at = at; g_alloc.fail_len = len; g_alloc.armed = true; }
    ~AllocFault() { stop(); }
    void stop() { g_alloc.armed = false; g_alloc.fail_at = 0; }
    bool fired() const { return g_alloc.injected != inj0; }
    u64 seen() const { return g_alloc.seq; }
};
struct AllocPause { bool a; AllocPause() { a = g_alloc.armed; g_alloc.armed = false; } ~AllocPause() { g_alloc.armed = a; } };
}
#endif
