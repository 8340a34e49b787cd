#include "alloc.hpp"
#include <new>
#include <cstdlib>
#include <cstring>
namespace sim { AllocState g_alloc = { false, 0, 0, 0, 0, 0, 0, 0, 0xA7, 0 };
static void* g_tab[1 << 16]; static u32 g_ntab = 0;
void alloc_forget() { g_ntab = 0; g_alloc.armed_live = 0; } }
namespace sim { void record_assert(const char*); }
using namespace sim;
extern "C" const char* __asan_get_report_description() __attribute__((weak));
// without ASan every block carries a filled head and tail: reads outside it see the same bytes in every execution of a
// seed, writes outside it are noticed when it is released
static const std::size_t HEAD = 32, TAIL = 64;
static inline bool padded() { return !__asan_get_report_description; }
static void* pad_alloc(std::size_t n) {
    unsigned char* b = static_cast<unsigned char*>(std::malloc(HEAD + n + TAIL)); if (!b) return 0;
    std::memcpy(b, &n, sizeof n); std::memset(b + sizeof n, 0x5B, HEAD - sizeof n); std::memset(b + HEAD + n, 0x5B, TAIL); return b + HEAD;
}
static void pad_free(void* p) {
    unsigned char* b = static_cast<unsigned char*>(p) - HEAD; std::size_t n; std::memcpy(&n, b, sizeof n);
    static unsigned char want[TAIL]; if (!want[0]) std::memset(want, 0x5B, TAIL);
    if (std::memcmp(b + sizeof n, want, HEAD - sizeof n) || std::memcmp(b + HEAD + n, want, TAIL)) { sim::record_assert("memory outside a heap block was written"); std::abort(); }
    std::memset(p, 0xD7, n < 65536 ? n : 65536); std::free(b);
}
static void* sim_new(std::size_t n, std::size_t al) {
    if (g_alloc.armed) {
        ++g_alloc.seq;
        if (g_alloc.fail_at && g_alloc.seq >= g_alloc.fail_at && g_alloc.seq < g_alloc.fail_at + g_alloc.fail_len) {
            ++g_alloc.injected;
            bool a = g_alloc.armed; g_alloc.armed = false; SIM_FAULT("allocation-failure"); g_alloc.armed = a;
            return 0;
        }
    }
    void* p;
    // red zones are left to ASan where it is on; contents are deterministic garbage
    if (al > 16) { if (posix_memalign(&p, al, n ? n : 1)) return 0; } else p = padded() ? pad_alloc(n) : std::malloc(n ? n : 1);
    if (!p) return 0;
    std::memset(p, g_alloc.fill, n < 65536 ? n : 65536);
    ++g_alloc.live; ++g_alloc.count;
    if (g_alloc.armed && g_ntab < (1u << 16)) { g_tab[g_ntab++] = p; g_alloc.armed_live = g_ntab; }
    return p;
}
static void sim_del(void* p, bool al = false) { if (p) { --g_alloc.live; for (u32 i = g_ntab; i-- > 0;) if (g_tab[i] == p) { g_tab[i] = g_tab[--g_ntab]; g_alloc.armed_live = g_ntab; break; } if (al || !padded()) std::free(p); else pad_free(p); } }
void* operator new(std::size_t n) { void* p = sim_new(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = sim_new(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { void* p = sim_new(n, (std::size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n, std::align_val_t a) { void* p = sim_new(n, (std::size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { sim_del(p); }
void operator delete[](void* p) noexcept { sim_del(p); }
void operator delete(void* p, std::size_t) noexcept { sim_del(p); }
void operator delete[](void* p, std::size_t) noexcept { sim_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_del(p); }
void operator delete(void* p, std::align_val_t al) noexcept { sim_del(p, (std::size_t)al > 16); }
void operator delete[](void* p, std::align_val_t al) noexcept { sim_del(p, (std::size_t)al > 16); }
void operator delete(void* p, std::size_t, std::align_val_t al) noexcept { sim_del(p, (std::size_t)al > 16); }
void operator delete[](void* p, std::size_t, std::align_val_t al) noexcept { sim_del(p, (std::size_t)al > 16); }
