// Deterministic simulation core: one seed (or one recorded choice list) is one
// exactly repeatable execution.  Every decision of a run is drawn through
// Run::pick(); the recorded picks are the replay file, and shrinking works on
// that list (0 is always the simplest choice: no fault, smallest size).
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
#include <functional>
#include <sstream>
namespace sim {
typedef std::uint64_t u64; typedef long long i64;
typedef std::uint32_t u32;

inline u64 mix64(u64 z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
// xoshiro256** : the simulator's own PRNG (never the code under test)
struct Prng {
    u64 s[4];
    explicit Prng(u64 seed = 1) { reseed(seed); }
    void reseed(u64 seed) { for (int i = 0; i < 4; ++i) { seed = mix64(seed + i); s[i] = seed; } }
    static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
    u64 next() {
        u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    u64 below(u64 n) { return n ? static_cast<u64>((static_cast<unsigned __int128>(next()) * n) >> 64) : 0; }
    double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// A violation of the property; deliberately not a std::exception.
struct Violation { std::string cls, msg; };
// Thrown by simulated seams when the run's step budget is exhausted.
struct BudgetExceeded {};

// fault kinds and reach probes share one counter table (per process, merged by the runner)
enum { MAX_COUNTERS = 512 };
int counter_id(const char* kind, const char* name);       // registers on first use
struct Counters { u64 v[MAX_COUNTERS]; };
extern Counters* g_counters;
inline void bump(int id, u64 n = 1) { if (id >= 0) g_counters->v[id] += n; }
inline u64 name_hash(const char* p) { u64 h = 1469598103934665603ull; for (; *p; ++p) h = (h ^ (unsigned char)*p) * 0x100000001b3ull; return h; }
#define SIM_FAULT(name) do { static const int id_ = ::sim::counter_id("fault", name); static const ::sim::u64 h_ = ::sim::name_hash(name); ::sim::bump(id_); ::sim::R->fault(h_, name); } while (0)
#define SIM_PROBE(name) do { static const int id_ = ::sim::counter_id("probe", name); ::sim::bump(id_); } while (0)
inline void dyn_probe(const std::string& name) { ::sim::bump(counter_id("probe", name.c_str())); }

struct Shared;   // runner's shared page
class Run {
public:
    // choice stream ---------------------------------------------------------
    u64 pick(u64 n);                     // uniform in [0,n); 0 simplest
    u64 pick64() { return pick(0); }     // raw word
    bool chance(double p) {              // false simplest
        const u64 N = 1u << 20;
        u64 t = static_cast<u64>(p * N);
        return pick(N) >= N - t && t != 0;
    }
    u64 range(u64 lo, u64 hi) { return lo + pick(hi - lo + 1); }
    template<class T> const T& among(const std::vector<T>& v) { return v[pick(v.size())]; }
    // size biased to small values with a heavy tail
    u64 size_biased(u64 hi) {
        switch (pick(4)) { case 0: return pick((hi < 4 ? hi : 4) + 1); case 1: return pick((hi < 32 ? hi : 32) + 1);
                           case 2: return pick((hi < 256 ? hi : 256) + 1); default: return pick(hi + 1); }
    }
    // event log -------------------------------------------------------------
    void ev(u64 a) { hash = (hash ^ a) * 0x100000001b3ull; hash ^= hash >> 29; ++events; publish(); }
    void ev(u64 a, u64 b) { ev(a); ev(b); }
    void ev(const std::string& s) { for (char c : s) hash = (hash ^ (unsigned char)c) * 0x100000001b3ull; ev(s.size()); }
    void fault(u64 h, const char* name) { ++faults; sig(h); if (verbose) note(std::string("  !! fault: ") + name); }
    void sig(u64 a) { signature = mix64(signature ^ a); }          // shape of the run (ops, faults), not its data
    void step(const std::string& s) { ev(s); if (verbose) note(s); else last = s; }
    void note(const std::string& s);
    void fail(const std::string& cls, const std::string& msg) { throw Violation{cls, msg}; }
    void publish();
    // state -------------------------------------------------------------------
    bool replaying = false, verbose = false;
    Prng prng;
    std::vector<u64> in, rec; std::size_t pos = 0;
    u64 faults = 0;
    u64 hash = 1469598103934665603ull, events = 0, signature = 0;
    u64 sim_steps = 0;                   // logical time: seam events
    std::string last;
    std::vector<std::string> trace;
    Shared* sh = 0;
};
extern Run* R;

struct World { const char* name; void (*run)(Run&); unsigned weight; };

struct CheckInfo {
    const char* property;
    const char* technique_rule;          // how cases are made / non-trivial
    std::vector<World> worlds;
    std::vector<const char*> real;       // components that ran real code
    std::vector<const char*> stub;       // components simulated
    std::vector<const char*> assumptions;
    u64 quick_runs, thorough_runs;       // upper bounds
    double quick_secs, thorough_secs;
    bool fork_each = false;      // every run in a fresh process (nothing initialised yet)
    bool hidden_state_is_violation = false;   // the property itself says runs cannot influence each other
};
int run_main(int argc, char** argv, const CheckInfo& info);

template<class T> std::string str(const T& x) { std::ostringstream o; o.precision(21); o << x; return o.str(); }
template<class A, class... B> std::string cat(const A& a, const B&... b) { std::ostringstream o; o.precision(21); o << a; int dummy[] = { 0, (o << b, 0)... }; (void)dummy; return o.str(); }
inline u64 dbits(double d) { u64 r; std::memcpy(&r, &d, 8); return r; }
inline u64 dbits(float d) { u32 r; std::memcpy(&r, &d, 4); return r; }
inline u64 dbits(long double d) { u64 r[2] = {0, 0}; std::memcpy(r, &d, 10); return mix64(r[0]) ^ r[1]; }
#define SIM_CHECK(cond, cls, msg) do { if (!(cond)) ::sim::R->fail(cls, msg); } while (0)
}
#endif
