#include "engbox_impl.hpp"
#include <cstdint>
extern unsigned long long sim_mt_threshold;
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD sim_mt_threshold
#include <boost/random/linear_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/independent_bits.hpp>
using namespace sim; namespace br = boost::random; using namespace ref;
// engines over signed integer types, as older code declares them; negative seeds are exercised on purpose
struct SL : ref::Lcg {     // an int32_t seed value is reduced into [0, m)
    SL(u64 a, u64 c, u64 m) : ref::Lcg(32, a, c, m) {}
    Model* clone() const { return new SL(*this); }
    void seed() { set(1); } void seed(u64 v) { long long x = (int32_t)(u32)v; long long M = (long long)m; x %= M; if (x < 0) x += M; set((u64)x); }
    // a seed word is converted to the engine's own (signed) type before reduction; the documentation does not say otherwise
    void seed(Src& s) { u32 w[4]; unsigned off = s.is_seq() ? 3 : 0; s.words(w, 1 + off); seed((u64)w[off]); }
};
typedef br::linear_congruential_engine<int32_t, 16807, 0, 2147483647> sm0;
typedef br::linear_congruential_engine<int32_t, 48271, 0, 2147483647> sm;
typedef br::linear_congruential_engine<int32_t, 1366, 150889, 714025> s714;
SIM_ENGINE(lcg_i32, sm0, int32_t, 0, true, ENG_FASTJUMP, 1, SL(16807, 0, 2147483647))
SIM_ENGINE(lcg714025_i32, s714, int32_t, 0, true, ENG_FASTJUMP, 1, SL(1366, 150889, 714025))
typedef br::shuffle_order_engine<sm0, 32> sshuf;
SIM_ENGINE(shuffle_lcg_i32, sshuf, int32_t, 0, true, 0, 33, Shuffle<SL>(SL(16807, 0, 2147483647), 32))
typedef br::discard_block_engine<s714, 11, 4> sdisc;
SIM_ENGINE(discard_lcg_i32, sdisc, int32_t, 0, true, 0, 2, DiscardBlock<SL>(SL(1366, 150889, 714025), 11, 4))
typedef br::independent_bits_engine<sm, 31, uint32_t> sindep;
SIM_ENGINE(indep31_lcg_i32, sindep, int32_t, 0, true, 0, 1, IndepBits<SL>(SL(48271, 0, 2147483647), 31))
typedef br::linear_congruential_engine<int64_t, 2862933555777941LL, 3037000493LL, (INT64_C(1) << 61) - 1> s61;
struct SL64 : ref::Lcg { SL64(u64 a, u64 c, u64 m) : ref::Lcg(64, a, c, m) {} Model* clone() const { return new SL64(*this); } void seed() { set(1); } void seed(u64 v) { long long x = (long long)v, M = (long long)m; x %= M; if (x < 0) x += M; set((u64)x); } void seed(Src& s) { ref::Lcg::seed(s); } };
SIM_ENGINE(lcg61_i64, s61, int64_t, 0, true, ENG_FASTJUMP, 1, SL64(2862933555777941ull, 3037000493ull, (1ull << 61) - 1))
