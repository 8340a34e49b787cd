#include "engbox_impl.hpp"
#include <cstdint>
extern unsigned long long sim_mt_threshold;
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD sim_mt_threshold

#include <boost/random/linear_congruential.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/mixmax.hpp>
using namespace sim; namespace br = boost::random; using namespace ref;
typedef ref::Lcg L;

SIM_ENGINE(kreutzer1986, br::kreutzer1986, uint32_t, 0, true, 0, 98, Shuffle<L>(L(32, 1366, 150889, 714025), 97))
SIM_ENGINE(knuth_b, br::knuth_b, uint32_t, 0, true, 0, 257, Shuffle<L>(L(32, 16807, 0, 2147483647), 256))
typedef br::shuffle_order_engine<br::linear_congruential_engine<uint64_t, UINT64_C(6364136223846793005), UINT64_C(1442695040888963407), 0>, 5> shuf64;
SIM_ENGINE(shuffle_lcg64, shuf64, uint64_t, 0, true, 0, 6, Shuffle<L>(L(64, UINT64_C(6364136223846793005), UINT64_C(1442695040888963407), 0), 5))
typedef br::shuffle_order_engine<br::linear_congruential_engine<uint32_t, 1664525, 1013904223, 0>, 1> shuf1;
SIM_ENGINE(shuffle_lcg32_1, shuf1, uint32_t, 0, true, 0, 2, Shuffle<L>(L(32, 1664525, 1013904223, 0), 1))
SIM_ENGINE(hellekalek1995, br::hellekalek1995, uint32_t, 0, true, 0, 1, Inversive(9102, 2147483647 - 36884165, 2147483647))
typedef br::inversive_congruential_engine<uint32_t, 5, 0, 101> inv101;
SIM_ENGINE(inversive101, inv101, uint32_t, 0, true, 0, 1, Inversive(5, 0, 101))
typedef br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> lf1;
SIM_ENGINE(lfsr31, lf1, uint32_t, 0, true, 0, 1, Lfsr(32, 32, 31, 13, 12))
typedef br::linear_feedback_shift_engine<uint64_t, 64, 63, 5, 24> lf2;
SIM_ENGINE(lfsr63, lf2, uint64_t, 0, true, 0, 1, Lfsr(64, 64, 63, 5, 24))
SIM_ENGINE(taus88, br::taus88, uint32_t, 0, true, 0, 3, Xor<Xor<Lfsr, Lfsr>, Lfsr>(Xor<Lfsr, Lfsr>(Lfsr(32, 32, 31, 13, 12), 0, Lfsr(32, 32, 29, 2, 4), 0, 32), 0, Lfsr(32, 32, 28, 3, 17), 0, 32))
typedef br::xor_combine_engine<br::mt11213b, 0, br::linear_congruential_engine<uint32_t, 1664525, 1013904223, 0>, 0> xorc;
SIM_ENGINE(xor_mt_lcg, xorc, uint32_t, 0, true, ENG_MT, 352, Xor<Mt, L>(Mt(Mt::P{32,351,175,19,0xccab8ee7,11,0xffffffff,7,0x31b6ab00,15,0xffe50000,17,1812433253}), 0, L(32, 1664525, 1013904223, 0), 0, 32))
typedef br::xor_combine_engine<br::linear_congruential_engine<uint32_t, 1366, 150889, 714025>, 11, br::minstd_rand, 0> xors;
SIM_ENGINE(xor_lcg_shifted, xors, uint32_t, 0, true, 0, 2, Xor<L, L>(L(32, 1366, 150889, 714025), 11, L(32, 48271, 0, 2147483647), 0, 32))
typedef br::xor_combine_engine<br::minstd_rand0, 0, br::minstd_rand, 0> xorm;
SIM_ENGINE(xor_minstd, xorm, uint32_t, 0, true, 0, 2, Xor<L, L>(L(32, 16807, 0, 2147483647), 0, L(32, 48271, 0, 2147483647), 0, 32))
SIM_ENGINE(splitmix64, br::splitmix64, uint64_t, 0, false, ENG_NORANGE | ENG_RAWBULK | ENG_TEXTEND, 1, Splitmix())
SIM_ENGINE(mixmax, br::mixmax, uint64_t, 0, true, 0, 18, Mixmax())
typedef br::linear_feedback_shift_engine<uint64_t, 32, 31, 13, 12> lf3;
SIM_ENGINE(lfsr31_in64, lf3, uint64_t, 0, true, 0, 1, Lfsr(64, 32, 31, 13, 12))
typedef br::linear_feedback_shift_engine<uint32_t, 30, 29, 2, 4> lf4;
SIM_ENGINE(lfsr29_w30, lf4, uint32_t, 0, true, 0, 1, Lfsr(32, 30, 29, 2, 4))
