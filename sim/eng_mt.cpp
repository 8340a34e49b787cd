#include "engbox_impl.hpp"
#include <cstdint>
extern unsigned long long sim_mt_threshold;
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD sim_mt_threshold

#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/shuffle_order.hpp>
using namespace sim; namespace br = boost::random; using namespace ref;
typedef ref::Lcg L;

#define P11213 Mt::P{32,351,175,19,0xccab8ee7,11,0xffffffff,7,0x31b6ab00,15,0xffe50000,17,1812433253}
#define P19937 Mt::P{32,624,397,31,0x9908b0df,11,0xffffffff,7,0x9d2c5680,15,0xefc60000,18,1812433253}
#define P19937_64 Mt::P{64,312,156,31,0xb5026f5aa96619e9ull,29,0x5555555555555555ull,17,0x71d67fffeda60000ull,37,0xfff7eee000000000ull,43,6364136223846793005ull}
#define P521 Mt::P{32,17,8,23,0xe4bd75f5,12,0xffffffff,7,0x655e5280,15,0xffd58000,18,1812433253}
SIM_ENGINE(mt11213b, br::mt11213b, uint32_t, 0, true, ENG_MT, 351, Mt(P11213))
SIM_ENGINE(mt19937, br::mt19937, uint32_t, 0, true, ENG_MT, 624, Mt(P19937))
SIM_ENGINE(mt19937_64, br::mt19937_64, uint64_t, 0, true, ENG_MT, 312, Mt(P19937_64))
typedef br::mersenne_twister_engine<uint32_t,32,17,8,23,0xe4bd75f5,12,0xffffffff,7,0x655e5280,15,0xffd58000,18,1812433253> mt521;
SIM_ENGINE(mt521, mt521, uint32_t, 0, true, ENG_MT, 17, Mt(P521))
typedef br::independent_bits_engine<br::mt19937, 48, uint64_t> ib48;
SIM_ENGINE(indep48_mt, ib48, uint32_t, 0, true, ENG_MT, 624, IndepBits<Mt>(Mt(P19937), 48))
typedef br::independent_bits_engine<br::minstd_rand0, 32, uint32_t> ib32;
SIM_ENGINE(indep32_minstd, ib32, uint32_t, 0, true, 0, 1, IndepBits<L>(L(32, 16807, 0, 2147483647), 32))
typedef br::independent_bits_engine<br::minstd_rand0, 7, uint32_t> ib7;
SIM_ENGINE(indep7_minstd, ib7, uint32_t, 0, true, 0, 1, IndepBits<L>(L(32, 16807, 0, 2147483647), 7))
typedef br::independent_bits_engine<br::linear_congruential_engine<uint32_t, 13, 7, 97>, 64, uint64_t> ib64;
SIM_ENGINE(indep64_lcg97, ib64, uint32_t, 0, true, 0, 1, IndepBits<L>(L(32, 13, 7, 97), 64))
typedef br::discard_block_engine<br::mt11213b, 7, 3> dbmt;
SIM_ENGINE(discard_mt, dbmt, uint32_t, 0, true, ENG_MT, 352, DiscardBlock<Mt>(Mt(P11213), 7, 3))
typedef br::shuffle_order_engine<br::discard_block_engine<br::linear_congruential_engine<uint64_t, UINT64_C(6364136223846793005), UINT64_C(1442695040888963407), 0>, 3, 2>, 8> shdb;
SIM_ENGINE(shuffle_discard_lcg64, shdb, uint64_t, 0, true, 0, 10, Shuffle<DiscardBlock<L> >(DiscardBlock<L>(L(64, UINT64_C(6364136223846793005), UINT64_C(1442695040888963407), 0), 3, 2), 8))
typedef br::mersenne_twister_engine<uint64_t,32,17,8,23,0xe4bd75f5,12,0xffffffff,7,0x655e5280,15,0xffd58000,18,1812433253> mt521_64;
SIM_ENGINE(mt521_in64, mt521_64, uint64_t, 0, true, ENG_MT, 17, Mt(P521))
