#include "engbox_impl.hpp"
#include <cstdint>
extern unsigned long long sim_mt_threshold;
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD sim_mt_threshold

#include <boost/random/linear_congruential.hpp>
#include <boost/random/additive_combine.hpp>
using namespace sim; namespace br = boost::random; using namespace ref;
typedef ref::Lcg L;

SIM_ENGINE(minstd_rand0, br::minstd_rand0, uint32_t, 0, true, ENG_FASTJUMP, 1, L(32, 16807, 0, 2147483647))
SIM_ENGINE(minstd_rand, br::minstd_rand, uint32_t, 0, true, ENG_FASTJUMP, 1, L(32, 48271, 0, 2147483647))
SIM_ENGINE(rand48, br::rand48, uint32_t, 0, true, ENG_FASTJUMP | ENG_RAWBULK, 1, Rand48())
typedef br::linear_congruential_engine<uint64_t, UINT64_C(6364136223846793005), UINT64_C(1442695040888963407), 0> lcg64;
SIM_ENGINE(lcg64, lcg64, uint64_t, 0, true, ENG_FASTJUMP, 1, L(64, UINT64_C(6364136223846793005), UINT64_C(1442695040888963407), 0))
typedef br::linear_congruential_engine<uint32_t, 1664525, 1013904223, 0> lcg32;
SIM_ENGINE(lcg32, lcg32, uint32_t, 0, true, ENG_FASTJUMP, 1, L(32, 1664525, 1013904223, 0))
typedef br::linear_congruential_engine<uint32_t, 1366, 150889, 714025> lcg714025;
SIM_ENGINE(lcg714025, lcg714025, uint32_t, 0, true, ENG_FASTJUMP, 1, L(32, 1366, 150889, 714025))
typedef br::linear_congruential_engine<uint32_t, 13, 7, 97> lcg97;
SIM_ENGINE(lcg97, lcg97, uint32_t, 0, true, ENG_FASTJUMP, 1, L(32, 13, 7, 97))
typedef br::linear_congruential_engine<uint64_t, 48271, 11, (UINT64_C(1) << 61) - 1> lcg61;
SIM_ENGINE(lcg61, lcg61, uint64_t, 0, true, ENG_FASTJUMP, 1, L(64, 48271, 11, (UINT64_C(1) << 61) - 1))
typedef br::linear_congruential_engine<uint64_t, UINT64_C(25214903917), 11, UINT64_C(1) << 48> lcg48;
SIM_ENGINE(lcg48, lcg48, uint64_t, 0, true, ENG_FASTJUMP, 1, L(64, UINT64_C(25214903917), 11, UINT64_C(1) << 48))
typedef br::linear_congruential_engine<uint64_t, UINT64_C(13891176665706064842), 1442695040888963407, UINT64_C(18446744073709551557)> lcgp64;
SIM_ENGINE(lcgp64, lcgp64, uint64_t, 0, true, ENG_FASTJUMP, 1, L(64, UINT64_C(13891176665706064842), 1442695040888963407, UINT64_C(18446744073709551557)))
typedef br::linear_congruential_engine<uint64_t, UINT64_C(2307085864), 0, UINT64_C(9223372036854775783)> lcgp63;
SIM_ENGINE(lcgp63, lcgp63, uint64_t, 0, true, ENG_FASTJUMP, 1, L(64, UINT64_C(2307085864), 0, UINT64_C(9223372036854775783)))
typedef br::linear_congruential_engine<uint64_t, UINT64_C(400032223285), 12345, UINT64_C(434003602261)> lcgp39;
SIM_ENGINE(lcgp39, lcgp39, uint64_t, 0, true, ENG_FASTJUMP, 1, L(64, UINT64_C(400032223285), 12345, UINT64_C(434003602261)))
SIM_ENGINE(ecuyer1988, br::ecuyer1988, uint32_t, 0, true, ENG_FASTJUMP, 2, Additive(L(32, 40014, 0, 2147483563), L(32, 40692, 0, 2147483399)))
typedef br::additive_combine_engine<br::minstd_rand, br::linear_congruential_engine<uint32_t, 40692, 0, 2147483399> > addcomb2;
SIM_ENGINE(additive_custom, addcomb2, uint32_t, 0, true, ENG_FASTJUMP, 2, Additive(L(32, 48271, 0, 2147483647), L(32, 40692, 0, 2147483399)))
