#include "engbox_impl.hpp"
#include <cstdint>
extern unsigned long long sim_mt_threshold;
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD sim_mt_threshold

#include <boost/random/ranlux.hpp>
#include <boost/random/discard_block.hpp>
using namespace sim; namespace br = boost::random; using namespace ref;
typedef ref::Lcg L;

SIM_ENGINE(ranlux_base, br::ranlux_base, uint32_t, 0, true, 0, 25, Swc(24, 10, 24))
SIM_ENGINE(ranlux64_base, br::ranlux64_base, uint64_t, 0, true, 0, 25, Swc(48, 10, 24))
SIM_ENGINE(ranlux48_base, br::ranlux48_base, uint64_t, 0, true, 0, 13, Swc(48, 5, 12))
SIM_ENGINE(ranlux3, br::ranlux3, uint32_t, 0, true, 0, 25, DiscardBlock<Swc>(Swc(24, 10, 24), 223, 24))
SIM_ENGINE(ranlux4, br::ranlux4, uint32_t, 0, true, 0, 25, DiscardBlock<Swc>(Swc(24, 10, 24), 389, 24))
SIM_ENGINE(ranlux64_3, br::ranlux64_3, uint64_t, 0, true, 0, 25, DiscardBlock<Swc>(Swc(48, 10, 24), 223, 24))
SIM_ENGINE(ranlux64_4, br::ranlux64_4, uint64_t, 0, true, 0, 25, DiscardBlock<Swc>(Swc(48, 10, 24), 389, 24))
SIM_ENGINE(ranlux24, br::ranlux24, uint32_t, 0, true, 0, 25, DiscardBlock<Swc>(Swc(24, 10, 24), 223, 23))
SIM_ENGINE(ranlux48, br::ranlux48, uint64_t, 0, true, 0, 13, DiscardBlock<Swc>(Swc(48, 5, 12), 389, 11))
typedef br::subtract_with_carry_engine<uint32_t, 16, 2, 5> swc16;
SIM_ENGINE(swc16_2_5, swc16, uint32_t, 0, true, 0, 6, Swc(16, 2, 5))
typedef br::subtract_with_carry_engine<uint32_t, 31, 4, 5> swc31;
SIM_ENGINE(swc31_4_5, swc31, uint32_t, 0, true, 0, 6, Swc(31, 4, 5))
