#include "engbox_impl.hpp"
#include <cstdint>
extern unsigned long long sim_mt_threshold;
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD sim_mt_threshold

#include <boost/random/ranlux.hpp>
#include <boost/random/discard_block.hpp>
using namespace sim; namespace br = boost::random; using namespace ref;
typedef ref::Lcg L;

SIM_ENGINE(ranlux_base_01, br::ranlux_base_01, uint32_t, 24, true, ENG_REAL, 25, Swc(24, 10, 24))
SIM_ENGINE(ranlux64_base_01, br::ranlux64_base_01, uint32_t, 48, true, ENG_REAL, 25, Swc(48, 10, 24))
SIM_ENGINE(ranlux3_01, br::ranlux3_01, uint32_t, 24, true, ENG_REAL, 25, DiscardBlock<Swc>(Swc(24, 10, 24), 223, 24))
SIM_ENGINE(ranlux4_01, br::ranlux4_01, uint32_t, 24, true, ENG_REAL, 25, DiscardBlock<Swc>(Swc(24, 10, 24), 389, 24))
SIM_ENGINE(ranlux64_3_01, br::ranlux64_3_01, uint32_t, 48, true, ENG_REAL, 25, DiscardBlock<Swc>(Swc(48, 10, 24), 223, 24))
SIM_ENGINE(ranlux64_4_01, br::ranlux64_4_01, uint32_t, 48, true, ENG_REAL, 25, DiscardBlock<Swc>(Swc(48, 10, 24), 389, 24))
typedef br::subtract_with_carry_01_engine<double, 32, 3, 7> swc01_32;
SIM_ENGINE(swc01_32_3_7, swc01_32, uint32_t, 32, true, ENG_REAL, 8, Swc(32, 3, 7))
