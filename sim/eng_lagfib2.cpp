#include "engbox_impl.hpp"
#include <cstdint>
extern unsigned long long sim_mt_threshold;
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD sim_mt_threshold

#include <boost/random/lagged_fibonacci.hpp>
using namespace sim; namespace br = boost::random; using namespace ref;
typedef ref::Lcg L;

SIM_ENGINE(lagged_fibonacci4423, br::lagged_fibonacci4423, uint32_t, 48, true, ENG_REAL, 4423, LagFib(48, 4423, 2098))
SIM_ENGINE(lagged_fibonacci9689, br::lagged_fibonacci9689, uint32_t, 48, true, ENG_REAL, 9689, LagFib(48, 9689, 5502))
SIM_ENGINE(lagged_fibonacci19937, br::lagged_fibonacci19937, uint32_t, 48, true, ENG_REAL, 19937, LagFib(48, 19937, 9842))
SIM_ENGINE(lagged_fibonacci23209, br::lagged_fibonacci23209, uint32_t, 48, true, ENG_REAL, 23209, LagFib(48, 23209, 13470))
SIM_ENGINE(lagged_fibonacci44497, br::lagged_fibonacci44497, uint32_t, 48, true, ENG_REAL, 44497, LagFib(48, 44497, 21034))
