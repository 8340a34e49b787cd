#include "engbox_impl.hpp"
#include <cstdint>
extern unsigned long long sim_mt_threshold;
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD sim_mt_threshold

#include <boost/random/lagged_fibonacci.hpp>
using namespace sim; namespace br = boost::random; using namespace ref;
typedef ref::Lcg L;

typedef br::lagged_fibonacci_engine<uint32_t, 24, 17, 5> lf17;
SIM_ENGINE(lagfib24_17_5, lf17, uint32_t, 0, true, 0, 17, LagFib(24, 17, 5))
typedef br::lagged_fibonacci_engine<uint64_t, 64, 55, 24> lf55;
SIM_ENGINE(lagfib64_55_24, lf55, uint64_t, 0, true, 0, 55, LagFib(64, 55, 24))
typedef br::lagged_fibonacci_engine<uint32_t, 32, 607, 273> lf607;
SIM_ENGINE(lagfib32_607_273, lf607, uint32_t, 0, true, 0, 607, LagFib(32, 607, 273))
typedef br::lagged_fibonacci_01_engine<double, 48, 11, 9> lf01s;
SIM_ENGINE(lagfib01_11_9, lf01s, uint32_t, 48, true, ENG_REAL, 11, LagFib(48, 11, 9))
typedef br::lagged_fibonacci_01_engine<float, 23, 17, 5> lf01f;
SIM_ENGINE(lagfib01f_17_5, lf01f, uint32_t, 23, true, ENG_REAL, 17, LagFib(23, 17, 5))
SIM_ENGINE(lagged_fibonacci607, br::lagged_fibonacci607, uint32_t, 48, true, ENG_REAL, 607, LagFib(48, 607, 273))
SIM_ENGINE(lagged_fibonacci1279, br::lagged_fibonacci1279, uint32_t, 48, true, ENG_REAL, 1279, LagFib(48, 1279, 418))
SIM_ENGINE(lagged_fibonacci2281, br::lagged_fibonacci2281, uint32_t, 48, true, ENG_REAL, 2281, LagFib(48, 2281, 1252))
SIM_ENGINE(lagged_fibonacci3217, br::lagged_fibonacci3217, uint32_t, 48, true, ENG_REAL, 3217, LagFib(48, 3217, 576))
