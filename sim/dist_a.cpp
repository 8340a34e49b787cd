#include "dtraits.hpp"
using namespace sim;
SIM_DIST(uniform_int_short, TUint<br::uniform_int_distribution<short> >, F_UINT, D_EXACT | D_EXACTIO | D_INTRES, double, short)
SIM_DIST(uniform_int_int, TUint<br::uniform_int_distribution<int> >, F_UINT, D_EXACT | D_EXACTIO | D_INTRES, double, int)
SIM_DIST(uniform_int_unsigned, TUint<br::uniform_int_distribution<unsigned> >, F_UINT, D_EXACT | D_EXACTIO | D_INTRES, double, unsigned)
SIM_DIST(uniform_int_i64, TUint<br::uniform_int_distribution<std::int64_t> >, F_UINT, D_EXACT | D_EXACTIO | D_INTRES, double, std::int64_t)
SIM_DIST(uniform_int_u64, TUint<br::uniform_int_distribution<std::uint64_t> >, F_UINT, D_EXACT | D_EXACTIO | D_INTRES, double, std::uint64_t)
SIM_DIST(uniform_int_old, TUint<WUintOld<int> >, F_UINT, D_EXACT | D_EXACTIO | D_INTRES, double, int)
SIM_DIST(uniform_smallint_int, TUint<br::uniform_smallint<int> >, F_SMALL, D_EXACT | D_EXACTIO | D_INTRES, double, int)
SIM_DIST(uniform_smallint_u64, TUint<br::uniform_smallint<std::uint64_t> >, F_SMALL, D_EXACT | D_EXACTIO | D_INTRES, double, std::uint64_t)
SIM_DIST(bernoulli_d, TBern<br::bernoulli_distribution<double> SIM_COMMA double>, F_BERN, D_EXACT | D_EXACTIO | D_INTRES, double, int)
SIM_DIST(bernoulli_f, TBern<br::bernoulli_distribution<float> SIM_COMMA float>, F_BERN, D_EXACT | D_EXACTIO | D_INTRES, float, int)
