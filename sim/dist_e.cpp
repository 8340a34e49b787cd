#include "dtraits.hpp"
using namespace sim;
SIM_DIST(binomial_int, TBinom<br::binomial_distribution<int> >, F_BINOM, D_EXACT | D_EXACTIO | D_INTRES, double, int)
SIM_DIST(binomial_i64_f, TBinom<br::binomial_distribution<std::int64_t SIM_COMMA float> >, F_BINOM, D_EXACT | D_EXACTIO | D_INTRES, float, std::int64_t)
SIM_DIST(geometric_int, TP<br::geometric_distribution<int> >, F_GEOM, D_EXACT | D_EXACTIO | D_INTRES, double, int)
SIM_DIST(geometric_u64_f, TP<br::geometric_distribution<std::uint64_t SIM_COMMA float> >, F_GEOM, D_EXACT | D_EXACTIO | D_INTRES, float, std::uint64_t)
SIM_DIST(geometric_old, TFake1<WGeomOld<int SIM_COMMA double> SIM_COMMA double>, F_GEOM_OLD, D_INTRES, double, int)
SIM_DIST(negative_binomial_int, TNegb<br::negative_binomial_distribution<int> >, F_NEGB, D_EXACT | D_EXACTIO | D_INTRES, double, int)
SIM_DIST(poisson_int, TPois<br::poisson_distribution<int> >, F_POIS, D_EXACT | D_EXACTIO | D_INTRES, double, int)
SIM_DIST(poisson_i64_f, TPois<br::poisson_distribution<std::int64_t SIM_COMMA float> >, F_POIS, D_EXACT | D_EXACTIO | D_INTRES, float, std::int64_t)
