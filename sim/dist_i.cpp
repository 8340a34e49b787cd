#include "dtraits.hpp"
using namespace sim;
SIM_DIST(binomial_int_f, TBinom<br::binomial_distribution<int SIM_COMMA float> >, F_BINOM, D_EXACT | D_EXACTIO | D_INTRES, float, int)
SIM_DIST(binomial_int_ld, TBinom<br::binomial_distribution<int SIM_COMMA long double> >, F_BINOM, D_EXACT | D_EXACTIO | D_INTRES, long double, int)
SIM_DIST(geometric_i64_ld, TP<br::geometric_distribution<std::int64_t SIM_COMMA long double> >, F_GEOM, D_EXACT | D_EXACTIO | D_INTRES, long double, std::int64_t)
SIM_DIST(negative_binomial_i64_f, TNegb<br::negative_binomial_distribution<std::int64_t SIM_COMMA float> >, F_NEGB, D_EXACT | D_EXACTIO | D_INTRES, float, std::int64_t)
SIM_DIST(poisson_int_ld, TPois<br::poisson_distribution<int SIM_COMMA long double> >, F_POIS, D_EXACT | D_EXACTIO | D_INTRES, long double, int)
SIM_DIST(discrete_int_ld, TDisc<br::discrete_distribution<int SIM_COMMA long double> SIM_COMMA long double>, F_DISC, D_INTRES | D_VEC, long double, int)
SIM_DIST(piecewise_constant_f, TPiece<br::piecewise_constant_distribution<float> SIM_COMMA false>, F_PWC, D_VEC, float, int)
SIM_DIST(piecewise_constant_ld, TPiece<br::piecewise_constant_distribution<long double SIM_COMMA long double> SIM_COMMA false>, F_PWC, D_VEC, long double, int)
SIM_DIST(piecewise_linear_ld, TPiece<br::piecewise_linear_distribution<long double> SIM_COMMA true>, F_PWL, D_VEC, long double, int)
