#include "dtraits.hpp"
using namespace sim;
SIM_DIST(discrete_int_d, TDisc<br::discrete_distribution<int SIM_COMMA double> SIM_COMMA double>, F_DISC, D_INTRES | D_VEC, double, int)
SIM_DIST(discrete_int_f, TDisc<br::discrete_distribution<int SIM_COMMA float> SIM_COMMA float>, F_DISC, D_INTRES | D_VEC, float, int)
SIM_DIST(discrete_int_int, TDisc<br::discrete_distribution<int SIM_COMMA int> SIM_COMMA int>, F_DISCI, D_EXACT | D_EXACTIO | D_INTRES | D_VEC, double, int)
SIM_DIST(discrete_size_u64, TDisc<br::discrete_distribution<std::size_t SIM_COMMA std::uint64_t> SIM_COMMA std::uint64_t>, F_DISCI, D_EXACT | D_EXACTIO | D_INTRES | D_VEC, double, std::uint64_t)
SIM_DIST(piecewise_constant_d, TPiece<br::piecewise_constant_distribution<double> SIM_COMMA false>, F_PWC, D_VEC, double, int)
SIM_DIST(piecewise_linear_d, TPiece<br::piecewise_linear_distribution<double> SIM_COMMA true>, F_PWL, D_VEC, double, int)
SIM_DIST(piecewise_linear_f, TPiece<br::piecewise_linear_distribution<float> SIM_COMMA true>, F_PWL, D_VEC, float, int)
