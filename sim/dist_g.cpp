#include "dtraits.hpp"
using namespace sim;
SIM_DIST(laplace_ld, TLapl<br::laplace_distribution<long double> >, F_LAPL, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(cauchy_f, TCauchy<br::cauchy_distribution<float> >, F_CAUCHY, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(cauchy_ld, TCauchy<br::cauchy_distribution<long double> >, F_CAUCHY, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(weibull_f, TAB<br::weibull_distribution<float> >, F_WEIB, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(weibull_ld, TAB<br::weibull_distribution<long double> >, F_WEIB, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(extreme_value_f, TAB<br::extreme_value_distribution<float> >, F_EXTR, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(extreme_value_ld, TAB<br::extreme_value_distribution<long double> >, F_EXTR, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(lognormal_f, TLogn<br::lognormal_distribution<float> >, F_LOGN, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(lognormal_ld, TLogn<br::lognormal_distribution<long double> >, F_LOGN, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(triangle_ld, TTri<br::triangle_distribution<long double> >, F_TRI, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(bernoulli_ld, TBern<br::bernoulli_distribution<long double> SIM_COMMA long double>, F_BERN, D_EXACT | D_EXACTIO | D_INTRES, long double, int)
SIM_DIST(uniform_01_ld, TFake0<W01<long double> SIM_COMMA long double>, F_U01, D_EXACT | D_EXACTIO | D_NOTEXT, long double, int)
SIM_DIST(uniform_int_ushort, TUint<br::uniform_int_distribution<unsigned short> >, F_UINT, D_EXACT | D_EXACTIO | D_INTRES, double, unsigned short)
SIM_DIST(uniform_smallint_short, TUint<br::uniform_smallint<short> >, F_SMALL, D_EXACT | D_EXACTIO | D_INTRES, double, short)
