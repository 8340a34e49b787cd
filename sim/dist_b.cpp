#include "dtraits.hpp"
using namespace sim;
SIM_DIST(uniform_real_f, TAB<br::uniform_real_distribution<float> >, F_UREAL, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(uniform_real_d, TAB<br::uniform_real_distribution<double> >, F_UREAL, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(uniform_real_ld, TAB<br::uniform_real_distribution<long double> >, F_UREAL, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(uniform_real_old, TAB<boost::uniform_real<double> >, F_UREAL, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(uniform_01_d, TFake0<W01<double> SIM_COMMA double>, F_U01, D_EXACT | D_EXACTIO | D_NOTEXT, double, int)
SIM_DIST(uniform_01_f, TFake0<W01<float> SIM_COMMA float>, F_U01, D_EXACT | D_EXACTIO | D_NOTEXT, float, int)
SIM_DIST(triangle_d, TTri<br::triangle_distribution<double> >, F_TRI, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(triangle_f, TTri<br::triangle_distribution<float> >, F_TRI, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(cauchy_d, TCauchy<br::cauchy_distribution<double> >, F_CAUCHY, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(weibull_d, TAB<br::weibull_distribution<double> >, F_WEIB, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(extreme_value_d, TAB<br::extreme_value_distribution<double> >, F_EXTR, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(laplace_d, TLapl<br::laplace_distribution<double> >, F_LAPL, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(laplace_f, TLapl<br::laplace_distribution<float> >, F_LAPL, D_EXACT | D_EXACTIO, float, int)
