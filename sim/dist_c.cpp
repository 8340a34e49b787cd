#include "dtraits.hpp"
using namespace sim;
SIM_DIST(normal_f, TNorm<br::normal_distribution<float> >, F_NORM, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(normal_d, TNorm<br::normal_distribution<double> >, F_NORM, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(normal_ld, TNorm<br::normal_distribution<long double> >, F_NORM, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(lognormal_d, TLogn<br::lognormal_distribution<double> >, F_LOGN, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(lognormal_old, TFake2<WLognOld<double> SIM_COMMA double>, F_LOGN_OLD, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(exponential_f, TExpo<br::exponential_distribution<float> >, F_EXPO, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(exponential_d, TExpo<br::exponential_distribution<double> >, F_EXPO, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(exponential_ld, TExpo<br::exponential_distribution<long double> >, F_EXPO, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(hyperexponential_d, THyper<br::hyperexponential_distribution<double> >, F_HYPER, D_VEC, double, int)
SIM_DIST(uniform_on_sphere_d, TSphere<br::uniform_on_sphere<double> >, F_SPHERE, D_EXACT | D_EXACTIO | D_NOMINMAX | D_VEC, double, int)
SIM_DIST(uniform_on_sphere_f, TSphere<br::uniform_on_sphere<float> >, F_SPHERE, D_EXACT | D_EXACTIO | D_NOMINMAX | D_VEC, float, int)
