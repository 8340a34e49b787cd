#include "dtraits.hpp"
using namespace sim;
SIM_DIST(gamma_ld, TGamma<br::gamma_distribution<long double> >, F_GAMMA, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(beta_f, TGamma<br::beta_distribution<float> >, F_BETA, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(beta_ld, TGamma<br::beta_distribution<long double> >, F_BETA, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(chi_squared_f, TN<br::chi_squared_distribution<float> >, F_CHI2, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(chi_squared_ld, TN<br::chi_squared_distribution<long double> >, F_CHI2, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(fisher_f_f, TFish<br::fisher_f_distribution<float> >, F_FISH, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(student_t_f, TN<br::student_t_distribution<float> >, F_STUD, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(student_t_ld, TN<br::student_t_distribution<long double> >, F_STUD, D_EXACT | D_EXACTIO, long double, int)
SIM_DIST(non_central_chi_squared_f, TNccs<br::non_central_chi_squared_distribution<float> >, F_NCCS, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(hyperexponential_f, THyper<br::hyperexponential_distribution<float> >, F_HYPER, D_VEC, float, int)
SIM_DIST(hyperexponential_ld, THyper<br::hyperexponential_distribution<long double> >, F_HYPER, D_VEC, long double, int)
SIM_DIST(uniform_on_sphere_ld, TSphere<br::uniform_on_sphere<long double> >, F_SPHERE, D_EXACT | D_EXACTIO | D_NOMINMAX | D_VEC, long double, int)
