#include "dtraits.hpp"
using namespace sim;
SIM_DIST(gamma_d, TGamma<br::gamma_distribution<double> >, F_GAMMA, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(gamma_f, TGamma<br::gamma_distribution<float> >, F_GAMMA, D_EXACT | D_EXACTIO, float, int)
SIM_DIST(beta_d, TGamma<br::beta_distribution<double> >, F_BETA, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(chi_squared_d, TN<br::chi_squared_distribution<double> >, F_CHI2, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(fisher_f_d, TFish<br::fisher_f_distribution<double> >, F_FISH, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(student_t_d, TN<br::student_t_distribution<double> >, F_STUD, D_EXACT | D_EXACTIO, double, int)
SIM_DIST(non_central_chi_squared_d, TNccs<br::non_central_chi_squared_distribution<double> >, F_NCCS, D_EXACT | D_EXACTIO, double, int)
