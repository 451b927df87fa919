#include "ode_num_int/alg/reg/AlgebraicSolverClassesRegistrator.h"
#include "reg.h"
void sim::regAlg() { static ctm::math::AlgebraicSolverClassesRegistrator<VD> r; (void)r; }
