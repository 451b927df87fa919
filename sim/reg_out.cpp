#include "ode_num_int/alg/interfaces/NewtonSolverInterface.h"
#include "ode_num_int/ode/reg/OdeSolverOutputClassesRegistrator.h"
#include "ode_num_int/ode/reg/OdeStepMappingClassesRegistrator.h"
#include "reg.h"
void sim::regOut() {
    static ctm::math::OdeSolverOutputClassesRegistrator<VD> r1; (void)r1;
    static ctm::math::OdeStepMappingClassesRegistrator<VD> r2; (void)r2;
}
