#include "ode_num_int/ode/reg/OdeEventControllerClassesRegistrator.h"
#include "ode_num_int/ode/reg/OdeSolverCommonClassesRegistrator.h"
#include "ode_num_int/ode/reg/OdeTestModelClassesRegistrator.h"
#include "reg.h"
void sim::regCom() {
    static ctm::math::OdeEventControllerClassesRegistrator<VD> r1; (void)r1;
    static ctm::math::OdeSolverCommonClassesRegistrator<VD> r2; (void)r2;
    static ctm::testmodels::OdeTestModelClassesRegistrator<VD> r3; (void)r3;
}
