#pragma once
#include "ode_num_int/la/VectorTemplate.h"
namespace ctm { namespace math { template< class VD > class OdeSolver; template< class VD > class NewtonSolverInterface; template< class VD > class OdeEventController; } }
namespace sim {
typedef ctm::math::VectorData<double> VD;
typedef ctm::math::VectorTemplate<VD> V;
// Registration of the classes of the library, through its own registrators (split to build in parallel)
void regAlg();
void regOde();
void regCom();
void regOut();
void regReorder();        // reorderings of variables (test doubles: the library has none)
}
namespace sim {
void reorder(ctm::math::OdeSolver<VD>& implicitEuler, unsigned kind);
// Components with a history of their own that may be put back: reference solver of an extrapolator, Newton solver of an implicit solver
struct Parts { std::shared_ptr<ctm::math::OdeSolver<VD>> reference; std::shared_ptr<ctm::math::NewtonSolverInterface<VD>> newton; std::shared_ptr<ctm::math::OdeEventController<VD>> events; };
Parts parts(ctm::math::OdeSolver<VD>& s);
void setParts(ctm::math::OdeSolver<VD>& s, const Parts& p);
}
