#include "ode_num_int/ode/reg/OdeSolverClassesRegistrator.h"
#include "reg.h"
void sim::regOde() { static ctm::math::OdeSolverClassesRegistrator<VD> r; (void)r; }
namespace {
using sim::VD;
// Reordering of the variables of the implicit solver; kind 1: reversed, 2: rotated by one
struct SimReorder : public ctm::math::VectorReorderingMapping<VD> {
    unsigned kind; explicit SimReorder(unsigned k) : kind(k) {}
    unsigned done = ~0u;
    void maybeInit() {
        unsigned n = this->mapping()->inputSize();
        if (n == done) return;
        std::vector<unsigned> o(n);
        for (unsigned i = 0; i < n; ++i) o[i] = kind == 1 ? n - 1 - i : (i + 1) % n;
        this->setInputOrdering(o); this->setOutputOrdering(o); done = n;
    }
};
struct SimReversed : public SimReorder, public ctm::FactoryMixin<SimReversed, ctm::math::VectorReorderingMapping<VD>> { SimReversed() : SimReorder(1) {} };
struct SimRotated : public SimReorder, public ctm::FactoryMixin<SimRotated, ctm::math::VectorReorderingMapping<VD>> { SimRotated() : SimReorder(2) {} };
}
void sim::regReorder() { static SimReversed::Registrator r1("sim_reversed"); static SimRotated::Registrator r2("sim_rotated"); }
void sim::reorder(ctm::math::OdeSolver<VD>& s, unsigned kind) {
    auto& ie = dynamic_cast<ctm::math::OdeSolverImplicitEuler<VD>&>(s);
    ie.setReorder(kind ? std::make_shared<SimReorder>(kind) : std::shared_ptr<ctm::math::VectorReorderingMapping<VD>>());
}

sim::Parts sim::parts(ctm::math::OdeSolver<VD>& s) {
    Parts p;
    if (auto e = dynamic_cast<ctm::math::OdeSolverExtrapolator<VD>*>(&s)) p.reference = e->referenceSolver();
    if (auto e = dynamic_cast<ctm::math::OdeNewtonSolver<VD>*>(&s)) p.newton = e->newtonSolver();
    if (auto e = dynamic_cast<ctm::math::OdeSolverEventController<VD>*>(&s)) p.events = e->eventController();
    return p;
}
void sim::setParts(ctm::math::OdeSolver<VD>& s, const Parts& p) {
    if (auto e = dynamic_cast<ctm::math::OdeSolverExtrapolator<VD>*>(&s)) e->setReferenceSolver(p.reference);
    if (auto e = dynamic_cast<ctm::math::OdeNewtonSolver<VD>*>(&s)) e->setNewtonSolver(p.newton);
    if (auto e = dynamic_cast<ctm::math::OdeSolverEventController<VD>*>(&s)) e->setEventController(p.events);
}
