// C23: a Newton solver put together in any order works as one built anew
#include "newt.h"
#include "ode_num_int/alg/SimpleNewtonLinearSearch.h"
#include "ode_num_int/ode/interfaces/OdeSolver.h"
#include "ode_num_int/ode/interfaces/OdeNewtonSolver.h"
#include <algorithm>
namespace sim {

namespace {
typedef NewtonIterationPerformer<VD> Itp; typedef NewtonDescentDirection<VD> Dd; typedef JacobianProvider<VD> Jp; typedef JacobianTrimmer<VD> Jt;
typedef NewtonLinearSearch<VD> Ls; typedef ErrorEstimator<VD> Ee; typedef NewtonRegularizationStrategy<VD> Rs; typedef VectorMapping<VD> Vm;

// Regularization strategy that tells how many times it has been asked, and what it has been connected to
class WiredReg : public Rs, public ctm::FactoryMixin<WiredReg, Rs> {
public:
    unsigned again = 0; int asked = 0, left = 0;
    const Ee* err = nullptr; const Dd* dd = nullptr; bool wrong = false;      // what the solver uses
    double regularizationParameter() const { return 0; }
    void setRegularizationParameter(double) {}
    bool adjustRegularizationParameter() { ++asked; if (this->errorEstimator().get() != err || this->newtonDescentDirection().get() != dd) wrong = true; if (left > 0) { --left; return true; } return false; }
    Parameters parameters() const { Parameters r; r["again"] = again; return r; }
    void setParameters(const Parameters& p) { ctm::OptionalParameters::maybeLoadParameter(p, "again", again); }
};

struct Comp { std::string type; Parameters par; };
std::string text(const Parameters& p) { std::string r; for (auto& kv : p) { r += (r.empty() ? "" : " ") + kv.first + "=" + std::string(kv.second); if (auto n = const_cast<ctm::OptionalParameters::Value&>(kv.second).nestedParameters()) if (!n->empty()) r += "(" + text(*n) + ")"; } return r; }

// What the solver is expected to consist of
struct Slots {
    Comp d{"simple", {}}, j{"default", {}}, t, e{"simple", {}}, r, l{"simple", {}}, i{"default", {}}; unsigned truncs = 10, maxIter = 100;
    std::string str() const { return d.type + (d.par.empty() ? "" : "(" + text(d.par) + ")") + "/" + j.type + "/" + t.type + (t.par.empty() ? "" : "(" + text(t.par) + ")") + " err(" + text(e.par) + ")" + (r.type.empty() ? "" : " reg(" + text(r.par) + ")") + fmt(" truncations=%u limit=%u", truncs, maxIter); }
};

template<class I> std::shared_ptr<I> make(const Comp& c) { auto r = Factory<I>::newInstance(c.type); if (auto op = dynamic_cast<ctm::OptionalParameters*>(r.get())) op->setParameters(c.par); return r; }
std::shared_ptr<Ls> makeLs(unsigned truncs) { auto r = std::make_shared<SimpleNewtonLinearSearch<VD>>(); r->setMaxStepTruncations(truncs); return r; }

Comp drawD(Sim& s) { Comp c{s.pick({"simple", "broyden", "fake-broyden", "lazy-fake-broyden", "hart", "const"}), {}}; if (c.type == "lazy-fake-broyden") c.par["lazy_iterations"] = s.draw(4); return c; }
Comp drawJ(Sim& s) { return Comp{s.pick({"default", "sparse"}), {}}; }
Comp drawT(Sim& s) { Comp c; switch (s.draw(3)) { case 0: break; case 1: c.type = "width"; c.par["width"] = s.draw(4); break; default: c.type = "threshold"; c.par["threshold"] = s.pick({0.0, 0.1, 0.5}); } return c; }
Comp drawE(Sim& s) { Comp c{"simple", {}}; c.par["abs_tol"] = s.pick({1e-9, 1e-6, 1e-3}); c.par["rel_tol"] = s.pick({1e-6, 1e-3, 10.0}); c.par["rel_max_threshold"] = s.pick({10.0, 0.0, 100.0}); c.par["abs_max_threshold"] = s.pick({1e20, 0.0, 10.0}); return c; }
Comp drawR(Sim& s) { Comp c; if (s.chance(2, 3)) { c.type = "sim_reg"; c.par["again"] = s.draw(3); } return c; }

struct Pieces { std::shared_ptr<Itp> i; std::shared_ptr<Dd> d; std::shared_ptr<Jp> j; std::shared_ptr<Jt> t; std::shared_ptr<Ls> l; std::shared_ptr<Ee> e; std::shared_ptr<Rs> r; };
Pieces pieces(Newton& n) {
    Pieces p; p.i = n.iterationPerformer(); p.r = n.regularizationStrategy();
    if (p.i) { p.d = p.i->newtonDescentDirection(); p.l = p.i->newtonLinearSearch(); p.e = p.i->errorEstimator(); }
    if (p.d) p.j = p.d->jacobianProvider();
    if (p.j) p.t = p.j->jacobianTrimmer();
    return p;
}

// Components of a new solver in the usual order
void assemble(Newton& n, const Slots& w) {
    n.setComponent(make<Dd>(w.d)); n.setComponent(make<Jp>(w.j)); if (!w.t.type.empty()) n.setComponent(make<Jt>(w.t));
    n.setComponent(make<Ee>(w.e)); n.setComponent(makeLs(w.truncs)); if (!w.r.type.empty()) n.setComponent(make<Rs>(w.r)); n.setIterationCountLimit(w.maxIter);
}
void prepareReg(Newton& n) { auto p = pieces(n); if (auto r = std::dynamic_pointer_cast<WiredReg>(p.r)) { r->left = r->again; r->asked = 0; r->wrong = false; r->err = p.e.get(); r->dd = p.d.get(); } }

class Rig {
public:
    Sim& s; Newton* n; Slots w; std::shared_ptr<Vm> map; std::string done;
    Rig(Sim& s_, Newton* n_) : s(s_), n(n_) { readDefaults(); }
    void readDefaults() { w = Slots(); auto p = pieces(*n); w.e.par = p.e->parameters(); w.maxIter = n->iterationCountLimit(); }

    // An operation, interrupted by a failing allocation and repeated
    void op(const char* name, bool faulty, const std::function<void()>& f) {
        done = name; s.ev(name);
        if (faulty) {
            std::string what; alloc.countdown = s.draw(s.chance(1, 2) ? 12 : 120); alloc.fired = false; bool fired;
            auto th = guarded([&] { struct Off { ~Off() { alloc.armed = false; } } off; alloc.armed = true; f(); }, &what);
            fired = alloc.fired; alloc.fired = false;
            s.check(th != Thrown::Lib, "exception", "%s: unexpected exception '%s'", name, what.c_str());
            if (fired) { s.fault("allocation-failure"); s.nontrivial(); s.ev("interrupted, repeated"); s.check(th != Thrown::None, "exception-swallowed", "%s: allocation failure is swallowed", name); }
            if (th == Thrown::None) return;
        }
        std::string what; auto th = guarded(f, &what);
        s.check(th == Thrown::None, "exception", "%s: unexpected exception '%s'", name, what.c_str());
    }

    // a component may have been used in another solver before
    template<class T> std::shared_ptr<T> used(std::shared_ptr<T> x) { if (x && s.chance(1, 4)) { static std::shared_ptr<SimMap> other = std::make_shared<SimMap>(); x->setMapping(other); s.probe("component used elsewhere before"); } return x; }

    void change(bool withMapping, const std::function<std::shared_ptr<Vm>()>& newMapping) {
        bool bad = s.chance(1, 4);
        auto p = pieces(*n);
        switch (s.draw(12)) {
            case 0: { auto c = drawD(s); auto x = used(make<Dd>(c)); w.d = c;
                if (s.chance(1, 3)) { w.j = drawJ(s); w.t = Comp(); auto j = make<Jp>(w.j); if (s.chance(1, 2)) { w.t = drawT(s); if (!w.t.type.empty()) j->setJacobianTrimmer(make<Jt>(w.t)); } x->setJacobianProvider(j); }
                op("setComponent(descent direction)", bad, [&] { n->setComponent(x); }); s.check(pieces(*n).d == x, "component", "descent direction is not the one set"); break; }
            case 1: { w.j = drawJ(s); w.t = Comp(); auto x = used(make<Jp>(w.j)); if (s.chance(1, 3)) { w.t = drawT(s); if (!w.t.type.empty()) x->setJacobianTrimmer(make<Jt>(w.t)); }
                bool direct = s.chance(1, 4);
                op("setComponent(Jacobian provider)", bad, [&] { if (direct) p.d->setJacobianProvider(x); else n->setComponent(x); }); s.check(pieces(*n).j == x, "component", "Jacobian provider is not the one set"); break; }
            case 2: { w.t = drawT(s); std::shared_ptr<Jt> x; if (!w.t.type.empty()) x = used(make<Jt>(w.t));
                op("setComponent(Jacobian trimmer)", bad, [&] { n->setComponent(x); }); s.check(pieces(*n).t == x, "component", "Jacobian trimmer is not the one set"); break; }
            case 3: { w.truncs = s.pick({10, 3, 1}); std::shared_ptr<Ls> x = used(makeLs(w.truncs));
                op("setComponent(line search)", bad, [&] { n->setComponent(x); }); s.check(pieces(*n).l == x, "component", "line search is not the one set"); break; }
            case 4: { w.e = drawE(s); auto x = make<Ee>(w.e);
                op("setComponent(error estimator)", bad, [&] { n->setComponent(x); }); s.check(pieces(*n).e == x, "component", "error estimator is not the one set"); break; }
            case 5: { w.r = drawR(s); std::shared_ptr<Rs> x; if (!w.r.type.empty()) x = make<Rs>(w.r);
                op("setComponent(regularization strategy)", bad, [&] { n->setComponent(x); }); s.check(pieces(*n).r == x, "component", "regularization strategy is not the one set"); break; }
            case 6: { auto x = Factory<Itp>::newInstance("default");       // with some components of its own, or without
                if (s.chance(1, 3)) { w.e = drawE(s); x->setErrorEstimator(make<Ee>(w.e)); }
                if (s.chance(1, 3)) { w.d = drawD(s); auto d = used(make<Dd>(w.d)); if (s.chance(1, 2)) { w.j = drawJ(s); w.t = Comp(); d->setJacobianProvider(make<Jp>(w.j)); } x->setNewtonDescentDirection(d); }
                if (s.chance(1, 3)) { w.truncs = s.pick({10, 3, 1}); x->setNewtonLinearSearch(used(makeLs(w.truncs))); }
                op("setComponent(iteration performer)", bad, [&] { n->setComponent(x); }); s.check(pieces(*n).i == x, "component", "iteration performer is not the one set"); break; }
            case 7: { w.maxIter = s.pick({100u, 20u, 5u}); op("setIterationCountLimit", false, [&] { n->setIterationCountLimit(w.maxIter); }); break; }
            case 8: if (withMapping) { map = newMapping(); op("setComponent(mapping)", bad, [&] { n->setComponent(map); }); break; }   // else fall through
            // fall through
            case 9: case 10: {      // several parameters at once
                Parameters q; Slots o = w;
                if (s.chance(1, 3)) { Comp c = drawD(s); q["ddir"] = ctm::OptionalParameters::Value(make<Dd>(c)); w.d = c; }
                if (s.chance(1, 3)) { w.j = drawJ(s); q["jacobian"] = w.j.type; w.t = Comp(); }
                if (s.chance(1, 3)) { w.t = drawT(s); std::shared_ptr<Jt> x; if (!w.t.type.empty()) x = make<Jt>(w.t); q["jtrim"] = ctm::OptionalParameters::Value(x); }
                if (s.chance(1, 3)) { w.truncs = 10; q["linsearch"] = "simple"; }
                if (s.chance(1, 3)) { w.e = drawE(s); q["err"] = ctm::OptionalParameters::Value(make<Ee>(w.e)); }
                if (s.chance(1, 3)) { w.r = drawR(s); std::shared_ptr<Rs> x; if (!w.r.type.empty()) x = make<Rs>(w.r); q["regularizer"] = ctm::OptionalParameters::Value(x); }
                if (s.chance(1, 4)) q["itperf"] = "default";
                if (s.chance(1, 4)) { w.maxIter = s.pick({100u, 20u, 5u}); q["max_iterations"] = w.maxIter; }
                op("setParameters", bad, [&] { n->setParameters(q); }); s.probe("several parameters"); break; }
            default: { Parameters q = n->parameters(); w.truncs = 10; op("setParameters(parameters())", bad, [&] { n->setParameters(q); }); s.probe("own parameters"); }
        }
        verify();
    }

    void verify() {
        auto p = pieces(*n); auto name = done.c_str();
        s.check(p.i && p.d && p.j && p.l && p.e && !w.t.type.empty() == !!p.t && !w.r.type.empty() == !!p.r, "component", "%s: a component is missing, or there is one too many", name);
        if (map) {
            s.check(p.i->mapping() == map && p.d->mapping() == map && p.l->mapping() == map, "mapping", "%s: mapping of the iteration performer, descent direction or line search is not the one set", name);
            s.check(p.j->mapping() == map && (!p.t || p.t->mapping() == map), "mapping", "%s: mapping of the Jacobian provider or of the trimmer is not the one set", name);
        }
        if (p.r) s.check(p.r->errorEstimator() == p.e && p.r->newtonDescentDirection() == p.d, "regularizer", "%s: regularization strategy refers to another %s", name, p.r->errorEstimator() != p.e ? "error estimator" : "descent direction");
        // and so do parameters
        Parameters q, ex; auto th = guarded([&] { q = n->parameters(); });
        s.check(th == Thrown::None, "exception", "%s: parameters() throws", name);
        auto put = [&](const char* k, const Comp& c) { std::string got = q.count(k) ? std::string(q[k]) : "?"; s.check(q.count(k) && got == c.type, "parameters", "%s: parameter %s is '%s', it should be '%s'", name, k, got.c_str(), c.type.c_str());
            if (c.type.empty()) return; Parameters* np = q[k].nestedParameters(); for (auto& kv : c.par) { std::string v = np && np->count(kv.first) ? std::string((*np)[kv.first]) : "?"; s.check(v == std::string(kv.second), "parameters", "%s: parameter %s.%s is '%s', it should be '%s'", name, k, kv.first.c_str(), v.c_str(), std::string(kv.second).c_str()); } };
        put("ddir", w.d); put("jacobian", w.j); put("jtrim", w.t); put("linsearch", w.l); put("err", w.e); put("regularizer", w.r); put("itperf", w.i);
        s.check(unsigned(q["max_iterations"]) == w.maxIter && n->iterationCountLimit() == w.maxIter, "parameters", "%s: limit of iterations is %u, it should be %u", name, n->iterationCountLimit(), w.maxIter);
        auto h = n->helpOnParameters();
        for (auto& kv : q) s.check(h.count(kv.first) && !std::string(h[kv.first]).empty(), "help", "%s: no help on parameter %s", name, kv.first.c_str());
        auto ls = std::dynamic_pointer_cast<SimpleNewtonLinearSearch<VD>>(p.l); s.check(ls && ls->maxStepTruncations() == w.truncs, "parameters", "%s: line search has another limit", name);
    }
};

struct Out { int status = -1; Thrown thrown = Thrown::None; std::string what; std::vector<std::vector<double>> its; std::vector<double> x; long calls = 0; int asked = 0; };
Out run(Newton& n, SimMap& m, const std::vector<double>& x0) {
    Out o; prepareReg(n);
    int id = n.iterationObservers.add([&](unsigned, const Newton*) { S->tick(); o.its.push_back(vec(n.currentSolution())); return false; });
    o.thrown = guarded([&] { n.setInitialGuess(toV(x0), true); o.status = n.run(); }, &o.what);
    n.iterationObservers.remove(id);
    if (o.thrown == Thrown::None) o.x = vec(n.currentSolution());
    o.calls = m.calls; if (auto r = std::dynamic_pointer_cast<WiredReg>(n.regularizationStrategy())) o.asked = r->asked;
    return o;
}
bool sameOut(const Out& a, const Out& b) {
    bool eq = a.status == b.status && a.thrown == b.thrown && a.its.size() == b.its.size() && same(a.x, b.x) && a.calls == b.calls && a.asked == b.asked;
    for (size_t i = 0; eq && i < a.its.size(); ++i) eq = same(a.its[i], b.its[i]);
    return eq;
}

void regOnce() { static WiredReg::Registrator r("sim_reg"); }

void algebraic(Sim& s) {
    auto n = Factory<Newton>::newInstance("newton");
    Rig rig(s, n.get()); std::shared_ptr<SimMap> map; std::vector<std::shared_ptr<void>> kept;
    auto newMapping = [&]() -> std::shared_ptr<Vm> { map = std::make_shared<SimMap>(); map->sp = MapSpec::draw(s); map->arm(-1, -1, 0); return map; };
    auto solve = [&] {
        std::vector<double> x0(map->sp.n); for (auto& v : x0) v = s.pick({0.0, 1.0, -0.5, 2.0, 0.1, -3.0});
        long ta = -1, na = -1, nc = 0; if (s.chance(1, 5)) ta = s.draw(12); else if (s.chance(1, 5)) { na = s.draw(20); nc = s.range(1, 6); }
        map->arm(ta, na, nc); auto a = run(*n, *map, x0);
        auto m2 = std::make_shared<SimMap>(); m2->sp = map->sp; m2->arm(ta, na, nc);
        auto n2 = Factory<Newton>::newInstance("newton"); n2->setComponent(std::static_pointer_cast<Vm>(m2)); assemble(*n2, rig.w);
        auto b = run(*n2, *m2, x0);
        if (auto r = std::dynamic_pointer_cast<WiredReg>(n->regularizationStrategy())) { s.check(!r->wrong, "regularizer", "regularization strategy refers to components that are not used any more"); if (r->asked) s.probe("regularization strategy asked"); }
        s.check(sameOut(a, b), "differs", "%s (last change: %s): %u iterations, %ld evaluations, outcome %d, solution %s; a solver built anew makes %u iterations, %ld evaluations, has outcome %d and solution %s", rig.w.str().c_str(), rig.done.c_str(),
            (unsigned)a.its.size(), a.calls, a.status, str(a.x).c_str(), (unsigned)b.its.size(), b.calls, b.status, str(b.x).c_str());
        s.ev("solve", {double(a.status), double(a.calls)});
        if (a.status == Newton::Converged) s.probe("converged");
        s.nontrivial();
    };
    int N = s.range(2, 10);
    for (int k = 0; k < N; ++k) {
        if (s.chance(1, 5)) { auto p = pieces(*n); kept.push_back(p.d); kept.push_back(p.i); }       // the user keeps replaced components
        rig.change(true, newMapping);
        if (map && s.chance(1, 3)) solve();
    }
    if (!map) { auto m = newMapping(); rig.map = m; rig.op("setComponent(mapping)", false, [&] { n->setComponent(m); }); rig.verify(); }
    solve();
}

// The Newton solver of the implicit Euler solver
void implicitEuler(Sim& s) {
    SolverSpec sp; sp.id = "i_euler"; sp.h = 0.125; RhsSpec rs = RhsSpec::draw(s, false);
    World w; w.build(sp, rs);
    auto holder = dynamic_cast<NewtonSolverHolder<VD>*>(w.solver.get()); auto n = holder->newtonSolver();
    unsigned iters = 0; int jac = 0, depth = 0;
    w.solver->iterationObservers.add([&](unsigned i, const Newton* who) { s.check(who == holder->newtonSolver().get(), "iteration-notifications", "an iteration of a solver replaced is notified"); s.check(i == iters, "iteration-notifications", "iteration %u is notified as %u", iters, i); ++iters; return false; });
    w.solver->jacobianRefreshObservers.add([&](bool start) { depth += start ? 1 : -1; ++jac; s.check(depth == 0 || depth == 1, "jacobian-notifications", "notification of %s of a Jacobian refresh, level %d", start ? "start" : "end", depth); });
    std::unique_ptr<Rig> rig(new Rig(s, n.get())); rig->map = n->iterationPerformer()->mapping(); auto own = rig->map;
    { Slots x; x.d.type = sp.ddir; rig->w.d = x.d; rig->w.e.par = n->iterationPerformer()->errorEstimator()->parameters(); }
    std::vector<std::shared_ptr<Newton>> old; std::vector<std::shared_ptr<void>> kept; double alpha = 1;
    int N = s.range(1, 7);
    for (int k = 0; k < N; ++k) {
        switch (s.draw(6)) {
            case 0: rig->op("setNewtonSolver(the same)", s.chance(1, 4), [&] { holder->setNewtonSolver(n); }); rig->verify(); break;
            case 1: { auto m = Factory<Newton>::newInstance("newton"); rig->op("setNewtonSolver", s.chance(1, 4), [&] { holder->setNewtonSolver(m); }); old.push_back(n); n = m; std::string d = rig->done; rig.reset(new Rig(s, n.get())); rig->map = own; rig->done = d; rig->verify(); break; }
            case 2: { auto d = n->iterationPerformer()->newtonDescentDirection(); rig->op("setComponent(the same descent direction)", s.chance(1, 4), [&] { n->setComponent(d); }); rig->verify(); break; }
            default: { if (s.chance(1, 4)) { auto p = pieces(*n); kept.push_back(p.d); kept.push_back(p.i); } rig->change(false, nullptr); }
        }
        if (!s.chance(1, 2) && k + 1 < N) continue;
        // steps of the solver and of one built anew
        auto& x = rig->w; auto x0 = rs.drawState(s); double t0 = s.pick({0.0, 1.0});
        World v; v.build(sp, rs); auto h2 = dynamic_cast<NewtonSolverHolder<VD>*>(v.solver.get()); auto n2 = Factory<Newton>::newInstance("newton"); assemble(*n2, x); h2->setNewtonSolver(n2);
        w.solver->setInitialState(t0, x0); v.solver->setInitialState(t0, x0);
        unsigned iters2 = 0; v.solver->iterationObservers.add([&](unsigned, const Newton*) { ++iters2; return false; });
        unsigned srcJac = 0; auto dd = n->iterationPerformer()->newtonDescentDirection(); int idj = dd->jacobianRefreshObservers.add([&](bool) { ++srcJac; });
        int steps = s.range(1, 4); Thrown th = Thrown::None; jac = 0;
        for (int i = 0; i < steps && th == Thrown::None; ++i) {
            iters = 0; iters2 = 0; std::string what, what2;
            prepareReg(*n); prepareReg(*n2);
            th = guarded([&] { w.solver->doStep(); }, &what); auto th2 = guarded([&] { v.solver->doStep(); }, &what2);
            s.check(th == th2, "differs", "%s (last change: %s): step ends with '%s', that of a solver built anew with '%s'", x.str().c_str(), rig->done.c_str(), what.c_str(), what2.c_str());
            s.check(iters == iters2, "iteration-notifications", "%s (last change: %s): %u Newton iterations are notified, %u by a solver built anew", x.str().c_str(), rig->done.c_str(), iters, iters2);
            s.check(same(w.x(), v.x()) && w.t() == v.t(), "differs", "%s (last change: %s): step leads to %s, that of a solver built anew to %s", x.str().c_str(), rig->done.c_str(), str(w.x()).c_str(), str(v.x()).c_str());
            s.ev("step", {w.t(), double(iters)});
            if (iters) s.nontrivial();
        }
        dd->jacobianRefreshObservers.remove(idj);
        if (th == Thrown::None) s.check((unsigned)jac == srcJac && depth == 0, "jacobian-notifications", "last change: %s: %u notifications of Jacobian refresh made, %d received", rig->done.c_str(), srcJac, jac);
        else { depth = 0; s.probe("step fails"); }
        (void)alpha;
    }
    // a Newton solver that has been replaced does not notify any more, nor does one whose ODE solver is gone
    old.push_back(n); bool gone = s.chance(1, 2); unsigned before = iters; int jb = jac;
    auto use = [&](Newton& m) { auto mp = std::make_shared<SimMap>(); mp->sp = MapSpec::draw(s, 1); mp->arm(-1, -1, 0); m.setComponent(std::static_pointer_cast<Vm>(mp)); run(m, *mp, std::vector<double>(mp->sp.n, 0.5)); };
    if (gone) { holder = nullptr; w.solver.reset(); s.probe("ODE solver is gone"); for (auto& m : old) use(*m); }
    else for (auto& m : old) if (m != n) { use(*m); s.probe("Newton solver replaced is used"); s.check(iters == before && jac == jb, "notified-by-replaced", "a Newton solver that has been replaced notifies observers of the ODE solver"); }
}
}

static void regC23() { registerAll(); regOnce(); }
SCENARIO(C23, regC23) {
    Sim& s = S_;
    if (s.chance(1, 3)) implicitEuler(s); else algebraic(s);
}

}
