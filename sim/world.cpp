#include "world.h"
#include "ode_num_int/alg/interfaces/NewtonSolverInterface.h"
#include "ode_num_int/ode/interfaces/ExtrapolatorStepSequence.h"
#include <algorithm>

namespace sim {

using namespace ctm::math;
using ctm::Factory;

const char* const pointName[P_COUNT] = { "rhs", "zero-functions", "switch", "before-step", "before-step-2", "truncate-step",
    "error-norm", "step-size-control", "pre-step-observer", "post-step-observer", "rhs-pre-observer", "rhs-post-observer",
    "jacobian-observer", "newton-observer" };

void registerAll() { regAlg(); regOde(); regCom(); }

static const char* const throwKind[P_COUNT] = { "throw:rhs", "throw:zero-functions", "throw:switch", "throw:before-step", "throw:before-step-2", "throw:truncate-step",
    "throw:error-norm", "throw:step-size-control", "throw:pre-step-observer", "throw:post-step-observer", "throw:rhs-pre-observer", "throw:rhs-post-observer",
    "throw:jacobian-observer", "throw:newton-observer" };

static void throwFault(Ctx& c, Point p) {
    c.fired = true; c.firedAt = p; c.armed = -1;
    S->fault(throwKind[p]);
    S->ev(throwKind[p]);
    switch (c.flavor) {
        case 1: throw SimFaultOther{int(p)};
        case 2: throw std::bad_alloc();
        default: throw SimFault(std::string("simulated failure in ") + pointName[p]);
    }
}

void Ctx::point(Point p) {
    AllocGuard g;
    S->tick(); ++calls[p];
    if (yield) yield(p);
    if (onPoint) onPoint(p);
    if (armed >= 0 && counter++ == armed) throwFault(*this, p);
}

bool Ctx::iterPoint() {
    AllocGuard g;
    S->tick(); ++calls[P_ITER];
    if (yield) yield(P_ITER);
    if (onPoint) onPoint(P_ITER);
    if (armed >= 0 && counter++ == armed) {
        if (terminateNewton) { fired = true; firedAt = P_ITER; armed = -1; S->fault("newton-terminated"); S->ev("terminate"); return true; }
        throwFault(*this, P_ITER);
    }
    return false;
}

std::vector<double> vec(const V& v) { return std::vector<double>(v.begin(), v.end()); }
bool same(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!sameBits(a[i], b[i])) return false;
    return true;
}
double maxDiff(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return INFINITY;
    double r = 0;
    for (size_t i = 0; i < a.size(); ++i) { if (sameBits(a[i], b[i])) continue; double d = std::fabs(a[i] - b[i]); if (!(d <= r)) r = d != d ? INFINITY : d; }
    return r;
}
bool finite(const std::vector<double>& a) { for (double d : a) if (!std::isfinite(d)) return false; return true; }
std::string str(const std::vector<double>& a) {
    std::string r = "["; for (size_t i = 0; i < a.size(); ++i) r += fmt("%s%.17g", i ? " " : "", a[i]); return r + "]";
}

Thrown guarded(const std::function<void()>& f, std::string* what) {
    try { f(); return Thrown::None; }
    catch (const SimFault& e) { if (what) *what = e.what(); return Thrown::Sim; }
    catch (const SimFaultOther&) { if (what) *what = "other"; return Thrown::Sim; }
    catch (const Violation&) { throw; }
    catch (const Discard&) { throw; }
    catch (const std::bad_alloc& e) { if (what) *what = e.what(); return Thrown::Sim; }
    catch (const std::exception& e) { if (what) *what = e.what(); return Thrown::Lib; }
}

// ---------------------------------------------------------------- simulated system

RhsSpec SimRhs::newSpec; Ctx* SimRhs::newCx = nullptr;

RhsSpec RhsSpec::draw(Sim& s, bool events, unsigned max2, unsigned max1, bool) {
    RhsSpec r;
    r.n2 = s.draw(max2 + 1);
    unsigned nz1 = s.draw(max1 + 1);
    unsigned nzf = events ? s.draw(4) : 0;
    r.phase = nzf > 0;
    if (r.n2 + nz1 == 0) nz1 = 1;
    r.n1 = nz1 + (r.phase ? 1 : 0);
    for (unsigned i = 0; i < r.n2; ++i) {
        r.k.push_back(s.pick({1.0, 0.5, 4.0, 2.25}));
        r.c.push_back(s.pick({0.5, 1.0, 0.25}));
    }
    for (unsigned i = 0; i < nz1; ++i) r.l.push_back(s.pick({1.0, 0.5, 2.0, 3.5}));
    for (unsigned i = 0; i < r.n2 + nz1; ++i) {
        r.F.push_back(s.pick({0.0, 1.0, -0.5, 2.0}));
        r.cpl.push_back(s.pick({0.0, 0.25, -0.125, 0.5}));
    }
    r.nl = s.pick({0.0, 0.1, 0.25});
    r.forcing = s.pick({0.0, 1.0, 0.5});
    r.omega = s.pick({1.0, 2.5, 0.3});
    unsigned nv = r.n2 + nz1;   // variables usable by zero functions: x (second order) and z
    for (unsigned i = 0; i < nzf; ++i) {
        Zf z;
        unsigned v = s.draw(nv);
        z.idx = v < r.n2 ? v : r.n2 + v;
        z.level = s.pick({0.0, 0.25, -0.25, 0.5, 0.1});
        z.scale = s.pick({1.0, 3.0, 0.01, -1.0});
        unsigned kind = s.draw(4);
        z.flags = kind == 0 ? 3u : kind == 1 ? 7u : kind == 2 ? 5u : 6u;   // both, both+recompute, PlusMinus+recompute, MinusPlus+recompute
        r.zf.push_back(z);
    }
    if (events && nzf == 0 && s.chance(1, 2)) r.truncPeriod = s.pick({0.3, 0.171875, 0.7});
    return r;
}

bool SimRhs::truncateStep(double& t, V& x) const {
    if (!cx) return false;
    cx->point(P_TRUNC);
    if (!(spec.truncPeriod > 0) || !(cx->stepStart == cx->stepStart)) return false;
    double b = (std::floor(cx->stepStart / spec.truncPeriod + 1e-6) + 1) * spec.truncPeriod;
    if (t < b + 1e-7) return false;
    t = b; x[0] *= 0.75;
    AllocGuard g; S->probe("step truncated by the system");
    return true;
}

V RhsSpec::drawState(Sim& s) const {
    V x(n());
    for (unsigned i = 0; i < n(); ++i) x[i] = s.pick({1.0, -1.0, 0.5, 0.0, 2.0, -0.75, 0.3125});
    if (phase) x[n() - 1] = s.pick({1.0, -1.0});
    return x;
}

void SimRhs::compute(V& dst, double t, const V& x) const {
    auto& r = spec;
    unsigned n2 = r.n2, nz1 = r.l.size(), n = r.n();
    dst.resize(n);
    double p = r.phase ? x[n-1] : 1.0;
    double f = r.forcing * std::cos(r.omega * t);
    for (unsigned i = 0; i < n2; ++i) {
        dst[i] = x[n2 + i];
        double nb = x[(i + 1) % n2];
        double z = nz1 ? x[2*n2 + i % nz1] : 0;
        dst[n2 + i] = -r.k[i]*x[i] - r.c[i]*x[n2+i] + r.cpl[i]*(nb - x[i]) + 0.25*r.cpl[i]*z + r.F[i]*p*0.5 + f + r.nl*std::sin(x[i]);
    }
    for (unsigned i = 0; i < nz1; ++i) {
        double nb = x[2*n2 + (i + 1) % nz1];
        double xx = n2 ? x[i % n2] + 0.5*x[n2 + i % n2] : 0;
        dst[2*n2 + i] = -r.l[i]*x[2*n2+i] + r.cpl[n2+i]*(nb + xx) + r.F[n2+i]*p + f + r.nl*std::sin(x[2*n2+i]);
    }
    if (r.phase) dst[n-1] = 0;
}

void SimRhs::rhs(V& dst, double t, const V& x) const {
    if (x.size() != spec.n()) S->fail("rhs-argument-size", "ODE right hand side called with a state of size %u, expected %u", (unsigned)x.size(), spec.n());
    if (cx) cx->point(P_RHS);
    this->odeRhsPreObservers(t, x, this);
    compute(dst, t, x);
    if (cx && cx->nanAt >= 0 && cx->rhsCounter++ == cx->nanAt) {
        AllocGuard g; S->fault(cx->nanValue != cx->nanValue ? "rhs-nan" : "rhs-inf"); cx->nanFired = true;
        for (unsigned i = 0; i < dst.size(); ++i) dst[i] = cx->nanValue;
    }
    if (spec.box < INFINITY) {
        bool out = false;
        for (unsigned i = 0; i < x.size(); ++i) if (!(std::fabs(x[i]) <= spec.box)) out = true;
        if (out) { AllocGuard g; S->fault("rhs-outside-domain"); for (unsigned i = 0; i < dst.size(); ++i) dst[i] = NAN; }
    }
    this->odeRhsPostObservers(t, x, dst, this);
}

void SimRhs::zeroFunctions(V& dst, double t, const V& x) const {
    if (cx) cx->point(P_ZF);
    dst.resize(spec.zf.size());
    for (unsigned i = 0; i < spec.zf.size(); ++i) dst[i] = spec.zf[i].scale * (x[spec.zf[i].idx] - spec.zf[i].level);
    if (cx) for (unsigned i = 0; i < spec.zf.size(); ++i) cx->minZf = std::fmin(cx->minZf, std::fabs(x[spec.zf[i].idx] - spec.zf[i].level));
    (void)t;
}

void SimRhs::switchPhaseState(const int* tr, double, V& x) {
    if (cx) cx->point(P_SWITCH);
    for (unsigned i = 0; i < spec.zf.size(); ++i) if (tr[i]) {
        auto& z = spec.zf[i];
        x[x.size()-1] = tr[i] > 0 ? 1 : -1;
        double dir = (z.flags & 3) == 1 ? 1 : (z.flags & 3) == 2 ? -1 : 0;   // where to go back to
        if (dir != 0) {
            if (z.scale < 0) dir = -dir;
            if (z.idx < spec.n2) { x[z.idx] = z.level + dir*0.0625; x[spec.n2 + z.idx] = dir * 0.5 * std::fabs(x[spec.n2 + z.idx]); }
            else x[z.idx] = z.level + dir*0.25;
        }
    }
}

// ---------------------------------------------------------------- solvers

int SolverSpec::lowOrder() const {
    if (id == "dopri_45") return 4;
    if (id == "dopri_56") return 5;
    if (id == "dopri_78") return 7;
    if (id == "rosenbrock_sw2_4") return 2;
    if (id == "extrapolator") {
        int hi = ref->mode == "high";
        int o = ref->id == "rk4" ? 4 : ref->id == "gragg" || ref->id == "rosenbrock_sw2_4" ? 2 :
            ref->id == "dopri_45" ? 4 + hi : ref->id == "dopri_56" ? 5 + hi : ref->id == "dopri_78" ? 7 + hi : 1;
        return o + (stages - 2) * (symmetric ? 2 : 1);
    }
    return 1;
}

bool SolverSpec::exact() const {
    if (id == "i_euler") {
        if (ddir != "simple" || jac != "default") return false;
        return !pred || pred->exact();
    }
    if (id == "extrapolator") return ref->exact();
    return true;
}

std::string SolverSpec::str() const {
    std::string r = id + fmt(" h=%g", h);
    if (hmin != 1e-16) r += fmt(" hmin=%g", hmin);
    if (adaptive()) r += fmt(" noerr=%d tol=%g", noErr, tol);
    if (id.compare(0, 5, "dopri") == 0) r += " mode=" + mode + fmt(" force=%d has=%g", forceErr, hAfterSwitch);
    if (id.compare(0, 5, "rosen") == 0) r += fmt(" d=%g", d);
    if (id == "gragg") r += fmt(" smooth=%d", smooth);
    if (id == "extrapolator") r += fmt(" stages=%d seq=%s sym=%d ref=(%s)", stages, seq.c_str(), symmetric, ref->str().c_str());
    if (id == "i_euler") {
        r += fmt(" alpha=%g ddir=%s jac=%s", alpha, ddir.c_str(), jac.c_str());
        if (!jtrim.empty()) r += " jtrim=" + jtrim;
        if (reorder) r += fmt(" reorder=%u", reorder);
        if (pred) r += fmt(" pred=%dx(%s)", predSteps, pred->str().c_str());
    }
    return r;
}

SolverSpec SolverSpec::draw(Sim& s, unsigned mask, int depth) {
    SolverSpec r;
    std::vector<std::string> ids;
    if (mask & Explicit) {
        if (mask & Fixed) { ids.push_back("rk4"); ids.push_back("euler"); ids.push_back("gragg"); }
        if (mask & Adaptive) { ids.push_back("dopri_45"); ids.push_back("dopri_56"); ids.push_back("dopri_78"); if (depth == 0 && !(mask & NoExtrapolator)) ids.push_back("extrapolator"); }
    }
    if (mask & Implicit) {
        if (mask & Fixed) { ids.push_back("i_euler"); ids.push_back("rosenbrock_w1"); }
        if (mask & Adaptive) ids.push_back("rosenbrock_sw2_4");
    }
    r.id = s.pickv(ids);
    r.h = s.pick({0.125, 0.05, 0.3, 0.01, 0.5});
    r.mode = s.chance(1, 2) ? "high" : "low";
    r.noErr = r.adaptive() && s.chance(1, 6);
    r.forceErr = r.noErr && s.chance(1, 2);
    r.hAfterSwitch = s.pick({0.0, 0.02, 0.0, 0.1});
    r.d = s.pick({0.5, 1.0, 0.29, 0.75});
    r.smooth = s.chance(1, 3);
    r.tol = s.pick({1e-4, 1e-2, 1e-6});
    if (r.id == "extrapolator") {
        r.stages = s.range(2, 4);
        r.seq = s.pick({"harmonic", "romberg", "bulirsch"});
        r.ref = std::make_shared<SolverSpec>(draw(s, (mask & NoQuasi) | Explicit | Implicit | Fixed, 1));
        if (s.chance(1, 6)) { *r.ref = draw(s, NoQuasi | Explicit | Adaptive | NoExtrapolator, 1); }
        r.ref->noErr = true;
        r.symmetric = r.ref->id == "gragg" || s.chance(1, 5);
    }
    if (r.id == "i_euler") {
        r.alpha = s.pick({1.0, 0.5, 0.75});
        if (depth == 0 && s.chance(1, 4)) r.reorder = s.range(1, 2);
        if (depth == 0 && s.chance(1, 3)) {
            r.pred = std::make_shared<SolverSpec>(draw(s, Explicit | Fixed, 1));
            r.predSteps = s.range(1, 2);
        }
        if (!(mask & NoQuasi)) {
            r.ddir = s.pick({"simple", "broyden", "fake-broyden", "lazy-fake-broyden", "hart", "const"});
            r.jac = s.pick({"default", "sparse"});
            r.lazy = s.pick({2u, 0u, 10u, 1u});
        }
    }
    return r;
}

Parameters solverParams(const SolverSpec& sp) {
    Parameters p;
    p["h_init"] = sp.h;
    p["h_min"] = sp.hmin;
    if (sp.adaptive()) {
        p["disable_error_check"] = sp.noErr;
        auto ctl = Factory<OdeStepSizeController<VD>>::newInstance("simple");
        Parameters cp;
        cp["tolerance"] = sp.tol; cp["insurance"] = sp.insurance; cp["inc_min_factor"] = sp.incMin; cp["inc_max_factor"] = sp.incMax;
        cp["dec_max_factor"] = sp.decMax; cp["max_threshold"] = sp.hmax;
        ctl->setParameters(cp);
        p["stepsizectl"] = ctl;
    }
    if (sp.id.compare(0, 5, "dopri") == 0) {
        p["force_error_calc"] = sp.forceErr;
        p["h_after_switch"] = sp.hAfterSwitch;
        p["mode"] = sp.mode;
    }
    if (sp.id.compare(0, 5, "rosen") == 0) p["d"] = sp.d;
    if (sp.id == "gragg") p["smooth"] = sp.smooth;
    if (sp.id == "extrapolator") {
        p["symmetric"] = sp.symmetric;
        p["max_stages"] = (unsigned)sp.stages;
        p["step_sequence"] = Factory<ExtrapolatorStepSequence>::newInstance(sp.seq);
        p["reference_solver"] = buildSolver(*sp.ref);
    }
    if (sp.id == "i_euler") {
        p["alpha"] = sp.alpha;
        p["predictor"] = sp.pred ? buildSolver(*sp.pred) : std::shared_ptr<Solver>();
        p["predictor_steps"] = (unsigned)sp.predSteps;
        auto newton = Factory<NewtonSolverInterface<VD>>::newInstance("newton");
        Parameters np;
        auto ddir = Factory<NewtonDescentDirection<VD>>::newInstance(sp.ddir);
        if (sp.ddir == "lazy-fake-broyden") { Parameters dp; dp["lazy_iterations"] = sp.lazy; ddir->setParameters(dp); }
        np["ddir"] = ddir;
        np["jacobian"] = Factory<JacobianProvider<VD>>::newInstance(sp.jac);
        if (!sp.jtrim.empty()) {
            auto jt = Factory<JacobianTrimmer<VD>>::newInstance(sp.jtrim);
            Parameters tp;
            if (sp.jtrim == "width") tp["width"] = sp.jtrimWidth; else tp["threshold"] = sp.jtrimThreshold;
            jt->setParameters(tp);
            np["jtrim"] = jt;
        }
        auto err = Factory<ErrorEstimator<VD>>::newInstance("simple");
        Parameters ep; ep["abs_tol"] = sp.newtonTol; ep["rel_tol"] = sp.newtonTol; ep["rel_max_threshold"] = 0.0;
        err->setParameters(ep);
        np["err"] = err;
        newton->setParameters(np);
        p["algsolver"] = newton;
    }
    return p;
}

std::shared_ptr<Solver> buildSolver(const SolverSpec& sp) {
    auto s = Factory<Solver>::newInstance(sp.id);
    auto p = solverParams(sp);
    s->setParameters(p);
    static bool sanity = getenv("SIM_SANITY") != nullptr;   // development: all parameter names are known to the solver
    if (sanity) { auto q = s->parameters(); for (auto& kv : p) if (!q.count(kv.first)) { fprintf(stderr, "unknown parameter %s\n", kv.first.c_str()); abort(); } }
    return s;
}

void World::build(const SolverSpec& sp, const RhsSpec& rs, bool simNorm, bool simCtl) {
    spec = sp;
    solver = buildSolver(sp);
    if (sp.reorder) reorder(*solver, sp.reorder);
    if (simNorm) if (auto h = dynamic_cast<ErrorNormCalculatorHolder<VD>*>(solver.get())) { norm = std::make_shared<SimNorm>(); norm->cx = &cx; h->setErrorNormCalculator(norm); }
    if (simCtl) if (auto h = dynamic_cast<OdeStepSizeControllerHolder<VD>*>(solver.get())) { ctl = std::make_shared<SimCtl>(); ctl->cx = &cx; h->setOdeStepSizeController(ctl); }
    setRhs(rs);
    observe();
}

void World::setRhs(const RhsSpec& rs) {
    rhs = std::make_shared<SimRhs>(rs, &cx);
    if (watchRhs) {
        rhs->odeRhsPreObservers.add([this](double, const V&, const OdeRhs<VD>*) { cx.point(P_RHSPRE); });
        rhs->odeRhsPostObservers.add([this](double, const V&, const V&, const OdeRhs<VD>*) { cx.point(P_RHSPOST); });
    }
    solver->setOdeRhs(rhs);
}

void World::observe() {
    solver->odeSolverPreObservers.add([this](double h, const Solver*) { AllocGuard g; pre.push_back(h); cx.stepStart = t(); cx.point(P_PRE); });
    solver->odeSolverPostObservers.add([this](const OdeSolverPostObserverArg<VD>& a) {
        AllocGuard g;
        Attempt at{a.stepSize(), a.stepAccepted(), a.stepSizeChanged(), a.stepTruncated(), a.errorNorm(), a.izfTrunc(), a.transitionType(), t(), x()};
        attempts.push_back(at);
        if (onPost) onPost(a);
        cx.point(P_POST);
    });
    solver->jacobianRefreshObservers.add([this](bool start) { refreshes += start; cx.point(P_JAC); });
    solver->iterationObservers.add([this](unsigned, const NewtonSolverInterface<VD>*) -> bool { return cx.iterPoint(); });
}

} // namespace sim
