// C05: events are detected exactly once, in order, at the right place - also with rejected attempts and failures
#include "world.h"
namespace sim {
using ctm::math::OdeEventController; using ctm::math::OdeSolverEventController;

// Piecewise linear motion: everything about events can be calculated independently of the library
struct EvSpec {
    unsigned n2 = 0, nz = 0, nj = 0;          // second-order variables; first-order ones; first-order ones that may jump
    std::vector<double> rate, gain;           // of first-order variables: rate*(1 + gain*phase)
    struct Term { unsigned idx; double w; };
    struct Fun { std::vector<Term> terms; double tw = 0, level = 0; unsigned flags = 3; };
    struct Act { int kind; unsigned idx; double value; };   // 0: velocity *= value, 1: variable = value (+- by transition), 2: phase = value*transition, 3: velocity = value*|velocity|
    std::vector<Fun> fun;
    std::vector<std::vector<Act>> act;
    unsigned n() const { return 2*n2 + nz + nj + 1; }
    double g(unsigned i, double t, const std::vector<double>& x) const { auto& f = fun[i]; double r = f.tw * t - f.level; for (auto& q : f.terms) r += q.w * x[q.idx]; return r; }
    void velocity(std::vector<double>& d, const std::vector<double>& x) const {
        d.assign(n(), 0.0); double p = x[n() - 1];
        for (unsigned i = 0; i < n2; ++i) d[i] = x[n2 + i];
        for (unsigned i = 0; i < nz + nj; ++i) d[2*n2 + i] = rate[i] * (1 + gain[i] * p);
    }
    void doSwitch(unsigned i, int tr, std::vector<double>& x) const {
        for (auto& a : act[i]) {
            if (a.kind == 0) x[n2 + a.idx] *= a.value;
            else if (a.kind == 1) x[a.idx] = a.value;
            else if (a.kind == 2) x[n() - 1] = a.value * tr;
            else x[n2 + a.idx] = a.value * std::fabs(x[n2 + a.idx]);
        }
    }
    bool first(unsigned i) const { return i < fun.size(); }
};

class EvRhs : public OdeRhs<VD>, public ctm::FactoryMixin<EvRhs, OdeRhs<VD>> {
public:
    EvRhs() : cx(nullptr) {}
    EvSpec sp; Ctx* cx;
    struct Switch { std::vector<int> tr; double t; std::vector<double> x; };
    std::vector<Switch> log;
    bool truncating = false; double truncAt = INFINITY;
    using OdeRhs<VD>::rhs;
    unsigned int secondOrderVarCount() const { return sp.n2; }
    unsigned int firstOrderVarCount() const { return sp.nz + sp.nj + 1; }
    unsigned int zeroFuncCount() const { return sp.fun.size(); }
    std::vector<unsigned int> zeroFuncFlags() const { std::vector<unsigned> r; for (auto& f : sp.fun) r.push_back(f.flags); return r; }
    void rhs(V& dst, double t, const V& x) const {
        cx->point(P_RHS);
        this->odeRhsPreObservers(t, x, this);
        std::vector<double> d; sp.velocity(d, vec(x)); dst.resize(d.size()); for (unsigned i = 0; i < d.size(); ++i) dst[i] = d[i];
        this->odeRhsPostObservers(t, x, dst, this);
    }
    void zeroFunctions(V& dst, double t, const V& x) const {
        cx->point(P_ZF);
        auto v = vec(x); dst.resize(sp.fun.size()); for (unsigned i = 0; i < sp.fun.size(); ++i) dst[i] = sp.g(i, t, v);
    }
    void switchPhaseState(const int* tr, double t, V& x) {
        auto v = vec(x);
        log.push_back(Switch{std::vector<int>(tr, tr + sp.fun.size()), t, v});
        cx->point(P_SWITCH);
        for (unsigned i = 0; i < sp.fun.size(); ++i) if (tr[i]) { sp.doSwitch(i, tr[i], v); break; }
        for (unsigned i = 0; i < v.size(); ++i) x[i] = v[i];
    }
    std::string describeZeroFunction(unsigned int) const { return "zf"; }
    void beforeStep(double, const V&) const { cx->point(P_BEFORE); }
    void beforeStep2(const V&) const { cx->point(P_BEFORE2); }
    bool truncateStep(double& t, V& x) const {
        cx->point(P_TRUNC);
        if (!truncating || t < truncAt) return false;
        // move the state back to the time of truncation and mark it
        auto v = vec(x); std::vector<double> d; sp.velocity(d, v);
        for (unsigned i = 0; i < v.size(); ++i) x[i] = v[i] - d[i] * (t - truncAt);
        x[sp.n() - 1] = -x[sp.n() - 1];
        t = truncAt;
        return true;
    }
};

// An event controller of the user: passes everything on to the one of the library, and looks at what it is given
class SpyEc : public OdeEventController<VD>, public ctm::FactoryMixin<SpyEc, OdeEventController<VD>> {
public:
    std::shared_ptr<OdeEventController<VD>> inner; Sim* s = nullptr; const char* who = ""; double h = 0; const Solver* solver = nullptr; bool smooth = false;
    double t1 = 0; std::vector<double> x1v; unsigned starts = 0, ends = 0;
    SpyEc() { this->onOdeRhsChanged([this] { if (inner) inner->setOdeRhs(this->odeRhs()); }); }
    void reset() { inner->reset(); }
    void atStepStart(const V& x1, double t) {
        t1 = t; x1v = vec(x1); ++starts;
        s->check(sameBits(t, solver->initialTime()) && (smooth || same(x1v, vec(solver->initialState()))), "controller-start", "%s: event controller is given state %s at %.17g at the start of a step from %s at %.17g", who, str(x1v).c_str(), t, str(vec(solver->initialState())).c_str(), solver->initialTime());
        inner->atStepStart(x1, t);
    }
    bool atStepEnd(const V& x1, V& x2, double& t2, Interpolator ip, unsigned int* izf, int* tr) {
        ++ends; auto x2v = vec(x2);
        s->check(same(vec(x1), x1v) && std::fabs(t2 - t1 - h) < 1e-12, "controller-end", "%s: event controller is given %.17g with starting state %s at the end of a step of size %.17g from %s at %.17g", who, t2, str(vec(x1)).c_str(), h, str(x1v).c_str(), t1);
        for (double f : {0.0, 1.0, 0.5, 0.25}) {
            V d; if (f == 0.5) d.resize(x2.size()); ip(d, f); std::vector<double> m(x2v); for (size_t i = 0; i < m.size(); ++i) m[i] = x1v[i]*(1 - f) + x2v[i]*f;
            s->check(d.size() == m.size() && maxDiff(vec(d), m) < 1e-9, "interpolation", "%s: interpolation at %g between %s and %s is %s", who, f, str(x1v).c_str(), str(x2v).c_str(), str(vec(d)).c_str());
        }
        s->check(same(vec(x2), x2v), "interpolation", "%s: interpolation changes the state at the end of the step", who);
        s->probe("event controller of the user");
        return inner->atStepEnd(x1, x2, t2, ip, izf, tr);
    }
};

SCENARIO(C05, registerAll) {
    Sim& s = S_;
    SolverSpec sp = SolverSpec::draw(s);
    sp.h = s.pick({0.125, 0.25, 0.0625, 0.3, 0.5});
    sp.hAfterSwitch = 0;
    bool ctl = sp.adaptive() && s.chance(2, 3);
    if (sp.adaptive()) sp.noErr = !ctl;
    EvSpec e;
    e.n2 = s.draw(3); e.nz = s.draw(3); e.nj = s.draw(2);
    if (e.n2 + e.nz + e.nj == 0) e.nz = 1;
    std::vector<double> x0(e.n(), 0.0);
    for (unsigned i = 0; i < e.n2; ++i) { x0[i] = s.pick({0.0, 1.0, -0.5, 0.3}); x0[e.n2 + i] = s.pick({1.0, -1.0, 0.5, -0.75, 2.0}); }
    for (unsigned i = 0; i < e.nz + e.nj; ++i) { x0[2*e.n2 + i] = s.pick({0.0, 1.0, -0.5, 0.3}); e.rate.push_back(s.pick({1.0, -1.0, 0.5, -0.75, 2.0})); e.gain.push_back(s.pick({0.0, 0.5, 2.0, -0.25})); }
    x0[e.n() - 1] = s.pick({1.0, -1.0});
    double t0 = s.pick({0.0, 1.0, -2.5});
    unsigned nf = s.range(0, 4);
    bool truncating = nf == 0;
    for (unsigned i = 0; i < nf; ++i) {
        EvSpec::Fun f; std::vector<EvSpec::Act> act;
        int kind = s.draw(4);
        if (kind == 2 && e.n2 == 0) kind = 0;
        if (kind == 3 && e.nj == 0) kind = 0;
        double dist = s.pick({0.25, 0.1, 0.5, 0.03125, 0.7, 1.25});
        if (kind <= 1) {
            // two directions, no recomputation: depends on variables that do not jump
            f.flags = 3;
            unsigned nv = e.n2 + e.nz;
            if (nv) for (int k = s.range(1, 2); k > 0; --k) { unsigned v = s.draw(nv); f.terms.push_back({v < e.n2 ? v : e.n2 + v, s.pick({1.0, -1.0, 0.5, 3.0})}); }
            if (!nv || s.chance(1, 4)) f.tw = s.pick({1.0, -0.5});
            if (s.chance(1, 2)) act.push_back({2, 0, s.pick({1.0, -1.0, 0.5})});
            if (e.n2 && s.chance(1, 3)) act.push_back({0, (unsigned)s.draw(e.n2), s.pick({-1.0, 0.5, -0.5})});
            if (e.nj && s.chance(1, 3)) act.push_back({1, 2*e.n2 + e.nz + (unsigned)s.draw(e.nj), s.pick({0.0, 0.4, -0.3})});
            e.fun.push_back(f); f.level = e.g(i, t0, x0) + (s.chance(1, 2) ? dist : -dist); e.fun.pop_back();
        } else if (kind == 2) {
            // wall: one direction, velocity is reversed, possibly with losses
            unsigned k = s.draw(e.n2); double w = s.pick({1.0, -1.0, 2.0});
            bool plus = s.chance(1, 2);       // kept non-negative
            f.flags = plus ? 1 : 2;
            if (s.chance(3, 4)) f.flags |= 4;
            f.terms.push_back({k, w});
            double dir = plus == (w > 0) ? 1 : -1;
            act.push_back({3, k, dir * s.pick({1.0, 0.5, 1.0, 1.5})});
            if (s.chance(1, 3)) act.push_back({2, 0, 1.0});
            f.level = w * x0[k] + (plus ? -dist : dist);
        } else {
            // a variable that jumps
            unsigned k = 2*e.n2 + e.nz + s.draw(e.nj); double w = s.pick({1.0, -1.0, 2.0});
            unsigned d = s.draw(3);
            bool plus = d == 1;
            f.flags = 4 | (d == 0 ? 3 : d);
            f.terms.push_back({k, w});
            if (d == 0) { f.level = w * x0[k] + (s.chance(1, 2) ? dist : -dist); act.push_back({1, k, f.level / w + s.pick({0.2, -0.2, 0.35})}); }
            else { f.level = w * x0[k] + (plus ? -dist : dist); act.push_back({1, k, (f.level + (plus ? 0.2 : -0.2)) / w}); }
            if (s.chance(1, 3)) act.push_back({2, 0, 1.0});
        }
        e.fun.push_back(f); e.act.push_back(act);
    }
    // Variables that jump must be on the right side of all one-directional functions after any jump; a jump may violate another one: such cases are discarded below
    int N = s.range(1, 14);
    s.note("solver", sp.str());
    for (unsigned i = 0; i < e.fun.size(); ++i) s.ev("function", {double(e.fun[i].flags), e.fun[i].level, double(e.fun[i].terms.size()), e.fun[i].tw});

    World a; a.build(sp, RhsSpec::draw(s, false), false, ctl);
    auto rhs = std::make_shared<EvRhs>(); rhs->sp = e; rhs->cx = &a.cx; rhs->truncating = truncating;
    std::string whoStr = sp.str(); std::shared_ptr<SpyEc> spy;
    if (s.chance(1, 5)) {
        auto& h = dynamic_cast<OdeSolverEventController<VD>&>(*a.solver); spy = std::make_shared<SpyEc>(); spy->inner = h.eventController();
        spy->s = &s; spy->who = whoStr.c_str(); spy->solver = a.solver.get(); spy->smooth = sp.id == "gragg" && sp.smooth; h.setEventController(spy);
        a.solver->odeSolverPreObservers.add([&](double h, const Solver*) { spy->h = h; });
    }
    a.solver->setOdeRhs(rhs);
    V xv(e.n()); for (unsigned i = 0; i < e.n(); ++i) xv[i] = x0[i];

    // model
    double t = t0; std::vector<double> x = x0; std::vector<int> sign(nf);
    auto sgn = [](double v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
    for (unsigned i = 0; i < nf; ++i) sign[i] = sgn(e.g(i, t, x));
    std::vector<double> noise(nf, 0.0);       // g may deviate from zero by this much at the point of an event
    const double eps = 1e-8;
    int rejects = 0; bool fixedReject = false;
    if (ctl) a.ctl->f = [&](double h, double, double) {
        if (rejects < 4 && s.chance(1, 3)) { ++rejects; s.fault("attempt-rejected"); return SimCtl::R(h * s.pick({0.5, 0.75, 0.25}), false, true); }
        double f = s.pick({1.0, 1.0, 2.0, 0.5}); if (h * f > 0.6 || h * f < 0.01) f = 1;
        return SimCtl::R(h * f, true, f != 1);
    };
    (void)fixedReject;
    size_t logAtPre = 0; unsigned events = 0; bool give = false;
    a.cx.onPoint = [&](Point p) { if (p == P_PRE) logAtPre = rhs->log.size(); };
    a.onPost = [&](const OdeSolverPostObserverArg<VD>& arg) {
        double h = arg.stepSize();
        size_t sw = rhs->log.size() - logAtPre;
        if (!arg.stepAccepted()) {
            s.check(sw == 0 && !arg.stepTruncated(), "event-in-rejected-attempt", "%s: phase state switched %u times in a rejected attempt", sp.str().c_str(), (unsigned)sw);
            s.probe("rejected attempt");
            return;
        }
        rejects = 0;
        if (spy) { s.check(spy->starts >= 1 && spy->ends == 1, "controller-calls", "%s: event controller is called %u times at the start and %u times at the end of a step", whoStr.c_str(), spy->starts, spy->ends); spy->starts = spy->ends = 0; }
        std::vector<double> d; e.velocity(d, x);
        auto at = [&](double f) { auto r = x; for (unsigned k = 0; k < r.size(); ++k) r[k] += d[k] * h * f; return r; };
        auto xe = at(1); double te = t + h;
        double ta = a.t(); auto xa = a.x();
        if (truncating) {
            bool tr = te >= rhs->truncAt;
            if (std::fabs(te - rhs->truncAt) < 1e-9) { give = true; return; }
            double tx = tr ? rhs->truncAt : te; auto ex = at((tx - t) / h); if (tr) ex[e.n() - 1] = -ex[e.n() - 1];
            s.check(arg.stepTruncated() == tr && sw == 0, "truncation", "%s: step from %.17g to %.17g, to be truncated at %.17g: truncated=%d", sp.str().c_str(), t, te, rhs->truncAt, arg.stepTruncated());
            s.check(std::fabs(ta - tx) < 1e-9 && maxDiff(xa, ex) < 1e-7, "truncation", "%s: step ends at %.17g with %s, expected %.17g with %s", sp.str().c_str(), ta, str(xa).c_str(), tx, str(ex).c_str());
            if (tr) { rhs->truncAt = tx + s.pick({0.2, 0.7, 0.05}); s.probe("step truncated by the system"); s.nontrivial(); }
            t = ta; x = xa;
            return;
        }
        // candidates
        double tmin = 2; unsigned definite = 0;
        std::vector<double> tau(nf, 3.0); std::vector<int> status(nf, 0);
        for (unsigned i = 0; i < nf; ++i) {
            double g1 = e.g(i, t, x), g2 = e.g(i, te, xe);
            unsigned dirs = e.fun[i].flags & 3;
            bool maybe = std::fabs(g2) <= eps, cross;
            if (dirs == 3) {
                if (sign[i] == 0 && std::fabs(g1) > eps) sign[i] = sgn(g1);
                cross = sign[i] == 0 || sgn(g2) != sign[i];
                if (sign[i] == 0) maybe = true;               // starts at zero: both outcomes are possible
            } else {
                double side = dirs == 1 ? 1 : -1;             // PlusMinus: non-negative
                if (side * g1 < -eps) { give = true; return; }   // beyond at start: made so by a jump
                cross = side * g2 < 0;
            }
            if (maybe) status[i] = 1; else if (cross) status[i] = 2;
            if (status[i]) { double q = g1 / (g1 - g2); tau[i] = !(q >= 0) ? 0 : q > 1 ? 1 : q; if (std::fabs(g1 - g2) < eps) tau[i] = -1; }
            if (status[i] == 2) { ++definite; tmin = std::min(tmin, tau[i]); }
        }
        if (!arg.stepTruncated()) {
            s.check(sw == 0, "switch-without-report", "%s: phase state switched %u times in a step that is not reported as truncated", sp.str().c_str(), (unsigned)sw);
            if (definite) for (unsigned i = 0; i < nf; ++i) if (status[i] == 2)
                s.fail("event-lost", "%s: function %u with flags %u goes from %.17g at %.17g to %.17g at %.17g, event is not detected", sp.str().c_str(), i, e.fun[i].flags, e.g(i, t, x), t, e.g(i, te, xe), te);
            s.check(arg.izfTrunc() == ~0u && arg.transitionType() == 0, "report-without-event", "%s: report on a step without events says function %u, transition %d", sp.str().c_str(), arg.izfTrunc(), arg.transitionType());
            s.check(std::fabs(ta - te) < 1e-9 && maxDiff(xa, xe) < 1e-7, "solution", "%s: step ends at %.17g with %s, expected %.17g with %s", sp.str().c_str(), ta, str(xa).c_str(), te, str(xe).c_str());
        } else {
            unsigned i = arg.izfTrunc();
            s.check(i < nf, "event-report", "%s: event of function %u reported, there are %u functions", sp.str().c_str(), i, nf);
            s.check(status[i] != 0, "spurious-event", "%s: event of function %u with flags %u reported; its value goes from %.17g to %.17g, previous sign %d", sp.str().c_str(), i, e.fun[i].flags, e.g(i, t, x), e.g(i, te, xe), sign[i]);
            if (tau[i] < 0) { give = true; return; }
            s.check(tau[i] <= tmin + 1e-7, "not-the-earliest-event", "%s: event of function %u at fraction %.17g of the step reported, there is an event at %.17g", sp.str().c_str(), i, tau[i], tmin);
            s.check(sw == 1, "switch-calls", "%s: phase state switched %u times in a step with an event", sp.str().c_str(), (unsigned)sw);
            auto& l = rhs->log.back();
            unsigned nonzero = 0; for (int v : l.tr) if (v) ++nonzero;
            double f = tau[i]; auto xi = at(f); double ti = t + h*f;
            int dirs = e.fun[i].flags & 3;
            int tr = dirs == 1 ? -1 : dirs == 2 ? 1 : sign[i] ? -sign[i] : l.tr[i];
            s.check(nonzero == 1 && l.tr[i] == tr && arg.transitionType() == tr, "transition", "%s: event of function %u with flags %u, previous sign %d: transition %d passed, %d reported, %u transitions in total",
                sp.str().c_str(), i, e.fun[i].flags, sign[i], l.tr[i], arg.transitionType(), nonzero);
            s.check(std::fabs(l.t - ti) < 1e-7 && maxDiff(l.x, xi) < 1e-6, "event-point", "%s: event of function %u switched at %.17g with %s, expected %.17g with %s", sp.str().c_str(), i, l.t, str(l.x).c_str(), ti, str(xi).c_str());
            auto xs = l.x; e.doSwitch(i, tr, xs);
            s.check(sameBits(ta, l.t) && maxDiff(xa, xs) < 1e-12, "solution-after-event", "%s: after an event the solution is at %.17g with %s, expected %.17g with %s", sp.str().c_str(), ta, str(xa).c_str(), l.t, str(xs).c_str());
            ++events; s.probe("event"); s.nontrivial(); if (definite > 1) s.probe("several events in a step");
            if (tau[i] > 1 - 1e-9) s.probe("event at the end of a step");
            s.ev("event", {double(i), double(tr), ta});
            for (unsigned k = 0; k < nf; ++k) {
                double g = e.g(k, ta, xa);
                if (e.fun[k].flags & 4) {
                    sign[k] = std::fabs(g) <= eps ? 0 : sgn(g);
                    if ((e.fun[k].flags & 3) == 3 && sign[k] == 0) { give = true; return; }
                } else if (k == i && dirs == 3) sign[k] = tr;
            }
        }
        t = ta; x = xa;
    };
    if (truncating) rhs->truncAt = t0 + s.pick({0.2, 0.7, 0.05});
    a.solver->setInitialState(t0, xv);
    std::string what;
    bool anew = false; unsigned refreshes = 0;     // an implicit solver has to compute its Jacobian anew
    for (int i = 0; i < N && !give; ++i) {
        bool done = false;
        for (int f = 0; !done && !give; ++f) {
            if (f < 3 && s.chance(1, 4)) a.cx.arm(s.draw(40), s.draw(3)); else a.cx.disarm();
            size_t na = a.attempts.size();
            auto r = guarded([&] { a.solver->doStep(); }, &what);
            if (spy) spy->starts = spy->ends = 0;
            if (sp.id == "i_euler" && r == Thrown::None) {
                if (anew) s.check(a.refreshes > refreshes, "jacobian-after-event", "%s: the step after an event is made with the Jacobian of the step before it", sp.str().c_str());
                if (anew) s.probe("Jacobian computed anew after an event");
            }
            if (a.attempts.size() > na && a.attempts.back().accepted) { anew = a.attempts.back().truncated; refreshes = a.refreshes; }
            if (r == Thrown::None) done = true;
            else if (!a.cx.fired) s.fail("unexpected-exception", "%s: step throws '%s'", sp.str().c_str(), what.c_str());
            else if (a.cx.firedAt == P_POST && a.attempts.size() > na && a.attempts.back().accepted) done = true;
            else { s.probe("step repeated after an exception"); if (a.cx.firedAt == P_SWITCH) s.probe("exception in switching"); }
        }
        if (!spy && !truncating && !give && s.chance(1, 8)) {
            // another event controller: events are found by what it has seen itself
            bool clear = true; for (unsigned k = 0; k < nf; ++k) clear = clear && std::fabs(e.g(k, t, x)) > 1e-6;
            if (clear) {
                auto& h = dynamic_cast<OdeSolverEventController<VD>&>(*a.solver); Parameters p;
                switch (s.draw(3)) {
                    case 0: p["eventctl"] = "linear"; a.solver->setParameters(p); break;
                    case 1: h.setEventController(ctm::Factory<ctm::math::OdeEventController<VD>>::newInstance("linear")); break;
                    default: h.setEventController(std::shared_ptr<ctm::math::OdeEventController<VD>>()); p["eventctl"] = "linear"; a.solver->setParameters(p);
                }
                for (unsigned k = 0; k < nf; ++k) sign[k] = sgn(e.g(k, t, x));
                s.ev("another-controller"); s.probe("event controller replaced in the course of a solution");
            }
        }
        for (double v : x) if (std::fabs(v) > 1e6) give = true;
        if (events > 40) break;
    }
    s.simTime += std::fabs(t - t0);
    if (give) s.probe("run ended early: outcome depends on round-off or a jump across a unilateral constraint");
}

}
