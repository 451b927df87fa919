// C21: the bundled test models are the systems they are described to be, and stay so whatever fails around them
#include "world.h"
#include "ode_num_int/ode/test_models/BouncingBall.h"
namespace sim {
namespace {
typedef std::vector<double> D;
using ctm::Factory;

struct Model {
    std::string id; unsigned n = 1; int friction = 0;
    std::map<std::string, double> p;
    bool stuck = false;                // state of the bouncing ball
    double par(const char* k) const { return p.at(k); }
    // the equations of help texts
    D rhs(double t, const D& x) const {
        D f;
        if (id == "oscillator") return {x[1], par("f") - par("c") * x[0]};
        if (id == "stiff_1d") return {-par("a") * (x[0] - std::cos(t))};
        if (id == "bouncing_ball") return stuck ? D{0, 0} : D{x[1], -par("gravity_acceleration")};
        if (id == "coupled_nl_osc") {
            f.assign(2*n, 0.0);
            for (unsigned i = 0; i < n; ++i) {      // spring i connects masses i-1 and i; its energy is c0*x^2/2 + c2*x^4/4
                double e = x[i] - (i ? x[i-1] : 0.0), q = par("c0")*e + par("c2")*e*e*e;
                f[n + i] -= q; if (i) f[n + i - 1] += q;
                f[i] = x[n + i];
            }
            f[2*n - 1] += par("f");
            return f;
        }
        double v = std::hypot(x[2], x[3]), m = par("mass"), r = friction == 0 ? 2 / M_PI * par("f0") * std::atan(v / par("v0")) : friction == 1 ? par("f0") * std::min(1.0, v / par("v0")) : par("f0") * v / par("v0");
        double e1 = v > 0 ? x[2] / v : 0, e2 = v > 0 ? x[3] / v : 0;
        return {x[2], x[3], (par("F1") - r*e1) / m, (par("F2") * std::sin(par("omega")*t) - r*e2) / m};
    }
    double lip() const {               // about the Lipschitz constant for states of the size used here, and rate of forcing
        if (id == "oscillator") return 1 + par("c");
        if (id == "stiff_1d") return 1 + par("a");
        if (id == "bouncing_ball") return 1;
        if (id == "coupled_nl_osc") return 1 + 4*par("c0") + 100*par("c2");
        return 1 + (1 + par("F2")/par("mass"))*par("omega") + 2*par("f0")/par("v0")/par("mass");
    }
    double maxDiffRel(const D& a, const D& b) const { double r = 0; for (size_t i = 0; i < a.size(); ++i) r = std::max(r, std::fabs(a[i] - b[i]) / (1 + std::fabs(b[i]))); return r; }
};
const char* const frictions[] = {"atan", "tabular", "linear"};

struct Ball : ctm::testmodels::BouncingBall<VD> {
    std::function<void(const int*, const D&, const D&)> onSwitch;
    void switchPhaseState(const int* tr, double t, V& x) { D a = vec(x); ctm::testmodels::BouncingBall<VD>::switchPhaseState(tr, t, x); if (onSwitch) onSwitch(tr, a, vec(x)); }
};

struct Side {                          // a solver with a model, watched
    World w; Model m; std::shared_ptr<OdeRhs<VD>> rhs; std::shared_ptr<Ball> ball;
    bool quiet = false; unsigned pending = 0; double preT = 0; D preX; uint64_t evals = 0, bounces = 0, sticks = 0;
    bool switched = false; D switchedTo; double hitSpeed = 0;
    bool everStuck = false; const char *since = "";     // the object has been stuck; what has released the ball since
};
}

SCENARIO(C21, registerAll) {
    Sim& s = S_;
    Model m; m.id = s.pick({"oscillator", "coupled_nl_osc", "stiff_1d", "sliding_point", "bouncing_ball"});
    auto val = [&](const char* k, std::initializer_list<double> l) { m.p[k] = s.pick(l); };
    if (m.id == "oscillator") { val("c", {1, 10, 4, 0}); val("f", {0, 1, -2}); m.n = 2; }
    if (m.id == "stiff_1d") { val("a", {1, 5, 0, 0.5, 2.25}); m.n = 1; }
    if (m.id == "coupled_nl_osc") { m.n = s.range(1, 4); m.p["n"] = m.n; val("c0", {1, 3, 0}); val("c2", {0.5, 1, 0}); val("f", {0, 1, -2}); }
    if (m.id == "sliding_point") { m.friction = s.draw(3); val("mass", {1, 2, 0.5}); val("f0", {1, 2, 0}); val("v0", {1, 0.5}); val("F1", {1, 10, 0}); val("F2", {1, 5, 0}); val("omega", {1, 4, 0.5}); }
    if (m.id == "bouncing_ball") { val("gravity_acceleration", {9.8, 1, 20}); val("recovery_factor", {0.9, 0.5, 1, 0.1}); val("stick_speed", {1e-5, 1e-2, 0.5}); }
    SolverSpec sp = SolverSpec::draw(s); sp.h = s.pick({0.05, 0.01, 0.02, 0.002}); if (sp.tol > 1e-4) sp.tol = 1e-4;
    sp.hmax = 0.1;
    bool isBall = m.id == "bouncing_ball";
    if (!sp.exact() && sp.adaptive()) sp.noErr = true;
    s.note("model", m.id); s.note("solver", sp.str());
    auto drawState = [&] {
        unsigned n = m.id == "coupled_nl_osc" ? 2*m.n : m.id == "sliding_point" ? 4 : m.n == 1 && m.id == "stiff_1d" ? 1 : 2;
        D x(n); for (auto& v : x) v = s.pick({0.0, 0.5, -1.0, 1.0, 0.1});
        if (isBall) { x[0] = s.pick({1.0, 0.2, 0.05}); x[1] = s.pick({0.0, 1.0, -1.0}); }
        return x;
    };
    auto make = [&](Side& d) {
        d.m = m;
        if (isBall) { d.ball = std::make_shared<Ball>(); d.rhs = d.ball; }
        else d.rhs = Factory<OdeRhs<VD>>::newInstance(m.id);
        Parameters p; for (auto& kv : m.p) if (kv.first == "n") p[kv.first] = (unsigned)kv.second; else p[kv.first] = kv.second;
        if (m.id == "sliding_point") p["friction"] = std::string(frictions[m.friction]);
        d.rhs->setParameters(p);
        RhsSpec dummy; dummy.n1 = 1; dummy.n2 = 0; dummy.k = dummy.c = dummy.l = dummy.F = dummy.cpl = D(4, 0.0);
        d.w.build(sp, dummy);
        Side* q = &d;
        d.rhs->odeRhsPreObservers.add([q, &s](double t, const V& x, const OdeRhs<VD>* who) {
            AllocGuard g; s.check(who == q->rhs.get(), "observer-argument", "%s: observer is given another system", q->m.id.c_str());
            s.check(!q->pending, "evaluation-not-finished", "%s: an evaluation starts while another is not finished", q->m.id.c_str());
            q->preT = t; q->preX = vec(x); q->w.cx.point(P_RHSPRE); q->pending = 1; });
        d.rhs->odeRhsPostObservers.add([q, &s](double t, const V& x, const V& f, const OdeRhs<VD>* who) {
            AllocGuard g; s.check(who == q->rhs.get() && q->pending == 1 && sameBits(t, q->preT) && same(vec(x), q->preX), "observers", "%s: evaluation is not announced, or with other arguments", q->m.id.c_str());
            q->pending = 0; ++q->evals;
            D xv = vec(x), fv = vec(f);
            if (finite(xv)) {
                // before a new step the ball may have been put elsewhere
                D g2 = q->m.rhs(t, xv);
                if (q->ball && q->everStuck && !q->m.stuck && fv == D{0, 0} && g2 != fv)
                    s.fail("hangs", "ball that has stuck to the plane hangs in the air %s, at t=%g, x=%s", q->since, t, str(xv).c_str());
                s.check(fv.size() == g2.size() && q->m.maxDiffRel(fv, g2) < 1e-10, "equations", "%s: right hand side at t=%g, x=%s is %s rather than %s", q->m.id.c_str(), t, str(xv).c_str(), str(fv).c_str(), str(g2).c_str());
            }
            q->w.cx.point(P_RHSPOST); });
        if (d.ball) d.ball->onSwitch = [q, &s](const int* tr, const D& a, const D& b) {
            auto& m = q->m; double v = a[1]; D want = a; bool stick = std::fabs(v) < m.par("stick_speed") || v >= 0;
            if (stick) want = {0, 0}; else want[1] = -v * m.par("recovery_factor");
            s.check(tr[0] == -1, "transition", "impact is announced as transition %d", tr[0]);
            s.check(b.size() == 2 && std::fabs(b[0] - want[0]) <= 1e-15 && std::fabs(b[1] - want[1]) <= 1e-12 * std::fabs(v), "impact", "ball at %s is put to %s by the impact, must be %s", str(a).c_str(), str(b).c_str(), str(want).c_str());
            m.stuck = stick; if (stick) q->everStuck = true; q->hitSpeed = v; ++(stick ? q->sticks : q->bounces); q->switched = true; q->switchedTo = b;
            q->w.cx.point(P_SWITCH); };
        d.w.solver->setOdeRhs(d.rhs);
        // description
        unsigned n2 = m.id == "stiff_1d" ? 0 : m.id == "coupled_nl_osc" ? m.n : m.id == "sliding_point" ? 2 : 1, n1 = m.id == "stiff_1d";
        s.check(d.rhs->secondOrderVarCount() == n2 && d.rhs->firstOrderVarCount() == n1 && d.rhs->varCount() == 2*n2 + n1 && d.rhs->zeroFuncCount() == unsigned(isBall), "sizes", "%s: wrong numbers of variables", m.id.c_str());
        auto back = d.rhs->parameters();
        for (auto& kv : m.p) s.check(back.count(kv.first) && double(back[kv.first]) == kv.second, "parameters", "%s: parameter %s is not the one set", m.id.c_str(), kv.first.c_str());
        if (m.id == "sliding_point") {
            s.check(std::string(back["friction"]) == frictions[m.friction], "parameters", "friction is not the one set");
            Parameters bad; bad["friction"] = std::string(s.pick({"nothing", "", "Atan"}));
            auto r = guarded([&] { d.rhs->setParameters(bad); });
            s.check(r == Thrown::Lib && std::string(d.rhs->parameters()["friction"]) == frictions[m.friction], "parameters", "an unknown kind of friction is accepted");
        }
    };
    std::unique_ptr<Side> pa(new Side), pb(new Side); make(*pa); make(*pb);
    double tol = sp.exact() ? 1e-12 : 1e-6;
    int episodes = s.range(1, 3);
    for (int ep = 0; ep < episodes; ++ep) {
        D x0 = drawState(); double t0 = s.pick({0.0, 1.0, -2.5});
        std::string what;
        // mostly with a new object if the ball has stuck (the finding of hanging balls would hide what comes next)
        if ((pa->everStuck || pb->everStuck) && !s.chance(1, 8)) { pa.reset(new Side); pb.reset(new Side); make(*pa); make(*pb); }
        Side &a = *pa, &b = *pb;
        a.m.stuck = b.m.stuck = false;     // a ball put above the plane falls
        for (Side* q : {&a, &b}) if (q->everStuck) q->since = "after a new initial state";
        a.w.cx.disarm(); b.w.cx.disarm();
        auto begin = [&](Side& q) { V v(x0.size()); for (unsigned i = 0; i < x0.size(); ++i) v[i] = x0[i]; q.pending = 0; q.w.solver->setInitialState(t0, v); };
        if (guarded([&] { begin(a); begin(b); }, &what) != Thrown::None) s.fail("exception", "%s: initial state is refused: %s", m.id.c_str(), what.c_str());
        int N = isBall ? s.range(1, 60) : s.range(1, 12);
        double energy0 = isBall ? x0[1]*x0[1]/2 + m.par("gravity_acceleration")*x0[0] : 0;
        for (int i = 0; i < N; ++i) {
            double tb = a.w.t(); D xb = a.w.x(); size_t na = a.w.attempts.size(); bool stuckBefore = a.m.stuck; a.switched = false; uint64_t ev0 = a.evals;
            if (isBall && !a.m.stuck && xb[0] == 0 && xb[1] == 0) s.discard("ball is exactly at rest on the plane before any impact");
            uint64_t c0 = 0; for (auto c : a.w.cx.calls) c0 += c;
            if (guarded([&] { a.pending = 0; a.w.solver->doStep(); }, &what) != Thrown::None) s.discard("step is refused by the library");
            uint64_t c1 = 0; for (auto c : a.w.cx.calls) c1 += c;
            D xa = a.w.x(); double h = a.w.t() - tb; auto& at = a.w.attempts.back();
            if (isBall && !sp.exact() && !stuckBefore && (at.truncated ? std::fabs(h - at.h) < 1e-5 || std::fabs(std::fabs(a.hitSpeed) - m.par("stick_speed")) < 1e-5 : std::fabs(xa[0]) < 1e-5)) s.discard("impact is at the end of a step, so that the solver's round-off errors decide which step it belongs to");
            if (!finite(xa)) s.discard("solution is not finite");
            s.simTime += h;
            s.check(a.evals > ev0 || m.id.empty(), "no-evaluation", "%s: a step is made without evaluations", m.id.c_str());
            s.check(at.truncated == a.switched, "event", "%s: events and switches disagree", m.id.c_str());
            if (!at.truncated) {
                // independent integration over the same interval
                D y = xb; double tt = tb; int n = 8; double hh = h / n; double inc = 0;
                Model mm = a.m; mm.stuck = stuckBefore;
                for (int k = 0; k < n; ++k) {
                    auto ax = [&](const D& u, double c, const D& f) { D r = u; for (size_t j = 0; j < r.size(); ++j) r[j] += c * f[j]; return r; };
                    D k1 = mm.rhs(tt, y), k2 = mm.rhs(tt + hh/2, ax(y, hh/2, k1)), k3 = mm.rhs(tt + hh/2, ax(y, hh/2, k2)), k4 = mm.rhs(tt + hh, ax(y, hh, k3));
                    for (size_t j = 0; j < y.size(); ++j) { y[j] += hh/6 * (k1[j] + 2*k2[j] + 2*k3[j] + k4[j]); inc = std::max(inc, std::fabs(k1[j])); }
                    tt += hh;
                }
                double L = mm.lip() * h, bound = 1e-9 + 2 * L * h * (inc + 1);
                // Gragg method keeps two solutions, and theirs is a two-step method: only its first step depends on the state alone
                if (L < 0.5 && (sp.id != "gragg" || i == 0)) { s.check(maxDiff(xa, y) <= bound, "solution", "%s with %s: step of %g from %s ends at %s, must be about %s", m.id.c_str(), sp.str().c_str(), h, str(xb).c_str(), str(xa).c_str(), str(y).c_str()); s.probe("step compared with another integration"); }
            }
            if (isBall) {
                double g = m.par("gravity_acceleration"), e = xa[1]*xa[1]/2 + g*xa[0];
                if (at.truncated) { s.check(std::fabs(xa[0]) < 1e-9 && same(xa, a.switchedTo), "impact-place", "ball is at %s after an impact that puts it to %s", str(xa).c_str(), str(a.switchedTo).c_str()); s.nontrivial(); }
                s.check(xa[0] > -1e-9, "below-plane", "ball is below the plane: %s", str(xa).c_str());
                if (stuckBefore) s.check(xa[0] == 0 && xa[1] == 0, "not-at-rest", "ball moves after having stuck: %s", str(xa).c_str());
                // the height reached never grows (first order methods: errors of the step size order)
                s.check(e <= energy0 + g*g*std::fabs(a.w.t() - t0) * 0.1 + 1e-6 || sp.id == "euler" || sp.id == "i_euler", "energy", "energy of the ball grows to %g from %g", e, energy0);
            }
            s.ev("step", {h, xa[0]});
            // the same with failures
            int nf = s.draw(3); bool done = false;
            for (int f = 0; !done; ++f) {
                if (f < nf) { long n = long(c1 - c0); b.w.cx.arm(s.chance(1, 3) ? n - 1 - (long)s.draw(std::min<long>(n, 6)) : (long)s.draw(n), s.draw(3)); } else b.w.cx.disarm();
                bool stuck0 = b.m.stuck; b.pending = 0; b.switched = false;
                auto r = guarded([&] { b.w.solver->doStep(); }, &what);
                if (r == Thrown::None) { done = true; break; }
                if (!b.w.cx.fired && !sp.exact() && quasiNewtonLost(what)) s.discard("quasi-Newton iterations do not converge from the matrix left by a failed step");
                s.check(b.w.cx.fired, "unexpected-exception", "%s: step throws '%s' without an injected fault", m.id.c_str(), what.c_str());
                s.nontrivial();
                if (b.w.cx.firedAt == P_POST && b.w.attempts.back().accepted) { done = true; break; }
                if (b.m.stuck && !stuck0) b.since = "after a failed step";
                b.m.stuck = stuck0;
            }
            b.w.cx.disarm();
            D xc = b.w.x();
            s.check(std::fabs(b.w.t() - a.w.t()) <= tol * (1 + std::fabs(h)) * 10 && a.m.maxDiffRel(xc, xa) <= tol * 100, "recovery", "%s with %s: step %d ends at t=%.17g, x=%s after failures, t=%.17g, x=%s without", m.id.c_str(), sp.str().c_str(), i, b.w.t(), str(xc).c_str(), a.w.t(), str(xa).c_str());
            s.check(b.m.stuck == a.m.stuck, "recovery", "%s: phase differs after failures", m.id.c_str());
            (void)na;
        }
        s.ev("episode", {double(a.bounces), double(a.sticks)});
        if (a.sticks) s.probe("ball has stuck");
        if (a.bounces) s.probe("ball has bounced");
        if (ep && a.sticks) s.probe("episode after sticking");
    }
}
}
