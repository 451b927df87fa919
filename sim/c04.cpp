// C04: step size policy under arbitrary error norms and non-finite right hand sides
#include "world.h"
namespace sim {

SCENARIO(C04, registerAll) {
    Sim& s = S_;
    SolverSpec sp = SolverSpec::draw(s, SolverSpec::Adaptive | SolverSpec::Explicit | SolverSpec::Implicit | SolverSpec::NoQuasi);
    bool real = s.chance(1, 3);                  // error norm calculated from the solution; faults come from the ODE right hand side
    sp.insurance = s.pick({0.8, 0.9, 1.0, 0.5});
    sp.incMin = s.pick({1.3, 0.0, 1.0, 1.05, 3.0});
    sp.incMax = s.pick({2.0, 0.0, 1.5, 5.0});
    sp.decMax = s.pick({0.1, 0.0, 0.5, 0.01});
    sp.hmax = s.pick({0.0, 0.0, 0.3, 0.05, 1.0});
    sp.hmin = s.pick({0.0, 0.0, 1e-3, 1e-6});
    if (real) { sp.decMax = s.pick({0.1, 0.5, 0.25}); if (sp.hmin == 0) sp.hmin = 1e-10; }
    RhsSpec rs = RhsSpec::draw(s, s.chance(1, 3), 2, 2);
    if (real && s.chance(1, 2)) { rs.box = s.pick({2.5, 2.05, 4.0}); sp.h *= s.pick({1.0, 4.0}); }
    V x0 = rs.drawState(s);
    int N = s.range(1, 12);
    s.note("solver", sp.str() + fmt(" insurance=%g incmin=%g incmax=%g decmax=%g hmax=%g", sp.insurance, sp.incMin, sp.incMax, sp.decMax, sp.hmax));

    World a; a.build(sp, rs, !real, false);
    struct Policy { double tol, ins, imin, imax, dmax, hmax; } pol{sp.tol, sp.insurance, sp.incMin, sp.incMax, sp.decMax, sp.hmax};
    double curH = sp.h; bool bad = false; int badLeft = 0;
    double e = 0; unsigned normCalls = 0;
    bool quietNow = false;
    if (!real) a.norm->f = [&](const V&) {
        ++normCalls;
        double r;
        if (quietNow) r = 0.5;
        else if (curH > 4) r = 100;
        else r = s.pick({0.5, 0.0, 0.9, 1.0, 1e-3, 1e-12, 1 + 1e-15, 1.001, 1.5, 10.0, 1e10, (double)INFINITY, (double)NAN, 0.1, 0.03125});
        if (badLeft > 12 && r > 1) r = 0.5;
        if (r != r) s.fault("error-norm-nan"); else if (r > 1e300) s.fault("error-norm-inf"); else if (r > 1) s.fault("error-norm-above-tolerance"); else if (r == 0) s.fault("error-norm-zero");
        e = r * pol.tol;
        if (e != e || r > 1) ++badLeft; else badLeft = 0;
        return e;
    };
    int nanBudget = 0; bool transient = real && sp.id.compare(0, 5, "dopri") == 0;
    (void)bad;
    double t = 0; std::vector<double> x = vec(x0);
    bool haveNext = false, either = false; double nextH = sp.h, altH = 0;
    uint64_t attempts = 0;
    a.cx.onPoint = [&](Point p) {
        if (p != P_PRE) return;
        double h = a.pre.back();
        if (haveNext) {
            bool ok = std::fabs(h - nextH) <= 1e-12 * std::fabs(nextH) || (either && std::fabs(h - altH) <= 1e-12 * std::fabs(altH));
            s.check(ok, "step-size-policy", "%s: next attempt has step size %.17g, expected %.17g; the previous one had %.17g and error norm %.17g at tolerance %g", sp.str().c_str(), h, nextH, curH, e, pol.tol);
        }
        curH = h; normCalls = 0; ++attempts;
        s.ev("attempt", {h});
    };
    a.onPost = [&](const OdeSolverPostObserverArg<VD>& g) {
        bool acc = g.stepAccepted();
        double err = g.errorNorm();
        if (real) e = err;
        s.ev(acc ? "accepted" : "rejected", {err});
        if (sp.noErr) {
            s.check(acc && !g.stepSizeChanged(), "rejected-without-error-check", "%s: attempt is rejected or its step size changed though error check is disabled", sp.str().c_str());
            nextH = curH; either = false;
        } else {
            if (!real) s.check(normCalls == 1, "error-norm-calls", "%s: error norm calculated %u times in an attempt", sp.str().c_str(), normCalls);
            s.check(sameBits(err, e), "reported-error-norm", "%s: reported error norm is %.17g, calculated %.17g", sp.str().c_str(), err, e);
            // ---- reference policy
            double q = e != e ? INFINITY : e / pol.tol;
            double k = q == 0 ? INFINITY : std::pow(1/q, 1.0/(sp.lowOrder() + 1));      // factor that would bring the error to the tolerance
            bool edge = std::fabs(k - 1) < 1.5e-5;
            if (edge) s.probe("error norm at the tolerance");
            if (!edge) s.check(acc == (q < 1), q < 1 ? "good-attempt-rejected" : "bad-attempt-accepted", "%s: attempt with error norm %.17g at tolerance %g is %s", sp.str().c_str(), e, pol.tol, acc ? "accepted" : "rejected");
            double f = k * pol.ins;
            nextH = curH; either = false;
            if (acc) {
                if (q > 0 && !edge) {
                    bool lim = pol.hmax > 0 && f * curH > pol.hmax;
                    if (lim) f = pol.hmax / curH;
                    if (lim && f < 1) nextH = curH;          // already above the limit: left as it is
                    else if (pol.imin > 0 && std::fabs(f/pol.imin - 1) < 1e-12) { either = true; altH = curH; nextH = curH * (pol.imax > 0 ? std::fmin(f, pol.imax) : f); }
                    else if (pol.imin > 0 && f < pol.imin) nextH = curH;
                    else nextH = curH * (pol.imax > 0 && f > pol.imax ? pol.imax : f);
                } else if (edge) {                            // rounding decides between no change and a change by the insurance factor
                    either = true; nextH = curH;
                    altH = g.stepSizeChanged() && pol.imin <= pol.ins ? curH * pol.ins * k : curH;
                    if (pol.imin > 0 && pol.ins < 1) altH = curH;
                    if (pol.imin <= 1 && pol.ins == 1) altH = curH * k;
                }
            } else
                nextH = curH * (f < pol.dmax ? pol.dmax : f);
            if (!acc) s.check(nextH < curH || (edge && pol.ins == 1) || !(curH > 0), "policy", "internal");
        }
        if (g.stepTruncated() && sp.id.compare(0, 5, "dopri") == 0 && sp.hAfterSwitch > 0) {
            if (nextH > sp.hAfterSwitch) nextH = sp.hAfterSwitch;
            if (either && altH > sp.hAfterSwitch) altH = sp.hAfterSwitch;
        }
        haveNext = true;
        if (acc) {
            if (!sp.noErr && real) s.check(finite(a.x()) && std::isfinite(a.t()), "non-finite-state-accepted", "%s: state %s accepted at time %.17g with error norm %.17g", sp.str().c_str(), str(a.x()).c_str(), a.t(), err);
            t = a.t(); x = a.x();
        } else {
            s.check(sameBits(a.t(), t) && same(a.x(), x), "state-advanced-by-rejected-attempt", "%s: rejected attempt has changed the solution", sp.str().c_str());
            s.nontrivial();
        }
    };
    a.solver->setInitialState(0, x0);
    std::string what;
    bool stopped = false;
    for (int i = 0; i < N && !stopped; ++i) {
        quietNow = i == N - 1;                   // faults stop: the last step has to be made at once
        if (transient && !quietNow && s.chance(1, 2)) { a.cx.nanAt = s.draw(30); a.cx.rhsCounter = 0; a.cx.nanValue = s.pick({(double)NAN, (double)INFINITY, -(double)INFINITY, 1e308}); }
        else a.cx.nanAt = -1;
        // Change the policy on the fly
        if (!real && !sp.noErr && s.chance(1, 10)) {
            pol.tol = s.pick({1e-3, 1e-5, 1.0});
            Parameters cp; cp["tolerance"] = pol.tol; cp["insurance"] = pol.ins; cp["inc_min_factor"] = pol.imin; cp["inc_max_factor"] = pol.imax; cp["dec_max_factor"] = pol.dmax; cp["max_threshold"] = pol.hmax;
            auto c = ctm::Factory<ctm::math::OdeStepSizeController<VD>>::newInstance("simple"); c->setParameters(cp);
            Parameters pp; pp["stepsizectl"] = c; a.solver->setParameters(pp);
            s.ev("new-policy", {pol.tol}); s.probe("policy changed");
        }
        uint64_t at0 = attempts;
        double startH = haveNext ? nextH : sp.h;
        auto r = guarded([&] { a.solver->doStep(); }, &what);
        (void)nanBudget;
        if (r != Thrown::None) {
            // Permitted only if the step size has come to the minimum
            if (sp.noErr || (real && !finite(x))) s.discard("diverged without error check");
            bool implicitFail = sp.ref && sp.ref->id == "i_euler";
            if (implicitFail && what.find("Algebraic solver failed") == 0) s.discard("Newton solver of the reference solver failed");
            s.check(what == "Step size has decreased to the minimum or below", "unexpected-exception", "%s: %s", sp.str().c_str(), what.c_str());
            stopped = true; s.probe("minimum step size");
            s.ev("min-step");
            if (!real && !sp.noErr) {
                // reconstruct the decision made by the policy from the last error norm
                double q = e != e ? INFINITY : e / pol.tol, k = std::pow(1/q, 1.0/(sp.lowOrder() + 1)), f = k * pol.ins;
                double h2 = q <= 1 ? curH * f : curH * (f < pol.dmax ? pol.dmax : f);
                s.check(h2 <= sp.hmin * (1 + 1e-12), "early-minimum-step", "%s: step size %.17g (after %.17g, error norm %.17g at tolerance %g) is reported to be at or below the minimum %g", sp.str().c_str(), h2, curH, e, pol.tol, sp.hmin);
            }
        } else {
            if (haveNext && sp.hmin > 0 && !sp.noErr && !either && nextH < sp.hmin * (1 - 1e-12) && !(sp.hAfterSwitch > 0 && nextH == sp.hAfterSwitch) && nextH != curH)
                s.fail("minimum-step-not-reported", "%s: step size %.17g is below the minimum %g and the step does not fail", sp.str().c_str(), nextH, sp.hmin);
            if (quietNow && !real && !sp.noErr && startH <= 4)
                s.check(attempts == at0 + 1, "no-progress", "%s: %d attempts to make a step when the error norm is half the tolerance", sp.str().c_str(), int(attempts - at0));
        }
    }
    s.simTime += std::fabs(t);
}

}
