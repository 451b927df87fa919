// C09: the outcome reported by the Newton solver is true
#include "newt.h"
#include "ode_num_int/alg/SimpleNewtonLinearSearch.h"
#include <algorithm>
namespace sim {

static long allocAt = -1;           // allocation of the next solution that fails
struct Run { bool starved = false; int outcome = -1; Thrown thrown = Thrown::None; std::string what; std::vector<double> x; std::vector<std::vector<double>> its; };

static Run solve(Sim& s, Newton& nw, SimMap& map, const NSpec& ns, const std::vector<double>& x0, bool hard, long terminateAt, SimReg* reg, SpyDdir* spy, bool verbose) {
    Run r; if (spy) spy->reports.clear();
    auto itp = nw.iterationPerformer();
    std::vector<double> prev = x0, f; bool havePrev = false; double prevNorm = 0;
    unsigned count = 0; bool finishNow = false, askedStop = false;
    int restarts = 0; bool firstOfPass = true;
    long callsAtStop = -1;
    map.onCall = [&](const V& x) {
        if (askedStop) s.fail("evaluation-after-termination", "%s: mapping is evaluated after termination has been requested", ns.str().c_str());
        if (count > 0 && finishNow == false && same(vec(x), x0) && !firstOfPass && havePrev && !same(prev, x0)) { ++restarts; firstOfPass = true; prev = x0; havePrev = false; }
    };
    int id = nw.iterationObservers.add([&](unsigned it, const Newton* who) -> bool {
        AllocGuard g; s.tick();
        s.check(who == &nw, "observer-argument", "iteration observer is given another solver");
        s.check(it == count, "iteration-number", "%s: iteration %u is announced as %u", ns.str().c_str(), count, it);
        ++count;
        auto x = vec(nw.currentSolution()), res = vec(itp->currentResidual());
        r.its.push_back(x);
        s.check(!finishNow, "needless-iteration", "%s: iteration %u is made after convergence", ns.str().c_str(), it);
        if (!map.nan) {
            map.sp.value(f, x);
            s.check(same(f, res), "residual", "%s: at iteration %u the residual of %s is said to be %s, it is %s", ns.str().c_str(), it, str(x).c_str(), str(res).c_str(), str(f).c_str());
            if (havePrev) s.check(!(norm2(res) > prevNorm * (1 + 1e-12)), "residual-grows", "%s: iteration %u increases the residual from %.17g to %.17g", ns.str().c_str(), it, std::sqrt(prevNorm), std::sqrt(norm2(res)));
            else { std::vector<double> f0; map.sp.value(f0, x0); if (finite(f0)) s.check(!(norm2(res) > norm2(f0) * (1 + 1e-12)), "residual-grows", "%s: iteration %u increases the residual from %.17g to %.17g", ns.str().c_str(), it, std::sqrt(norm2(f0)), std::sqrt(norm2(res))); }
            // convergence as documented
            double xn = infn(prev), dx = 0; std::vector<double> d(x); for (unsigned i = 0; i < x.size(); ++i) d[i] -= prev[i]; dx = infn(d);
            double rel = xn > 0 ? dx / xn : 0;
            if (infn(res) <= ns.absTol && rel <= ns.relTol && finite(x) && !(reg && reg->again > 0)) finishNow = true;
        }
        prevNorm = norm2(res); prev = x; havePrev = true; firstOfPass = false;
        if ((long)it == terminateAt) { askedStop = true; callsAtStop = map.calls; s.fault("newton-terminated"); return true; }
        return false;
    });
    { V guess = toV(x0); alloc = Alloc(); alloc.countdown = allocAt;
      r.thrown = guarded([&] { alloc.armed = allocAt >= 0; struct Off { ~Off() { alloc.armed = false; } } off; nw.setInitialGuess(guess, hard); r.outcome = nw.run(); }, &r.what); }
    if (allocAt >= 0 && alloc.fired) { r.starved = true; s.fault("allocation-failure"); }
    allocAt = -1;
    nw.iterationObservers.remove(id); map.onCall = nullptr;
    if (verbose) s.ev("solve", {double(r.outcome), double(count), double((int)r.thrown)});
    if (spy) {      // the descent direction is told the outcome
        auto& told = spy->reports; bool yes = false; for (int t : told) yes = yes || t;
        bool ok = r.thrown != Thrown::None || r.outcome == Newton::Terminated ? !yes : r.outcome == Newton::Converged ? yes && told.back() && std::count(told.begin(), told.end(), 1) == 1 : !yes && !told.empty();
        s.check(ok, "outcome-not-told", "%s: outcome is %d, the descent direction is told%s", ns.str().c_str(), r.outcome, told.empty() ? " nothing" : told.back() ? " success" : " failure");
        s.probe("outcome told to the descent direction");
    }
    if (r.thrown != Thrown::None) {
        // the residual belongs to the current solution
        bool th = map.thrown, na = map.nan; map.arm(-1, -1, 0);
        auto x = vec(nw.currentSolution()); std::vector<double> res;
        if (x.size() == map.sp.n && guarded([&] { res = vec(itp->currentResidual()); }) == Thrown::None && !na) {
            map.sp.value(f, x);
            s.check(same(f, res), "residual", "%s: after an exception the residual of %s is said to be %s, it is %s", ns.str().c_str(), str(x).c_str(), str(res).c_str(), str(f).c_str());
            s.probe("residual after an exception");
        }
        map.thrown = th; map.nan = na;
        return r;
    }
    {
        static const char* names[] = {"converged", "diverged", "terminated", "iteration count limit exceeded"};
        auto st = Newton::statusText(Newton::Status(r.outcome));
        s.check(st == names[r.outcome], "status-text", "%s: outcome %d is called '%s'", ns.str().c_str(), r.outcome, st.c_str());
    }
    r.x = vec(nw.currentSolution());
    auto who = ns.str();
    bool mayHelp = !(ns.ddir == "simple" && ns.jac == "default");
    s.check(count <= ns.maxIter * (mayHelp ? 2 : 1), "iteration-limit", "%s: %u iterations are made", who.c_str(), count);
    s.check(askedStop == (r.outcome == Newton::Terminated), "termination", "%s: outcome is '%s', termination %s requested", who.c_str(), Newton::statusText(Newton::Status(r.outcome)).c_str(), askedStop ? "is" : "is not");
    if (askedStop) return r;
    s.check(!r.its.empty() ? same(r.x, r.its.back()) : same(r.x, x0), "solution-changes", "%s: solution differs from the one of the last iteration", who.c_str());
    if (r.outcome == Newton::Converged) {
        std::vector<double> g; map.sp.value(g, r.x);
        s.check(finite(r.x), "converged-to-nonsense", "%s: converged to %s", who.c_str(), str(r.x).c_str());
        if (!map.nan) s.check(infn(g) <= ns.absTol, "false-convergence", "%s: converged to %s, residual is %s", who.c_str(), str(r.x).c_str(), str(g).c_str());
        if (!map.nan) s.check(finishNow, "false-convergence", "%s: convergence is reported too early at %s", who.c_str(), str(r.x).c_str());
        s.probe("converged");
    } else {
        if (!map.nan) s.check(!finishNow, "missed-convergence", "%s: outcome is '%s' at a solution %s", who.c_str(), Newton::statusText(Newton::Status(r.outcome)).c_str(), str(r.x).c_str());
        if (r.outcome == Newton::IterationCountLimitExceeded) s.check(count >= ns.maxIter && r.outcome != Newton::Converged, "iteration-limit", "%s: limit of iterations is reported after %u iterations", who.c_str(), count);
        s.probe(r.outcome == Newton::Diverged ? "diverged" : "limit of iterations exceeded");
        if (restarts) s.probe("restarted with a new Jacobian");
    }
    return r;
}

// The search along a direction by itself: the best ratio tried is returned; if none of 1, 1/2, 1/4,... reduces the residual, the opposite direction is tried
static void lineSearch(Sim& s) {
    auto map = std::make_shared<SimMap>(); map->sp = MapSpec::draw(s); unsigned n = map->sp.n;
    auto ls = std::make_shared<SimpleNewtonLinearSearch<VD>>(); ls->setMapping(map);
    unsigned limit = s.pick({10, 10, 3, 1, 5}); ls->setMaxStepTruncations(limit);
    s.note("newton", "line search");
    int N = s.range(1, 4);
    for (int k = 0; k < N; ++k) {
        std::vector<double> x0(n), d(n), f0, f;
        for (auto& v : x0) v = s.pick({0.0, 1.0, -0.5, 2.0, 0.1, -3.0});
        double scale = s.pick({1.0, 0.1, 8.0, 1000.0, 1e-3});
        for (auto& v : d) v = scale * s.pick({0.0, 1.0, -1.0, 0.5, -0.25});
        if (s.chance(1, 3)) { std::vector<double> J; map->sp.value(f0, x0); map->sp.jac(J, x0); double sg = s.pick({1.0, -1.0}); d.assign(n, 0.0); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) d[j] -= sg * J[i*n + j] * f0[i]; }
        map->sp.value(f0, x0); if (!finite(f0) || !finite(d)) { s.probe("start outside the domain"); continue; }
        if (s.chance(1, 6)) map->arm(s.draw(12), -1, 0); else if (s.chance(1, 5)) map->arm(-1, s.draw(12), s.range(1, 20)); else map->arm(-1, -1, 0);
        struct Told { double a; std::vector<double> f; }; std::vector<Told> told;
        int id = ls->lineSearchObservers.add([&](unsigned it, double a, const V& dir, const V& x, const V& f0v, const V& fv) {
            s.check(it == told.size(), "search-observer", "evaluation %u of the line search is announced as %u", (unsigned)told.size(), it);
            s.check(same(vec(dir), d) && same(vec(x), x0) && same(vec(f0v), f0), "search-observer", "line search tells another direction, solution or residual");
            std::vector<double> y(x0), g; for (unsigned i = 0; i < n; ++i) { double t = d[i]; t *= a; y[i] += t; }
            map->sp.value(g, y);
            if (!map->nan) s.check(same(g, vec(fv)), "search-observer", "line search tells residual %s at ratio %.17g, it is %s", str(vec(fv)).c_str(), a, str(g).c_str());
            told.push_back({a, vec(fv)}); });
        double a = 0; V res; V vd = toV(d), vx = toV(x0), vf = toV(f0); bool want = s.chance(3, 4);
        auto th = guarded([&] { a = ls->lineSearch(vd, vx, vf, want ? &res : nullptr); });
        ls->lineSearchObservers.remove(id);
        s.check((th == Thrown::Sim) == map->thrown && th != Thrown::Lib, "exception-swallowed", "exception of the mapping does not leave the line search, or there is another one");
        if (th != Thrown::None) { s.probe("line search left by an exception"); s.nontrivial(); continue; }
        s.ev("search", {a, double(told.size())});
        s.check(told.size() <= 2*limit && !told.empty(), "search-evaluations", "line search takes %u evaluations, limit is 2*%u", (unsigned)told.size(), limit);
        double n0 = norm2(f0), best = INFINITY; const Told* at = nullptr;
        for (auto& t : told) { double v = norm2(t.f); if (v < best) best = v; if (t.a == a) at = &t; }
        auto less = [&](double v) { return v < n0 * (1 - 1e-9); };
        if (a == 0) {
            for (auto& t : told) s.check(!less(norm2(t.f)), "search-result", "line search returns 0, though it has reduced the residual from %.17g to %.17g at ratio %.17g", n0, norm2(t.f), t.a);
            for (double sg : {1.0, -1.0}) { double r = sg; for (unsigned i = 0; i < limit; ++i, r *= 0.5) {
                bool tried = false; for (auto& t : told) tried = tried || t.a == r;
                s.check(tried, "search-gives-up", "line search returns 0, ratio %.17g is not tried", r); } }
            s.probe("line search finds nothing");
        } else {
            s.check(at, "search-result", "line search returns ratio %.17g, which it has not tried", a);
            s.check(norm2(at->f) < n0, "search-result", "line search returns ratio %.17g, where the residual is %.17g, instead of %.17g", a, norm2(at->f), n0);
            s.check(!(norm2(at->f) > best * (1 + 1e-9)), "search-result", "line search returns ratio %.17g, where the residual is %.17g, it has found %.17g", a, norm2(at->f), best);
            if (want) s.check(same(vec(res), at->f), "search-residual", "line search tells residual %s at ratio %.17g, it is %s", str(vec(res)).c_str(), a, str(at->f).c_str());
            if (a < 0) { double r = 1; for (unsigned i = 0; i < limit; ++i, r *= 0.5) { const Told* f1 = nullptr; for (auto& t : told) if (t.a == r) f1 = &t; s.check(f1 && !less(norm2(f1->f)), "search-backwards", "line search goes backwards, though ratio %.17g %s", r, f1 ? "reduces the residual" : "is not tried"); } s.probe("line search goes backwards"); }
            else s.probe("line search goes forward");
        }
        s.nontrivial();
    }
}

SCENARIO(C09, registerAll) {
    Sim& s = S_;
    if (s.chance(1, 8)) return lineSearch(s);
    NSpec ns = NSpec::draw(s);
    MapSpec ms = MapSpec::draw(s);
    auto map = std::make_shared<SimMap>(); map->sp = ms;
    auto nw = buildNewton(ns); nw->setComponent(std::static_pointer_cast<VectorMapping<VD>>(map));
    std::shared_ptr<SimReg> reg;
    if (s.chance(1, 6)) { reg = std::make_shared<SimReg>(); nw->setComponent(std::static_pointer_cast<NewtonRegularizationStrategy<VD>>(reg)); }
    std::shared_ptr<SpyDdir> spy; if (s.chance(1, 3)) spy = SpyDdir::attach(*nw);
    s.note("newton", ns.str()); s.ev("map", {double(ms.n), double(ms.kind)});
    bool mayHelp = !(ns.ddir == "simple" && ns.jac == "default");
    int N = s.range(1, 5); bool dirty = true;
    for (int k = 0; k < N; ++k) {
        std::vector<double> x0(map->sp.n); for (auto& v : x0) v = s.pick({0.0, 1.0, -0.5, 2.0, 0.1, -3.0});
        bool hard = dirty || s.chance(1, 2);
        if (k && s.chance(1, 4)) {           // another equation with the same unknowns, or other ones
            MapSpec m2 = MapSpec::draw(s);
            if (hard) { map->sp = m2; x0.assign(m2.n, s.pick({0.0, 1.0, -0.5})); s.probe("another equation"); }
            else if (m2.n == map->sp.n) { map->sp.b = m2.b; }
        }
        long term = s.chance(1, 8) ? (long)s.draw(4) : -1;
        if (s.chance(1, 4)) map->arm(s.draw(12), -1, 0);
        else if (s.chance(1, 4)) map->arm(-1, s.draw(20), s.range(1, 6));
        else map->arm(-1, -1, 0);
        int again = reg ? s.draw(4) : 0;
        if (reg) reg->again = again;
        auto saved = *map;
        if (s.chance(1, 5)) allocAt = s.draw(s.chance(1, 2) ? 40 : 400);
        Run r = solve(s, *nw, *map, ns, x0, hard, term, reg.get(), spy.get(), true);
        if (r.thrown == Thrown::Lib) { s.probe("exception of the library"); }
        if (r.thrown == Thrown::Sim) { s.check(map->thrown || r.starved && r.what == std::bad_alloc().what(), "internal", "unexpected exception"); s.probe("exception leaves the solver"); }
        else s.check(!map->thrown, "exception-swallowed", "%s: exception thrown by the mapping is swallowed", ns.str().c_str());
        if (map->nan || map->thrown || term >= 0) s.nontrivial();
        bool faulted = map->nan || map->thrown || r.starved; if (r.starved) s.nontrivial();
        if (r.starved) ;        // the next solution is to be as if this had not happened
        else if (hard) {
            // the same as by a new solver
            auto m2 = std::make_shared<SimMap>(); m2->sp = map->sp; m2->arm(saved.throwAt, saved.nanFrom, saved.nanCount);
            auto n2 = buildNewton(ns); n2->setComponent(std::static_pointer_cast<VectorMapping<VD>>(m2));
            std::shared_ptr<SimReg> reg2; if (reg) { reg2 = std::make_shared<SimReg>(); reg2->again = again; n2->setComponent(std::static_pointer_cast<NewtonRegularizationStrategy<VD>>(reg2)); }
            Run q = solve(s, *n2, *m2, ns, x0, true, term, reg2.get(), nullptr, false);
            bool eq = q.outcome == r.outcome && q.thrown == r.thrown && q.its.size() == r.its.size() && same(q.x, r.x);
            if (eq) for (size_t i = 0; i < q.its.size(); ++i) eq = eq && same(q.its[i], r.its[i]);
            s.check(eq, "history-dependence", "%s: after a hard reset the solver makes %u iterations with outcome %d and ends at %s; a new solver makes %u iterations with outcome %d and ends at %s", ns.str().c_str(),
                (unsigned)r.its.size(), r.outcome, str(r.x).c_str(), (unsigned)q.its.size(), q.outcome, str(q.x).c_str());
            // progress: regular equations are solved when there are no faults
            bool trimmed = !ns.jtrim.empty();
            if (!faulted && term < 0 && !reg && !trimmed && map->sp.kind <= 1 && std::isinf(map->sp.box) && ns.maxIter >= 20 && ns.absMax == 1e20 && ns.relMax == 0 && (map->sp.kind == 0 || ns.ddir == "simple"))
                s.check(r.thrown == Thrown::None && r.outcome == Newton::Converged, "no-convergence", "%s: a regular %s equation is not solved: %s %s", ns.str().c_str(), map->sp.kind ? "nonlinear" : "linear",
                    r.thrown == Thrown::None ? Newton::statusText(Newton::Status(r.outcome)).c_str() : "exception:", r.what.c_str());
        }
        else if (mayHelp && !faulted && term < 0 && !reg) {
            // stale data cannot make it worse: a failure leads to another attempt from the initial guess with everything computed anew
            auto m2 = std::make_shared<SimMap>(); m2->sp = map->sp; m2->arm(-1, -1, 0);
            auto n2 = buildNewton(ns); n2->setComponent(std::static_pointer_cast<VectorMapping<VD>>(m2));
            Run q = solve(s, *n2, *m2, ns, x0, true, -1, nullptr, nullptr, false);
            if (r.thrown == Thrown::None && r.outcome != Newton::Converged) {
                s.check(q.outcome == r.outcome && q.thrown == r.thrown && same(q.x, r.x), "no-retry", "%s: started with data of the previous solution, the solver fails with outcome %d at %s; a new solver has outcome %d at %s", ns.str().c_str(),
                    r.outcome, str(r.x).c_str(), q.outcome, str(q.x).c_str());
                s.probe("failure with data of the previous solution");
            }
        }
        dirty = r.starved && hard;      // the hard reset may not have been made
        if (r.thrown == Thrown::None && r.outcome == Newton::Converged) s.nontrivial();
    }
}

}
