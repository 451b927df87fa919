// C19: Jacobians and descent directions are what they are said to be, whatever happened before
#include "newt.h"
namespace sim {

typedef std::vector<double> D;

static MapSpec drawMap(Sim& s, unsigned n) {
    MapSpec m; m.n = n; m.kind = 1; m.a.assign(n*n, 0.0); m.b.resize(n); m.c.assign(n, 0.0); m.form.assign(n, 0);
    int pat = s.draw(5);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i != j) {
        bool on = pat == 0 ? s.chance(1, 3) : pat == 1 ? (i == j + 1 || j == i + 1) : pat == 2 ? (i == 0 || j == 0) : pat == 3 ? (i + 1 == n || j + 1 == n || i == j + 2) : s.chance(1, 8);
        if (on) m.a[i*n + j] = s.pick({0.5, -0.25, 0.3, -1.0});
    }
    for (unsigned i = 0; i < n; ++i) {
        double d = 0; for (unsigned j = 0; j < n; ++j) d += std::fabs(m.a[i*n + j]);
        m.a[i*n + i] = (d + s.pick({1.0, 2.0, 1.5})) * s.pick({1.0, -1.0});
        m.b[i] = s.pick({0.0, 1.0, -2.0, 0.3});
        m.form[i] = s.draw(3); m.c[i] = m.form[i] == 2 ? (m.a[i*n + i] > 0 ? 0.1 : -0.1) : 0.2;
    }
    return m;
}

struct Model {
    std::string ddir; unsigned n = 0, lazy = 0;
    D J, dJ; std::vector<char> pat;          // what the Jacobian provider holds
    bool haveJ = false, havePrev = false, known = true;
    D xprev, fprev;
    int action = 2;                          // lazy: 0 - leave, 1 - update, 2 - recompute
    unsigned lastIt = 0;
};

static bool trim(const NSpec& ns, D& J, unsigned n) {
    if (ns.jtrim == "width" && ns.width) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (std::abs((int)i - (int)j) >= (int)ns.width) J[i*n + j] = 0;
    if (ns.jtrim == "threshold" && ns.threshold != 0) {
        double mx = 0; for (double v : J) mx = std::max(mx, std::fabs(v));
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i != j && J[i*n + j] != 0) {
            double r = std::fabs(J[i*n + j]) / mx / ns.threshold;
            if (std::fabs(r - 1) < 1e-4) return false;      // depends on round-off
            if (r < 1) J[i*n + j] = 0;
        }
    }
    return true;
}

SCENARIO(C19, registerAll) {
    Sim& s = S_;
    NSpec ns = NSpec::draw(s);
    unsigned n = s.range(1, 9);
    auto map = std::make_shared<SimMap>(); map->sp = drawMap(s, n);
    auto dd = Factory<NewtonDescentDirection<VD>>::newInstance(ns.ddir);
    if (ns.ddir == "lazy-fake-broyden") { Parameters p; p["lazy_iterations"] = ns.lazy; dd->setParameters(p); }
    auto jp = Factory<JacobianProvider<VD>>::newInstance(ns.jac);
    auto setTrimmer = [&] {
        std::shared_ptr<JacobianTrimmer<VD>> jt;
        if (!ns.jtrim.empty()) {
            jt = Factory<JacobianTrimmer<VD>>::newInstance(ns.jtrim); Parameters tp;
            if (ns.jtrim == "width") tp["width"] = ns.width; else tp["threshold"] = ns.threshold;
            jt->setParameters(tp);
        }
        jp->setJacobianTrimmer(jt);
    };
    if (s.chance(1, 2)) { dd->setMapping(map); dd->setJacobianProvider(jp); } else { dd->setJacobianProvider(jp); dd->setMapping(map); }
    setTrimmer();
    s.note("ddir", ns.ddir + "/" + ns.jac + "/" + ns.jtrim); s.ev("n", {double(n)});

    D seen, dir; int refreshes = 0, depth = 0; bool emitted = false, post = false;
    dd->jacobianRefreshObservers.add([&](bool start) {
        s.tick();
        if (start) { s.check(depth == 0, "refresh-observers", "%s: Jacobian refresh starts twice", ns.ddir.c_str()); ++depth; ++refreshes; }
        else { s.check(depth == 1, "refresh-observers", "%s: Jacobian refresh ends without a start", ns.ddir.c_str()); --depth; }
    });
    D curX, curF;
    dd->jacobianObservers.add([&](const FSM& J, const V& x, const V& f) {
        emitted = true; seen.assign(n*n, 0.0);
        s.check(J.size().first == n && J.size().second == n, "size-of-Jacobian", "%s: Jacobian is %u by %u, expected %u", ns.ddir.c_str(), J.size().first, J.size().second, n);
        for (const auto& e : J) seen[e.first.first*n + e.first.second] = e.second;
        s.check(same(vec(x), curX) && same(vec(f), curF), "observer-arguments", "%s: Jacobian observer is given another point", ns.ddir.c_str());
    });
    dd->ddirPostObservers.add([&](const V& d) { post = true; dir = vec(d); });

    Model m; m.ddir = ns.ddir; m.n = n; m.lazy = ns.lazy;
    auto hardReset = [&] { m.haveJ = m.havePrev = false; m.known = true; m.action = 2; };
    dd->reset(true); hardReset();
    int solutions = s.range(1, 5);
    bool mustHard = false;
    for (int k = 0; k < solutions; ++k) {
        if (k) {
            bool hard = mustHard || s.chance(1, 3); mustHard = false;
            if (s.chance(1, 5)) {           // other equations
                unsigned n1 = s.chance(1, 2) ? n : s.range(1, 9);
                if (n1 != n) hard = true;
                if (hard) { n = m.n = n1; map->sp = drawMap(s, n); s.probe("other equations"); }
                else map->sp.b = drawMap(s, n).b;
            }
            if (s.chance(1, 5)) { ns.jtrim = s.pick({"", "width", "threshold"}); ns.width = s.range(0, 3); ns.threshold = s.pick({0.0, 0.1, 0.3}); setTrimmer(); s.probe("another trimmer"); hard = hard || ns.jac == "sparse"; }
            dd->reset(hard); m.havePrev = false;
            if (hard) hardReset();
            s.ev("reset", {double(hard), double(n)});
        }
        int its = s.range(1, 6); D x(n); for (auto& v : x) v = s.pick({0.0, 1.0, -0.5, 2.0, 0.1, -1.3});
        bool broken = false;
        for (int it = 0; it < its && !broken; ++it) {
            map->sp.value(curF, x); curX = x;
            if (s.chance(1, 8)) { s.probe("solution found"); curF.assign(n, 0.0); }
            bool throwing = s.chance(1, 6), nan = !throwing && s.chance(1, 10);
            map->arm(throwing ? (long)s.draw(n + 3) : -1, nan ? (long)s.draw(n + 3) : -1, nan ? 1 : 0);
            emitted = post = false; refreshes = depth = 0;
            V out; std::string what;
            auto r = guarded([&] { dd->computeDescentDirection(out, toV(curX), toV(curF), it); }, &what);
            s.ev("direction", {double(it), double((int)r), double(refreshes), double(map->calls)});
            // should the Jacobian be recomputed?
            bool re = ns.ddir == "simple" ? true : ns.ddir == "lazy-fake-broyden" ? it == 0 && (!m.haveJ || m.action == 2) : !m.haveJ;
            if (r == Thrown::Sim) {
                s.check(map->thrown, "internal", "unexpected exception %s", what.c_str());
                s.check(re, "needless-refresh", "%s: Jacobian is computed in iteration %d though it is there", ns.ddir.c_str(), it);
                s.nontrivial(); s.probe("exception in computation of a Jacobian");
                if (ns.ddir == "simple" && ns.jac == "sparse") {}
                broken = true; continue;    // as if it had not been tried
            }
            s.check(!map->thrown, "exception-swallowed", "%s: exception thrown by the mapping is swallowed", ns.ddir.c_str());
            if (r == Thrown::Lib) {
                s.check(!m.known || map->nan, "unexpected-exception", "%s/%s: %s", ns.ddir.c_str(), ns.jac.c_str(), what.c_str());
                mustHard = broken = true; continue;
            }
            s.check(refreshes == (re ? 1 : 0) && depth == 0, "refresh", "%s: Jacobian is %srefreshed in iteration %d, it should %sbe", ns.ddir.c_str(), refreshes ? "" : "not ", it, re ? "" : "not ");
            s.check(re ? map->calls >= 2 && map->calls <= (long)n + 1 : map->calls == 0, "evaluations", "%s/%s: mapping is evaluated %ld times, number of variables is %u, Jacobian is %srefreshed", ns.ddir.c_str(), ns.jac.c_str(), map->calls, n, re ? "" : "not ");
            s.check(emitted && post, "observers", "%s: %s observers are not called", ns.ddir.c_str(), emitted ? "direction" : "Jacobian");
            s.check(same(vec(out), dir), "observers", "%s: direction shown to observers differs from the result", ns.ddir.c_str());
            if (map->nan) { m.known = false; s.nontrivial(); if (ns.ddir != "simple") { mustHard = true; broken = true; } else if (ns.jac == "default") m.known = true; else mustHard = broken = true; continue; }
            if (re) {
                m.haveJ = true; map->sp.jac(m.J, x);
                if (!trim(ns, m.J, n)) s.discard("trimming depends on round-off");
                m.pat.assign(n*n, 0); for (unsigned i = 0; i < n*n; ++i) m.pat[i] = m.J[i] != 0;
                m.dJ.assign(n*n, 0.0);
                double df = 0; for (unsigned i = 0; i < n*n; ++i) df = std::max(df, std::fabs(seen[i] - m.J[i]));
                s.check(df <= 1e-4, "Jacobian", "%s/%s/%s: Jacobian differs from derivatives by %.3g", ns.ddir.c_str(), ns.jac.c_str(), ns.jtrim.c_str(), df);
                s.probe("Jacobian compared");
                m.J = seen;     // to avoid accumulation of differentiation errors
            } else if (ns.ddir == "const")
                s.check(maxDiff(seen, m.J) <= 1e-9, "Jacobian", "const: Jacobian has changed without a reset");
            D oldJ = m.J;
            bool upd = !re && m.havePrev;
            D dx, df; double dx2 = 0;
            if (upd) { dx = x; df = curF; for (unsigned i = 0; i < n; ++i) { dx[i] -= m.xprev[i]; df[i] -= m.fprev[i]; dx2 += dx[i]*dx[i]; } }
            auto left = [&](unsigned i) { double v = df[i]; for (unsigned j = 0; j < n; ++j) v -= oldJ[i*n + j]*dx[j]; return v / dx2; };
            if (upd && (ns.ddir == "broyden" || ns.ddir == "fake-broyden"))
                for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (ns.ddir == "broyden" || m.pat[i*n + j]) m.J[i*n + j] += left(i) * dx[j];
            if (upd && ns.ddir == "lazy-fake-broyden")
                for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (m.pat[i*n + j]) m.dJ[i*n + j] += left(i) * dx[j];
            if (ns.ddir == "lazy-fake-broyden" && it == 0 && m.action == 1) { for (unsigned i = 0; i < n*n; ++i) { m.J[i] += m.dJ[i]; m.dJ[i] = 0; } s.probe("delayed update"); }
            double scale = 1; for (double v : seen) scale = std::max(scale, std::fabs(v));
            if (ns.ddir == "hart") {
                if (upd) {
                    for (unsigned i = 0; i < n; ++i) {
                        double v = 0; for (unsigned j = 0; j < n; ++j) v += seen[i*n + j]*dx[j];
                        s.check(std::fabs(v - df[i]) <= 1e-7 * scale * (1 + std::sqrt(dx2)), "secant-condition", "hart: equation %u: updated Jacobian maps the last step to %.17g, the residual has changed by %.17g", i, v, df[i]);
                    }
                    s.probe("secant update");
                } else if (!re) s.check(maxDiff(seen, m.J) <= 1e-9*scale, "Jacobian", "hart: Jacobian has changed without a step");
                m.J = seen;
            } else {
                s.check(maxDiff(seen, m.J) <= 1e-7*scale, "update", "%s: Jacobian of iteration %d is not the updated one (difference %.3g)", ns.ddir.c_str(), it, maxDiff(seen, m.J));
                if (upd) s.probe("update");
                m.J = seen;
            }
            m.lastIt = it;
            // the direction
            double res = 0, big = 1; for (double v : dir) big = std::max(big, std::fabs(v));
            D A(seen); bool fine = finite(seen) && scale < 1e4; for (unsigned c = 0; c < n && fine; ++c) {
                double p = A[c*n + c]; if (!(std::fabs(p) > 1e-2)) { fine = false; break; }
                for (unsigned q = c + 1; q < n; ++q) { double f = A[q*n + c]/p; if (f != 0) for (unsigned j = c; j < n; ++j) A[q*n + j] -= f*A[c*n + j]; }
            }
            if (!fine) { mustHard = broken = true; s.probe("ill-conditioned"); continue; }
            for (unsigned i = 0; i < n; ++i) { double v = curF[i]; for (unsigned j = 0; j < n; ++j) v += seen[i*n + j]*dir[j]; res = std::max(res, std::fabs(v)); }
            s.check(res <= 1e-6 * scale * big, "direction", "%s/%s: direction %s does not solve the linear equations (residual %.3g)", ns.ddir.c_str(), ns.jac.c_str(), str(dir).c_str(), res);
            s.probe("direction compared"); if (k || it) s.nontrivial();
            m.xprev = x; m.fprev = curF; m.havePrev = ns.ddir != "simple" && ns.ddir != "const";
            double ratio = s.pick({1.0, 0.5, 0.25, -0.5}); bool moved = true;
            for (unsigned i = 0; i < n; ++i) { x[i] += ratio * (dir[i] + s.pick({0.0625, -0.125, 0.1})); if (!(std::fabs(x[i] - m.xprev[i]) > 1e-3)) x[i] = m.xprev[i] + 0.05; if (!(std::fabs(x[i]) < 10)) moved = false; }
            if (!moved) broken = true;
        }
        if (!broken) { bool ok = s.chance(3, 4); dd->reportSuccess(ok); if (ns.ddir == "lazy-fake-broyden") m.action = ok ? (m.lastIt + 1 <= ns.lazy ? 0 : 1) : 2; s.ev("report", {double(ok)}); }
    }
}

}
