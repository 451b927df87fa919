// C16: Richardson error estimation reports the errors of the steps really made
#include "world.h"
#include <cstring>
#include <new>
#include "ode_num_int/ode/util/RichardsonErrorCalculator.h"
namespace sim {
using namespace ctm::math;
struct Sample { double t, h; std::vector<double> e; };
struct Ref {
    std::vector<Sample> samples; std::vector<double> mx, sum, sq; unsigned skipped = 0;
    // the same work with the public interface of a solver
    static Ref make(Sim& s, World& w, double T, double h) {
        Ref r; auto& sv = *w.solver;
        Parameters p; p["disable_error_check"] = true; sv.setParameters(p);
        auto x = w.x(); double t = w.t(), end = t + T; int order = sv.order(); double f = std::ldexp(1., order) / (std::ldexp(1., order) - 1);
        r.mx = r.sum = r.sq = std::vector<double>(x.size());
        auto run = [&](double hh, int k) { V v(x.size()); std::copy(x.begin(), x.end(), v.begin()); sv.setInitialState(t, v, true); sv.setInitialStepSize(hh); while (k--) sv.doStep(); return w.x(); };
        do {
            size_t n0 = w.attempts.size();
            auto x1 = run(0.5*h, 2), x2 = run(h, 1);
            bool skip = false; for (size_t i = n0; i < w.attempts.size(); ++i) if (!w.attempts[i].accepted || w.attempts[i].truncated) skip = true;
            if (!skip) {
                Sample q{t, h, x1}; for (size_t i = 0; i < x1.size(); ++i) { double e = (x1[i] - x2[i])*f; q.e[i] = e; e = std::fabs(e); r.mx[i] = std::max(r.mx[i], e); r.sum[i] += e; r.sq[i] += e*e; }
                r.samples.push_back(q);
            } else ++r.skipped;
            x = x1; t += h;
            if (!finite(x)) s.discard("the solution is not finite");
        } while (t < end);
        return r;
    }
};
static bool near(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-12 + 1e-11*std::fabs(b[i]))) return false;
    return true;
}
// statistics of numbers: any sequence of samples and sums
static bool nearTo(double a, double b, double scale) { return sameBits(a, b) || std::fabs(a - b) <= 1e-11 * scale; }
static double deviation(const std::vector<double>& e, double& mx) {
    double m = 0, d = 0; mx = 0; for (double v : e) { m += std::fabs(v); mx = std::max(mx, std::fabs(v)); } m /= e.size();
    for (double v : e) d += (std::fabs(v) - m) * (std::fabs(v) - m);
    return std::sqrt(d / e.size());
}
static void numbers(Sim& s) {
    typedef ErrorStats<double> E; const int N = 3;
    alignas(E) unsigned char mem[N][sizeof(E)]; std::vector<double> e[N]; E* st[N];
    auto fresh = [&](int i) { memset(mem[i], s.pick({0, 0xff, 0x41, 0x7f}), sizeof(E)); int how = s.draw(3); if (how == 2) st[i] = new (mem[i]) E(0, 0, 0, 0); else if (how == 1) st[i] = new (mem[i]) E(0.); else st[i] = new (mem[i]) E; e[i].clear(); };
    for (int i = 0; i < N; ++i) fresh(i);
    for (int k = s.range(3, 20); k--;) {
        int i = s.draw(N), j = s.draw(N);
        switch (s.draw(8)) {
            default: { double v = s.range(-50, 50) * std::ldexp(1., s.range(-8, 3)); st[i]->addSample(v); e[i].push_back(v); break; }
            case 5: { auto t = e[j]; *st[i] += *st[j]; e[i].insert(e[i].end(), t.begin(), t.end()); break; }
            case 6: { auto t = e[i]; t.insert(t.end(), e[j].begin(), e[j].end()); E q = *st[i] + *st[j]; *st[i] = q; e[i] = t; break; }
            case 7: fresh(i);
        }
        s.tick(); s.ev("number", {double(i), double(e[i].size())});
        for (int q = 0; q < N; ++q) {
            double mx = 0, sum = 0, sq = 0; for (double v : e[q]) { mx = std::max(mx, std::fabs(v)); sum += std::fabs(v); sq += v * v; }
            E& x = *st[q];
            s.check(x.sampleCount() == e[q].size() && sameBits(x.errorMaxValue(), mx) && nearTo(x.errorSum(), sum, sum) && nearTo(x.errorSquareSum(), sq, sq), "statistics", "statistics of %u numbers: %u samples, max %g, sum %g, sum of squares %g, expected %g, %g, %g",
                (unsigned)e[q].size(), x.sampleCount(), x.errorMaxValue(), x.errorSum(), x.errorSquareSum(), mx, sum, sq);
            if (e[q].empty()) continue;
            double d = deviation(e[q], mx);
            s.check(nearTo(x.errorMeanValue(), sum / e[q].size(), mx), "statistics", "mean of %u numbers is %g, expected %g", (unsigned)e[q].size(), x.errorMeanValue(), sum / e[q].size());
            s.check(std::fabs(x.errorMeanSqareDev() - d) <= 1e-6 * mx, "statistics", "mean square deviation of %u numbers is %g, expected %g", (unsigned)e[q].size(), x.errorMeanSqareDev(), d);
        }
    }
    s.probe("statistics of numbers"); s.nontrivial();
}
SCENARIO(C16, registerAll) {
    Sim& s = S_;
    if (s.draw(16) == 15) return numbers(s);
    SolverSpec sp = SolverSpec::draw(s); sp.noErr = s.chance(1, 2);
    RhsSpec rs = RhsSpec::draw(s, true);
    V x0 = rs.drawState(s), x1 = rs.drawState(s);
    double t0 = s.pick({0.0, 1.0, -2.5});
    s.note("solver", sp.str());
    World a, b; a.build(sp, rs); b.build(sp, rs);
    RichardsonErrorCalculator<VD> rc; rc.setOdeSolver(b.solver);
    std::vector<Sample> got; long obsFail = -1; bool obsFired = false;
    rc.stepObservers.add([&](double t, double h, const V& e) { got.push_back({t, h, vec(e)}); if (obsFail-- == 0) { obsFired = true; s.fault("throw:estimate-observer"); throw SimFault("estimate observer"); } });
    int rounds = s.range(1, 3);
    ErrorStats<V> total = ErrorStats<V>(V(rs.n())); std::vector<double> tmx(rs.n()), tsum(rs.n()), tsq(rs.n()); unsigned tn = 0;
    for (int k = 0; k < rounds; ++k) {
        double h = s.pick({0.125, 0.05, 0.3, 0.01, 0.5}), T = h * (s.range(1, 6) - (s.chance(1, 2) ? 0.5 : 0)); if (s.chance(1, 20)) T = 0;
        const V& x = k == 1 ? x1 : x0;
        std::string what; Ref r;
        a.solver->setInitialState(t0 + k, x); a.cx.arm(3000); a.attempts.clear();
        if (guarded([&] { r = Ref::make(s, a, T, h); }, &what) != Thrown::None) s.discard("reference execution is rejected by the library");
        long points = 0; points = a.cx.counter;
        std::string ctx = fmt("round %d of %s, T=%g h=%g", k, sp.str().c_str(), T, h);
        for (int f = s.draw(3); ; --f) {
            b.solver->setInitialState(t0 + k, x); got.clear(); b.attempts.clear(); obsFired = false;
            obsFail = -1; b.cx.disarm();
            if (f > 0) { if (s.chance(1, 4) && !r.samples.empty()) obsFail = s.draw(r.samples.size()); else b.cx.arm(s.draw(points), s.draw(3)); }
            ErrorStats<V> st; Thrown th = guarded([&] { ErrorStats<V> q = rc.calculateError(T, h); total += q; st = q; }, &what);
            bool fired = b.cx.fired || obsFired; b.cx.disarm(); obsFail = -1;
            s.ev("estimate", {double(int(th)), double(got.size())});
            // samples told, also in a failed estimation, are right
            s.check(got.size() <= r.samples.size() && (th != Thrown::None || got.size() == r.samples.size()), "sample-count", "%s: %u estimates, expected %u (%u steps with events are skipped)", ctx.c_str(), (unsigned)got.size(), (unsigned)r.samples.size(), r.skipped);
            for (size_t i = 0; i < got.size(); ++i)
                s.check(sameBits(got[i].t, r.samples[i].t) && sameBits(got[i].h, h) && near(got[i].e, r.samples[i].e), "sample", "%s: estimate %u at t=%.17g h=%g is %s, expected at t=%.17g %s", ctx.c_str(), (unsigned)i, got[i].t, got[i].h, str(got[i].e).c_str(), r.samples[i].t, str(r.samples[i].e).c_str());
            // nothing is left attached to the solver
            std::string w2; if (guarded([&] { b.solver->doStep(); }, &w2) != Thrown::None && th == Thrown::None) s.probe("step after estimation throws");
            if (th != Thrown::None) {
                s.check(fired && th == Thrown::Sim, "unexpected-exception", "%s: exception '%s', although the reference makes all the steps", ctx.c_str(), what.c_str());
                s.nontrivial(); s.probe("failed estimation repeated"); continue;
            }
            s.check(!fired, "exception-lost", "%s: an exception is lost", ctx.c_str());
            s.check(st.sampleCount() == r.samples.size() && near(vec(st.errorMaxValue()), r.mx) && near(vec(st.errorSum()), r.sum) && near(vec(st.errorSquareSum()), r.sq), "statistics", "%s: statistics of %u samples: max %s sum %s, expected %u: max %s sum %s",
                ctx.c_str(), st.sampleCount(), str(vec(st.errorMaxValue())).c_str(), str(vec(st.errorSum())).c_str(), (unsigned)r.samples.size(), str(r.mx).c_str(), str(r.sum).c_str());
            if (st.sampleCount()) { auto m = r.sum; for (auto& v : m) v /= r.samples.size(); s.check(near(vec(st.errorMeanValue()), m), "statistics", "%s: mean error", ctx.c_str());
                auto dev = vec(st.errorMeanSqareDev());
                for (unsigned i = 0; i < rs.n(); ++i) { std::vector<double> e; double mx; for (auto& q : r.samples) e.push_back(q.e[i]); double d = deviation(e, mx);
                    s.check(std::fabs(dev[i] - d) <= 1e-12 + 1e-6 * mx, "statistics", "%s: mean square deviation of variable %u is %g, expected %g", ctx.c_str(), i, dev[i], d); } }
            for (unsigned i = 0; i < rs.n(); ++i) { tmx[i] = std::max(tmx[i], r.mx[i]); tsum[i] += r.sum[i]; tsq[i] += r.sq[i]; } tn += r.samples.size();
            break;
        }
        if (r.skipped) s.probe("event");
        if (r.samples.size() > 1) s.nontrivial();
        s.simTime += T;
    }
    s.check(total.sampleCount() == tn && near(vec(total.errorMaxValue()), tmx) && near(vec(total.errorSum()), tsum) && near(vec(total.errorSquareSum()), tsq), "statistics-total", "%s: statistics do not add up", sp.str().c_str());
}
}
