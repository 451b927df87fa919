// Runs solveOde with output options over a simulated disk and keeps an independent record of the history
#pragma once
#include "world.h"
#include "disk.h"
#include "ode_num_int/ode/OdeSolverConfiguration.h"
#include "ode_num_int/alg/interfaces/NewtonSolverInterface.h"
#include <iostream>
#include <sstream>
namespace sim {
using namespace ctm::math;
typedef OdeSolverConfiguration<VD> Config;
typedef OdeSolverComponents<VD> Components;

inline Components components(const std::shared_ptr<Solver>& s, const std::shared_ptr<OdeRhs<VD>>& r) {
    return Components(s, std::shared_ptr<Solver>(), r, std::shared_ptr<VectorNarrowingMapping<VD>>(), false, std::shared_ptr<VectorReorderingMapping<VD>>(), false,
        std::vector<unsigned>(), std::shared_ptr<MappingNormalizer<VD>>(), false);
}
struct OutSpec {
    std::string slot, type, file; unsigned lim = 5;
    bool stats() const { return type == "stats_full"; }
    static std::vector<OutSpec> draw(Sim& s, bool wantStats = false) {
        std::vector<OutSpec> r; bool con = false;
        for (const char* slot : {"output_stats", "output_con", "output_file"}) {
            if (!s.chance(2, 3)) continue;
            OutSpec o; o.slot = slot;
            o.type = s.pick({"con_solution", "con_general", "con_solution_columnwise", "stats_full"});
            if (wantStats && s.chance(2, 3)) o.type = "stats_full";
            o.lim = s.pick({5u, 0u, 1u, 2u, 3u});
            if (o.type == "con_solution_columnwise") o.lim = s.pick({10u, 3u, 0u, 1u, 100u});
            if (con || s.chance(3, 4)) o.file = fmt("/sim/f%u", (unsigned)r.size()); else con = true;
            r.push_back(o);
        }
        return r;
    }
};
// What outputs are to tell about: recorded by the simulator's own observers
struct HistEv { bool iter; World::Attempt a; unsigned it; double alpha; std::string msg; };
struct Hist {
    double t0 = 0; std::vector<double> x0;
    std::vector<HistEv> ev;
    unsigned rhs = 0, rhsJ = 0, jac = 0; bool inJ = false;
    std::vector<World::Attempt> attempts() const { std::vector<World::Attempt> r; for (auto& e : ev) if (!e.iter) r.push_back(e.a); return r; }
};
struct OutWorld {
    World w; Hist h;
    void record() {
        w.solver->odeSolverPostObservers.add([this](const OdeSolverPostObserverArg<VD>& a) {
            AllocGuard g; h.ev.push_back(HistEv{false, World::Attempt{a.stepSize(), a.stepAccepted(), a.stepSizeChanged(), a.stepTruncated(), a.errorNorm(), a.izfTrunc(), a.transitionType(), w.t(), w.x()}, 0, 0, ""}); });
        w.solver->iterationObservers.add([this](unsigned n, const NewtonSolverInterface<VD>* s) -> bool {
            AllocGuard g; auto p = s->iterationPerformer(); h.ev.push_back(HistEv{true, World::Attempt(), n, p->currentStepRatio(), p->errorEstimator()->currentStatusMessage()}); return false; });
        w.solver->jacobianRefreshObservers.add([this](bool start) { h.inJ = start; if (!start) ++h.jac; });
        w.rhs->odeRhsPostObservers.add([this](double, const V&, const V&, const OdeRhs<VD>*) { ++h.rhs; if (h.inJ) ++h.rhsJ; });
    }
    void start() { h = Hist(); h.t0 = w.t(); h.x0 = w.x(); }
};
inline std::string num(double d, bool file) { return fmt(file ? "%.16g" : "%g", d); }
// is it due to write at time t, having written at time last? Discards the run if that depends on round-off
inline bool due(Sim& s, double t, double last, double timing) {
    if (timing <= 0 || last == -INFINITY) return true;
    double r = (t - last) / timing - 1;
    bool exact = true; for (double v : {t, last, timing}) if (std::ldexp(v, 20) != std::floor(std::ldexp(v, 20))) exact = false;
    double p2 = std::log2(timing); if (p2 != std::floor(p2)) exact = false;
    if (!exact && std::fabs(r) < 1e-9) s.discard("output timing depends on round-off");
    return t - last >= timing;
}
inline std::string expectedText(Sim& s, const OutSpec& o, const Hist& h, const RhsSpec& rs, double timing) {
    bool f = !o.file.empty(); std::string r; double last = -INFINITY;
    unsigned n2 = rs.n2, n = rs.n();
    if (o.type == "con_general") {
        unsigned k = 0;
        for (auto& e : h.ev) {
            if (e.iter) { r += fmt("  Newton it. %u, alpha=", e.it + 1) + num(e.alpha, f) + ", " + e.msg + "\n"; continue; }
            ++k; auto& a = e.a;
            if (!a.truncated && !due(s, a.t, last, timing)) continue;
            last = a.t;
            r += fmt("step %u, time = ", k) + num(a.t, f) + ", h = " + num(a.h, f) + ", err = " + num(a.err, f) + ", " + (a.accepted ? "accepted" : "rejected");
            if (a.changed) r += ", step size changed";
            if (a.truncated) { r += ", step truncated"; if (a.izf != ~0u) r += fmt(" due to zf%u %c", a.izf, a.tt > 0 ? '+' : a.tt < 0 ? '-' : '?'); }
            r += "\n";
        }
    } else if (o.type == "con_solution") {
        std::vector<unsigned> idx;
        auto add = [&](unsigned b, unsigned e) { for (unsigned i = b; i < e; ++i) if (e - b <= 2*o.lim || i - b < o.lim || e - i <= o.lim) idx.push_back(i); };
        add(0, n2); add(n2, 2*n2); add(2*n2, n);
        r = "time"; for (unsigned i : idx) r += n2 == 0 || i < n2 ? fmt("\tx%u", i) : i < 2*n2 ? fmt("\tv%u", i - n2) : fmt("\tz%u", i - 2*n2);
        r += "\n";
        auto row = [&](double t, const std::vector<double>& x) { r += num(t, f); for (unsigned i : idx) r += "\t" + num(x[i], f); r += "\n"; last = t; };
        row(h.t0, h.x0);
        for (auto& e : h.ev) if (!e.iter && e.a.accepted && due(s, e.a.t, last, timing)) row(e.a.t, e.a.x);
    } else if (o.type == "con_solution_columnwise") {
        std::vector<std::pair<double, std::vector<double>>> c;
        auto acc = [&](double t, const std::vector<double>& x) { if (c.size() < o.lim && due(s, t, last, timing)) { c.push_back({t, x}); last = t; } };
        acc(h.t0, h.x0); for (auto& e : h.ev) if (!e.iter && e.a.accepted) acc(e.a.t, e.a.x);
        r = "index\tname"; for (size_t i = 0; i < c.size(); ++i) r += fmt("\tn%u", (unsigned)i); r += "\n-1\ttime";
        for (auto& q : c) r += "\t" + num(q.first, f); r += "\n";
        for (unsigned i = 0; i < n; ++i) { r += fmt(n < 10 ? "%u\tUNNAMED_%u" : "%u\tUNNAMED_%02u", i, i); for (auto& q : c) r += "\t" + num(q.second[i], f); r += "\n"; }
    }
    return r;
}
inline bool statNumber(const std::string& text, const std::string& key, double& v, std::string* rest = nullptr) {
    auto p = text.find("\n" + key); if (p == std::string::npos) return false;
    p += 1 + key.size(); auto e = text.find('\n', p); std::string l = text.substr(p, e - p); char* end; v = std::strtod(l.c_str(), &end); if (rest) *rest = end; return end != l.c_str();
}
inline void checkStats(Sim& s, const std::string& text0, const Hist& h, bool file, const std::string& who) {
    std::string text = "\n" + text0; double tol = file ? 1e-12 : 1e-5;
    unsigned n = 0, rej = 0, chg = 0, tr = 0; double sum = 0;
    for (auto& a : h.attempts()) { ++n; if (!a.accepted) ++rej; if (a.changed) ++chg; if (a.truncated) ++tr; if (a.accepted) sum += a.h; }
    auto want = [&](const char* key, double v, bool pct) {
        double x; std::string rest; s.check(statNumber(text, key, x, &rest), "stats-missing", "%s: no '%s' in statistics: %s", who.c_str(), key, text0.c_str());
        s.check(std::fabs(x - v) <= tol*std::fabs(v) || (v != v && x != x), "stats", "%s: %s%.17g, expected %.17g", who.c_str(), key, x, v);
        if (pct && n) { double p = -1; sscanf(rest.c_str(), " (%lf%%)", &p); s.check(std::fabs(p - 100.*v/n) <= 1e-5*100, "stats-percent", "%s: %s%g (%g%%) of %u", who.c_str(), key, x, p, n); }
    };
    want("Total steps: ", n, false); want("Rejected steps: ", rej, true); want("Step changes: ", chg, true); want("Truncated steps: ", tr, true);
    if (n > rej) want("Average step size: ", sum / (n - rej), false);
    want("Number of ODE RHS evaluations to refresh Jacobian: ", h.rhsJ, false);
    want("Total number of ODE RHS evaluations: ", h.rhs, false);
    double x; std::string rest; statNumber(text, "Total number of ODE RHS evaluations: ", x, &rest);
    double a = -1, b = -1; sscanf(rest.c_str(), " = %lf + %lf", &a, &b);
    s.check(a == h.rhs - h.rhsJ && b == h.rhsJ, "stats", "%s: %u RHS evaluations are told to be %g + %g, expected %u + %u", who.c_str(), h.rhs, a, b, h.rhs - h.rhsJ, h.rhsJ);
    auto count = [&](const char* key, double v) {
        auto p = text.find(std::string("\n") + key); if (p == std::string::npos) { s.check(v == 0, "stats", "%s: no timing of %g evaluations (%s)", who.c_str(), v, key); return; }
        auto q = text.find("count = ", p), e = text.find('\n', p + 1); s.check(q < e && std::strtod(text.c_str() + q + 8, nullptr) == v, "stats", "%s: %s: count is not %g: %s", who.c_str(), key, v, text.substr(p, e - p).c_str());
    };
    count("TIMING: ODE RHS", h.rhs); count("TIMING: Jacobian", h.jac);
}
// stdout of the simulated process; the stream buffer can fail
struct ConBuf : std::streambuf {
    std::string text; long failAt = -1, n = 0; bool failed = false;
    int_type overflow(int_type c) { char ch = (char)c; return xsputn(&ch, 1) == 1 ? c : traits_type::eof(); }
    std::streamsize xsputn(const char* p, std::streamsize k) { AllocGuard g; if (failAt >= 0 && n++ >= failAt) { if (!failed) S->fault("stdout-error"); failed = true; return 0; } text.append(p, k); return k; }
};
struct ConGuard {
    ConBuf b; std::streambuf* old; std::ios::fmtflags fl; std::streamsize pr;
    ConGuard() { std::cout.clear(); old = std::cout.rdbuf(&b); fl = std::cout.flags(); pr = std::cout.precision(); }
    ~ConGuard() { std::cout.rdbuf(old); std::cout.clear(); std::cout.flags(fl); std::cout.precision(pr); }
};
inline bool isPrefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
inline std::string firstDiff(const std::string& a, const std::string& b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t l = a.rfind('\n', i ? i - 1 : 0); l = l == std::string::npos || i == 0 ? 0 : l + 1;
    return "'" + a.substr(l, 100) + "', expected '" + b.substr(l, 100) + "'";
}
} // namespace sim
