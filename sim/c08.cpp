// C08: clocks influence neither solutions nor counters; interval accounting is exact
#include "world.h"
#include "ode_num_int/ode/interfaces/OdeNewtonSolver.h"
#include "ode_num_int/timing/TimerCalibrator.h"
#include "ode_num_int/timing/TimingStats.h"
namespace sim {

static const char* const modeName[] = { "frozen", "steady", "stalls", "jumps", "backward" };

static void setClock(Sim& s, int mode, uint64_t start, uint64_t rng) {
    clk = Clock(); clk.on = true; clk.mode = (Clock::Mode)mode; clk.tsc = start; clk.nsec = 5000000000ull; clk.rng = rng;
    if (mode) s.fault((std::string("clock-") + modeName[mode]).c_str());
}

static void execute(const SolverSpec& sp, const RhsSpec& rs, const V& x0, int n, const std::vector<std::pair<long,int>>& faults, std::vector<double>& h, uint64_t& reads) {
    World w; w.watchRhs = false;
    w.cx.onPoint = [&](Point p) { h.push_back(1000 + p); };
    w.build(sp, rs);
    // timing of the user's own callbacks, as output options do
    ctm::sys::TimingStats own; OpaqueTickCounter tc;
    w.rhs->odeRhsPreObservers.add([&](double, const V&, const OdeRhs<VD>*) { tc = OpaqueTickCounter(); tc.Start(); });
    w.rhs->odeRhsPostObservers.add([&](double, const V&, const V&, const OdeRhs<VD>*) { own.add(tc.Stop()); });
    w.solver->setInitialState(0, x0);
    for (int i = 0; i < n; ++i) {
        if (faults[i].first >= 0) w.cx.arm(faults[i].first, faults[i].second); else w.cx.disarm();
        auto r = guarded([&] { w.solver->doStep(); });
        h.push_back(int(r)); h.push_back(w.t());
        for (double v : w.x()) h.push_back(v);
    }
    for (auto& a : w.attempts) { h.push_back(a.h); h.push_back(a.accepted); h.push_back(a.err); h.push_back(a.izf); }
    auto& l = w.solver->luTimingStats;
    for (unsigned c : { l.factorizeTiming.count(), l.solveTiming.count(), l.setMatrixTiming.count(), l.setMatrixFastTiming.count(), l.updateTiming.count(), own.count(),
            w.solver->tstat0.count(), w.solver->tstat1.count(), w.solver->tstat2.count(), w.solver->tstat3.count(), w.solver->tstat4.count(), w.solver->tstat5.count(),
            w.solver->tstat6.count(), w.solver->tstat7.count(), w.solver->tstat8.count(), w.solver->tstat9.count() })
        h.push_back(c);
    reads = clk.reads;
}

static void solverPart(Sim& s) {
    SolverSpec sp = SolverSpec::draw(s);
    RhsSpec rs = RhsSpec::draw(s, true);
    V x0 = rs.drawState(s);
    int n = s.range(1, 4);
    std::vector<std::pair<long,int>> faults;
    for (int i = 0; i < n; ++i) faults.push_back(s.chance(1, 5) ? std::make_pair((long)s.draw(80), (int)s.draw(3)) : std::make_pair(-1L, 0));
    int mode = s.range(1, 4);
    s.note("solver", sp.str());
    std::vector<double> a, b;
    uint64_t ra = 0, rb = 0;
    setClock(s, 0, 1000, 1);
    execute(sp, rs, x0, n, faults, a, ra);
    setClock(s, mode, s.pick({1000u, 0u, 4000000000u}) + (s.chance(1, 4) ? 0xffffffffffff0000ull : 0), s.draw(1000) + 1);
    execute(sp, rs, x0, n, faults, b, rb);
    clk.on = false;
    size_t d = 0; while (d < a.size() && d < b.size() && sameBits(a[d], b[d])) ++d;
    s.check(a.size() == b.size() && d == a.size(), "clock-changes-history", "%s: history under '%s' clock differs from that under a frozen clock at item %u of %u: %.17g instead of %.17g",
        sp.str().c_str(), modeName[mode], (unsigned)d, (unsigned)a.size(), d < b.size() ? b[d] : -1., d < a.size() ? a[d] : -1.);
    for (double v : a) s.ev("", {v});
    s.ev("reads", {double(rb)});
    if (rb > 20) s.nontrivial();
}

static void timerPart(Sim& s) {
    using namespace ctm::sys;
    int mode = s.range(0, 4);
    setClock(s, mode, s.draw(100000), s.draw(1000) + 1);
    struct M { uint64_t t = 0; unsigned n = 0; } model[3];
    TimingStats st[3];
    OpaqueTickCounter tc; bool running = false; uint64_t start = 0;
    auto now = [&] { return clk.tsc; };     // the last reading
    auto same = [&](int i) {
        s.check(st[i].count() == model[i].n && st[i].time() == model[i].t, "interval-accounting", "statistics hold %llu ticks in %u intervals; intervals measured by the clock make %llu ticks in %u",
            (unsigned long long)st[i].time(), st[i].count(), (unsigned long long)model[i].t, model[i].n);
        s.check(st[i].averageTime() == (model[i].n ? model[i].t / model[i].n : 0), "average-time", "average of %llu ticks in %u intervals is %llu", (unsigned long long)model[i].t, model[i].n, (unsigned long long)st[i].averageTime());
    };
    int ops = s.range(5, 40);
    for (int k = 0; k < ops; ++k) {
        int i = s.draw(3), j = s.draw(3), op = s.draw(6);
        s.tick();
        if (op == 0) { if (!running) { tc.Start(); start = now(); running = true; } }
        else if (op == 1) { if (running) { uint64_t v = tc.Lap(); s.check(v == now() - start, "lap", "lap of %llu ticks is measured as %llu", (unsigned long long)(now() - start), (unsigned long long)v); start = now(); st[i].add(v); model[i].t += v; ++model[i].n; } }
        else if (op == 2) { if (running) { uint64_t v = tc.Stop(); s.check(v == now() - start, "stop", "interval of %llu ticks is measured as %llu", (unsigned long long)(now() - start), (unsigned long long)v); running = false; st[i].add(v); model[i].t += v; ++model[i].n; } }
        else if (op == 3) {
            uint64_t t1; bool thrown = s.chance(1, 2);
            try { ScopedTimeMeasurer m(st[i]); t1 = now(); OpaqueTickCounter dummy(true); if (thrown) { s.fault("throw-in-measured-scope"); throw SimFault("x"); } } catch (const SimFault&) {}
            model[i].t += now() - t1; ++model[i].n;
        }
        else if (op == 4) { st[i] += st[j]; uint64_t t = model[j].t; unsigned n = model[j].n; model[i].t += t; model[i].n += n; }
        else { st[i] = st[i] + st[j]; uint64_t t = model[j].t; unsigned n = model[j].n; model[i].t += t; model[i].n += n; }
        same(i); same(j);
        if (model[i].n) s.nontrivial();
        s.ev("op", {double(op), double(st[i].count()), double(st[i].time())});
    }
    // Calibrator
    uint64_t ms0 = clk.nsec;
    TimerCalibrator cal;
    uint64_t c0 = 0; (void)c0; (void)ms0;
    s.check(!cal.stopped() && !cal.toMsecAvailable(), "calibrator-early", "calibrator claims to be ready before it is stopped");
    // let the clock go by a drawn interval: ticks and milliseconds are independent of each other
    clk.mode = Clock::Frozen;
    uint64_t dt = s.pick({0u, 1u, 1000u, 100000000u, 4000000000u}), dms = s.pick({0u, 99u, 100u, 101u, 2500u, 3600000u});
    uint64_t base = clk.tsc, basens = clk.nsec;
    TimerCalibrator cal2;
    clk.tsc = base + dt; clk.nsec = basens + dms * 1000000ull;
    cal2.stop();
    bool avail = dms >= 100 && dt > 0;
    s.ev("calibrate", {double(dt), double(dms)});
    s.check(cal2.stopped() && cal2.toMsecAvailable() == avail, "calibrator-available", "conversion to milliseconds is %s after %llu ticks in %llu ms", cal2.toMsecAvailable() ? "available" : "not available", (unsigned long long)dt, (unsigned long long)dms);
    uint64_t q = s.pick({0u, 1u, 12345u, 4000000000u});
    if (avail) {
        double e = double(q) * double(dms) / double(dt), g = cal2.toMsec(q);
        s.check(std::fabs(g - e) <= 1e-9 * e, "calibrator-conversion", "%llu ticks are converted to %.17g ms, expected %.17g", (unsigned long long)q, g, e);
        std::string f = cal2.formatTimeInterval(q, false), ticks = fmt("%llu ticks = ", (unsigned long long)q), f2 = s.chance(1, 2) ? cal2.formatTimeInterval(q) : cal2.formatTimeInterval(q, true);
        auto msec = [&](const std::string& t) { char* end; double v = std::strtod(t.c_str(), &end); return std::fabs(v - e) <= 1e-5 * e && std::string(end) == " msec"; };
        s.check(f.compare(0, ticks.size(), ticks) == 0 && msec(f.substr(ticks.size())) && msec(f2), "calibrator-format", "interval of %llu ticks or %.17g ms is formatted as '%s' and '%s'", (unsigned long long)q, e, f.c_str(), f2.c_str());
    } else {
        bool thrown = false;
        try { cal2.toMsec(q); } catch (const std::exception&) { thrown = true; }
        s.check(thrown, "calibrator-conversion", "conversion is made after too short a calibration");
        std::string f = cal2.formatTimeInterval(q);
        s.check(f == fmt("%llu ticks", (unsigned long long)q), "calibrator-format", "interval of %llu ticks is formatted as '%s'", (unsigned long long)q, f.c_str());
    }
    // statistics of the components of a solver are put together
    struct Comp : ctm::math::OdeSolverComponent<VD> {
        std::map<std::string, TimingStats> m; explicit Comp(Solver& sl) : ctm::math::OdeSolverComponent<VD>(sl) {}
        std::map<std::string, TimingStats> timingStats() const { return m; }
    };
    auto solver = ctm::Factory<Solver>::newInstance(s.pick({"rk4", "dopri_45", "euler", "gragg"}));
    std::vector<std::unique_ptr<Comp>> comps; int nc = s.draw(4);
    for (int k = 0; k < nc; ++k) { comps.emplace_back(new Comp(*solver)); for (int q = s.draw(3); q > 0; --q) comps.back()->m[fmt("key%d", s.chance(1, 8) ? 0 : k*3 + q)] = st[s.draw(3)]; }
    if (nc && s.chance(1, 3)) comps.erase(comps.begin() + s.draw(nc));
    std::map<std::string, TimingStats> want; bool dup = false, thrown = false; size_t total = 0;
    for (auto& c : comps) for (auto& i : c->m) { ++total; dup = dup || want.count(i.first); want[i.first] = i.second; }
    std::map<std::string, TimingStats> got;
    try { got = solver->timingStats(); } catch (const std::exception&) { thrown = true; }
    s.check(thrown == dup, "component-statistics", "statistics of components with %s keys are %s", dup ? "equal" : "different", thrown ? "refused" : "accepted");
    if (!dup) {
        bool ok = got.size() == want.size(); for (auto& i : want) ok = ok && got.count(i.first) && got[i.first].time() == i.second.time() && got[i.first].count() == i.second.count();
        s.check(ok, "component-statistics", "solver tells %u statistics of its components, they have %u", (unsigned)got.size(), (unsigned)total);
    }
    if (total) s.probe(dup ? "components with equal keys" : "statistics of components");
    clk.on = false;
}

SCENARIO(C08, registerAll) {
    if (S_.chance(1, 4)) timerPart(S_); else solverPart(S_);
    clk.on = false;
}

}
