// C12: output files tell the true history, and nothing gets lost silently
#include "outs.h"
namespace sim {
static void init12() { registerAll(); regOut(); }

static void scenario(Sim& s, bool stats) {
    SolverSpec sp = SolverSpec::draw(s); sp.h = s.pick({0.125, 0.25, 0.05, 0.0625});
    RhsSpec rs = RhsSpec::draw(s, true, s.chance(1, 3) ? 6 : 2, s.chance(1, 3) ? 5 : 2);
    V x0 = rs.drawState(s);
    auto outs = OutSpec::draw(s, stats);
    double duration, timing;
    double t0 = s.pick({0.0, 1.0, -0.5, 0.1});
    s.note("solver", sp.str());
    Config cfg;
    cfg.setValue("solver", "");
    auto timings = [&] {
        int steps = s.range(1, stats ? 20 : 8);
        duration = sp.h * (steps - (s.chance(1, 2) ? 0 : 0.5));
        timing = s.pick({0.0, 0.125, 0.25, 0.5, 0.3, 0.07, -1.0});
        cfg.setValue("time", duration); cfg.setValue("output_timing", timing);
    };
    auto parameters = [&](const OutSpec& o) {
        cfg.setValue(o.slot + ".file_name", o.file);
        if (o.type == "con_solution") cfg.setValue(o.slot + ".size_half_lim", o.lim);
        if (o.type == "con_solution_columnwise") cfg.setValue(o.slot + ".max_steps", o.lim);
    };
    timings();
    for (auto& o : outs) { cfg.setValue(o.slot, o.type); parameters(o); s.shape(o.type.c_str()); }
    clk.on = true; clk.mode = (Clock::Mode)s.draw(5); clk.nsec = 5000000000ull;
    std::unique_ptr<OutWorld> ow, tw;   // the twin has no outputs
    std::unique_ptr<Components> comp;
    auto build = [&] {
        for (auto p : {&ow, &tw}) { p->reset(new OutWorld); (*p)->w.build(sp, rs); (*p)->record(); (*p)->w.solver->setInitialState(t0, x0); }
        comp.reset(new Components(components(ow->w.solver, ow->w.rhs)));
    };
    build();
    int rounds = s.range(1, 3);
    for (int round = 0; round < rounds; ++round) {
        // ---- the next solution may be another one, with other outputs or the same ones told otherwise
        if (round && s.chance(1, 3)) {
            s.probe("another-configuration"); clk.on = false;
            if (s.chance(1, 2)) {
                sp = SolverSpec::draw(s); sp.h = s.pick({0.125, 0.25, 0.05, 0.0625}); rs = RhsSpec::draw(s, true, s.chance(1, 3) ? 6 : 2, s.chance(1, 3) ? 5 : 2); x0 = rs.drawState(s);
                build(); s.probe("another-system"); timings();
            }
            if (s.chance(1, 2)) timings();
            switch (s.draw(3)) {
                case 0: break;
                case 1: for (auto& o : outs) { if (!o.file.empty()) o.file = fmt("/sim/g%d_%s", round, o.slot.c_str()); if (o.type == "con_solution") o.lim = s.pick({5u, 0u, 1u, 2u, 3u}); if (o.type == "con_solution_columnwise") o.lim = s.pick({10u, 3u, 0u, 1u, 100u}); parameters(o); } break;
                case 2: for (auto& o : outs) if (s.chance(1, 2)) cfg.setValue(o.slot, "");
                    { auto old = outs; outs = OutSpec::draw(s, stats); for (auto& o : old) { bool kept = false; for (auto& q : outs) if (q.slot == o.slot) kept = true; if (!kept) cfg.setValue(o.slot, ""); } }
                    for (auto& o : outs) { cfg.setValue(o.slot, o.type); parameters(o); } break;
            }
            clk.on = true;
        }
        // ---- faults of this round
        long simAt = s.chance(1, 5) ? s.draw(s.chance(1, 2) ? 40 : 400) : 1500; int flavor = s.draw(3);     // runs are bounded
        disk.reset(); disk.rng = s.draw(100000);
        unsigned nf = 0; for (auto& o : outs) if (!o.file.empty()) ++nf;
        switch (s.draw(8)) {
            case 1: disk.openFailAt = s.draw(nf + 1); disk.openErr = s.pick({13, 28, 24}); break;
            case 2: disk.capacity = s.draw(s.chance(1, 2) ? 200 : 3000); break;
            case 3: disk.ioErrAt = s.draw(s.chance(1, 2) ? 4 : 40); disk.ioErr = s.pick({5, 28}); disk.ioErrSticky = s.chance(1, 2); break;
            case 4: disk.closeFailAt = s.draw(nf + 1); break;
            default: break;
        }
        if (s.chance(1, 4)) disk.shortWrites = s.range(1, 3);
        if (s.chance(1, 4)) disk.eintr = s.range(2, 4);
        for (auto p : {ow.get(), tw.get()}) { p->start(); if (simAt >= 0) p->w.cx.arm(simAt, flavor); else p->w.cx.disarm(); }
        // ---- the twin
        std::string what1, what2;
        auto r2 = guarded([&] { double end = tw->w.t() + duration; do tw->w.solver->doStep(); while (tw->w.t() < end); }, &what2);
        // ---- the real thing
        std::string con, flags; Thrown r1; bool conFail;
        bool al = r2 == Thrown::None && simAt == 1500 && disk.openFailAt < 0 && disk.capacity < 0 && disk.ioErrAt < 0 && disk.closeFailAt < 0 && s.chance(1, 5);
        for (auto& o : outs) if (o.file.empty()) al = false;      // errors of stdout are not reported
        long alAt = al ? s.draw(s.chance(1, 2) ? 60 : 1500) : 0; alloc.fired = false;
        {
            ConGuard cg; if (s.chance(1, 6)) cg.b.failAt = s.draw(30);
            std::ostringstream ref; 
            r1 = guarded([&] { if (al) { alloc.countdown = alAt; alloc.armed = true; } try { solveOde(&cfg, comp.get()); } catch (...) { alloc.armed = false; throw; } alloc.armed = false; }, &what1);
            con = cg.b.text; conFail = cg.b.failed;
            s.check(std::cout.flags() == cg.fl && std::cout.precision() == cg.pr, "cout-format", "format of std::cout is changed by output");
        }
        clk.on = false;
        bool openFailed = false; for (auto& f : disk.failed) if (f.second == "open") openFailed = true;
        std::string ctx = fmt("round %d of %s", round, sp.str().c_str());
        s.check(disk.openNow == 0, "file-left-open", "%s: %ld files are left open", ctx.c_str(), disk.openNow);
        s.note("result", fmt("%d %d %s | %s", int(r1), int(r2), what1.c_str(), what2.c_str()));
        if (alloc.fired) {
            s.fault("allocation-failure"); s.probe(r1 == Thrown::None ? "allocation-failure-survived" : "allocation-failure-reported");
            if (r1 == Thrown::None) s.check(ow->w.t() == tw->w.t() && same(ow->w.x(), tw->w.x()), "solution", "%s: another solution after an allocation failure", ctx.c_str());
        } else if (openFailed) {
            s.check(r1 == Thrown::Lib, "open-error-lost", "%s: output file could not be opened, and solveOde returned %d (%s)", ctx.c_str(), int(r1), what1.c_str());
            s.check(ow->h.ev.empty() && ow->w.t() == ow->h.t0 && same(ow->w.x(), ow->h.x0), "open-error-steps", "%s: output file could not be opened, but the solver was run", ctx.c_str());
        } else {
            // ---- outputs and disk do not influence the solution
            s.check(r2 == Thrown::None || r1 == r2 && what1 == what2, "exception", "%s: exception '%s' instead of '%s'", ctx.c_str(), what1.c_str(), what2.c_str());
            s.check(ow->w.t() == tw->w.t() && same(ow->w.x(), tw->w.x()), "solution", "%s: solution with outputs ends at t=%.17g %s, without at t=%.17g %s", ctx.c_str(), ow->w.t(), str(ow->w.x()).c_str(), tw->w.t(), str(tw->w.x()).c_str());
            s.check(ow->h.ev.size() == tw->h.ev.size() && ow->h.rhs == tw->h.rhs, "history", "%s: %u events and %u evaluations with outputs, %u and %u without", ctx.c_str(), (unsigned)ow->h.ev.size(), ow->h.rhs, (unsigned)tw->h.ev.size(), tw->h.rhs);
            if (r2 == Thrown::None) {
                if (disk.failed.empty()) s.check(r1 == Thrown::None, "false-error", "%s: exception '%s', although nothing failed", ctx.c_str(), what1.c_str());
                else s.check(r1 == Thrown::Lib, "disk-error-lost", "%s: disk error (%s of %s), and solveOde did not report it (%d %s)", ctx.c_str(), disk.failed.begin()->second.c_str(), disk.failed.begin()->first.c_str(), int(r1), what1.c_str());
            }
        }
        if (r2 != Thrown::None) s.probe("aborted"); else s.probe("completed");
        // ---- what has been written
        bool before = openFailed; // outputs initialized before the failed one have an empty history to tell
        for (auto& o : outs) {
            bool isF = !o.file.empty();
            if (before && isF && disk.failed.count(o.file) && disk.failed[o.file] == "open") break;    // the following ones have not been initialized
            std::string got = isF ? disk.files[o.file] : con;
            bool lost = isF ? disk.failed.count(o.file) && disk.failed[o.file] != "close" : conFail;
            if (alloc.fired && r1 != Thrown::None) { if (o.stats() || o.type == "con_solution_columnwise" || !disk.files.count(o.file)) continue; lost = true; }
            if (o.stats()) { if (!lost) { checkStats(s, got, ow->h, isF, ctx); s.probe("stats"); } }
            else {
                std::string want = expectedText(s, o, ow->h, rs, timing);
                if (lost && isF && disk.failed[o.file] == "write" && !disk.ioErrSticky) { s.probe("transient-error"); continue; }   // the standard library writes its buffer once more when the file is closed
                if (lost) { s.check(isPrefix(got, want), "not-a-prefix", "%s: %s after a disk error: %s", ctx.c_str(), o.type.c_str(), firstDiff(got, want).c_str()); s.probe("prefix"); }
                else { s.check(got == want, "content", "%s: %s: %s", ctx.c_str(), o.type.c_str(), firstDiff(got, want).c_str()); s.probe("content"); }
            }
        }
        s.simTime += ow->w.t() - ow->h.t0;
        if (!outs.empty() && ow->h.attempts().size() > 1) s.nontrivial();
        for (auto& e : ow->h.ev) s.ev(e.iter ? "it" : "step", {e.a.t, e.a.h});
        if (openFailed && round + 1 < rounds) {  // the twin has gone ahead
            tw.reset(new OutWorld); tw->w.build(sp, rs); tw->record(); tw->w.solver->setInitialState(t0, x0);
            ow->w.solver->setInitialState(t0, x0);
            if (!sp.exact()) break;
        }
        if (alloc.fired) break;
        if (r2 == Thrown::Sim && round + 1 < rounds) { for (auto p : {ow.get(), tw.get()}) { p->w.cx.disarm(); p->w.solver->setInitialState(t0 + 1, x0); } }
        clk.on = true;
    }
    // nothing is attached to the solver any more
    for (auto& o : outs) cfg.setValue(o.slot, "");
    std::map<std::string, std::string> files = disk.files;
    ow->w.cx.disarm();
    guarded([&] { ow->w.solver->doStep(); });
    s.check(files == disk.files, "still-attached", "output is written by a step after solveOde");
}
SCENARIO(C12, init12) { scenario(S_, false); }
SCENARIO(C13, init12) { scenario(S_, true); }
} // namespace sim
