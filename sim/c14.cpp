// C14: observers are notified in order, exactly once, whatever observers do during notification
#include "world.h"
#include "ode_num_int/infra/cxx_observers.h"
#include "ode_num_int/infra/def_prop_class.h"
#include "ode_num_int/ode/interfaces/OdeNewtonSolver.h"
#include "ode_num_int/alg/interfaces/NewtonIterationPerformer.h"
namespace sim {

using namespace ctm::cxx;
using namespace ctm::math;
using ctm::Factory;

// Two sequences of observers; the second one may be forwarded from the first one
struct Obs {
    Sim& s;
    struct Item { int uid, id; unsigned seq; };
    struct Note { int arg; int lastUid; std::set<int> start, called; bool ok; };
    bool terminating;
    Observers<int> plain[2]; TerminatingObservers<int> term[2];
    std::vector<Item> items[2];          // registered, in order of registration
    std::vector<Note> stack[2];          // notifications in progress
    int nextUid = 1, depth = 0, ops = 0;
    typedef ScopedIdentifiedElement<std::function<void(int)>> ScopedPlain;
    typedef ScopedIdentifiedElement<std::function<bool(int)>> ScopedTerm;
    struct Scoped { unsigned seq; int uid; std::unique_ptr<ScopedPlain> p; std::unique_ptr<ScopedTerm> t; };
    std::vector<Scoped> scoped;

    Obs(Sim& s) : s(s), terminating(s.chance(1, 2)) {}

    bool alive(unsigned q, int uid) { for (auto& i : items[q]) if (i.uid == uid) return true; return false; }

    struct Cb {       // copied together with the callback: its memory is checked after the observer is removed by itself
        Obs* o; unsigned q; int uid; std::vector<int> canary;
        Cb(Obs* o, unsigned q, int uid) : o(o), q(q), uid(uid), canary(8, uid) {}
        bool operator()(int arg) const {
            AllocGuard guard;
            auto& s = o->s; s.tick();
            s.check(!o->stack[q].empty(), "call-without-notification", "observer %d called outside of a notification", uid);
            auto& n = o->stack[q].back();
            s.check(arg == n.arg, "argument", "observer %d is given %d, notification is made with %d", uid, arg, n.arg);
            s.check(o->alive(q, uid), "removed-observer-called", "observer %d is called after it has been removed", uid);
            s.check(n.called.insert(uid).second, "called-twice", "observer %d is called twice in a notification", uid);
            s.check(uid > n.lastUid, "order", "observer %d is called after observer %d, which is registered later", uid, n.lastUid);
            for (auto& i : o->items[q]) if (i.uid < uid && n.start.count(i.uid))
                s.check(n.called.count(i.uid), "skipped", "observer %d is called, observer %d registered earlier is skipped", uid, i.uid);
            n.lastUid = uid;
            s.ev("call", {double(uid), double(arg)});
            size_t level = o->stack[q].size();
            bool ret = s.chance(1, 3);
            if (ret) o->stack[q].back().ok = true;
            for (int k = s.draw(3); k > 0; --k) o->action();
            if (s.chance(1, 16)) { s.fault("throw-in-observer"); throw SimFault(fmt("observer %d", uid)); }
            s.check(o->stack[q].size() == level, "internal", "unbalanced notifications");
            for (int c : canary) s.check(c == uid, "observer-destroyed-during-call", "memory of observer %d is gone while it is being called", uid);
            return ret;
        }
        void operator()(long) const {}
    };

    void add(unsigned q, bool scope) {
        int uid = nextUid++; Cb cb(this, q, uid); int id = 0;
        bool oom = s.chance(1, 5);
        if (oom) {       // registration that fails leaves the sequence as it is
            bool thrown = false; alloc.fired = false;
            { AllocGuard g; alloc.countdown = s.draw(6); alloc.fired = false; alloc.armed = true;
              try { if (scope) { if (terminating) ScopedTerm(makeScopedIdentifiedElement(term[q], cb)); else ScopedPlain(makeScopedIdentifiedElement(plain[q], [cb](int a) { cb(a); })); }
                    else if (terminating) id = term[q].add(cb); else id = plain[q].add([cb](int a) { cb(a); }); }
              catch (const std::bad_alloc&) { thrown = true; }
              alloc.armed = false; }
            bool fired = alloc.fired; alloc.fired = false;
            s.check(fired == thrown, "exception-swallowed", "allocation failure is swallowed by registration of an observer");
            if (thrown) { s.fault("allocation-failure"); s.ev("add fails"); return; }
            if (scope) { s.ev("scope ends"); return; }
        } else if (scope) {
            Scoped x; x.seq = q; x.uid = uid;
            if (terminating) x.t.reset(new ScopedTerm(makeScopedIdentifiedElement(term[q], cb)));
            else x.p.reset(new ScopedPlain(makeScopedIdentifiedElement(plain[q], [cb](int a) { cb(a); })));
            scoped.push_back(std::move(x)); id = -1;
        } else
            id = terminating ? term[q].add(cb) : plain[q].add([cb](int a) { cb(a); });
        for (auto& i : items[q]) s.check(id == -1 || i.id != id, "identifier-in-use", "observer is given identifier %d of another observer", id);
        items[q].push_back(Item{uid, id, q});
        s.ev("add", {double(q), double(uid)});
    }

    void remove(unsigned q) {
        if (items[q].empty()) return;
        unsigned k = s.draw(items[q].size());
        Item it = items[q][k];
        items[q].erase(items[q].begin() + k);
        s.ev("remove", {double(q), double(it.uid)});
        if (depth) s.fault("removed-during-notification");
        if (it.id == -1) {
            for (size_t i = 0; i < scoped.size(); ++i) if (scoped[i].uid == it.uid) {
                if (s.chance(1, 2)) { if (scoped[i].p) scoped[i].p->finish(); else scoped[i].t->finish(); }
                Scoped x = std::move(scoped[i]); scoped.erase(scoped.begin() + i);
                return;
            }
        } else if (terminating) term[q].remove(it.id); else plain[q].remove(it.id);
    }

    void notify(unsigned q) {
        if (depth >= 3) return;
        ++depth;
        if (depth > 1) s.fault("nested-notification");
        Note n; n.arg = s.draw(1000); n.lastUid = 0; n.ok = false;
        for (auto& i : items[q]) n.start.insert(i.uid);
        stack[q].push_back(n);
        size_t level = stack[q].size();
        bool thrown = false, result = false;
        std::string what;
        bool oom = depth == 1 && s.chance(1, 10);
        if (oom) { alloc.countdown = s.draw(10); alloc.fired = false; alloc.armed = true; }
        try { if (terminating) result = term[q](n.arg); else plain[q](n.arg); alloc.armed = false; }
        catch (const SimFault& e) { alloc.armed = false; thrown = true; what = e.what(); }
        catch (const std::bad_alloc& e) { alloc.armed = false; thrown = true; s.check(oom && alloc.fired, "exception", "unexpected exception of a notification"); s.fault("allocation-failure"); }
        catch (...) { alloc.armed = false; throw; }
        if (oom) { s.check(!alloc.fired || thrown, "exception-swallowed", "allocation failure is swallowed by a notification"); alloc.fired = false; }
        s.check(stack[q].size() == level, "internal", "unbalanced notifications");
        n = stack[q].back(); stack[q].pop_back(); --depth;
        if (thrown) {
            if (depth == 0) s.probe("notification ended by an exception");
            if (depth && s.chance(1, 2)) throw SimFault(what);
        } else {
            for (auto& i : items[q]) if (n.start.count(i.uid)) s.check(n.called.count(i.uid), "skipped", "observer %d registered before the notification is not called", i.uid);
            if (terminating) s.check(result == n.ok, "result", "notification returns %d; at least one observer has returned true: %d", result, n.ok);
        }
        s.ev("notified", {double(q), double(n.called.size())});
        if (n.called.size() > 1) s.nontrivial();
    }

    void action() {
        if (++ops > 200) return;
        unsigned q = s.draw(2);
        switch (s.draw(6)) {
            case 0: case 1: if (items[q].size() < 6) { if (depth) s.fault("added-during-notification"); add(q, s.chance(1, 3)); } break;
            case 2: remove(q); break;
            case 3: notify(q); break;
            case 4: if (s.chance(1, 8)) { bool anyScoped = false; for (auto& i : items[q]) if (i.id == -1) anyScoped = true;
                    if (!anyScoped) { if (terminating) term[q].clear(); else plain[q].clear(); items[q].clear(); s.ev("clear", {double(q)}); if (depth) s.fault("cleared-during-notification"); } } break;
            default: break;
        }
    }
};

static void observersPart(Sim& s) {
    Obs o(s);
    int n = s.range(3, 30);
    for (int i = 0; i < n; ++i) {
        o.action();
        for (unsigned q = 0; q < 2; ++q) s.check((o.terminating ? o.term[q].empty() : o.plain[q].empty()) == o.items[q].empty(), "empty", "sequence of %u observers says empty=%d", (unsigned)o.items[q].size(), o.terminating ? o.term[q].empty() : o.plain[q].empty());
    }
    o.notify(0); o.notify(1);
}

// Chains of forwarding between sequences
static void forwardPart(Sim& s) {
    Observers<int> a, b, c; std::vector<std::pair<int,int>> log, expect;
    TerminatingObservers<int> ta, tb; 
    auto rec = [&](int who) { return [&log, who](int v) { log.push_back({who, v}); }; };
    std::vector<int> order;             // what is registered in a: 1.. plain observers, -1 forward to b
    int nb = s.range(0, 3), na = s.range(0, 3), pos = s.draw(na + 1);
    for (int i = 0; i <= na; ++i) { if (i == pos) forwardObservers(a, b); if (i < na) a.add(rec(100 + i)); }
    int posb = s.draw(nb + 1);
    for (int i = 0; i <= nb; ++i) { if (i == posb) forwardObservers(b, c); if (i < nb) b.add(rec(200 + i)); }
    c.add(rec(300));
    int v = s.draw(50);
    a(v);
    for (int i = 0; i <= na; ++i) { if (i == pos) for (int j = 0; j <= nb; ++j) { if (j == posb) expect.push_back({300, v}); if (j < nb) expect.push_back({200 + j, v}); } if (i < na) expect.push_back({100 + i, v}); }
    s.check(log == expect, "forwarding", "forwarded notification makes %u calls in an order different from expected, %u expected", (unsigned)log.size(), (unsigned)expect.size());
    bool r1 = s.chance(1, 2), r2 = s.chance(1, 2); int calls = 0;
    ta.add([&](int) { ++calls; return r1; }); forwardObservers(ta, tb); tb.add([&](int) { ++calls; return r2; }); ta.add([&](int) { ++calls; return false; });
    bool r = ta(1);
    s.check(r == (r1 || r2) && calls == 3, "forwarding-result", "forwarded notification returns %d after %d calls, expected %d after 3", r, calls, r1 || r2);
    s.nontrivial();
}

CTM_DEF_NOTIFIED_PROP_CLASS(PropHolder, int, int, prop, setProp, onPropChanged, offPropChanged)

static void propertyPart(Sim& s) {
    PropHolder h; int value = 0; std::map<int, int> calls; std::vector<int> ids; int setting = 0, depth = 0;
    s.check(h.prop() == 0, "property-initial", "property is initially %d", h.prop());
    int n = s.range(3, 20);
    for (int k = 0; k < n; ++k) {
        switch (s.draw(3)) {
            case 0: { int uid = k; int id;
                if (s.chance(1, 2)) id = h.onPropChanged([&, uid](int v) { ++calls[uid]; s.check(v == setting && h.prop() == v, "property-notification", "observer is given %d and property is %d when %d is set", v, h.prop(), setting); s.tick(); });
                else id = h.onPropChanged([&, uid]() { ++calls[uid]; s.check(h.prop() == setting, "property-notification", "property is %d when %d is set", h.prop(), setting); s.tick(); });
                calls[uid] = 0; ids.push_back(id * 1000 + uid); break; }
            case 1: if (!ids.empty()) { unsigned i = s.draw(ids.size()); h.offPropChanged(ids[i] / 1000); calls.erase(ids[i] % 1000); ids.erase(ids.begin() + i); } break;
            default: { for (auto& c : calls) c.second = 0; setting = s.draw(3); h.setProp(setting); value = setting;
                for (auto& c : calls) s.check(c.second == 1, "property-notification-count", "observer is notified %d times of a change of property", c.second);
                s.check(h.prop() == value && h.propConstRef() == value, "property-value", "property is %d after %d is set", h.prop(), value); s.nontrivial(); }
        }
        s.ev("prop", {double(h.prop())});
    }
    (void)depth;
}

// Notifications of the Newton solver reach observers of the ODE solver exactly once, however the solver has been reconfigured
static void wiringPart(Sim& s) {
    SolverSpec sp; sp.id = "i_euler"; sp.h = 0.125;
    RhsSpec rs = RhsSpec::draw(s, false);
    World w; w.build(sp, rs);
    std::vector<unsigned> iters; int jac = 0, jacDepth = 0;
    w.solver->iterationObservers.add([&](unsigned i, const NewtonSolverInterface<VD>*) { iters.push_back(i); return false; });
    w.solver->jacobianRefreshObservers.add([&](bool start) { jacDepth += start ? 1 : -1; ++jac; s.check(jacDepth == 0 || jacDepth == 1, "jacobian-notification", "notification of %s of a Jacobian refresh, level %d", start ? "start" : "end", jacDepth); });
    auto holder = dynamic_cast<NewtonSolverHolder<VD>*>(w.solver.get());
    int n = s.range(1, 6);
    w.solver->setInitialState(0, rs.drawState(s));
    std::shared_ptr<NewtonSolverInterface<VD>> old;
    for (int k = 0; k < n; ++k) {
        int op = s.draw(5);
        if (op == 1) { SolverSpec o = sp; o.ddir = s.pick({"simple", "const", "broyden", "fake-broyden"}); o.jac = s.pick({"default", "sparse"}); w.solver->setParameters(solverParams(o)); }
        else if (op == 2 && holder) { old = holder->newtonSolver(); auto ns = Factory<NewtonSolverInterface<VD>>::newInstance("newton"); holder->setNewtonSolver(ns); }
        else if (op == 3 && holder) {
            auto itp = holder->newtonSolver()->iterationPerformer();
            auto jp = itp->newtonDescentDirection()->jacobianProvider();
            holder->newtonSolver()->setComponent(Factory<NewtonDescentDirection<VD>>::newInstance(s.pick({"simple", "const", "fake-broyden"})));
            holder->newtonSolver()->setComponent(jp);
        }
        else if (op == 4) { w.setRhs(rs); w.solver->setInitialState(w.t(), w.solver->initialState()); }
        s.ev("reconfigure", {double(op)});
        iters.clear(); jac = 0;
        // count iterations independently, at the source
        unsigned src = 0; int idc = -1;
        auto ns = holder->newtonSolver();
        idc = ns->iterationObservers.add([&](unsigned, const NewtonSolverInterface<VD>*) { ++src; return false; });
        unsigned srcJac = 0; auto dd = ns->iterationPerformer()->newtonDescentDirection();
        int idj = dd->jacobianRefreshObservers.add([&](bool) { ++srcJac; });
        std::string what;
        auto r = guarded([&] { w.solver->doStep(); }, &what);
        ns->iterationObservers.remove(idc); dd->jacobianRefreshObservers.remove(idj);
        if (r != Thrown::None) s.discard("step fails");
        s.check(src == iters.size(), "iteration-notifications", "%u Newton iterations made, %u notified after reconfiguration %d", src, (unsigned)iters.size(), op);
        for (unsigned i = 0; i < iters.size(); ++i) s.check(iters[i] == i, "iteration-notifications", "iteration %u is notified as %u", i, iters[i]);
        s.check((unsigned)jac == srcJac && jacDepth == 0, "jacobian-notifications", "%u notifications of Jacobian refresh made, %d received after reconfiguration %d", srcJac, jac, op);
        if (!iters.empty()) s.nontrivial();
    }
}

SCENARIO(C14, registerAll) {
    Sim& s = S_;
    switch (s.draw(8)) {
        case 0: forwardPart(s); break;
        case 1: propertyPart(s); break;
        case 2: wiringPart(s); break;
        default: observersPart(s);
    }
}

}
