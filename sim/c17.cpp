// C17: a type registry creates what was registered in it, and nothing else
#include "sim.h"
#include <algorithm>
#include "ode_num_int/infra/Factory.h"
#include "ode_num_int/infra/OptionalParameters.h"
namespace sim { namespace c17 {
struct Thrown : std::runtime_error { Thrown() : std::runtime_error("constructor") {} };
struct Live { static int n, failCtor; Live() { if (failCtor > 0 && --failCtor == 0) throw Thrown(); ++n; } Live(const Live&) { ++n; } ~Live() { --n; } };
int Live::n = 0, Live::failCtor = 0;
// Two interfaces, each with its own registry
template<int I> struct Iface : ctm::Factory<Iface<I>> { virtual int kind() const = 0; virtual int uid() const { return 0; } };
typedef Iface<0> IA; typedef Iface<1> IB;
std::string nextId;                     // identifier the traits tell
template<int I, int K> struct Impl : Live, Iface<I>, ctm::FactoryMixin<Impl<I, K>, Iface<I>>, ctm::OptionalParameters {
    int x = K; std::shared_ptr<IB> inner;
    int kind() const { return 10 * I + K; }
    Parameters parameters() const { Parameters r; r["x"] = x; r["inner"] = inner; return r; }
    void setParameters(const Parameters& p) { maybeLoadParameter(p, "x", x); maybeLoadParameter(p, "inner", inner); }
    Parameters helpOnParameters() const { Parameters r; r["x"] = "a number"; r["inner"] = appendNestedHelp(inner, "something inside"); return r; }
    std::string helpOnType() const { return fmt("type %d", kind()); }
};
template<int I> struct Derived : Impl<I, 0> { int kind() const { return 10 * I + 5; } };            // has the identifier of its base
struct Both : Live, IA, IB, ctm::FactoryMixin<Both, IA>, ctm::FactoryMixin<Both, IB> { int kind() const { return 7; } };
template<int I> struct Plain : Live, Iface<I> { int u; explicit Plain(int u) : u(u) {} int kind() const { return 10 * I + 8; } int uid() const { return u; } };
} }
namespace ctm {
template<int I, int K> struct ImplementationTypeTraits<sim::c17::Impl<I, K>> { static FactoryBase::TypeId typeId() { return sim::c17::nextId; } };
}
namespace sim { namespace c17 {
using namespace ctm;
const int Typed = 3, KBoth = 3, KDerived = 4, KScript = 5;

struct Run;
// A generator of the user: may fail, return nothing, create other objects or register other types
template<int I> struct Script {
    Run* r; int uid; std::vector<int> canary;
    Script(Run* r, int uid) : r(r), uid(uid), canary(8, uid) {}
    std::shared_ptr<Iface<I>> operator()() const;
};

struct Run {
    Sim& s;
    struct Type { int kind, uid; };
    std::map<std::string, Type> types[2];                       // by identifier
    std::vector<std::string> ids;                               // all identifiers ever used
    std::map<int, std::string> statics[2];                      // kind -> identifier told
    int uids = 0, depth = 0, called = 0, calledUid = 0, made = 0; bool anyFailure = false;
    explicit Run(Sim& s) : s(s) {}

    std::string newIdent() {
            std::string id = std::string(s.pick({"a", "b", "ab", "A", "a b", "a.b", "", "a longer name of a type "})) + s.pick({"", "1", "2", "x"});
            if (std::find(ids.begin(), ids.end(), id) == ids.end()) ids.push_back(id);
            return id;
    }
    template<class Fn> bool run(const char* what, Fn f) {
        s.tick(); s.shape(what);
        long at = s.chance(1, 4) ? long(s.draw(10)) : -1;
        alloc.fired = false; alloc.countdown = at;
        bool oom = false;
        try { struct Off { ~Off() { alloc.armed = false; } } off; alloc.armed = at >= 0; f(); }
        catch (const std::bad_alloc&) { oom = true; }
        if (alloc.fired) s.fault("allocation-failure");
        s.check(!oom || alloc.fired, "exception", "%s: bad_alloc although no allocation failed", what);
        s.note("op", what);
        if (oom) { anyFailure = true; s.nontrivial(); s.note("oom", what); }
        return !oom;
    }

    // ---- comparison of both registries with the model
    template<int I> void compare(const char* when) {
        auto list = Factory<Iface<I>>::registeredTypes();
        std::vector<std::string> mine = list, expect;
        for (auto& t : types[I]) expect.push_back(t.first);
        std::sort(mine.begin(), mine.end());
        s.check(mine == expect, "registered-types", "after %s: registry %d tells %u types, %u are registered (%s)", when, I, unsigned(mine.size()), unsigned(expect.size()), diff(mine, expect).c_str());
        for (auto& id : ids)
            s.check(Factory<Iface<I>>::isTypeRegistered(id) == (types[I].count(id) > 0), "is-registered", "after %s: registry %d tells type '%s' is registered: %d", when, I, id.c_str(), Factory<Iface<I>>::isTypeRegistered(id));
        for (int k = 0; k < KDerived; ++k) {
            std::string id = k == 0 ? Impl<I, 0>::staticTypeId() : k == 1 ? Impl<I, 1>::staticTypeId() : k == 2 ? Impl<I, 2>::staticTypeId() : FactoryMixin<Both, Iface<I>>::staticTypeId(), e = idOf(I, k);
            s.check(id == e, "static-type-id", "after %s: type %d of registry %d has been registered as '%s', and tells '%s'", when, k, I, e.c_str(), id.c_str());
        }
    }
    std::string idOf(int I, int kind) { if (kind == KDerived) kind = 0; auto it = statics[I].find(kind); return it == statics[I].end() ? "" : it->second; }      // empty: not registered with an identifier
    static std::string diff(const std::vector<std::string>& a, const std::vector<std::string>& b) {
        std::string r;
        for (auto& x : a) if (std::count(b.begin(), b.end(), x) != std::count(a.begin(), a.end(), x)) r += "'" + x + "' too often ";
        for (auto& x : b) if (!std::count(a.begin(), a.end(), x)) r += "'" + x + "' missing ";
        return r;
    }
    void compareAll(const char* when) { compare<0>(when); compare<1>(when); }

    // ---- registration
    template<int I, int K> void registrator(const std::string& id) {
        if (s.chance(1, 2)) { nextId = id; run("register a type by its traits", [&] { ImplementationRegistrator<Impl<I, K>> r; (void)r; }) ? ok() : bad(); }
        else run("register a type", [&] { typename Impl<I, K>::Registrator r(id); (void)r; }) ? ok() : bad();
    }
    bool last = false; void ok() { last = true; } void bad() { last = false; }
    template<int I> void registerType() {
        std::string id = newIdent();
        if (types[I].count(id) || id.empty()) return;                          // not permitted
        int kind = s.draw(KScript + 1), uid = ++uids;
        if (kind >= KScript && depth > 0) kind = 0;
        switch (kind) {
            case 0: registrator<I, 0>(id); break;
            case 1: registrator<I, 1>(id); break;
            case 2: registrator<I, 2>(id); break;
            case KBoth: run("register a type of two registries", [&] { typename FactoryMixin<Both, Iface<I>>::Registrator r(id); (void)r; }) ? ok() : bad(); break;
            case KDerived: run("register a derived type", [&] { Factory<Iface<I>>::registerType(id, &std::make_shared<Derived<I>>); }) ? ok() : bad(); break;
            default: { std::function<std::shared_ptr<Iface<I>>()> g = Script<I>(this, uid); run("register a generator", [&] { Factory<Iface<I>>::registerType(id, g); }) ? ok() : bad(); }
        }
        s.note(last ? "registered" : "not registered", fmt("%d '%s' kind %d", I, id.c_str(), kind));
        if (!last) return;
        types[I][id] = Type{kind, uid};
        if (kind < KDerived) { statics[I][kind] = id; }
        if (depth) s.fault("registered-while-creating");
    }

    // ---- creation
    template<int I> void verify(const std::shared_ptr<Iface<I>>& p, const Type& t, const std::string& id) {
        s.check(p != nullptr, "created", "type '%s' of registry %d: nothing is created", id.c_str(), I);
        int kind = t.kind == KBoth ? 7 : t.kind == KDerived ? 10 * I + 5 : t.kind == KScript ? 10 * I + 8 : 10 * I + t.kind;
        s.check(p->kind() == kind, "created", "type '%s' of registry %d: an object of kind %d is created, %d is registered", id.c_str(), I, p->kind(), kind);
        s.check(t.kind != KScript || p->uid() == t.uid, "created", "type '%s' of registry %d: created by generator %d, registered is %d", id.c_str(), I, p->uid(), t.uid);
        s.check(p.use_count() == 1, "shared", "type '%s' of registry %d: the object created is shared", id.c_str(), I);
        std::string told = TypeIdGetter<Iface<I>>::typeId(p);
        std::string e = idOf(I, t.kind);
        s.check(told == e, "type-id", "object of a type registered as '%s' tells '%s'", e.c_str(), told.c_str());
        ++made;
    }
    template<int I> void create() {
        std::string id = s.chance(1, 4) || types[I].empty() ? newIdent() : std::next(types[I].begin(), s.draw(types[I].size()))->first;
        auto it = types[I].find(id); bool known = it != types[I].end(); Type t = known ? it->second : Type{-1, 0};
        int before = called, live = Live::n, reg = I;
        bool ctor = known && t.kind < KScript && s.chance(1, 6);
        Live::failCtor = ctor ? 1 : 0;
        std::shared_ptr<Iface<I>> p; bool refused = false, thrown = false, expectThrow = ctor; std::string text;
        pendingThrow = pendingNull = false;
        bool done = run("create", [&] {
            try { p = Factory<Iface<I>>::newInstance(id); }
            catch (const Thrown&) { thrown = true; }
            catch (const cxx::exception& e) { AllocGuard g; refused = true; text = e.what(); }
        });
        Live::failCtor = 0;
        s.note("create", fmt("%d '%s' %s", reg, id.c_str(), !done ? "out of memory" : refused ? "refused" : thrown ? "exception" : p ? "created" : "nothing"));
        if (known && t.kind == KScript && called > before) { expectThrow = pendingThrow; s.check(calledUid == t.uid, "generator", "type '%s' of registry %d: generator %d is called, %d is registered", id.c_str(), I, calledUid, t.uid); }
        if (!done) { s.check(!p && Live::n == live, "failed-creation", "objects remain of a creation that has failed"); return; }
        s.check(refused == !known, "unknown-type", "type '%s' of registry %d is %sregistered, and is %s", id.c_str(), I, known ? "" : "not ", refused ? "refused" : "accepted");
        if (refused) { s.check(text.find(id) != std::string::npos, "unknown-type-text", "the exception does not name the type: %s", text.c_str()); s.check(called == before && Live::n == live, "generator", "unknown type, but something is created"); s.fault("unknown-type"); return; }
        s.check(thrown == expectThrow, "exception", "type '%s' of registry %d: exception %d, expected %d", id.c_str(), I, thrown, expectThrow);
        if (thrown) { s.fault("generator-throws"); s.check(Live::n == live, "failed-creation", "objects remain of a creation that has failed"); return; }
        if (t.kind == KScript) { s.check(called == before + 1, "generator", "type '%s' of registry %d: its generator is called %d times", id.c_str(), I, called - before); if (pendingNull) { s.check(!p, "created", "generator returns nothing, newInstance() something"); s.fault("generator-returns-nothing"); return; } }
        verify<I>(p, t, id);
        if (s.chance(1, 3)) parametersOf<I>(p, t, id);
        p.reset();
        s.check(Live::n == live, "object-remains", "type '%s' of registry %d: the object created is still alive", id.c_str(), I);
    }
    bool pendingThrow = false, pendingNull = false;

    // ---- an object as a value of a parameter
    template<int I> void parametersOf(const std::shared_ptr<Iface<I>>& p, const Type& t, const std::string& id) {
        typedef OptionalParameters OP;
        OP::Value v;
        if (!run("value of an object", [&] { v = OP::Value(p); })) return;
        std::string told = TypeIdGetter<Iface<I>>::typeId(p);
        s.check(v.value<std::string>() == told, "parameter-value", "value of an object of type '%s' is another one", told.c_str());
        s.check(bool(v.typeRegistryGetter()), "parameter-registry", "a value of an object does not know its types");
        s.check(v.typeRegistryGetter()() == Factory<Iface<I>>::registeredTypes(), "parameter-registry", "a value of an object tells other types");
        if (t.kind >= Typed || !types[I].count(told)) return;
        auto* nested = v.nestedParameters();
        s.check(nested && nested->count("x") && int((*nested)["x"]) == t.kind, "parameter-nested", "an object of type '%s' tells wrong parameters", id.c_str());
        int x = s.range(-5, 5); (*nested)["x"] = x;
        std::string innerId; Type innerType{-1, 0};
        if (!types[1].empty() && s.chance(1, 2)) {
            auto in = std::next(types[1].begin(), s.draw(types[1].size()));
            if (in->second.kind < KScript) { innerId = in->first; innerType = in->second; (*nested)["inner"] = OP::Value(innerId); }
        }
        bool fail = innerType.kind >= 0 && s.chance(1, 5); int live = Live::n;
        std::shared_ptr<Iface<I>> q; bool thrown = false;
        Live::failCtor = fail ? 2 : 0;
        bool done = run("object of a value", [&] { try { OP::Parameters ps; ps["o"] = v; OP::maybeLoadParameter(ps, "o", q); } catch (const Thrown&) { thrown = true; } });
        Live::failCtor = 0;
        if (!done || thrown) { s.check(!q && Live::n == live, "failed-creation", "objects remain of a creation that has failed"); s.check(!done || fail, "exception", "an exception that nothing has thrown"); if (thrown) s.fault("generator-throws"); return; }
        s.check(!fail, "exception", "an exception of a constructor is lost");
        verify<I>(q, types[I][told], told);
        OP::Parameters ps = dynamic_cast<OP&>(*q).parameters();
        s.check(int(ps["x"]) == x, "parameter-nested", "a nested parameter of an object is lost");
        auto inner = ps["inner"].value<std::string>();
        bool same = inner == idOf(1, innerType.kind);
        s.check(same, "parameter-inner", "nested object of type '%s' has become '%s'", innerId.c_str(), inner.c_str());
    }

    // ---- help tells the types
    template<int I> void help() {
        std::shared_ptr<Iface<I>> p; std::string current;
        if (!types[I].empty() && s.chance(2, 3)) {
            auto it = std::next(types[I].begin(), s.draw(types[I].size()));
            if (it->second.kind < Typed) { p = Factory<Iface<I>>::newInstance(it->first); current = TypeIdGetter<Iface<I>>::typeId(p); }
        }
        OptionalParameters::Value v;
        if (!run("help", [&] { v = OptionalParameters::appendNestedHelp(p, "helpful text"); })) return;
        std::string t = v.value<std::string>();
        s.check(t.compare(0, 14, "helpful text\n\n") == 0, "help", "help text is lost");
        if (p) s.check(t.find("Information on current type(" + current + ")\n" + fmt("type %d", p->kind())) != std::string::npos, "help", "help on the current type is missing");
        std::vector<std::string> mine; unsigned marked = 0;
        for (size_t a = 0; a < t.size(); ) {
            size_t e = t.find('\n', a); if (e == std::string::npos) e = t.size();
            std::string l = t.substr(a, e - a); a = e + 1;
            if (l.size() >= 2 && (l.compare(0, 2, "  ") == 0 || l.compare(0, 2, "* ") == 0)) {
                mine.push_back(l.substr(2));
                if (l[0] == '*') { ++marked; s.check(l.substr(2) == current, "help-current", "help marks '%s' as the current type", mine.back().c_str()); }
            }
        }
        std::sort(mine.begin(), mine.end());
        std::vector<std::string> expect; for (auto& x : types[I]) expect.push_back(x.first);
        s.check(mine == expect, "help-types", "help tells %u types, %u are registered (%s)", unsigned(mine.size()), unsigned(expect.size()), diff(mine, expect).c_str());
        s.check(marked == unsigned(p && types[I].count(current) ? 1 : 0), "help-current", "help marks %u types as current", marked);
    }
    void listing() {
        std::vector<std::string> a; bool done = false;
        if (run("list types", [&] { a = IA::registeredTypes(); })) done = true;
        AllocGuard g; if (done) s.check(a.size() >= types[0].size(), "registered-types", "some types are not told");
    }
};

template<int I> std::shared_ptr<Iface<I>> Script<I>::operator()() const {
    int what, u = uid; Run& R = *r; long countdown = alloc.countdown; bool armed = alloc.armed, throwing = false;
    std::shared_ptr<Iface<I>> p;
    {
        AllocGuard g; alloc.armed = false;
        for (int c : canary) R.s.check(c == uid, "generator-destroyed", "memory of generator %d is gone", uid);
        R.s.tick(); what = R.depth < 2 ? int(R.s.draw(6)) : 0;
        R.s.ev("generator", {double(uid), double(what)});
        bool nul = false;
        ++R.depth;
        try {
            switch (what) {
                case 1: throwing = true; break;
                case 2: nul = true; break;
                case 3: R.s.fault("nested-creation"); { int c = R.called; R.create<0>(); R.create<1>(); R.called = c; } break;
                case 4: R.registerType<I>(); break;
                case 5: R.compareAll("start of a generator"); break;
            }
        } catch (...) { --R.depth; throw; }
        --R.depth;
        for (int c : canary) R.s.check(c == u, "generator-destroyed", "memory of generator %d is gone while it runs", u);
        ++R.called; R.calledUid = u; R.pendingThrow = throwing; R.pendingNull = nul;
        if (what == 3 || what == 4) { alloc.fired = false; }
        alloc.countdown = countdown; alloc.armed = armed;
        if (throwing) throw Thrown();
        if (nul) return p;
    }
    alloc.countdown = countdown; alloc.armed = armed;
    p = std::make_shared<Plain<I>>(u);
    return p;
}

// ---- storage of a process that has just started: nothing has been used before
template<int N> struct Tag {};
struct Cell { int a = 42; std::string b = "default"; };
template<int N> struct Fresh : ctm::Factory<Fresh<N>> {};
template<int N> struct FreshImpl : Fresh<N>, ctm::FactoryMixin<FreshImpl<N>, Fresh<N>> {};
struct First {
    Sim& s; void* addr[2][3] = {};
    int set[2][3] = {};
    bool reg[2] = {};
    explicit First(Sim& s) : s(s) {}
    template<class Fn> bool run(const char* what, Fn f) {
        s.tick(); s.shape(what);
        long at = s.chance(1, 3) ? long(s.draw(8)) : -1;
        alloc.fired = false; alloc.countdown = at; bool ok = true;
        try { struct Off { ~Off() { alloc.armed = false; } } off; alloc.armed = at >= 0; f(); } catch (const std::bad_alloc&) { ok = false; }
        if (alloc.fired) { s.fault("allocation-failure"); s.nontrivial(); }
        s.check(ok || alloc.fired, "exception", "%s: bad_alloc although no allocation failed", what);
        s.note(ok ? "first" : "first-oom", what);
        return ok;
    }
    template<int N, class T> T* cell() { return &ctm::PerTypeStorage::value<Tag<N>, T>(); }
    template<int N> void access() {
        unsigned type = s.draw(2); int v = s.draw(4); void* p = nullptr;
        if (!run("storage", [&] { p = type ? (void*)cell<N, std::string>() : (void*)cell<N, Cell>(); })) return;
        s.check(!addr[type][N] || p == addr[type][N], "storage-moved", "a cell of storage has moved");
        for (unsigned i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) s.check((i == type && j == N) || addr[i][j] != p, "storage-shared", "two cells of storage are the same");
        addr[type][N] = p;
        std::string e = set[type][N] ? fmt("set %d", set[type][N]) : type ? "" : "default";
        s.check(type ? *(std::string*)p == e : ((Cell*)p)->b == e && ((Cell*)p)->a == (set[type][N] ? set[type][N] : 42), "storage-value", "a cell of storage does not hold what was stored");
        if (v) { set[type][N] = v; if (type) *(std::string*)p = fmt("set %d", v); else { ((Cell*)p)->b = fmt("set %d", v); ((Cell*)p)->a = v; } }
    }
    template<int N> void factory() {
        typedef ctm::Factory<Fresh<N>> F; typedef FreshImpl<N> T; std::string id = fmt("fresh type %d with a long name", N), told; bool is = false, refused = false; std::shared_ptr<Fresh<N>> p; std::vector<std::string> l;
        switch (s.draw(5)) {
            case 0: if (!reg[N]) reg[N] = run("registration", [&] { typename T::Registrator r(id); (void)r; }); break;
            case 1: if (run("type identifier", [&] { told = T::staticTypeId(); })) s.check(told == (reg[N] ? id : ""), "static-type-id", "a type that is %sregistered tells '%s'", reg[N] ? "" : "not ", told.c_str()); break;
            case 2: if (run("is registered", [&] { is = F::isTypeRegistered(id); })) s.check(is == reg[N], "is-registered", "a type is told to be registered: %d", is); break;
            case 3: if (run("list", [&] { l = F::registeredTypes(); })) s.check(l.size() == unsigned(reg[N]) && (!reg[N] || l[0] == id), "registered-types", "registered types are wrong"); break;
            default: if (run("creation", [&] { try { p = F::newInstance(id); } catch (const ctm::cxx::exception&) { refused = true; } })) s.check(refused == !reg[N] && (!reg[N] || dynamic_cast<T*>(p.get())), "created", "creation of an object is wrong");
        }
    }
};
static void firstUse(Sim& s) {
    First f(s);
    for (int n = s.range(1, 12); n > 0; --n) switch (s.draw(5)) { case 0: f.factory<0>(); break; case 1: f.factory<1>(); break; case 2: f.access<0>(); break; case 3: f.access<1>(); break; default: f.access<2>(); }
    for (int k = 0; k < 2; ++k) if (f.reg[k]) s.probe("type registered in a process that has just started");
}
}

SCENARIO_ISOLATED(C17, nullptr) {
    using namespace c17;
    if (S_.chance(1, 4)) { firstUse(S_); return; }
    Run r(S_);
    nextId.reserve(64); Live::n = 0; Live::failCtor = 0;
    int n = S_.range(3, 16);
    for (int i = 0; i < n; ++i) {
        const char* what = "?";
        switch (S_.draw(8)) {
            case 0: case 1: what = "registration"; r.registerType<0>(); break;
            case 2: what = "registration"; r.registerType<1>(); break;
            case 3: case 4: what = "creation"; r.create<0>(); break;
            case 5: what = "creation"; r.create<1>(); break;
            case 6: what = "help"; if (S_.chance(1, 2)) r.help<0>(); else r.help<1>(); break;
            case 7: what = "listing"; r.listing(); break;
        }
        r.compareAll(what);
    }
    if (r.made > 1) S_.nontrivial();
    S_.check(Live::n == 0, "object-remains", "%d objects remain", Live::n);
}
}
