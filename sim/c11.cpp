// C11: a configuration holds what was set, and a failed change leaves it as it was
#include "world.h"
#include "ode_num_int/ode/OdeSolverConfiguration.h"
#include "ode_num_int/alg/interfaces/NewtonSolverInterface.h"
#include "ode_num_int/ode/interfaces/ExtrapolatorStepSequence.h"
namespace sim {
using namespace ctm;
using namespace ctm::math;
typedef OptionalParameters::Value Val;
typedef OptionalParameters::Path Path;
typedef OdeSolverConfiguration<VD> Config;
typedef std::vector<std::string> Types;

// ---- components owned by the simulator: they can throw whenever the configuration calls them
struct Plan { long armed = -1, n = 0; int flavor = 0; bool fired = false, wide = false; };
static Plan plan;
static void point(const char* where) {
    if (plan.armed < 0) return;
    if (plan.n++ != plan.armed) return;
    AllocGuard g;
    plan.armed = -1; plan.fired = true; S->fault(where);
    if (plan.flavor == 0) throw SimFault("sim");
    if (plan.flavor == 1) throw std::bad_alloc();
    throw SimFaultOther{1};
}
struct CfgRhs : OdeRhs<VD>, FactoryMixin<CfgRhs, OdeRhs<VD>> {
    double p = 1.5; unsigned q = 2; bool r = false; std::string s = "abc"; std::shared_ptr<OdeSolver<VD>> aux;
    CfgRhs() { point("throw_ctor_rhs"); }
    using OdeRhs<VD>::rhs;
    unsigned secondOrderVarCount() const { return 1; }
    unsigned firstOrderVarCount() const { return 1; }
    unsigned zeroFuncCount() const { return 0; }
    std::vector<unsigned> zeroFuncFlags() const { return {}; }
    void rhs(V& d, double t, const V& x) const { this->odeRhsPreObservers(t, x, this); d.resize(3); d[0] = x[1]; d[1] = -p*x[0]; d[2] = -double(q)*x[2] + (r ? 1 : 0); this->odeRhsPostObservers(t, x, d, this); }
    Parameters parameters() const { point("throw_get_rhs"); Parameters m; m["p"] = p; m["q"] = q; m["r"] = r; m["s"] = s; m["aux"] = aux; return m; }
    void setParameters(const Parameters& m) {
        point("throw_set_rhs");
        maybeLoadParameter(m, "p", p); maybeLoadParameter(m, "q", q);
        point("throw_set_rhs2");
        maybeLoadParameter(m, "r", r); maybeLoadParameter(m, "s", s); maybeLoadParameter(m, "aux", aux);
    }
    Parameters helpOnParameters() const { point("throw_help_rhs"); Parameters m; m["p"] = "help on p"; m["aux"] = appendNestedHelp(aux, "Auxiliary"); return m; }
};
struct CfgOut : OdeSolverOutputOption<VD>, FactoryMixin<CfgOut, OdeSolverOutputOption<VD>> {
    double p = 0.25;
    CfgOut() { point("throw_ctor_out"); }
    void beforeFirstStep(const OdeSolverConfiguration<VD>*, const OdeSolverComponents<VD>*) {}
    void afterSolve() {}
    Parameters parameters() const { point("throw_get_out"); Parameters m; m["p"] = p; return m; }
    void setParameters(const Parameters& m) { point("throw_set_out"); maybeLoadParameter(m, "p", p); }
};

// ---- reference model: a tree of values
struct Node { std::string val; bool obj = false; std::map<std::string, Node> kids; };
typedef std::map<std::string, Node> Kids;

static const char* iface(const std::string& k) {
    static const std::map<std::string, const char*> m = {
        {"rhs", "rhs"}, {"solver", "solver"}, {"reference_solver", "solver"}, {"predictor", "solver"}, {"aux", "solver"}, {"eventctl", "ec"}, {"stepsizectl", "sc"},
        {"enorm", "en"}, {"algsolver", "newton"}, {"ddir", "ddir"}, {"err", "err"}, {"itperf", "itperf"}, {"jacobian", "jac"}, {"jtrim", "jtrim"},
        {"linsearch", "ls"}, {"regularizer", "reg"}, {"step_sequence", "seq"}, {"output_stats", "out"}, {"output_con", "out"}, {"output_file", "out"},
        {"init_state", "init"}, {"reorder", "reorder"} };
    auto it = m.find(k); return it == m.end() ? nullptr : it->second;
}
static char kind(const std::string& k) {
    static const std::map<std::string, char> m = {
        {"n", 'u'}, {"q", 'u'}, {"max_stages", 'u'}, {"predictor_steps", 'u'}, {"max_iterations", 'u'}, {"lazy_iterations", 'u'}, {"width", 'u'}, {"size_half_lim", 'u'}, {"max_steps", 'u'},
        {"size", 'i'}, {"disable_error_check", 'b'}, {"force_error_calc", 'b'}, {"smooth", 'b'}, {"symmetric", 'b'}, {"r", 'b'},
        {"simout_basename", 's'}, {"file_name", 's'}, {"s", 's'}, {"mode", 'm'}, {"friction", 'f'} };
    auto it = m.find(k); return it == m.end() ? 'd' : it->second;
}
static std::map<std::string, std::map<std::string, Kids>> catalog;

static Kids toKids(const Parameters& p) {
    Kids r;
    for (auto& i : p) {
        Node n; n.val = i.second.value<std::string>(); n.obj = (bool)i.second.typeRegistryGetter();
        if (auto np = i.second.nestedParameters()) n.kids = toKids(*np);
        r[i.first] = n;
    }
    return r;
}
template<class I> static void cat(const char* key) {
    auto& m = catalog[key];
    for (auto& t : Factory<I>::registeredTypes()) {
        auto o = Factory<I>::newInstance(t);
        auto op = dynamic_cast<OptionalParameters*>(o.get());
        m[t] = op ? toKids(op->parameters()) : Kids();
    }
}
static void init11() {
    registerAll(); regOut();
    static CfgRhs::Registrator r1("sim_rhs"); static CfgOut::Registrator r2("sim_out");
    cat<OdeRhs<VD>>("rhs"); cat<OdeSolver<VD>>("solver"); cat<OdeEventController<VD>>("ec"); cat<OdeStepSizeController<VD>>("sc");
    cat<ErrorNormCalculator<VD>>("en"); cat<NewtonSolverInterface<VD>>("newton"); cat<NewtonDescentDirection<VD>>("ddir"); cat<ErrorEstimator<VD>>("err");
    cat<NewtonIterationPerformer<VD>>("itperf"); cat<JacobianProvider<VD>>("jac"); cat<JacobianTrimmer<VD>>("jtrim"); cat<NewtonLinearSearch<VD>>("ls");
    cat<NewtonRegularizationStrategy<VD>>("reg"); cat<ExtrapolatorStepSequence>("seq"); cat<OdeSolverOutputOption<VD>>("out"); cat<OdeInitState<VD>>("init");
    regReorder(); cat<VectorReorderingMapping<VD>>("reorder");
    Val("1").value<double>(); Val("1").value<int>(); Val("1").value<unsigned>();      // compiles the regular expressions
}

// ---- the model of a change. Returns false if the change is to be refused
static bool parseUnsigned(const std::string& s, bool sgn, long long& r) {
    size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (i == s.size() || s.size() > 18) return false;
    for (size_t j = i; j < s.size(); ++j) if (s[j] < '0' || s[j] > '9') return false;
    r = std::stoll(s);
    return sgn ? (r >= -2147483648ll && r <= 2147483647ll) : (r >= 0 && s[0] != '-' && r <= 4294967295ll);
}
static bool applyTo(Kids& parent, const std::string& key, const std::string& v) {
    Node& n = parent[key];
    if (n.obj) {
        auto& types = catalog[iface(key)];
        if (v.empty()) { n.val = v; n.kids.clear(); return true; }
        auto it = types.find(v); if (it == types.end()) return false;
        n.val = v; n.kids = it->second;
        return true;
    }
    long long x;
    switch (kind(key)) {
        case 'd': { // numbers
            size_t i = 0; const char* p = v.c_str();
            if (p[i] == '+' || p[i] == '-') ++i;
            size_t d = 0, f = 0; while (isdigit(p[i])) ++i, ++d;
            if (p[i] == '.') { ++i; while (isdigit(p[i])) ++i, ++f; }
            if (!d && !f) return false;
            if (p[i] == 'e' || p[i] == 'E') { ++i; if (p[i] == '+' || p[i] == '-') ++i; size_t e = 0; while (isdigit(p[i])) ++i, ++e; if (!e) return false; }
            if (i != v.size()) return false;
            n.val = v; return true; }
        case 'u': if (!parseUnsigned(v, false, x)) return false; n.val = std::to_string(x); return true;
        case 'i': {
            if (!parseUnsigned(v, true, x)) return false;
            n.val = std::to_string(x);
            if (key == "size") {
                for (auto it = parent.begin(); it != parent.end();) if (it->first[0] == 'x' && std::stoi(it->first.substr(1)) >= x) it = parent.erase(it); else ++it;
                for (int j = 0; j < x; ++j) if (!parent.count(fmt("x%d", j))) parent[fmt("x%d", j)].val = "0";
            }
            return true; }
        case 'b': if (v == "0" || v == "false") n.val = "false"; else if (v == "1" || v == "true") n.val = "true"; else return false; return true;
        case 'm': if (v != "low" && v != "high") return false; n.val = v; return true;
        case 'f': if (v != "atan" && v != "tabular" && v != "linear") return false; n.val = v; return true;
    }
    n.val = v; return true;
}
// Solvers used inside other solvers do not control events
static void normalize(Kids& k, bool top) {
    for (auto& i : k) {
        if (!top && i.second.obj && (i.first == "predictor" || i.first == "reference_solver")) { auto e = i.second.kids.find("eventctl"); if (e != i.second.kids.end()) { e->second.val = ""; e->second.kids.clear(); } }
        normalize(i.second.kids, false);
    }
}

static std::string diff(const Kids& m, const Parameters& p, const std::string& pre) {
    for (auto& i : m) if (!p.count(i.first)) return pre + i.first + " is missing";
    for (auto& i : p) {
        auto it = m.find(i.first); std::string path = pre + i.first;
        if (it == m.end()) return path + " is not expected";
        const Node& n = it->second; std::string v = i.second.value<std::string>();
        if (n.obj != (bool)i.second.typeRegistryGetter()) return path + " has changed its kind";
        if (n.obj) {
            if (v != n.val) return path + " is '" + v + "', expected '" + n.val + "'";
            auto t = i.second.typeRegistryGetter()(); auto& ct = catalog[iface(i.first)];
            if (t.size() != ct.size()) return path + ": list of types";
            for (auto& x : t) if (!ct.count(x)) return path + ": list of types";
        }
        else if (kind(i.first) == 'd') { double a = std::strtod(v.c_str(), nullptr), b = std::strtod(n.val.c_str(), nullptr); if (a != b || i.second.value<double>() != b) return path + " is '" + v + "', expected '" + n.val + "'"; }
        else if (v != n.val) return path + " is '" + v + "', expected '" + n.val + "'";
        auto np = i.second.nestedParameters();
        auto d = diff(n.kids, np ? *np : Parameters(), path + ".");
        if (!d.empty()) return d;
    }
    return "";
}

static void collect(const Kids& k, Path& pre, std::vector<Path>& out) {
    for (auto& i : k) { pre.push_back(i.first); out.push_back(pre); collect(i.second.kids, pre, out); pre.pop_back(); }
}
static Node* find(Kids& root, const Path& p, Kids** parent) {
    Kids* k = &root; Node* n = nullptr;
    for (size_t i = 0; i < p.size(); ++i) { auto it = k->find(p[i]); if (it == k->end()) return nullptr; n = &it->second; *parent = k; k = &n->kids; }
    return n;
}
static std::string join(const Path& p) { std::string r; for (auto& i : p) r += (r.empty() ? "" : ".") + i; return r; }

// Components that may not be absent
static bool required(const Path& p) { auto& k = p.back(); return k == "enorm" || k == "stepsizectl" || k == "algsolver" || k == "ddir" || k == "err" || k == "itperf" || k == "jacobian" || k == "linsearch"; }

struct Change { Path path; Val v; std::string text; };

static bool mayBeWild;
static double drawDouble(Sim& s, const std::string& k, bool& wild) {
    if (mayBeWild && s.chance(1, 4)) { wild = true; uint64_t m = (uint64_t(s.draw(1u << 26)) << 26) | s.draw(1u << 26); double d = std::ldexp(1 + double(m) / 4503599627370496.0, s.range(-300, 300)); return k == "alpha" || k[0] == 'h' ? d : (s.chance(1, 2) ? -d : d); }
    if (k == "h_init") return s.pick({0.01, 0.125, 0.1, 1./3});
    if (k == "h_min") return s.pick({1e-16, 1e-3, 1e-9});
    if (k == "h_after_switch") return s.pick({0., 0.01});
    if (k == "tolerance" || k == "abs_tol" || k == "rel_tol") return s.pick({1e-6, 1e-3, 1e-4, 0.7e-5});
    if (k == "insurance") return s.pick({0.8, 0.9});
    if (k == "inc_min_factor") return s.pick({1.3, 1.1});
    if (k == "inc_max_factor") return s.pick({2., 3.});
    if (k == "dec_max_factor") return s.pick({0.1, 0.2});
    if (k == "max_threshold") return s.pick({0., 0.5});
    if (k == "abs_max_threshold") return s.pick({1e20, 1e10});
    if (k == "rel_max_threshold") return s.pick({10., 1e3});
    if (k == "alpha") return s.pick({1., 0.5, 0.7});
    if (k == "d") return s.pick({1., 0.5});
    if (k == "threshold") return s.pick({0., 0.1});
    return s.pick({0.1, 1., 2./3, 5.});
}

struct W11 {
    Config c; Kids m; bool wild = false;
    std::vector<Change> done;
};

static void snapshotCheck(Sim& s, W11& w, const char* when) {
    auto d = diff(w.m, w.c.parameters(), "");
    s.check(d.empty(), when, "%s: %s", when, d.c_str());
    // what the components have been given
    auto pp = w.c.parameterProvider();
    d = diff(w.m, pp->parameters(), "");
    s.check(d.empty(), "provider", "%s: components: %s", when, d.c_str());
    s.check(pp->odeSolverDuration() == std::strtod(w.m["time"].val.c_str(), nullptr), "getter", "duration is %g, expected %s", pp->odeSolverDuration(), w.m["time"].val.c_str());
    s.check(pp->odeSolverOutputTiming() == std::strtod(w.m["output_timing"].val.c_str(), nullptr), "getter", "output timing");
    s.check(pp->simoutCustomBaseName() == w.m["simout_basename"].val, "getter", "basename");
    if (auto sl = pp->solver()) {
        s.check(sl->initialStepSize() == std::strtod(w.m["solver"].kids["h_init"].val.c_str(), nullptr), "getter", "initial step size %g, expected %s", sl->initialStepSize(), w.m["solver"].kids["h_init"].val.c_str());
        s.check(sl->stepSizeMinThreshold() == std::strtod(w.m["solver"].kids["h_min"].val.c_str(), nullptr), "getter", "min. step size %g", sl->stepSizeMinThreshold());
    }
    s.check((bool)pp->solver() == !w.m["solver"].val.empty() && (bool)pp->refSolver() == !w.m["reference_solver"].val.empty() && (bool)pp->odeRhs() == !w.m["rhs"].val.empty() &&
            (bool)pp->statisticsOutput() == !w.m["output_stats"].val.empty() && (bool)pp->stepConsoleOutput() == !w.m["output_con"].val.empty() &&
            (bool)pp->stepFileOutput() == !w.m["output_file"].val.empty() && (bool)pp->initState() == !w.m["init_state"].val.empty(), "getter", "a component is present or absent against its parameter");
    if (auto is = pp->initState()) {
        V x = is->initialState(); auto& k = w.m["init_state"].kids;
        s.check(is->initialTime() == std::strtod(k["time"].val.c_str(), nullptr) && (long)x.size() == std::stol(k["size"].val), "getter", "initial time or size");
        for (unsigned i = 0; i < x.size(); ++i) s.check(x[i] == std::strtod(k[fmt("x%u", i)].val.c_str(), nullptr), "getter", "initial state [%u] = %g", i, x[i]);
    }
}

// A short computation with the configuration: everything it yields
static std::string compute(Sim& s, Config& c) {
    std::string r; V x0; auto pp = c.parameterProvider();
    try {
        unsigned n = pp->odeRhs()->varCount(); x0.resize(n);
        for (unsigned i = 0; i < n; ++i) x0[i] = 0.3 + 0.125*i;
        auto sc = c.apply(std::set<unsigned>(), 0.25, x0);
        auto sl = sc.solver();
        r += str({sl->initialTime()}) + str(vec(sl->initialState()));
        for (int i = 0; i < 2; ++i) { sl->doStep(); r += str({sl->initialTime()}) + str(vec(sl->initialState())); }
        if (auto rs = sc.refSolver()) { rs->doStep(); r += str({rs->initialTime()}) + str(vec(rs->initialState())); }
    }
    catch (const std::exception& e) { r += std::string(" exception: ") + e.what(); }
    return r;
}
static bool cheap(const Kids& k) {
    for (auto& i : k) {
        if (!i.second.obj && kind(i.first) == 'u' && (i.second.val.size() > 3 || std::stoi(i.second.val) > 100)) return false;
        if (!cheap(i.second.kids)) return false;
    }
    return true;
}
// Sets everything in a new configuration: parents first, otherwise in a random order
static void rebuild(Sim& s, Config& c, const Kids& k, Path& pre) {
    std::vector<const Kids::value_type*> items; for (auto& i : k) items.push_back(&i);
    for (size_t i = items.size(); i > 1; --i) std::swap(items[i-1], items[s.draw(i)]);
    // an initial state is of the specified size
    for (size_t i = 0; i < items.size(); ++i) if (items[i]->first == "size") std::swap(items[0], items[i]);
    for (auto i : items) {
        pre.push_back(i->first);
        bool inner = pre.size() > 2 && i->first == "eventctl" && (pre[pre.size()-2] == "predictor" || pre[pre.size()-2] == "reference_solver");
        if (std::string(c.value(pre)) != i->second.val && !inner) c.setValue(pre, i->second.val);
        rebuild(s, c, i->second.kids, pre);
        pre.pop_back();
    }
}

// A configuration of one component which is replaced by another one from time to time
static void providers(Sim& s) {
    ctm::ComponentConfiguration c;
    auto val = [](const CfgRhs& r, unsigned k) { return k == 0 ? fmt("%.17g", r.p) : k == 1 ? fmt("%u", r.q) : k == 2 ? std::string(r.r ? "true" : "false") : r.s; };
    const char* const keys[4] = {"p", "q", "r", "s"};
    std::vector<std::shared_ptr<CfgRhs>> o; std::vector<std::vector<std::string>> m;
    for (int i = 0; i < 3; ++i) { auto r = std::make_shared<CfgRhs>(); r->p = 0.5 * (i + 1); r->q = i + 7; r->s = fmt("object %d", i); o.push_back(r); m.emplace_back(); for (unsigned k = 0; k < 4; ++k) m[i].push_back(val(*r, k)); }
    unsigned cur = 0; c.setParameterProvider(o[0]);
    for (int op = s.range(2, 16); op > 0; --op) {
        plan = Plan(); unsigned what = s.draw(5), k = s.draw(4); std::string v; Thrown t = Thrown::None; bool bad = false;
        if (what == 1) { cur = s.draw(3); c.setParameterProvider(o[cur]); s.probe("another component"); }
        else if (what <= 3) {
            v = k == 0 ? s.pick({"2.5", "-0.125", "x"}) : k == 1 ? s.pick({"12", "0", "-1"}) : k == 2 ? s.pick({"1", "0", "2"}) : s.pick({"", "text", "another text"});
            bad = v == "x" || v == "-1" || v == "2";
            if (s.chance(1, 3)) { plan.armed = s.draw(5); plan.flavor = s.draw(3); }
            t = guarded([&] { if (s.chance(1, 2)) c.setValue(keys[k], Val(v)); else c.setValue(Path(1, keys[k]), Val(v)); });
            plan.armed = -1;
            s.check(t == Thrown::None ? !bad && !plan.fired : bad || plan.fired, "refused", "setting %s to %s", keys[k], v.c_str());
            if (v == "1" && k == 2) v = "true"; else if (v == "0" && k == 2) v = "false";
            if (t == Thrown::None || (!bad && val(*o[cur], k) == v)) m[cur][k] = v;
        }
        else if (what == 4) {       // help is there without any parameter having been asked for
            auto h = s.chance(1, 2) ? c.helpOnValue(std::string("p")) : c.helpOnValue(Path(1, "p")), none = c.helpOnValue(std::string("p.no_such"));
            s.check(h == "help on p" && none == "No help is available", "help", "help on p is '%s', help on what does not exist is '%s'", h.c_str(), none.c_str());
        }
        if (s.chance(1, 2)) for (unsigned i = 0; i < 3; ++i) for (unsigned q = 0; q < 4; ++q) s.check(val(*o[i], q) == m[i][q], "after_set", "%s of component %u is %s, expected %s", keys[q], i, val(*o[i], q).c_str(), m[i][q].c_str());
        if (s.chance(2, 3)) { unsigned q = s.draw(4); std::string got = s.chance(1, 2) ? (std::string)c.value(std::string(keys[q])) : (std::string)c.parameters().at(keys[q]); s.check(got == m[cur][q], "after_set", "%s of component %u is told to be %s, expected %s", keys[q], cur, got.c_str(), m[cur][q].c_str()); }
        s.shapeN(what * 4 + k); s.tick(); s.nontrivial();
    }
    s.probe("components replaced");
}

SCENARIO(C11, init11) {
    Sim& s = S_;
    plan = Plan();
    if (s.chance(1, 12)) { providers(s); return; }
    auto w = std::unique_ptr<W11>(new W11);
    w->m = toKids(w->c.parameters());
    // what a configuration starts from: defaults of the types it is made of
    for (auto& i : w->m) if (i.second.obj && !i.second.val.empty()) i.second.kids = catalog[iface(i.first)][i.second.val];
    int ops = s.range(3, 10);
    bool fancy = false; mayBeWild = s.chance(1, 4);
    for (int op = 0; op < ops; ++op) {
        Kids& m = w->m; Config& c = w->c;
        std::vector<Path> all; Path pre; collect(m, pre, all);
        std::vector<Path> objs; for (auto& p : all) { Kids* par; auto n = find(m, p, &par); if (n->obj && p.size() < 5) objs.push_back(p); }
        int what = s.draw(12);
        if (what == 11) {   // help
            Path p = s.pickv(all); if (s.chance(1, 4)) p.push_back("no_such");
            std::string h;
            try { h = s.chance(1, 2) ? c.helpOnValue(p) : c.helpOnValue(join(p)); } catch (...) { s.fail("help", "help on '%s' has thrown", join(p).c_str()); }
            s.check(!h.empty(), "help", "help on '%s' is empty", join(p).c_str());
            Kids* par; auto n = find(m, p, &par);
            if (!n) s.check(h == "No help is available", "help", "help on '%s', which does not exist: %s", join(p).c_str(), h.c_str());
            else if (n->obj && h != "No help is available") {
                auto pos = h.find("\n* "); std::string marked = pos == std::string::npos ? "" : h.substr(pos + 3, h.find('\n', pos + 1) == std::string::npos ? std::string::npos : h.find('\n', pos + 1) - pos - 3);
                s.check(marked == n->val, "help", "help on '%s' marks type '%s', the current one is '%s'", join(p).c_str(), marked.c_str(), n->val.c_str());
                s.probe("help_type");
            }
            continue;
        }
        // ---- a change
        Change ch; bool valid = true, bad = false; std::string badPath; bool usePathStr = s.chance(1, 2);
        if (what <= 3) {          // an object
            ch.path = s.pickv(objs); if (op < 2 && s.chance(1, 2)) ch.path = Path(1, op ? "solver" : "rhs");
            auto& types = catalog[iface(ch.path.back())];
            Types t; for (auto& i : types) t.push_back(i.first);
            if (!required(ch.path)) t.push_back("");
            if (t.empty()) t.push_back("");
            // simulated components and adaptive or implicit solvers more often
            ch.text = s.pickv(t); if (s.chance(1, 4) && types.count("sim_rhs")) ch.text = "sim_rhs"; if (s.chance(1, 4) && types.count("sim_out")) ch.text = "sim_out";
            if (s.chance(1, 5) && types.count("i_euler")) ch.text = "i_euler";
            if (what == 3 && s.chance(1, 3)) { ch.text = s.pick({"no_such_type", "RK4", "simple ", "rk4.h_init"}); s.fault("unknown_type"); }
            ch.v = Val(ch.text);
        } else {
            ch.path = s.pickv(all); for (int i = 0; i < 8; ++i) { Kids* par; if (!find(m, ch.path, &par)->obj) break; ch.path = s.pickv(all); }
            Kids* par; auto n = find(m, ch.path, &par); const std::string& k = ch.path.back();
            if (n->obj) { ch.text = n->val; ch.v = Val(ch.text); }
            else switch (kind(k)) {
                case 'd': { double d = drawDouble(s, k, w->wild); int f = s.draw(4); if (f == 3 && (mayBeWild || std::string("pcafxmF").find(k[0]) != std::string::npos) && k != "max_threshold" && k != "abs_tol") { ch.text = s.pick({"5", "+1", ".25", "2.", "1e-1", "1E0", "007"}); if (k == "h_min" || k == "alpha") w->wild = true; ch.v = Val(ch.text); } else { ch.text = fmt("%.17g", d); ch.v = f ? Val(d) : Val(ch.text); } break; }
                case 'u': { unsigned u = mayBeWild && s.chance(1, 5) ? s.pick({4294967295u, 2147483648u, 4000000000u}) : s.range(0, 5); if (k == "max_iterations" && u < 10) u += 20; if (k == "n" && u > 5) u = 3; ch.text = std::to_string(u); ch.v = s.chance(1, 2) || u > 100 ? Val(u) : Val(int(u)); break; }
                case 'i': { int u = s.range(0, 5); ch.text = std::to_string(u); ch.v = Val(u); break; }
                case 'b': { int u = s.draw(5); ch.text = u == 0 ? "true" : u == 1 ? "false" : u == 2 ? "1" : "0"; ch.v = u < 2 && s.chance(1, 2) ? Val(u == 0) : Val(ch.text); break; }
                case 's': ch.text = s.pick({"", "name", "a b.c", "5", "a string long enough to be allocated separately", "x,y={z}"}); ch.v = Val(ch.text); break;
                case 'm': ch.text = s.pick({"low", "high"}); ch.v = Val(ch.text); break;
                case 'f': ch.text = s.pick({"atan", "tabular", "linear"}); ch.v = Val(ch.text); break;
            }
            if (what >= 8 && kind(k) != 's' && !n->obj) {      // a value that is to be refused
                switch (kind(k)) {
                    case 'd': ch.text = s.pick({"abc", "", "1.5x", "1,5", "--1", "1e", ".", "0x10", " 1", "1 ", "true"}); break;
                    case 'u': ch.text = s.pick({"-1", "4294967296", "1.5", "abc", "", "99999999999", "-0", "1e2"}); break;
                    case 'i': ch.text = s.pick({"abc", "1.5", "", "99999999999"}); break;
                    case 'b': ch.text = s.pick({"2", "yes", "TRUE", "", "True"}); break;
                    default: ch.text = s.pick({"", "medium", "LOW", "Atan"}); break;
                }
                ch.v = Val(ch.text); s.fault("invalid_value");
            }
            if (what == 10 && s.chance(1, 2)) {                // a path that does not exist
                int b = s.draw(6); bad = true; s.fault("invalid_path");
                if (b == 0) badPath = join(ch.path) + ".no_such"; else if (b == 1) badPath = "no_such"; else if (b == 2) badPath = "no_such." + join(ch.path);
                else if (b == 3) badPath = ""; else if (b == 4) badPath = "." + join(ch.path); else badPath = ch.path[0] + ".." + (ch.path.size() > 1 ? ch.path[1] : "x");
                usePathStr = true; valid = false;
            }
        }
        Kids after = m; Kids* par; find(after, ch.path, &par);
        if (valid) valid = applyTo(*par, ch.path.back(), ch.text);
        normalize(after, true);
        if (!valid) after = m;
        // ---- faults
        int f = s.draw(8); bool al = false;
        plan = Plan(); alloc.fired = false;
        if (f == 1 || f == 2) { plan.armed = s.draw(12); plan.flavor = s.draw(3); }
        else if (f == 3) { al = true; }
        bool threw = false, simThrow = false; std::string what_;
        auto set = [&] {
            if (usePathStr) { std::string ps = bad ? badPath : join(ch.path); if (al) { alloc.countdown = s.draw(s.chance(1, 2) ? 2000 : 60); alloc.fired = false; alloc.armed = true; } c.setValue(ps, ch.v); }
            else { if (al) { alloc.countdown = s.draw(s.chance(1, 2) ? 2000 : 60); alloc.fired = false; alloc.armed = true; } c.setValue(ch.path, ch.v); }
        };
        try { set(); alloc.armed = false; }
        catch (const std::bad_alloc&) { alloc.armed = false; threw = simThrow = true; if (alloc.fired) s.fault("allocation_failure"); what_ = "bad_alloc"; s.check(alloc.fired || plan.fired, "exception", "bad_alloc not injected"); }
        catch (const std::exception& e) { alloc.armed = false; threw = true; simThrow = plan.fired; what_ = e.what(); }
        catch (...) { alloc.armed = false; threw = simThrow = true; what_ = "?"; s.check(plan.fired, "exception", "unknown exception not injected"); }
        plan.armed = -1;
        s.note(threw ? "refused" : "set", (bad ? badPath : join(ch.path)) + "=" + ch.text + (threw ? " (" + what_ + ")" : ""));
        bool injected = alloc.fired || plan.fired;
        if (s.chance(1, 4)) {   // the configuration is read, and a component or the allocator fails
            plan = Plan(); alloc.fired = false; bool a2 = s.chance(1, 3); Path p = s.pickv(all); std::string ps = join(p);
            if (!a2) { plan.armed = s.draw(4); plan.flavor = s.draw(3); }
            int how = s.draw(3); 
            try {
                if (a2) { alloc.countdown = s.draw(s.chance(1, 2) ? 600 : 40); alloc.armed = true; }
                if (how == 0) c.parameters(); else if (how == 1) c.helpOnValue(ps); else c.value(Path(1, "time"));
                alloc.armed = false;
                s.check(!alloc.fired && !plan.fired || how == 1, "swallowed", "an exception was swallowed by a read");
            }
            catch (...) { alloc.armed = false; if (alloc.fired) s.fault("allocation_failure_in_read"); s.check(alloc.fired || plan.fired, "exception", "reading the configuration has thrown"); s.probe("failed_read"); }
            plan.armed = -1;
        }
        s.shape(threw ? "r" : "s"); s.shapeN(ch.path.size()*7 + what); s.shape(ch.path.back().c_str());
        if (!threw) {
            s.check(!injected, "swallowed", "an exception thrown by a component or allocator was swallowed while setting %s", join(ch.path).c_str());
            s.check(valid, "accepted", "%s='%s' is accepted", bad ? badPath.c_str() : join(ch.path).c_str(), ch.text.c_str());
            m = after; w->done.push_back(ch);
            if (ch.path.size() > 2) s.nontrivial();
            snapshotCheck(s, *w, "after_set");
        } else {
            s.check(!valid || simThrow, "refused", "%s='%s' is refused: %s", join(ch.path).c_str(), ch.text.c_str(), what_.c_str());
            s.nontrivial();
            if (simThrow && valid) {
                // the value itself is the old or the new one
                auto d = diff(after, c.parameters(), ""), d0 = diff(m, c.parameters(), "");
                s.check(d.empty() || d0.empty(), "after_failure", "after a failure (%s) to set %s='%s': %s", what_.c_str(), join(ch.path).c_str(), ch.text.c_str(), d0.c_str());
                if (!d0.empty()) { m = after; s.probe("failed_but_set"); }
                s.probe("failed_valid");
            }
            snapshotCheck(s, *w, "after_refusal");
            fancy = true;
        }
    }
    // ---- the history does not matter, only the values do
    if (!w->wild && cheap(w->m) && !w->m["rhs"].val.empty() && s.chance(1, 2)) {
        auto c2 = std::unique_ptr<Config>(new Config); Path pre;
        Kids m2 = w->m;
        try { rebuild(s, *c2, m2, pre); } catch (const std::exception& e) { s.fail("rebuild", "values of a configuration are not accepted by another one: %s", e.what()); }
        auto d = diff(w->m, c2->parameters(), "");
        s.check(d.empty(), "rebuild", "rebuilt: %s", d.c_str());
        auto r1 = compute(s, w->c), r2 = compute(s, *c2);
        s.check(r1 == r2, "history", "same values, but another result: %s, expected %s", r1.c_str(), r2.c_str());
        s.probe(fancy ? "compared_after_failures" : "compared");
        s.note("result", r1);
        auto d3 = diff(w->m, w->c.parameters(), "");
        s.check(d3.empty(), "after_use", "use of a configuration has changed it: %s", d3.c_str());
    }
}
} // namespace sim
