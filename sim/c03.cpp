// C03: every step is a step of the advertised method, whatever happened before
#include "world.h"
#include "ode_num_int/ode/OdeStepMappingEuler.h"
namespace sim {

// ---------------------------------------------------------------- rooted trees

struct Tree { int order; double gamma; std::vector<int> ch; };
static std::vector<Tree> trees;                     // up to order 8
static std::vector<int> firstOf;                    // firstOf[n]: index of the first tree of order n

static void addTrees(int n, int left, int from, std::vector<int>& ch) {
    if (left == 0) {
        Tree t; t.order = n; t.gamma = n; t.ch = ch; for (int c : ch) t.gamma *= trees[c].gamma;
        trees.push_back(t); return;
    }
    int lim = firstOf[n];
    for (int c = from; c < lim; ++c) if (trees[c].order <= left) { ch.push_back(c); addTrees(n, left - trees[c].order, c, ch); ch.pop_back(); }
}

static void init() {
    registerAll();
    firstOf.assign(10, 0);
    for (int n = 1; n <= 8; ++n) { firstOf[n] = trees.size(); std::vector<int> ch; addTrees(n, n - 1, 0, ch); firstOf[n + 1] = trees.size(); }
}

// ---------------------------------------------------------------- the system that extracts coefficients

// Each evaluation of the right hand side yields another unit vector, so that components of states
// passed back by the solver are the coefficients of the method
class ProbeRhs : public OdeRhs<VD>, public ctm::FactoryMixin<ProbeRhs, OdeRhs<VD>> {
public:
    static const unsigned D = 128;
    Ctx* cx = nullptr;
    struct Call { double t; std::vector<double> x; unsigned idx; };
    mutable std::vector<Call> calls;
    mutable unsigned next = 0, total = 0;
    using OdeRhs<VD>::rhs;
    unsigned int secondOrderVarCount() const { return 0; }
    unsigned int firstOrderVarCount() const { return D; }
    unsigned int zeroFuncCount() const { return 0; }
    std::vector<unsigned int> zeroFuncFlags() const { return std::vector<unsigned>(); }
    void rhs(V& dst, double t, const V& x) const {
        if (cx) cx->point(P_RHS);
        this->odeRhsPreObservers(t, x, this);
        Call c; c.t = t; c.x = vec(x); c.idx = next; next = (next + 1) % D; ++total; calls.push_back(c);
        dst.resize(D); for (unsigned i = 0; i < D; ++i) dst[i] = i == c.idx ? 1 : 0;
        this->odeRhsPostObservers(t, x, dst, this);
    }
    void zeroFunctions(V& dst, double, const V&) const { dst.resize(0); }
    void switchPhaseState(const int*, double, V&) {}
    std::string describeZeroFunction(unsigned int) const { return std::string(); }
};

struct Method {     // coefficients extracted
    size_t s = 0; std::vector<double> A, b, d, c; bool haveErr = false;
    std::vector<std::vector<double>> phi;           // of all trees
    void prepare(int maxOrder) {
        int n = firstOf[std::min(maxOrder, 8) + 1];
        std::vector<std::vector<double>> aphi(n);
        phi.assign(n, std::vector<double>(s, 1.0));
        for (int t = 0; t < n; ++t) {
            for (int ch : trees[t].ch) for (size_t i = 0; i < s; ++i) phi[t][i] *= aphi[ch][i];
            aphi[t].assign(s, 0.0);
            for (size_t i = 0; i < s; ++i) { double v = 0; for (size_t j = 0; j < i; ++j) v += A[i*s + j] * phi[t][j]; aphi[t][i] = v; }
        }
    }
    // least order of a condition not satisfied by weights w (right hand sides are multiplied by one)
    int order(const std::vector<double>& w, double one, int maxOrder) const {
        maxOrder = std::min(maxOrder, 8);
        for (int t = 0; t < firstOf[maxOrder + 1]; ++t) {
            double v = 0, m = 0; for (size_t i = 0; i < s; ++i) { v += w[i]*phi[t][i]; m += std::fabs(w[i]*phi[t][i]); }
            if (!(std::fabs(v - one / trees[t].gamma) <= 1e-9 * (1 + m))) return trees[t].order - 1;
        }
        return maxOrder;
    }
};

static std::vector<int> sequence(const std::string& id, int n) {
    std::vector<int> r;
    for (int i = 0; i < n; ++i) {
        if (id == "harmonic") r.push_back(i + 1);
        else if (id == "romberg") r.push_back(1 << i);
        else r.push_back(i == 0 ? 1 : i % 2 ? 1 << ((i + 1) / 2) : 3 << (i / 2 - 1));
    }
    return r;
}

static void explicitMethods(Sim& s) {
    SolverSpec sp;
    sp.id = s.pick({"dopri_45", "dopri_56", "dopri_78", "euler", "rk4", "gragg", "extrapolator", "extrapolator"});
    sp.h = s.pick({0.125, 0.3, 0.5, 1.0, 0.05});
    sp.mode = s.chance(1, 2) ? "high" : "low"; sp.smooth = s.chance(1, 2);
    sp.noErr = sp.adaptive() && s.chance(1, 6); sp.forceErr = s.chance(1, 2);
    if (sp.id == "extrapolator") {
        sp.ref = std::make_shared<SolverSpec>(); sp.ref->id = s.pick({"euler", "gragg"}); sp.ref->smooth = s.chance(1, 2);
        sp.symmetric = sp.ref->id == "gragg"; sp.stages = s.range(sp.noErr ? 1 : 2, 5);
        sp.seq = s.pick({"harmonic", "romberg", "bulirsch"});
    }
    bool gragg = sp.id == "gragg", embedded = sp.id.compare(0, 5, "dopri") == 0;
    RhsSpec dummy; dummy.l.assign(1, 1.0); dummy.F.assign(1, 0.0); dummy.cpl.assign(1, 0.0);
    World w; w.build(sp, dummy, true, true);
    auto probe = std::make_shared<ProbeRhs>(); probe->cx = &w.cx; w.solver->setOdeRhs(probe);
    std::vector<double> err; bool haveErr = false;
    if (w.norm) w.norm->f = [&](const V& v) { err = vec(v); haveErr = true; return 0.5; };
    int rejections = 0; double hNext = 0; bool reject = false, change = false;
    if (w.ctl) w.ctl->f = [&](double h, double, double) { return SimCtl::R(change ? hNext : h, !reject, change); };
    s.note("solver", sp.str());

    V x0(ProbeRhs::D); for (unsigned i = 0; i < ProbeRhs::D; ++i) x0[i] = (i % 7) * 0.25 - 0.5;
    double t0 = s.pick({0.0, 1.0, -2.5});
    w.solver->setInitialState(t0, x0);
    double tBase = t0; std::vector<double> xBase = vec(x0); double H = 0; int composed = 0;
    std::vector<double> dRef; std::string dRefMode; double hAttempt = 0;

    auto analyse = [&](double h, bool accepted, const std::vector<double>& xEnd) {
        const char* who = sp.id.c_str();
        size_t n = probe->calls.size();
        if (n > ProbeRhs::D) s.discard("too many evaluations");
        Method m; m.s = n; m.A.assign(n*n, 0.0); m.b.assign(n, 0.0); m.c.resize(n);
        std::vector<int> stageOf(ProbeRhs::D, -1);
        // derivatives kept from an earlier evaluation at the starting point are a stage, too
        for (size_t i = 0; i < n; ++i) stageOf[probe->calls[i].idx] = i;
        auto read = [&](const std::vector<double>& x, double* dst, size_t limit, const char* what) {
            for (unsigned j = 0; j < ProbeRhs::D; ++j) {
                double v = (x[j] - xBase[j]) / h;
                if (stageOf[j] >= 0 && (size_t)stageOf[j] < limit) dst[stageOf[j]] = v;
                else if (!(std::fabs(v) <= 1e-11)) s.fail("foreign-derivative", "%s: %s depends on a derivative that is not one of this step (coefficient %.17g)", who, what, v);
            }
        };
        for (size_t i = 0; i < n; ++i) {
            auto& c = probe->calls[i];
            if (c.t == tBase && maxDiff(c.x, xBase) == 0) { m.c[i] = 0; continue; }
            read(c.x, &m.A[i*n], i, "a stage");
            m.c[i] = (c.t - tBase) / h;
            double sum = 0; for (size_t j = 0; j < n; ++j) sum += m.A[i*n + j];
            s.check(std::fabs(sum - m.c[i]) <= 1e-10, "time-of-stage", "%s: evaluation %u is made at time %.17g of the step, its state is that at time %.17g", who, (unsigned)i, m.c[i], sum);
        }
        int order = w.solver->order(), low = order;
        if (embedded) low = sp.lowOrder();
        if (sp.id == "extrapolator") low = order - (sp.symmetric ? 2 : 1);
        int expected = sp.id == "euler" ? 1 : sp.id == "rk4" ? 4 : gragg ? 2 : embedded ? sp.lowOrder() + (sp.mode == "high") : (sp.symmetric ? 2*sp.stages : sp.stages);
        s.check(order == expected, "order", "%s: order is said to be %d, expected %d", sp.str().c_str(), order, expected);
        int top = embedded ? sp.lowOrder() + 1 : std::max(order, low + 1);
        m.prepare(top);
        if (accepted) {
            read(xEnd, m.b.data(), n, "the result");
            int got = m.order(m.b, 1, order);
            s.check(got >= std::min(order, 8), "order-conditions", "%s: result of the step is of order %d, said to be %d", sp.str().c_str(), got, order);
            if (gragg) {        // the state is that of the midpoint rule, unless it is to be smoothened
                double atMid = 0, other = 0; for (size_t i = 0; i < n; ++i) { double c = m.c[i] * h / hAttempt, f = c - std::floor(c); (std::fabs(f - 0.5) < 0.25 ? atMid : other) += std::fabs(m.b[i]); }
                s.check(sp.smooth ? other > 1e-9 : other < 1e-9, "smoothing", "%s: weight of derivatives not at the middle of a step is %.17g", sp.str().c_str(), other);
                (void)atMid; s.probe(sp.smooth ? "smoothened state" : "state not smoothened");
            }
            s.probe("order conditions of the result");
        }
        if (haveErr && !gragg) {
            m.d.assign(n, 0.0);
            std::vector<double> e(err); for (unsigned j = 0; j < ProbeRhs::D; ++j) e[j] += xBase[j];
            read(e, m.d.data(), n, "the error estimate");
            int got = m.order(m.d, 0, low + 1);
            if (low < 8) s.check(got == low, "order-of-error", "%s: error estimate is of order %d, expected %d", sp.str().c_str(), got + 1, low + 1);
            else s.check(got >= 8, "order-of-error", "%s: error estimate is of order %d, expected %d", sp.str().c_str(), got + 1, low + 1);
            s.probe("order conditions of the error estimate");
            if (embedded) {
                if (accepted && sp.mode == "low") {       // the other solution differs by the error estimate
                    bool ok = false;
                    for (double sign : {1.0, -1.0}) { auto q = m.b; for (size_t i = 0; i < n; ++i) q[i] += sign * m.d[i]; if (m.order(q, 1, low + 1) >= low + 1) ok = true; }
                    s.check(ok, "scale-of-error", "%s: error estimate is not the difference of solutions of orders %d and %d", sp.str().c_str(), low + 1, low);
                }
                if (dRef.size() == n) {
                    double df = 0; for (size_t i = 0; i < n; ++i) df = std::max(df, std::fabs(m.d[i] - dRef[i]));
                    s.check(df <= 1e-9, "error-depends-on-history", "%s: error estimate differs from that of another attempt by %.3g", sp.str().c_str(), df);
                    if (dRefMode != sp.mode) s.probe("same error estimate in both modes");
                }
                dRef = m.d; dRefMode = sp.mode;
            }
        }
        if (sp.id == "extrapolator" && n == probe->calls.size()) {
            // partial solutions start at the initial time
            std::vector<int> len; size_t first = 0;
            for (size_t i = 1; i <= n; ++i) if (i == n || (probe->calls[i].t == tBase)) { len.push_back(i - first); first = i; }
            auto seq = sequence(sp.seq, sp.stages); bool ok = len.size() == seq.size();
            for (size_t i = 0; ok && i < seq.size(); ++i) ok = len[i] == (sp.ref->id == "euler" ? seq[i] : 2*seq[i] + 1);
            s.check(ok, "step-sequence", "%s: numbers of steps do not make the sequence", sp.str().c_str());
            if (accepted && haveErr && sp.stages > 1) {     // the less accurate solution does without the first partial one
                bool some = false;
                for (double sign : {1.0, -1.0}) { bool z = true; for (int i = 0; i < len[0]; ++i) z = z && std::fabs(m.b[i] + sign*m.d[i]) < 1e-9; some = some || z; }
                s.check(some, "scale-of-error", "%s: error estimate is not the difference of the two most accurate solutions", sp.str().c_str());
            }
        }
        s.ev("analysed", {double(n), double(accepted)});
        s.nontrivial();
    };

    auto begin = [&]() { if (!gragg || !composed) { probe->calls.clear(); tBase = w.t(); xBase = w.x(); H = 0; } };
    double hAtt = 0;
    int preId = w.solver->odeSolverPreObservers.add([&](double h, const Solver*) { hAtt = h; haveErr = false; begin(); });
    (void)preId;
    w.onPost = [&](const OdeSolverPostObserverArg<VD>& a) {
        s.check(!a.stepTruncated(), "truncated", "step is truncated without a reason");
        hAttempt = hAtt;
        if (gragg) { ++composed; H += hAtt; }
        analyse(gragg ? H : hAtt, a.stepAccepted(), w.x());
    };

    int N = s.range(1, 5);
    for (int k = 0; k < N; ++k) {
        double tb = w.t();
        if (w.ctl) { rejections = s.draw(3); }
        reject = rejections > 0; change = w.ctl && (reject || s.chance(1, 3)); hNext = s.pick({0.25, 0.1, 0.5, 0.75});
        if (w.ctl) w.ctl->f = [&](double h, double, double) {
            bool rej = rejections-- > 0; bool ch = rej || s.chance(1, 3); double hn = ch ? s.pick({0.25, 0.1, 0.5, 0.75}) : h;
            if (rej) s.fault("rejected-step");
            return SimCtl::R(hn, !rej, ch); };
        int faults = s.draw(3);
        for (int f = 0; ; ++f) {
            if (f < faults) w.cx.arm(s.draw(sp.id == "extrapolator" ? 40 : 20), s.draw(3)); else w.cx.disarm();
            std::string what; auto na = w.attempts.size();
            auto r = guarded([&] { w.solver->doStep(); }, &what);
            if (r == Thrown::None) break;
            s.check(r == Thrown::Sim, "unexpected-exception", "%s: %s", sp.str().c_str(), what.c_str());
            if (w.attempts.size() > na && w.attempts.back().accepted) break;
        }
        w.cx.disarm();
        s.check(std::fabs(w.t() - tb - w.attempts.back().h) <= 1e-12, "time", "%s: step of size %.17g goes from %.17g to %.17g", sp.str().c_str(), w.attempts.back().h, tb, w.t());
        s.simTime += std::fabs(w.t() - tb);
        if (s.chance(1, 4)) {       // another mode or initial state
            if (embedded && s.chance(2, 3)) { sp.mode = sp.mode == "low" ? "high" : "low"; Parameters p; p["mode"] = sp.mode; w.solver->setParameters(p); }
            else if (sp.id == "extrapolator" && s.chance(2, 3)) {       // other stages in the course of a solution
                if (s.chance(1, 4)) {
                    Parameters p; bool few = s.chance(1, 2); if (few) p["max_stages"] = sp.noErr ? 0u : s.draw(2); else p["step_sequence"] = std::string();
                    w.solver->setParameters(p); std::string what; double t = w.t(); auto x = w.x();
                    auto r = guarded([&] { w.solver->doStep(); }, &what);
                    s.check(r == Thrown::Lib && w.t() == t && same(w.x(), x), "invalid-stages", "%s: step %s %s", sp.str().c_str(), few ? "with too few stages" : "without a step sequence", r == Thrown::None ? "is made" : "moves the solution");
                    s.probe("step without stages refused");
                }
                sp.stages = s.range(sp.noErr ? 1 : 2, 6); sp.seq = s.pick({"harmonic", "romberg", "bulirsch"});
                Parameters p; p["max_stages"] = unsigned(sp.stages); p["step_sequence"] = sp.seq; w.solver->setParameters(p); s.probe("stages changed in the course of a solution");
            }
            else { w.solver->setInitialState(s.pick({0.0, 3.0}), x0, s.chance(1, 2)); composed = 0; }
        } else if (gragg && s.chance(1, 4)) { w.solver->setInitialStepSize(s.pick({0.25, 0.1})); composed = 0; }
    }
}

// ---------------------------------------------------------------- implicit methods

typedef std::vector<double> D;
static D gauss(D A, D b) {
    size_t n = b.size();
    for (size_t c = 0; c < n; ++c) {
        size_t p = c; for (size_t r = c; r < n; ++r) if (std::fabs(A[r*n + c]) > std::fabs(A[p*n + c])) p = r;
        if (p != c) { for (size_t k = 0; k < n; ++k) std::swap(A[c*n + k], A[p*n + k]); std::swap(b[c], b[p]); }
        for (size_t r = c + 1; r < n; ++r) { double f = A[r*n + c] / A[c*n + c]; if (f == 0) continue; for (size_t k = c; k < n; ++k) A[r*n + k] -= f*A[c*n + k]; b[r] -= f*b[c]; }
    }
    for (size_t c = n; c-- > 0; ) { for (size_t k = c + 1; k < n; ++k) b[c] -= A[c*n + k]*b[k]; b[c] /= A[c*n + c]; }
    return b;
}
static D axpy(const D& x, double a, const D& y) { D r(x); for (size_t i = 0; i < r.size(); ++i) r[i] += a*y[i]; return r; }

static void implicitMethods(Sim& s) {
    SolverSpec sp;
    for (int i = 0; ; ++i) { sp = SolverSpec::draw(s, SolverSpec::Implicit | SolverSpec::Fixed | SolverSpec::Adaptive); if (sp.id == "rosenbrock_w1" || sp.id == "rosenbrock_sw2_4" || sp.id == "i_euler") break; }
    bool ros = sp.id != "i_euler";
    RhsSpec rs = RhsSpec::draw(s, false);
    s.note("solver", sp.str());
    World w; w.build(sp, rs, true, true);
    SimRhs ref(rs, nullptr); unsigned n = rs.n(), n2 = rs.n2;
    auto F = [&](double t, const D& x) { V v(n), r(n); for (unsigned i = 0; i < n; ++i) v[i] = x[i]; ref.compute(r, t, v); return vec(r); };
    D J; bool haveJ = false;
    auto jacobian = [&](double t, const D& x) {
        J.assign(n*n, 0.0); D y(x);
        for (unsigned j = 0; j < n; ++j) { double dx = 1e-5; y[j] = x[j] + dx; D a = F(t, y); y[j] = x[j] - dx; D b = F(t, y); y[j] = x[j]; for (unsigned i = 0; i < n; ++i) J[i*n + j] = (a[i] - b[i]) / (2*dx); }
    };
    auto mul = [&](const D& x) { D r(n, 0.0); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) r[i] += J[i*n + j]*x[j]; return r; };
    D err; bool haveErr = false;
    if (w.norm) w.norm->f = [&](const V& v) { err = vec(v); haveErr = true; return 0.5; };
    int rejections = 0;
    if (w.ctl) w.ctl->f = [&](double h, double, double) {
        bool rej = rejections-- > 0; bool ch = rej || s.chance(1, 3); double hn = ch ? s.pick({0.25, 0.1, 0.5, 0.05}) : h;
        if (rej) s.fault("rejected-step");
        return SimCtl::R(hn, !rej, ch); };
    V x0 = rs.drawState(s); double t0 = s.pick({0.0, 1.0, -2.5});
    w.solver->setInitialState(t0, x0);
    double tBase = t0; D xBase = vec(x0); double hAtt = 0;
    w.solver->odeSolverPreObservers.add([&](double h, const Solver*) { hAtt = h; haveErr = false; tBase = w.t(); xBase = w.x(); });
    double tol = 1e-5;
    w.onPost = [&](const OdeSolverPostObserverArg<VD>& a) {
        double h = hAtt; D x1 = w.x();
        if (ros) {
            if (!haveJ) { jacobian(tBase, xBase); haveJ = true; }
            D W(n*n, 0.0); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) W[i*n + j] = (i == j) - h*sp.d*J[i*n + j];
            D k1 = gauss(W, F(tBase, xBase)), y, e;
            if (sp.id == "rosenbrock_w1") y = axpy(xBase, h, k1);
            else {
                D k2 = gauss(W, axpy(F(tBase + h*2/3, axpy(xBase, h*2/3, k1)), -4./3*h*sp.d, mul(k1)));
                y = axpy(axpy(xBase, h/4, k1), h*3/4, k2);
                D k3 = gauss(W, F(tBase + h, y));
                D c(n); for (unsigned i = 0; i < n; ++i) c[i] = k1[i]*2/3 + k2[i]*6;
                D k4 = gauss(W, axpy(F(tBase + h*5/3, axpy(y, h*2/3, k3)), h*sp.d, mul(c)));
                e.resize(n); for (unsigned i = 0; i < n; ++i) e[i] = h/8*(k1[i] - 5*k2[i] + 5*k3[i] - k4[i]);
            }
            if (!finite(y) || !finite(x1)) s.discard("solution is not finite");
            double sc = 1; for (double v : y) sc = std::max(sc, std::fabs(v));
            if (sc > 1e3) s.discard("solution grows");
            if (a.stepAccepted()) s.check(maxDiff(x1, y) <= tol*sc, "result", "%s: result of the step is %s, expected %s", sp.str().c_str(), str(x1).c_str(), str(y).c_str());
            if (haveErr) s.check(maxDiff(err, e) <= tol*sc, "error-estimate", "%s: error estimate is %s, expected %s", sp.str().c_str(), str(err).c_str(), str(e).c_str());
        } else {
            D f0 = F(tBase, xBase), f1 = F(tBase + h, x1), y(n);
            if (!finite(x1)) s.discard("solution is not finite");
            for (unsigned i = 0; i < n; ++i) y[i] = xBase[i] + h*(sp.alpha*f1[i] + (1 - sp.alpha)*f0[i]);
            double sc = 1; for (double v : y) sc = std::max(sc, std::fabs(v));
            s.check(maxDiff(x1, y) <= 1e-8*sc, "equation", "%s: result of the step is %s, the equation of the method gives %s", sp.str().c_str(), str(x1).c_str(), str(y).c_str());
        }
        s.nontrivial(); s.probe(ros ? "step of a Rosenbrock method" : "step of the implicit method");
    };
    (void)n2;
    int N = s.range(1, 6); bool marathon = ros && s.chance(1, 30); if (marathon) { N = 230; s.probe("many step sizes"); }
    for (int k = 0; k < N; ++k) {
        double tb = w.t();
        rejections = marathon ? 0 : s.draw(3);
        if (marathon) w.solver->setInitialStepSize(0.002 * (1 + (k * 37) % 113));
        int faults = marathon ? s.chance(1, 20) : s.draw(3);
        bool failed = false;
        for (int f = 0; ; ++f) {
            if (f < faults) w.cx.arm(s.draw(20), s.draw(3)); else w.cx.disarm();
            std::string what; auto na = w.attempts.size();
            auto r = guarded([&] { w.solver->doStep(); }, &what);
            if (r == Thrown::None) break;
            if (r == Thrown::Lib && what.compare(0, 23, "Algebraic solver failed") == 0 && !sp.exact()) { failed = true; break; }
            s.check(r == Thrown::Sim, "unexpected-exception", "%s: %s", sp.str().c_str(), what.c_str());
            if (w.attempts.size() > na && w.attempts.back().accepted) break;
        }
        w.cx.disarm();
        if (failed) s.discard("algebraic solver fails");
        s.check(std::fabs(w.t() - tb - w.attempts.back().h) <= 1e-12, "time", "%s: step of size %.17g goes from %.17g to %.17g", sp.str().c_str(), w.attempts.back().h, tb, w.t());
        s.simTime += std::fabs(w.t() - tb);
        if (s.chance(1, 5)) {
            bool soft = s.chance(1, 2);
            x0 = rs.drawState(s); w.solver->setInitialState(s.pick({0.0, 3.0}), x0, soft); if (!soft) haveJ = false;
        } else if (!marathon && s.chance(1, 5)) w.solver->setInitialStepSize(s.pick({0.2, 0.1, 0.4}));
        if (!marathon && s.chance(1, 4)) {       // other options in the course of the solution
            Parameters p;
            if (ros) { sp.d = s.pick({0.5, 1.0, 0.29, 0.75}); p["d"] = sp.d; }
            else {
                SolverSpec o; for (int i = 0; i < 64 && o.id != sp.id; ++i) o = SolverSpec::draw(s, SolverSpec::Implicit | SolverSpec::Fixed);
                if (o.id == sp.id) switch (s.draw(5)) {
                    case 0: reorder(*w.solver, o.reorder); sp.reorder = o.reorder; s.probe("another order of variables in the course of a solution"); break;
                    case 1: sp.alpha = o.alpha; p["alpha"] = sp.alpha; break;
                    case 2: sp.pred = o.pred; sp.predSteps = o.predSteps; { auto q = solverParams(sp); p["predictor"] = q["predictor"]; p["predictor_steps"] = q["predictor_steps"]; } break;
                    case 3: sp.ddir = o.ddir; sp.jac = o.jac; sp.lazy = o.lazy; p["algsolver"] = solverParams(sp)["algsolver"]; s.probe("another Newton solver in the course of a solution"); break;
                    default: { auto reo = sp.reorder; sp = o; p = solverParams(sp); sp.reorder = reo; }
                }
            }
            if (!p.empty()) w.solver->setParameters(p);
            s.probe("options changed in the course of a solution");
        }
    }
}

// The step equation of the implicit alpha method seen by itself, with evaluations that fail
static void stepEquation(Sim& s) {
    RhsSpec rs = RhsSpec::draw(s, false);
    Ctx cx; auto rhs = std::make_shared<SimRhs>(rs, &cx); SimRhs ref(rs, nullptr);
    unsigned n = rs.n(), n2 = rs.n2, m = n - n2;
    auto F = [&](double t, const D& x) { V v(n), r(n); for (unsigned i = 0; i < n; ++i) v[i] = x[i]; ref.compute(r, t, v); return vec(r); };
    ctm::math::OdeStepMappingEuler<VD> eq;
    eq.setOdeRhs(rhs);
    double t = s.pick({0.0, 1.0}), h = 0.125, alpha = 1; D x0 = vec(rs.drawState(s));
    auto toV = [](const D& d) { V v(d.size()); for (size_t i = 0; i < d.size(); ++i) v[i] = d[i]; return v; };
    int pre = 0, post = 0; const ctm::math::VectorMapping<VD>* of = nullptr;
    eq.vectorMappingPreObservers.add([&](const V&, const ctm::math::VectorMapping<VD>* q) { ++pre; of = q; });
    eq.vectorMappingPostObservers.add([&](const V&, const V&, const ctm::math::VectorMapping<VD>*) { ++post; });
    eq.setInitialState(t, toV(x0)); eq.setTimeStep(h); eq.setImplicitnessParameter(alpha);
    s.ev("equation", {double(n2), double(m - n2)});
    for (int k = s.range(2, 20); k > 0; --k) {
        unsigned op = s.draw(8); s.shapeN(op);
        if (op == 1) { t = s.pick({0.0, 1.0, -2.5, t, t + h}); x0 = vec(rs.drawState(s)); eq.setInitialState(t, toV(x0)); }
        else if (op == 2) { x0 = vec(rs.drawState(s)); eq.setInitialState(t, toV(x0)); }
        else if (op == 3) { h = s.pick({0.125, 0.25, 0.1, 0.5}); if (s.chance(1, 2)) eq.setTimeStep(h); else { Parameters p; p["h"] = h; eq.setParameters(p); } }
        else if (op == 4) { alpha = s.pick({1.0, 0.5, 0.75, 0.0}); if (s.chance(1, 2)) eq.setImplicitnessParameter(alpha); else { Parameters p; p["alpha"] = alpha; eq.setParameters(p); } }
        s.check(sameBits(eq.initialTime(), t) && same(vec(eq.initialState()), x0) && sameBits(eq.timeStep(), h) && sameBits(eq.implicitnessParameter(), alpha), "equation", "step equation does not hold what was set");
        D y0 = vec(eq.eqnInitialState()); s.check(same(y0, D(x0.begin() + n2, x0.end())) && eq.inputSize() == m && eq.outputSize() == m, "equation", "unknowns of the step equation are not velocities and first-order variables");
        D y = y0; for (double& v : y) v += s.pick({0.0, 0.25, -0.5, 1.0});
        V yv = toV(y), r;
        if (s.chance(1, 4)) { cx.arm(s.draw(2), s.draw(3)); } else cx.disarm();
        bool was = cx.armed >= 0; pre = post = 0;
        Thrown th = guarded([&] { eq.map(r, yv); });
        s.check(th == Thrown::None || cx.fired, "unexpected-exception", "step equation throws");
        s.check(!(cx.fired && th == Thrown::None), "exception-swallowed", "exception of the right hand side is swallowed by the step equation");
        bool fired = cx.fired; cx.disarm(); (void)was;
        D z(n); for (unsigned i = 0; i < n2; ++i) z[i] = x0[i] + h*((1 - alpha)*x0[n2 + i] + alpha*y[i]); for (unsigned i = 0; i < m; ++i) z[n2 + i] = y[i];
        if (fired) s.probe("evaluation of the step equation failed");
        else {
            D f0 = F(t, x0), f1 = F(t + h, z), g(m); double sc = 1;
            for (unsigned i = 0; i < m; ++i) { g[i] = y[i] - x0[n2 + i] - h*((1 - alpha)*f0[n2 + i] + alpha*f1[n2 + i]); sc = std::max(sc, std::fabs(f0[n2 + i])); sc = std::max(sc, std::fabs(f1[n2 + i])); }
            if (!finite(g)) s.discard("step equation is not finite");
            s.check(pre == 1 && post == 1 && of == &eq, "observers", "%d and %d notifications for one evaluation of the step equation", pre, post);
            s.check(maxDiff(vec(r), g) <= 1e-12*sc, "equation", "t=%.17g h=%g alpha=%g: residual is %s, expected %s", t, h, alpha, str(vec(r)).c_str(), str(g).c_str());
        }
        D u = vec(eq.computeOdeState(yv)); s.check(maxDiff(u, z) <= 1e-13*(1 + maxDiff(z, D(n, 0.0))), "equation", "state for the unknowns %s is %s, expected %s", str(y).c_str(), str(u).c_str(), str(z).c_str());
        s.check(same(vec(eq.computeEqnState(toV(z))), y), "equation", "unknowns for the state differ");
        s.tick(); if (k < 10) s.nontrivial();
    }
    s.probe("step equation by itself");
}

SCENARIO(C03, init) {
    Sim& s = S_;
    if (s.chance(1, 12)) stepEquation(s); else if (s.draw(5) < 3) explicitMethods(s); else implicitMethods(s);
}

}
