// Simulated algebraic equations for the Newton solver
#pragma once
#include "world.h"
#include "ode_num_int/alg/interfaces/NewtonSolverInterface.h"
#include "ode_num_int/la/SparseMatrixTemplate.h"
namespace sim {

using namespace ctm::math;
using ctm::Factory;
typedef NewtonSolverInterface<VD> Newton;
typedef sparse::SparseMatrixTemplate<sparse::SparseMatrixFastData<double>> FSM;

struct MapSpec {
    unsigned n = 1; int kind = 0;       // 0: linear, 1: mildly nonlinear, 2: nonlinear, with or without solutions, 3: degenerate
    std::vector<double> a, b, c;        // n*n, n, n
    std::vector<int> form;
    double box = INFINITY;              // values are NaN beyond
    void value(std::vector<double>& f, const std::vector<double>& x) const {
        f.assign(n, 0.0);
        for (unsigned i = 0; i < n; ++i) {
            f[i] = -b[i];
            for (unsigned j = 0; j < n; ++j) if (a[i*n + j] != 0) f[i] += a[i*n + j] * x[j];
            double y = x[i];
            switch (form[i]) {
                case 1: f[i] += c[i] * std::sin(y); break;
                case 2: f[i] += c[i] * y*y*y; break;
                case 3: f[i] += c[i] * y*y; break;
                case 4: f[i] = std::atan(5*y) - b[i]; break;
                case 5: f[i] = y*y + c[i]; break;
                case 6: f[i] = c[i]; break;
                case 7: f[i] = c[i]/y; break;       // a pole, and a zero at infinity
            }
            if (!(std::fabs(y) <= box)) f[i] = NAN;        // beyond the domain, or not a number
        }
    }
    // derivatives
    void jac(std::vector<double>& J, const std::vector<double>& x) const {
        J.assign(n*n, 0.0);
        for (unsigned i = 0; i < n; ++i) {
            for (unsigned j = 0; j < n; ++j) J[i*n + j] = a[i*n + j];
            double y = x[i];
            switch (form[i]) {
                case 1: J[i*n + i] += c[i] * std::cos(y); break;
                case 2: J[i*n + i] += c[i] * 3*y*y; break;
                case 3: J[i*n + i] += c[i] * 2*y; break;
                case 4: for (unsigned j = 0; j < n; ++j) J[i*n + j] = 0; J[i*n + i] = 5/(1 + 25*y*y); break;
                case 5: for (unsigned j = 0; j < n; ++j) J[i*n + j] = 0; J[i*n + i] = 2*y; break;
                case 6: for (unsigned j = 0; j < n; ++j) J[i*n + j] = 0; break;
                case 7: for (unsigned j = 0; j < n; ++j) J[i*n + j] = 0; J[i*n + i] = -c[i]/(y*y); break;
            }
        }
    }
    static MapSpec draw(Sim& s, int maxKind = 3) {
        MapSpec m; m.n = s.range(1, 5); m.kind = s.draw(maxKind + 1);
        unsigned n = m.n; m.a.assign(n*n, 0.0); m.b.resize(n); m.c.assign(n, 0.0); m.form.assign(n, 0);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i != j && s.chance(2, 5)) m.a[i*n + j] = s.pick({0.5, -0.25, 0.3, -1.0});
        for (unsigned i = 0; i < n; ++i) {
            double d = 0; for (unsigned j = 0; j < n; ++j) d += std::fabs(m.a[i*n + j]);
            m.a[i*n + i] = (d + s.pick({1.0, 2.0, 0.5})) * s.pick({1.0, -1.0});
            m.b[i] = s.pick({0.0, 1.0, -2.0, 0.3});
            if (m.kind == 1) { m.form[i] = s.draw(3); m.c[i] = m.form[i] == 2 ? (m.a[i*n + i] > 0 ? 0.1 : -0.1) : 0.2; }
            if (m.kind == 2) { m.form[i] = s.draw(6); m.c[i] = s.pick({0.5, -1.0, 2.0, 0.0}); }
            if (m.kind == 3) { m.form[i] = s.pick({0, 6, 5, 3, 7}); m.c[i] = s.pick({0.0, 1.0, -1.0}); if (s.chance(1, 3)) m.a[i*n + i] = 0; if (s.chance(1, 3)) m.b[i] = 0; }
        }
        if (s.chance(1, 8)) m.box = s.pick({0.5, 1.5, 3.0});
        return m;
    }
};

class SimMap : public VectorMapping<VD> {
public:
    MapSpec sp;
    mutable long calls = 0;
    long throwAt = -1, nanFrom = -1, nanCount = 0;      // counted from arm()
    mutable bool thrown = false, nan = false;
    std::function<void(const V&)> onCall;
    using VectorMapping<VD>::map;
    unsigned int inputSize() const { return sp.n; }
    unsigned int outputSize() const { return sp.n; }
    void arm(long t, long nf, long nc) { calls = 0; throwAt = t; nanFrom = nf; nanCount = nc; thrown = nan = false; }
    void map(V& dst, const V& x) const {
        AllocGuard g; S->tick();
        long k = calls++;
        if (onCall) onCall(x);
        if (k == throwAt) { thrown = true; S->fault("throw:mapping"); throw SimFault("mapping"); }
        std::vector<double> f; sp.value(f, vec(x));
        if (k >= nanFrom && k < nanFrom + nanCount && nanFrom >= 0) { nan = true; S->fault("non-finite-mapping"); f[k % sp.n] = k % 2 ? NAN : INFINITY; }
        dst.resize(sp.n); for (unsigned i = 0; i < sp.n; ++i) dst[i] = f[i];
    }
};

class SimReg : public NewtonRegularizationStrategy<VD>, public ctm::FactoryMixin<SimReg, NewtonRegularizationStrategy<VD>> {
public:
    int again = 0, calls = 0;
    double regularizationParameter() const { return 0; }
    void setRegularizationParameter(double) {}
    bool adjustRegularizationParameter() { ++calls; if (again > 0) { --again; return true; } return false; }
};

// Descent direction of the library that keeps what it is told about outcomes
class SpyDdir : public NewtonDescentDirection<VD>, public ctm::FactoryMixin<SpyDdir, NewtonDescentDirection<VD>> {
public:
    std::shared_ptr<NewtonDescentDirection<VD>> inner;
    std::vector<int> reports;
    SpyDdir() {
        this->onMappingChanged([this] { if (inner) inner->setMapping(this->mapping()); });
        this->onJacobianProviderChanged([this] { if (inner) inner->setJacobianProvider(this->jacobianProvider()); });
    }
    using NewtonDescentDirection<VD>::computeDescentDirection;
    void reset(bool hard) { inner->reset(hard); }
    bool hardResetMayHelp() const { return inner->hardResetMayHelp(); }
    void computeDescentDirection(V& dir, const V& x0, const V& f0, unsigned int it) { inner->computeDescentDirection(dir, x0, f0, it); }
    void reportSuccess(bool ok) { { AllocGuard g; reports.push_back(ok); } inner->reportSuccess(ok); }
    static std::shared_ptr<SpyDdir> attach(Newton& nw) {
        auto r = std::make_shared<SpyDdir>(); auto old = nw.iterationPerformer()->newtonDescentDirection(); auto jp = old->jacobianProvider();
        r->inner = old; r->setJacobianProvider(jp); nw.setComponent(std::static_pointer_cast<NewtonDescentDirection<VD>>(r)); return r;
    }
};

struct NSpec {
    std::string ddir = "simple", jac = "default", jtrim; unsigned width = 0; double threshold = 0;
    unsigned maxIter = 100, lazy = 2; double absTol = 1e-9, relTol = 1e-6, absMax = 1e20, relMax = 10; 
    std::string str() const { return ddir + "/" + jac + (jtrim.empty() ? "" : "/" + jtrim) + fmt(" limit=%u", maxIter); }
    static NSpec draw(Sim& s) {
        NSpec r; r.ddir = s.pick({"simple", "broyden", "fake-broyden", "lazy-fake-broyden", "hart", "const"}); r.jac = s.pick({"default", "sparse"});
        if (s.chance(1, 6)) { r.jtrim = s.pick({"width", "threshold"}); r.width = s.range(0, 3); r.threshold = s.pick({0.0, 0.1, 0.5}); }
        r.maxIter = s.pick({100u, 100u, 20u, 5u, 1u}); r.lazy = s.draw(4);
        r.absTol = s.pick({1e-9, 1e-6, 1e-3}); r.relTol = s.pick({1e-6, 1e-3, 10.0});
        r.relMax = s.pick({10.0, 0.0, 100.0}); r.absMax = s.pick({1e20, 0.0, 10.0});
        return r;
    }
};

inline std::shared_ptr<Newton> buildNewton(const NSpec& sp) {
    auto newton = Factory<Newton>::newInstance("newton");
    Parameters np;
    auto ddir = Factory<NewtonDescentDirection<VD>>::newInstance(sp.ddir);
    if (sp.ddir == "lazy-fake-broyden") { Parameters dp; dp["lazy_iterations"] = sp.lazy; ddir->setParameters(dp); }
    np["ddir"] = ddir; np["jacobian"] = Factory<JacobianProvider<VD>>::newInstance(sp.jac);
    if (!sp.jtrim.empty()) {
        auto jt = Factory<JacobianTrimmer<VD>>::newInstance(sp.jtrim); Parameters tp;
        if (sp.jtrim == "width") tp["width"] = sp.width; else tp["threshold"] = sp.threshold;
        jt->setParameters(tp); np["jtrim"] = jt;
    }
    auto err = Factory<ErrorEstimator<VD>>::newInstance("simple"); Parameters ep;
    ep["abs_tol"] = sp.absTol; ep["rel_tol"] = sp.relTol; ep["abs_max_threshold"] = sp.absMax; ep["rel_max_threshold"] = sp.relMax; err->setParameters(ep);
    np["err"] = err; np["max_iterations"] = sp.maxIter;
    newton->setParameters(np);
    return newton;
}

inline V toV(const std::vector<double>& x) { V v(x.size()); for (unsigned i = 0; i < x.size(); ++i) v[i] = x[i]; return v; }
inline double infn(const std::vector<double>& a) { double r = 0; for (double v : a) { if (v != v) return NAN; r = std::max(r, std::fabs(v)); } return r; }
inline double norm2(const std::vector<double>& a) { double r = 0; for (double v : a) r += v*v; return r; }

} // namespace sim
