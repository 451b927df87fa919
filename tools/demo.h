// Helper of demonstrations: registers the components of the library, an ODE system made of functions, a few shortcuts.
#pragma once
#define CTM_UTIL_LEX_IDNUM_DISABLE_REGEX
#include "ode_num_int/infra/Factory.h"
#include "ode_num_int/la/VectorTemplate.h"
#include "ode_num_int/alg/interfaces/NewtonSolverInterface.h"
#include "ode_num_int/alg/reg/AlgebraicSolverClassesRegistrator.h"
#include "ode_num_int/ode/reg/OdeSolverClassesRegistrator.h"
#include "ode_num_int/ode/reg/OdeSolverCommonClassesRegistrator.h"
#include "ode_num_int/ode/reg/OdeEventControllerClassesRegistrator.h"
#include "ode_num_int/ode/interfaces/OdeSolver.h"
#include "ode_num_int/ode/interfaces/OdeSolverStepSizeController.h"
#include "ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
using namespace ctm;
using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef OdeSolver<VD> Solver;
typedef OptionalParameters::Parameters Parameters;

inline void registerAll() {
    static AlgebraicSolverClassesRegistrator<VD> r1; static OdeSolverClassesRegistrator<VD> r2;
    static OdeEventControllerClassesRegistrator<VD> r3; static OdeSolverCommonClassesRegistrator<VD> r4;
}
template<class I> std::shared_ptr<I> make(const std::string& id, const Parameters& p = Parameters()) {
    std::shared_ptr<I> r = Factory<I>::newInstance(id); if (!p.empty()) { auto o = dynamic_cast<OptionalParameters*>(r.get()); if (!o) std::abort(); o->setParameters(p); } return r;
}
// ODE system made of functions
struct Fn : OdeRhs<VD>, FactoryMixin<Fn, OdeRhs<VD>> {
    unsigned n2 = 0, n1 = 1;
    std::function<void(std::vector<double>& dst, double t, const std::vector<double>& x)> f;
    std::vector<unsigned> flags;
    std::function<void(std::vector<double>& dst, double t, const std::vector<double>& x)> zf;
    std::function<void(const int* tr, double t, std::vector<double>& x)> sw;
    unsigned secondOrderVarCount() const { return n2; }
    unsigned firstOrderVarCount() const { return n1; }
    unsigned zeroFuncCount() const { return flags.size(); }
    std::vector<unsigned> zeroFuncFlags() const { return flags; }
    using OdeRhs<VD>::rhs;
    static std::vector<double> in(const V& x) { return std::vector<double>(x.begin(), x.end()); }
    static void out(V& d, const std::vector<double>& s) { d.resize(s.size()); for (size_t i = 0; i < s.size(); ++i) d[i] = s[i]; }
    void rhs(V& dst, double t, const V& x) const {
        this->odeRhsPreObservers(t, x, this);
        std::vector<double> d(x.size()); f(d, t, in(x)); out(dst, d);
        this->odeRhsPostObservers(t, x, dst, this);
    }
    void zeroFunctions(V& dst, double t, const V& x) const { std::vector<double> d(flags.size()); zf(d, t, in(x)); out(dst, d); }
    void switchPhaseState(const int* tr, double t, V& x) { auto v = in(x); sw(tr, t, v); out(x, v); }
    std::string describeZeroFunction(unsigned) const { return "zf"; }
};
inline V vec(std::initializer_list<double> l) { V v(l.size()); unsigned i = 0; for (double d : l) v[i++] = d; return v; }
inline bool same(const V& a, const V& b) { if (a.size() != b.size()) return false; for (unsigned i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }
#define EXPECT(c) do { if (!(c)) { std::printf("%s:%d: %s does not hold\n", __FILE__, __LINE__, #c); return 1; } } while (0)
