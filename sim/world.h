// Simulated world of an ODE solver: the system being integrated, error norms, step size controllers and
// observers are owned by the simulator; each time the library calls one of them, the simulator decides
// whether to inject a fault, switch to another solver, or go on.
#pragma once
#include "sim.h"
#include "reg.h"
#include "ode_num_int/ode/interfaces/OdeSolver.h"
#include "ode_num_int/ode/interfaces/OdeEventController.h"
#include "ode_num_int/ode/interfaces/OdeSolverEventController.h"
#include "ode_num_int/ode/interfaces/OdeSolverStepSizeController.h"
#include "ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h"

namespace sim {

using ctm::OptionalParameters;
using ctm::math::OdeRhs;
using ctm::math::OdeSolver;
using ctm::math::OdeSolverPostObserverArg;
typedef OdeSolver<VD> Solver;
typedef OptionalParameters::Parameters Parameters;

// Points where the library gives control to the user (that is, to the simulator)
enum Point { P_RHS, P_ZF, P_SWITCH, P_BEFORE, P_BEFORE2, P_TRUNC, P_NORM, P_CTL, P_PRE, P_POST, P_RHSPRE, P_RHSPOST, P_JAC, P_ITER, P_COUNT };
extern const char* const pointName[P_COUNT];

struct SimFault : std::runtime_error { SimFault(const std::string& s) : std::runtime_error(s) {} };
struct SimFaultOther { int code; };   // not derived from std::exception

struct Ctx {
    // fault plan: throw at the point number `armed` counted from the last arm()
    long armed = -1, counter = 0;
    int flavor = 0;                     // kind of exception
    bool fired = false;
    Point firedAt = P_COUNT;
    bool terminateNewton = false;       // at P_ITER: ask for termination rather than throw
    // value fault: RHS call number `nanAt` yields a non-finite value
    long nanAt = -1, rhsCounter = 0;
    double nanValue = 0;
    bool nanFired = false;
    uint64_t calls[P_COUNT] = {};
    double minZf = INFINITY;            // least distance to an event seen
    double stepStart = NAN;             // time at the start of the step being made
    std::function<void(Point)> yield;   // scheduler hook
    std::function<void(Point)> onPoint; // monitor hook

    void arm(long n, int flav = 0) { armed = n; counter = 0; flavor = flav; fired = false; firedAt = P_COUNT; terminateNewton = false; }
    void disarm() { armed = -1; counter = 0; fired = false; firedAt = P_COUNT; terminateNewton = false; }
    void point(Point p);
    bool iterPoint();                   // returns true to terminate
};

struct Zf { unsigned idx; double level; unsigned flags; double scale; };

struct RhsSpec {
    unsigned n2 = 0, n1 = 1;            // n1 includes the phase variable, if any
    std::vector<double> k, c, l, F, cpl;
    double nl = 0, forcing = 0, omega = 1;
    std::vector<Zf> zf;
    double box = INFINITY;              // the right hand side is NaN if a component of state is beyond
    double truncPeriod = 0;             // without zero functions: steps are truncated by the system at multiples of it
    bool phase = false;                 // the last first-order variable is a piecewise constant phase
    unsigned n() const { return 2*n2 + n1; }
    static RhsSpec draw(Sim& s, bool events, unsigned max2 = 3, unsigned max1 = 3, bool mild = true);
    V drawState(Sim& s) const;
    // for comparisons with a tolerance: events that are not sensitive to round-off errors
    void tame() { if (zf.size() > 1) zf.resize(1); for (auto& z : zf) if (z.flags == 7) z.flags = 3; }
};

class SimRhs : public OdeRhs<VD>, public ctm::FactoryMixin<SimRhs, OdeRhs<VD>> {
public:
    static RhsSpec newSpec; static Ctx* newCx;     // of instances made by the factory
    SimRhs() : spec(newSpec), cx(newCx) {}
    SimRhs(const RhsSpec& s, Ctx* c) : spec(s), cx(c) {}
    RhsSpec spec; Ctx* cx;
    using OdeRhs<VD>::rhs;
    unsigned int secondOrderVarCount() const { return spec.n2; }
    unsigned int firstOrderVarCount() const { return spec.n1; }
    unsigned int zeroFuncCount() const { return spec.zf.size(); }
    std::vector<unsigned int> zeroFuncFlags() const { std::vector<unsigned> r; for (auto& z : spec.zf) r.push_back(z.flags); return r; }
    void rhs(V& dst, double t, const V& x) const;
    void zeroFunctions(V& dst, double t, const V& x) const;
    void switchPhaseState(const int* transitions, double t, V& x);
    std::string describeZeroFunction(unsigned int i) const { return fmt("zf%u", i); }
    void beforeStep(double, const V&) const { if (cx) cx->point(P_BEFORE); }
    void beforeStep2(const V&) const { if (cx) cx->point(P_BEFORE2); }
    bool truncateStep(double& t, V& x) const;
    // the right hand side itself, without the simulator
    void compute(V& dst, double t, const V& x) const;
};

// Error norm calculator owned by the simulator
class SimNorm : public ctm::math::ErrorNormCalculator<VD>, public ctm::FactoryMixin<SimNorm, ctm::math::ErrorNormCalculator<VD>> {
public:
    std::function<double(const V&)> f;
    Ctx* cx = nullptr;
    double errorNorm(const V& v) const { if (cx) cx->point(P_NORM); return f ? f(v) : v.infNorm(); }
};

// Step size controller owned by the simulator
class SimCtl : public ctm::math::OdeStepSizeController<VD>, public ctm::FactoryMixin<SimCtl, ctm::math::OdeStepSizeController<VD>> {
public:
    typedef ctm::math::OdeStepSizeController<VD>::Result R;
    std::function<R(double,double,double)> f;
    Ctx* cx = nullptr;
    R controlStepSize(double h, double e, double o) const { if (cx) cx->point(P_CTL); return f(h, e, o); }
};

struct SolverSpec {
    std::string id = "rk4";
    double h = 0.125, hmin = 1e-16;
    std::string mode = "low";
    bool noErr = false, forceErr = false;
    double hAfterSwitch = 0;
    double d = 0.5;
    bool smooth = false, symmetric = false;
    int stages = 3;
    std::string seq = "harmonic";
    std::shared_ptr<SolverSpec> ref, pred;
    double alpha = 1;
    int predSteps = 1;
    unsigned reorder = 0;      // reordering of variables: see reg_ode.cpp; applied by World::build
    std::string ddir = "simple", jac = "default", jtrim;
    unsigned jtrimWidth = 0; double jtrimThreshold = 0;
    double newtonTol = 1e-11;
    unsigned lazy = 2;
    double tol = 1e-4, insurance = 0.8, incMin = 1.3, incMax = 2, decMax = 0.1, hmax = 0;
    bool adaptive() const { return id == "dopri_45" || id == "dopri_56" || id == "dopri_78" || id == "rosenbrock_sw2_4" || id == "extrapolator"; }
    bool checksError() const { return adaptive() && !noErr; }
    // convergence of these depends on history: see DESIGN.md
    bool exact() const;        // repeating a step after an exception is expected to be bitwise the same
    int lowOrder() const;
    std::string str() const;

    enum { Explicit = 1, Implicit = 2, Adaptive = 4, Fixed = 8, All = 15, NoExtrapolator = 16, NoQuasi = 32 };
    static SolverSpec draw(Sim& s, unsigned mask = All, int depth = 0);
};

// A solver together with its simulated environment
struct World {
    Ctx cx;
    SolverSpec spec;
    std::shared_ptr<SimRhs> rhs;
    std::shared_ptr<Solver> solver;
    std::shared_ptr<SimNorm> norm;     // non-null if the simulator owns the error norm
    std::shared_ptr<SimCtl> ctl;       // non-null if the simulator owns the controller
    struct Attempt { double h; bool accepted, changed, truncated; double err; unsigned izf; int tt; double t; std::vector<double> x; };
    std::vector<Attempt> attempts;     // completed attempts, as reported to post-step observers
    std::vector<double> pre;           // step sizes reported to pre-step observers
    unsigned refreshes = 0;            // Jacobian refreshes started, as reported to observers
    double lastT = 0; 
    bool watchRhs = false;
    std::function<void(const OdeSolverPostObserverArg<VD>&)> onPost;

    World() {}
    World(const World&) = delete;
    // Builds solver as specified. simNorm/simCtl: replace standard components with simulated ones
    void build(const SolverSpec& spec, const RhsSpec& rhs, bool simNorm = false, bool simCtl = false);
    void setRhs(const RhsSpec& rhs);
    void observe();
    double t() const { return solver->initialTime(); }
    std::vector<double> x() const { V v = solver->initialState(); return std::vector<double>(v.begin(), v.end()); }
};

Parameters solverParams(const SolverSpec& spec);
std::shared_ptr<Solver> buildSolver(const SolverSpec& spec);
void registerAll();
std::vector<double> vec(const V& v);
bool same(const std::vector<double>& a, const std::vector<double>& b);
double maxDiff(const std::vector<double>& a, const std::vector<double>& b);
bool finite(const std::vector<double>& a);
std::string str(const std::vector<double>& a);

// Runs f, returns true if an exception injected by the simulator has come out; other exceptions are passed to `other`
enum class Thrown { None, Sim, Lib };
Thrown guarded(const std::function<void()>& f, std::string* what = nullptr);
// Quasi-Newton iterations start with the matrix left by earlier iterations, so that their convergence in a repeated step is not guaranteed
inline bool quasiNewtonLost(const std::string& what) { return what.find("Algebraic solver failed") != std::string::npos; }

} // namespace sim
