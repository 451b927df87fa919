// C20: equations wrapped by adapters (narrowing, reordering, scaling) are the wrapped equations, whatever happened before
#include "newt.h"
#include "ode_num_int/alg/VectorNarrowingMapping.h"
#include "ode_num_int/alg/VectorReorderingMapping.h"
#include "ode_num_int/alg/computeJacobian.h"
#include "ode_num_int/alg/MappingNormalizer.h"
namespace sim {
namespace {
typedef std::vector<double> D;
typedef std::vector<unsigned> U;
typedef VectorMapping<VD> Map;

// The innermost equation, with identifiers; may have more equations or fewer than unknowns
class Base : public SimMap {
public:
    unsigned rows = 0; unsigned salt = 0;
    using SimMap::map;
    unsigned int outputSize() const { return rows; }
    std::vector<unsigned int> inputIds() const { U r; for (unsigned i = 0; i < sp.n; ++i) r.push_back(10 * i + salt); return r; }
    std::vector<unsigned int> outputIds() const { U r; for (unsigned i = 0; i < rows; ++i) r.push_back(7 * i + 1000 + salt); return r; }
    void value(D& f, const D& x) const { D g; sp.value(g, x); f.resize(rows); for (unsigned i = 0; i < rows; ++i) f[i] = g[i % sp.n] + (i >= sp.n ? 1 : 0); }
    void map(V& dst, const V& x) const {
        AllocGuard g; S->tick();
        long k = calls++;
        if (k == throwAt) { thrown = true; S->fault("throw:mapping"); throw SimFault("mapping"); }
        D f; value(f, vec(x));
        if (nanFrom >= 0 && k >= nanFrom && k < nanFrom + nanCount) { nan = true; S->fault("non-finite-mapping"); f[k % f.size()] = NAN; }
        dst.resize(rows); for (unsigned i = 0; i < rows; ++i) dst[i] = f[i];
    }
};

struct Reord : VectorReorderingMapping<VD> {};

struct Layer {
    enum Kind { Narrow, Reorder, Scale } kind;
    std::shared_ptr<VectorNarrowingMapping<VD>> nm; std::shared_ptr<Reord> rm; std::shared_ptr<MappingNormalizer<VD>> sm;
    Map* map = nullptr;
    // model
    std::set<unsigned> din, dout; D state; U in, out; D d;
    unsigned nIn(unsigned n) const { return kind == Narrow ? n - din.size() : n; }
    unsigned nOut(unsigned n) const { return kind == Narrow ? n - dout.size() : n; }
    template<class T> std::vector<T> downIn(const std::vector<T>& x, unsigned n) const {       // argument for the wrapped mapping
        std::vector<T> r(n);
        if (kind == Narrow) { unsigned k = 0; for (unsigned i = 0; i < n; ++i) r[i] = din.count(i) ? T(state[i]) : x[k++]; }
        else if (kind == Reorder) for (unsigned i = 0; i < n; ++i) r[in[i]] = x[i];
        else for (unsigned i = 0; i < n; ++i) r[i] = x[i] * d[i];
        return r;
    }
    template<class T> std::vector<T> upIn(const std::vector<T>& x) const {                     // identifiers, or unknowns, of the adapter
        std::vector<T> r;
        for (unsigned i = 0; i < x.size(); ++i) if (kind == Narrow) { if (!din.count(i)) r.push_back(x[i]); } else r.push_back(kind == Reorder ? x[in[i]] : x[i]);
        return r;
    }
    template<class T> std::vector<T> upOut(const std::vector<T>& x, bool scale) const {
        std::vector<T> r;
        for (unsigned i = 0; i < x.size(); ++i) if (kind == Narrow) { if (!dout.count(i)) r.push_back(x[i]); } else r.push_back(kind == Reorder ? x[out[i]] : kind == Scale && scale ? T(x[i] * d[i]) : x[i]);
        return r;
    }
};
std::string us(const U& u) { std::string r = "{"; for (unsigned v : u) r += fmt(" %u", v); return r + " }"; }
U perm(Sim& s, unsigned n) { U r(n); for (unsigned i = 0; i < n; ++i) r[i] = i; for (unsigned i = n; i > 1; --i) std::swap(r[i - 1], r[i - 1 - s.draw(i)]); return r; }
bool isNan(const D& d) { for (double v : d) if (v != v) return true; return false; }
}

SCENARIO(C20, registerAll) {
    Sim& s = S_;
    auto base = std::make_shared<Base>();
    base->sp = MapSpec::draw(s, s.chance(1, 2) ? 0 : 2);
    { MapSpec m2 = MapSpec::draw(s, 1); if (s.chance(1, 2) && m2.n > base->sp.n) base->sp = m2; }
    base->rows = base->sp.n; if (s.chance(1, 8)) base->rows = s.range(1, 7);
    unsigned nx0 = base->sp.n, ny0 = base->rows;
    bool sym = base->rows == base->sp.n && s.chance(1, 2);     // same indices for unknowns and equations
    std::vector<Layer> L; std::shared_ptr<Map> top = base;
    int depth = s.range(1, 3);
    auto sizes = [&](size_t k, unsigned& nx, unsigned& ny) { nx = nx0; ny = ny0; for (size_t i = 0; i < k; ++i) { nx = L[i].nIn(nx); ny = L[i].nOut(ny); } };
    // model of layers below k
    std::function<D(const D&, size_t)> value = [&](const D& x, size_t k) -> D {
        if (!k) { D f; base->value(f, x); return f; }
        unsigned nx, ny; sizes(k - 1, nx, ny);
        return L[k - 1].upOut(value(L[k - 1].downIn(x, nx), k - 1), true);
    };
    auto deepest = [&](D x) { for (size_t k = L.size(); k > 0; --k) { unsigned nx, ny; sizes(k - 1, nx, ny); x = L[k - 1].downIn(x, nx); } return x; };
    auto drawX = [&](unsigned n) { D x(n); for (auto& v : x) v = s.pick({0.0, 1.0, -0.5, 2.0, 0.1, -3.0, 0.7}); return x; };
    auto drawNarrow = [&](Layer& l, unsigned nx, unsigned ny) {
        l.din.clear(); l.dout.clear(); l.state = drawX(nx);
        for (unsigned i = 0; i < nx; ++i) if (s.chance(1, 3)) l.din.insert(i);
        if (l.din.size() == nx) l.din.erase(l.din.begin());
        if (sym) l.dout = l.din;
        else if (nx == ny) { U p = perm(s, ny); for (unsigned i = 0; i < l.din.size(); ++i) l.dout.insert(p[i]); }
        else { for (unsigned i = 0; i < ny; ++i) if (s.chance(1, 3)) l.dout.insert(i); if (l.dout.size() == ny) l.dout.erase(l.dout.begin()); }
    };
    auto idx = [&](const std::set<unsigned>& u) { U r(u.begin(), u.end()); if (r.size() > 1 && s.chance(1, 2)) { std::swap(r[0], r.back()); if (s.chance(1, 2)) r.push_back(r[0]); } return r; };   // unordered, with repetition
    for (int k = 0; k < depth; ++k) {
        Layer l; unsigned nx, ny; sizes(L.size(), nx, ny);
        l.kind = Layer::Kind(s.draw(nx == ny ? 3 : 2));
        std::shared_ptr<Map> m;
        if (l.kind == Layer::Narrow) {
            l.nm = std::make_shared<VectorNarrowingMapping<VD>>(); l.nm->setMapping(top); m = l.nm;
            drawNarrow(l, nx, ny); l.nm->setInputNarrowing(idx(l.din), toV(l.state)); l.nm->setOutputNarrowing(idx(l.dout));
        } else if (l.kind == Layer::Reorder) {
            l.rm = std::make_shared<Reord>(); l.rm->setMapping(top); m = l.rm;
            l.in = perm(s, nx); l.out = sym ? l.in : perm(s, ny); l.rm->setInputOrdering(l.in); l.rm->setOutputOrdering(l.out);
        } else {
            l.sm = std::make_shared<MappingNormalizer<VD>>(); l.sm->setMapping(top); m = l.sm;
            l.d.clear(); for (unsigned i = 0; i < nx; ++i) l.d.push_back(s.pick({1.0, 0.5, -2.0, 3.0}));
            l.sm->setDiagonalMapping(std::make_shared<DiagonalMapping<VD>>(toV(l.d)));
        }
        l.map = m.get(); top = m; L.push_back(l);
    }
    std::string who; for (auto& l : L) who += l.kind == Layer::Narrow ? "narrowing " : l.kind == Layer::Reorder ? "reordering " : "scaling ";
    s.note("adapters", who);
    auto compare = [&](const char* after) {
        for (size_t k = 1; k <= L.size(); ++k) {
            Layer& l = L[k - 1];
            unsigned nx, ny, mx, my; sizes(k, nx, ny); sizes(k - 1, mx, my);
            s.check(l.map->inputSize() == nx && l.map->outputSize() == ny, "size", "%s: size is %u x %u rather than %u x %u %s", who.c_str(), l.map->inputSize(), l.map->outputSize(), nx, ny, after);
            U ii = base->inputIds(), oi = base->outputIds();
            for (size_t j = 0; j < k; ++j) { ii = L[j].upIn(ii); oi = L[j].upOut(oi, false); }
            s.check(l.map->inputIds() == ii && l.map->outputIds() == oi, "identifiers", "%s: identifiers are %s, %s rather than %s, %s %s", who.c_str(), us(l.map->inputIds()).c_str(), us(l.map->outputIds()).c_str(), us(ii).c_str(), us(oi).c_str(), after);
            D x = drawX(nx), f = vec(l.map->map(toV(x))), g = value(x, k);
            if (k == L.size()) s.ev("value", {f[0], double(f.size())});
            s.check(same(f, g), "value", "%s: value at %s is %s rather than %s %s", who.c_str(), str(x).c_str(), str(f).c_str(), str(g).c_str(), after);
            if (l.kind == Layer::Narrow) {
                s.check(l.nm->disabledInputIndices() == U(l.din.begin(), l.din.end()) && l.nm->disabledOutputIndices() == U(l.dout.begin(), l.dout.end()), "indices", "%s: disabled indices differ %s", who.c_str(), after);
                D w = vec(l.nm->widenInput(toV(x))), wm = l.downIn(x, mx), y = drawX(my);
                s.check(same(w, wm), "widen", "%s: widened %s is %s rather than %s %s", who.c_str(), str(x).c_str(), str(w).c_str(), str(wm).c_str(), after);
                s.check(same(vec(l.nm->narrowInput(toV(w))), x), "narrow", "%s: narrowing does not undo widening %s", who.c_str(), after);
                D z = vec(l.nm->narrowOutput(toV(y))); s.check(same(z, l.upOut(y, false)), "narrow", "%s: narrowed output %s is %s %s", who.c_str(), str(y).c_str(), str(z).c_str(), after);
            } else if (l.kind == Layer::Reorder) {
                D u = vec(l.rm->unorderInput(toV(x))), y = drawX(ny), v = vec(l.rm->unorderOutput(toV(y)));
                s.check(same(u, l.downIn(x, mx)) && same(vec(l.rm->orderInput(toV(u))), x), "order", "%s: input %s becomes %s %s", who.c_str(), str(x).c_str(), str(u).c_str(), after);
                D o = vec(l.rm->orderOutput(toV(v))), p = vec(l.rm->orderOutput(toV(y)));
                s.check(same(o, y) && same(p, l.upOut(y, false)), "order", "%s: output %s becomes %s %s", who.c_str(), str(y).c_str(), str(p).c_str(), after);
            } else {
                auto& dm = *l.sm->diagonalMapping();
                D y = drawX(nx), q = vec(dm.inv().Map::map(toV(y))), q2 = vec(dm.VectorBijectiveMapping<VD>::unmap(toV(y)));
                for (unsigned i = 0; i < nx; ++i) if (l.d[i] - l.d[i] == 0 && l.d[i] != 0) s.check(std::fabs(q[i] * l.d[i] - y[i]) <= 1e-14 * std::fabs(y[i]) && q[i] == q2[i], "inverse", "%s: inverse of scaling by %s takes %s to %s %s", who.c_str(), str(l.d).c_str(), str(y).c_str(), str(q).c_str(), after);
            }
        }
        s.tick();
    };
    compare("after creation");
    int N = s.range(2, 9);
    for (int step = 0; step < N; ++step) {
        size_t k = s.draw(L.size()); Layer& l = L[k]; unsigned mx, my; sizes(k, mx, my);
        unsigned op = s.draw(6);
        long allocAt = -1; if (s.chance(1, 3)) allocAt = s.draw(op == 5 ? 300 : 12);
        base->arm(-1, -1, 0);
        auto run = [&](const std::function<void()>& f, std::string* what = nullptr) {
            Thrown t = guarded([&] { alloc.countdown = allocAt; alloc.fired = false; alloc.armed = allocAt >= 0; struct Off { ~Off() { alloc.armed = false; } } off; f(); }, what);
            if (allocAt >= 0 && alloc.fired) { s.fault("allocation-failure"); s.nontrivial(); }
            return t;
        };
        bool mayOom = false;
        auto settle = [&](Thrown t, const char* what) {
            mayOom = allocAt >= 0 && alloc.fired; alloc.fired = false;
            s.check(t == Thrown::None ? true : mayOom || base->thrown || t == Thrown::Lib, "exception", "%s: unexpected exception in %s", who.c_str(), what);
        };
        if (op == 0 && l.kind == Layer::Narrow) {              // another narrowing with the same number of unknowns and equations, or of the upper layer only
            if (k + 1 < L.size()) {
                Layer n = l; n.state = drawX(mx); D was = l.state;
                U in = idx(l.din); V st = toV(n.state);
                Thrown t = run([&] { l.nm->setInputNarrowing(in, st); }); settle(t, "setInputNarrowing");
                s.check(t == Thrown::None || mayOom, "exception", "%s: narrowing is refused", who.c_str());
                D now = vec(l.nm->stateForInputNarrowing());
                l.state = t == Thrown::None ? n.state : now;
                if (t != Thrown::None) s.check(same(now, was) || same(now, n.state), "half-changed", "%s: state of narrowing is neither the old nor the new one after an allocation failure", who.c_str());
            } else {
                Layer n = l; drawNarrow(n, mx, my); U in = idx(n.din), out = idx(n.dout); V st = toV(n.state);
                Thrown t = run([&] { l.nm->setInputNarrowing(in, st); }); settle(t, "setInputNarrowing");
                s.check(t == Thrown::None || mayOom, "exception", "%s: narrowing is refused", who.c_str());
                bool isNew = l.nm->disabledInputIndices() == U(n.din.begin(), n.din.end()) && same(vec(l.nm->stateForInputNarrowing()), n.state);
                bool isOld = l.nm->disabledInputIndices() == U(l.din.begin(), l.din.end()) && same(vec(l.nm->stateForInputNarrowing()), l.state);
                s.check(isNew || (t != Thrown::None && isOld), "half-changed", "%s: narrowing of input is neither the old nor the new one after an allocation failure", who.c_str());
                if (!isNew && t != Thrown::None) { l.nm->setInputNarrowing(in, st); }
                l.din = n.din; l.state = n.state;
                l.nm->setOutputNarrowing(out); l.dout = n.dout;
            }
            s.probe("another narrowing");
        } else if (op == 1 && l.kind == Layer::Narrow) {       // invalid index
            U bad; bad.push_back(0); bad.push_back(s.chance(1, 2) ? mx : mx + 5);
            bool in = s.chance(1, 2); if (!in) bad.back() = my + (s.chance(1, 2) ? 0 : 3);
            V st = toV(drawX(mx));
            Thrown t = run([&] { if (in) l.nm->setInputNarrowing(bad, st); else l.nm->setOutputNarrowing(bad); });
            mayOom = allocAt >= 0 && alloc.fired; alloc.fired = false;
            s.check(t == Thrown::Lib || (t != Thrown::None && mayOom), "invalid-index", "%s: an invalid index is accepted", who.c_str());
            s.fault("invalid-index"); s.nontrivial();
        } else if (op <= 1 && l.kind == Layer::Reorder) {
            U in = perm(s, mx), out = sym ? in : perm(s, my);
            Thrown t = run([&] { l.rm->setInputOrdering(in); }); settle(t, "setInputOrdering");
            s.check(l.rm->inputOrdering() == (t == Thrown::None ? in : l.in), "half-changed", "%s: ordering is not the one set", who.c_str());
            if (t != Thrown::None) l.rm->setInputOrdering(in);
            l.rm->setOutputOrdering(out); l.in = in; l.out = out; s.probe("another ordering");
        } else if (op <= 1 && l.kind == Layer::Scale) {        // normalize
            D x0 = drawX(mx); if (s.chance(1, 3)) base->arm(s.draw(mx + 2), -1, 0);
            auto was = l.sm->diagonalMapping();
            bool f0 = !isNan(value(x0, k));
            V xv = toV(x0); std::string what;
            D J(mx); bool zero = false, finite_ = f0;
            { D a = value(x0, k); for (unsigned i = 0; i < mx; ++i) { D xp = x0; xp[i] += 1e-6; D b = value(xp, k); double df = b[i] - a[i]; J[i] = df / 1e-6; if (df == 0) zero = true; if (isNan(b)) finite_ = false; } }
            Thrown t = run([&] { l.sm->normalize(xv); }, &what); settle(t, "normalize");
            if (t == Thrown::None && finite_) {
                D ones(mx, 1.0), d = vec(l.sm->diagonalMapping()->Map::map(toV(ones)));
                s.check(!zero, "zero-diagonal", "%s: a zero diagonal element is accepted", who.c_str());
                for (unsigned i = 0; i < mx; ++i) s.check(d[i] > 0 && std::fabs(d[i] * d[i] * std::fabs(J[i]) - 1) < 1e-6, "normalize", "%s: element %u of scaling is %g with derivative %g", who.c_str(), i, d[i], J[i]);
                l.d = d; s.probe("normalized");
            } else if (t == Thrown::None) l.d = vec(l.sm->diagonalMapping()->Map::map(toV(D(mx, 1.0))));
            else { s.check(l.sm->diagonalMapping() == was, "half-changed", "%s: failed normalization has changed the scaling", who.c_str());
                   s.check(base->thrown || mayOom || zero || !finite_, "exception", "%s: normalization fails: %s", who.c_str(), what.c_str()); s.nontrivial(); }
        } else if (op == 2) {                                   // another equation
            bool rep = s.chance(1, 2);
            MapSpec m = base->sp; m.b[s.draw(m.n)] = s.pick({5.0, -1.5, 0.25}); m.a[s.draw(m.n * m.n)] += s.pick({1.0, -0.5});
            if (rep) {
                auto nb = std::make_shared<Base>(); nb->sp = m; nb->rows = base->rows; nb->salt = base->salt + 1;
                Layer& l0 = L[0];
                if (l0.nm) l0.nm->setMapping(nb); else if (l0.rm) l0.rm->setMapping(nb); else l0.sm->setMapping(nb);
                base = nb; s.probe("another equation");
            } else base->sp = m;
            base->arm(-1, -1, 0);
        } else if (op == 3 || op == 4) {                        // evaluation that may fail
            unsigned nx, ny; sizes(L.size(), nx, ny);
            D x = drawX(nx);
            if (s.chance(1, 3)) base->arm(0, -1, 0); else if (s.chance(1, 4)) base->arm(-1, 0, 1);
            int pre = 0, post = 0, want = 0; std::vector<std::pair<Map*, int>> ids; D preX, postX, postF;
            Layer* sc = nullptr; for (auto& q : L) if (q.kind == Layer::Scale) sc = &q;
            bool obsThrow = sc && s.chance(1, 6); int a = 0, b = 0;
            if (sc) {
                want = 1;
                a = sc->sm->vectorMappingPreObservers.add([&](const V& x, const Map* m) { AllocGuard g; ++pre; preX = vec(x); s.check(m == sc->map, "observer-argument", "observer is given another mapping"); if (obsThrow) { base->thrown = true; s.fault("throw:observer"); throw SimFault("observer"); } });
                b = sc->sm->vectorMappingPostObservers.add([&](const V& x, const V& f, const Map* m) { AllocGuard g; ++post; postX = vec(x); postF = vec(f); s.check(m == sc->map, "observer-argument", "observer is given another mapping"); });
            }
            V xv = toV(x), f; bool two = s.chance(1, 2);
            Thrown t = run([&] { if (two) top->map(f, xv); else f = top->map(xv); });
            if (sc) { sc->sm->vectorMappingPreObservers.remove(a); sc->sm->vectorMappingPostObservers.remove(b); }
            settle(t, "evaluation");
            s.check(!(t == Thrown::None) || !base->thrown, "exception-swallowed", "%s: exception of the equation is swallowed", who.c_str());
            if (t == Thrown::None) {
                if (!base->nan) s.check(same(vec(f), value(x, L.size())), "value", "%s: value at %s is %s rather than %s", who.c_str(), str(x).c_str(), str(vec(f)).c_str(), str(value(x, L.size())).c_str());
                s.check(pre == want && post == want && base->calls == 1, "observers", "%s: %d and %d notifications, %ld evaluations for one evaluation", who.c_str(), pre, post, base->calls);
                if (want) s.check(same(preX, postX) && (base->nan || same(postF, value(postX, sc - &L[0] + 1))), "observers", "%s: observers are told a wrong value", who.c_str());
            } else { s.nontrivial(); s.probe("evaluation fails"); }
        } else if (op == 5) {                                   // solution by the Newton solver
            unsigned nx, ny; sizes(L.size(), nx, ny);
            if (nx != ny) continue;
            NSpec ns = NSpec::draw(s);
            if (s.chance(1, 4)) base->arm(s.draw(15), -1, 0);
            D x0 = drawX(nx); int outcome = -1; D x; std::string what;
            std::shared_ptr<Newton> nw = buildNewton(ns); nw->setComponent(top);
            V x0v = toV(x0);
            Thrown t = run([&] { nw->setInitialGuess(x0v, true); outcome = nw->run(); }, &what); settle(t, "solution");
            s.check(!(t == Thrown::None) || !base->thrown, "exception-swallowed", "%s: exception of the equation is swallowed", who.c_str());
            if (t == Thrown::None && outcome == Newton::Converged) {
                x = vec(nw->currentSolution()); D f = value(x, L.size());
                s.check(infn(f) <= ns.absTol, "false-solution", "%s: solution %s has residual %s", who.c_str(), str(x).c_str(), str(f).c_str());
                D z = deepest(x), g; base->value(g, z);
                if (L.size() == 1 && l.kind == Layer::Narrow) for (unsigned i = 0; i < z.size(); ++i) if (l.din.count(i)) s.check(z[i] == l.state[i], "fixed-unknown", "%s: unknown %u is not kept", who.c_str(), i);
                s.nontrivial(); s.probe("solved");
            }
            bool regular = sym && base->sp.kind == 0 && step == 0 && std::isinf(base->sp.box) && !mayOom && !base->thrown && ns.jtrim.empty() && ns.maxIter >= 20 && ns.absMax == 1e20 && ns.relMax == 0;
            if (regular) s.check(t == Thrown::None && outcome == Newton::Converged, "no-convergence", "%s: a regular linear equation is not solved through adapters: %s %s", who.c_str(), t == Thrown::None ? Newton::statusText(Newton::Status(outcome)).c_str() : "exception:", what.c_str());
        }
        base->arm(-1, -1, 0);
        compare(fmt("after operation %u", op).c_str());
        s.ev("op", {double(op), double(l.kind), double(base->calls), double(mayOom)}); s.shapeN(op * 8 + l.kind);
    }
}
}
