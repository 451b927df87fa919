// C22: vectors and matrices hold what was put into them; windows, scaled and transposed views are those of the mathematical object
#include "sim.h"
#include <sstream>
#include <limits>
#include "ode_num_int/la/SparseMatrixTemplate.h"
namespace sim {
namespace {
using namespace ctm::math;
using namespace ctm::math::sparse;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef SparseMatrix<double> M;
typedef SparseMatrixTemplate<SparseMatrixFastData<double>> F;
typedef std::pair<unsigned, unsigned> I;
typedef std::vector<double> D;
// Model of a matrix: its size and its stored elements
struct R { I n{0, 0}; std::map<I, double> e; double get(I i) const { auto it = e.find(i); return it == e.end() ? 0. : it->second; } };

bool norms(double a, double b) { return sameBits(a, b) || std::fabs(a - b) <= 1e-12 * std::fabs(b); }

struct Run {
    Sim& s; std::string who; bool finite = true;
    explicit Run(Sim& s_) : s(s_) {}
    double val() {
        unsigned k = s.draw(24);
        if (k == 23 && !finite) return s.pick({NAN, INFINITY, -INFINITY});
        return k == 0 ? 0. : s.range(-6, 6) * std::ldexp(1., int(s.draw(5)) - 2);
    }
    // runs an operation, sometimes with a failing allocation; true: done
    template<class Fn> bool run(const char* what, Fn f, bool mayFail = true) {
        who = what; s.tick(); s.shape(what);
        long at = mayFail && s.chance(1, 5) ? long(s.draw(8)) : -1;
        alloc.fired = false; alloc.countdown = at;
        try {
            struct Off { ~Off() { alloc.armed = false; } } off; alloc.armed = at >= 0; f();
        } catch (const std::bad_alloc&) {
            s.check(alloc.fired, "exception", "%s: bad_alloc although no allocation failed", what);
            s.fault("allocation-failure"); s.note("oom", what); s.nontrivial(); return false;
        }
        if (alloc.fired) { s.fault("allocation-failure"); s.probe("allocation failure without an exception"); }
        s.note("op", what);
        return true;
    }

    // ---- vectors
    template<class X> void same(const X& x, const D& d, const char* when) {
        s.check(x.size() == d.size() && x.empty() == d.empty(), "vector-size", "%s: %s: size %u, expected %u", who.c_str(), when, unsigned(x.size()), unsigned(d.size()));
        unsigned k = 0;
        for (auto it = x.begin(); it != x.end(); ++it, ++k) {
            s.check(k < d.size(), "vector-size", "%s: %s: iteration does not end", who.c_str(), when);
            s.check(sameBits(*it, d[k]), "vector-value", "%s: %s: element %u is %g in iteration, expected %g", who.c_str(), when, k, double(*it), d[k]);
        }
        s.check(k == d.size(), "vector-size", "%s: %s: iteration ends after %u elements of %u", who.c_str(), when, k, unsigned(d.size()));
        for (k = 0; k < d.size(); ++k)
            s.check(sameBits(x[k], d[k]) && sameBits(x.at(k), d[k]), "vector-value", "%s: %s: element %u is %g or %g, expected %g", who.c_str(), when, k, double(x[k]), double(x.at(k)), d[k]);
    }
    template<class X> void reduce(const X& x, const D& d) {
        double inf = 0, one = 0, sq = 0; bool nan = false;
        for (double v : d) { if (v != v) nan = true; inf = std::max(inf, std::fabs(v)); one += std::fabs(v); sq += v * v; }
        if (nan) inf = NAN;
        s.check(norms(x.infNorm(), inf), "norm", "infNorm is %g, expected %g", x.infNorm(), inf);
        s.check(norms(x.oneNorm(), one), "norm", "oneNorm is %g, expected %g", x.oneNorm(), one);
        s.check(norms(x.euclideanNormSquare(), sq), "norm", "euclideanNormSquare is %g, expected %g", x.euclideanNormSquare(), sq);
        s.check(norms(x.euclideanNorm(), std::sqrt(sq)), "norm", "euclideanNorm is %g, expected %g", x.euclideanNorm(), std::sqrt(sq));
    }
    std::string text(double v) { std::ostringstream o; o << v; return o.str(); }

    struct Vec { V v; D d; };
    std::vector<Vec> vs;
    D draws(unsigned n) { D d(n); for (double& x : d) x = val(); return d; }
    static V toV(const D& d) { return V(VD(d)); }
    void sameAll(const char* when) {
        for (auto& v : vs) same(v.v, v.d, when);
        for (auto& m : ms) same(m.m, m.r, when);
        for (auto& f : fs) same(f.m, f.r, when);
    }

    // calls g(vector or view, model) with something of size n, or of any size (n<0), other than vector "not_"
    template<class G> void withVec(long n, size_t not_, G g) {
        std::vector<size_t> c; for (size_t i = 0; i < vs.size(); ++i) if (i != not_ && (n < 0 || long(vs[i].d.size()) >= n)) c.push_back(i);
        if (c.empty()) { D d = draws(n < 0 ? 3 : unsigned(n)); V t = toV(d); g(t, d); return; }
        Vec& x = vs[s.pickv(c)]; unsigned N = unsigned(x.d.size());
        unsigned how = s.draw(6);
        if (n >= 0 && N != unsigned(n) && (how == 0 || how == 2 || how == 4)) ++how;
        double k = s.range(-3, 3) * 0.5;
        unsigned len = n >= 0 ? unsigned(n) : s.draw(N + 1), from = s.draw(N - len + 1);
        D w(x.d.begin() + from, x.d.begin() + from + len), sc = w; for (double& v : sc) v *= k;
        D all = x.d; for (double& v : all) v *= k;
        switch (how) {
        case 0: g(x.v, x.d); break;
        case 1: s.shape("block"); g(x.v.block(from, len), w); break;
        case 2: s.shape("scaled"); g(x.v.scaled(k), all); break;
        case 3: { s.shape("scaled-block"); auto b = x.v.block(from, len); g(b.scaled(k), sc); break; }
        case 4: { const V& cv = x.v; s.shape("const-block"); g(cv.block(0, N), x.d); break; }
        default: { s.shape("block-block"); auto b = x.v.block(from, N - from); g(b.block(0, len), w); }
        }
    }

    void vecOp() {
        size_t i = s.draw(unsigned(vs.size())); Vec& x = vs[i]; unsigned N = unsigned(x.d.size());
        switch (s.draw(15)) {
        case 0: { unsigned n = s.draw(7); if (run("resize", [&] { x.v.resize(n); })) x.d.resize(n, 0.); break; }
        case 1: if (run("clear", [&] { x.v.clear(); })) std::fill(x.d.begin(), x.d.end(), 0.); break;
        case 2: if (N) { unsigned k = s.draw(N); double v = val(); unsigned how = s.draw(4);
                    run("write", [&] { if (how == 0) x.v[k] = v; else if (how == 1) x.v.at(k) = v; else if (how == 2) *(x.v.begin() + k) = v; else x.v.data()[k] = v; }, false); x.d[k] = v; } break;
        case 3: withVec(-1, i, [&](const auto& y, const D& d) { D t = d; if (run("assign", [&] { x.v = y; })) x.d = t; else same(x.v, x.d, "after a failure"); }); break;
        case 4: { double k = s.range(-2, 2); run("self-assign", [&] { x.v = x.v; }); run("self-assign scaled", [&] { x.v = x.v.scaled(k); }); for (double& v : x.d) v *= k; break; }
        case 5: withVec(N, ~size_t(0), [&](const auto& y, const D& d) { run("add", [&] { x.v += y; }, false); D t = d; for (unsigned k = 0; k < N; ++k) x.d[k] += t[k]; }); break;
        case 6: withVec(N, i, [&](const auto& y, const D& d) { run("subtract", [&] { x.v -= y; }, false); for (unsigned k = 0; k < N; ++k) x.d[k] -= d[k]; }); break;
        case 7: { double k = s.range(-4, 4) * 0.5; run("multiply", [&] { x.v *= k; }, false); for (double& v : x.d) v *= k; break; }
        case 8: withVec(N, ~size_t(0), [&](const auto& y, const D& d) { double r = 0, g = 0; for (unsigned k = 0; k < N; ++k) r += x.d[k] * d[k];
                    run("dot", [&] { g = x.v.dot(y); }); s.check(norms(g, r), "dot", "dot product is %g, expected %g", g, r); }); break;
        case 9: withVec(-1, ~size_t(0), [&](const auto& y, const D& d) {
                    who = "norms"; same(y, d, "view"); reduce(y, d);
                    V c; D was = d; if (run("copy", [&] { V t(y); c.swap(t); })) { same(c, d, "copy"); unsigned k = 0; for (k = 0; k < c.size(); ++k) c[k] = 77 + k; same(y, was, "view after a change of the copy"); } }); break;
        case 10: withVec(N, ~size_t(0), [&](const auto& y, const D& d) { V r; bool plus = s.draw(2) == 0;
                    if (run("sum", [&] { V t = plus ? x.v + y : x.v - y; r.swap(t); })) { D t = x.d; for (unsigned k = 0; k < N; ++k) t[k] = plus ? t[k] + d[k] : t[k] - d[k]; same(r, t, "sum or difference"); } }); break;
        case 11: if (N) { unsigned from = s.draw(N + 1), len = s.draw(N - from + 1); auto b = x.v.block(from, len);   // writing through a window
                    switch (s.draw(4)) {
                    case 0: run("window clear", [&] { b.clear(); }); std::fill(x.d.begin() + from, x.d.begin() + from + len, 0.); break;
                    case 1: { double k = s.range(-4, 4) * 0.5; run("window multiply", [&] { b *= k; }, false); for (unsigned q = 0; q < len; ++q) x.d[from + q] *= k; break; }
                    case 2: withVec(len, i, [&](const auto& y, const D& d) { if (run("window assign", [&] { b = y; })) std::copy(d.begin(), d.end(), x.d.begin() + from); }); break;
                    default: withVec(len, i, [&](const auto& y, const D& d) { run("window add", [&] { b += y; }, false); for (unsigned q = 0; q < len; ++q) x.d[from + q] += d[q]; });
                    } } break;
        case 12: { D d = draws(N); V o = toV(d), r; int how = int(s.draw(4));
                    D a = x.d, t(N); for (unsigned k = 0; k < N; ++k) t[k] = how == 0 ? (a[k] < d[k] ? d[k] : a[k]) : how == 1 ? std::fabs(a[k]) : how == 2 ? std::sqrt(std::fabs(a[k])) : a[k] * d[k];
                    if (run("memberwise", [&] { V q = how == 0 ? std::max(x.v, o) : how == 1 ? std::fabs(x.v) : how == 2 ? std::sqrt(std::fabs(x.v)) : vectorMemberwiseBinaryOp(x.v, o, [](double p, double w) { return p * w; }); r.swap(q); })) same(r, t, "memberwise result");
                    break; }
        case 13: { unsigned bad = N + s.draw(3); bool thrown = false; who = "invalid index";   // never silent
                    try { if (s.draw(2)) x.v[bad] = 1; else x.v.at(bad) = 1; } catch (const std::out_of_range&) { thrown = true; }
                    s.fault("invalid-index"); s.check(thrown, "invalid-index", "element %u of a vector of size %u is accessible", bad, N); break; }
        default: { size_t j = s.draw(unsigned(vs.size())); run("swap", [&] { x.v.swap(vs[j].v); }, false); std::swap(x.d, vs[j].d);
                    unsigned lim = s.draw(5), n = unsigned(x.d.size()); std::string e = "[", t;
                    if (n <= 2 * lim) { for (unsigned k = 0; k < n; ++k) e += (k ? ", " : "") + text(x.d[k]); }
                    else { for (unsigned k = 0; k < lim; ++k) e += text(x.d[k]) + ", "; e += "..."; for (unsigned k = n - lim; k < n; ++k) e += ", " + text(x.d[k]); }
                    e += "]"; t = x.v.toString(lim); s.check(t == e, "text", "toString(%u) is %s, expected %s", lim, t.c_str(), e.c_str());
                    std::string f = "["; for (unsigned k = 0; k < n; ++k) f += (k ? ", " : "") + text(x.d[k]); f += "]";
                    std::ostringstream o; o << x.v; s.check(o.str() == f, "text", "output is %s, expected %s", o.str().c_str(), f.c_str()); }
        }
    }

    // ---- matrices
    template<class X> struct Mat { X m; R r; };
    std::vector<Mat<M>> ms; std::vector<Mat<F>> fs;
    template<class X> void same(const X& x, const R& r, const char* when) {
        s.check(I(x.size()) == r.n, "matrix-size", "%s: %s: size %u x %u, expected %u x %u", who.c_str(), when, x.size().first, x.size().second, r.n.first, r.n.second);
        s.check(x.count() == r.e.size() && x.empty() == r.e.empty(), "matrix-count", "%s: %s: %u elements, expected %u", who.c_str(), when, unsigned(x.count()), unsigned(r.e.size()));
        std::map<I, double> e; unsigned k = 0;
        for (auto it = x.begin(), end = x.end(); it != end; ++it) {
            auto v = *it; s.check(++k <= r.e.size(), "matrix-count", "%s: %s: iteration gives too many elements", who.c_str(), when);
            s.check(e.insert(std::make_pair(I(v.first), double(v.second))).second, "matrix-element", "%s: %s: iteration gives an element twice", who.c_str(), when);
        }
        for (auto& q : r.e) {
            auto it = e.find(q.first);
            s.check(it != e.end(), "matrix-element", "%s: %s: iteration does not give element (%u,%u)", who.c_str(), when, q.first.first, q.first.second);
            s.check(sameBits(it->second, q.second), "matrix-value", "%s: %s: element (%u,%u) is %g in iteration, expected %g", who.c_str(), when, q.first.first, q.first.second, it->second, q.second);
        }
        for (unsigned i = 0; i < r.n.first; ++i) for (unsigned j = 0; j < r.n.second; ++j) {
            bool h = r.e.count(I(i, j)); double v = r.get(I(i, j)); auto c = x.checkedGet(I(i, j));
            s.check(sameBits(x.get(I(i, j)), v) && sameBits(x.get(i, j), v) && sameBits(x[I(i, j)], v), "matrix-value", "%s: %s: element (%u,%u) is %g, expected %g", who.c_str(), when, i, j, double(x.get(I(i, j))), v);
            s.check(x.hasIndex(I(i, j)) == h && c.second == h && (!h || sameBits(c.first, v)), "matrix-element", "%s: %s: element (%u,%u) is said to %s", who.c_str(), when, i, j, h ? "be missing" : "be there");
        }
    }
    // After a failure in the middle of a change the matrix must be usable: elements in place, in order, each as before or as it should have become
    template<class X> void usable(Mat<X>& x, const R& before, const R& after) {
        I n = x.m.size(); R r; r.n = n;
        s.check(n == before.n || n == after.n, "half-made-matrix", "%s: after a failure the size is %u x %u", who.c_str(), n.first, n.second);
        bool first = true; I last;
        for (auto it = x.m.begin(), end = x.m.end(); it != end; ++it) {
            I i = it->first; double v = it->second;
            s.check(i.first < n.first && i.second < n.second, "half-made-matrix", "%s: after a failure a %u x %u matrix has an element (%u,%u)", who.c_str(), n.first, n.second, i.first, i.second);
            s.check(first || last < i, "half-made-matrix", "%s: after a failure elements are not in order", who.c_str()); first = false; last = i;
            s.check(sameBits(v, before.get(i)) || sameBits(v, after.get(i)) || v == 0, "half-made-matrix", "%s: after a failure element (%u,%u) is %g, neither as before (%g) nor as it should be (%g)", who.c_str(), i.first, i.second, v, before.get(i), after.get(i));
            r.e[i] = v;
        }
        x.r = r; same(x.m, r, "after a failure");
    }
    // An assignment is complete or nothing
    template<class X> void assigned(Mat<X>& x, bool done, const R& want) { if (done) x.r = want; same(x.m, x.r, done ? "after an assignment" : "after a failed assignment"); }
    R draw(unsigned a, unsigned b, unsigned density) { R r; r.n = I(a, b); for (unsigned i = 0; i < a; ++i) for (unsigned j = 0; j < b; ++j) if (s.draw(4) < density) r.e[I(i, j)] = val(); return r; }
    static M toM(const R& r) { M m(r.n); for (auto& q : r.e) m.at(q.first) = q.second; return m; }
    static R window(const R& r, I from, I n) { R w; w.n = n; for (auto& q : r.e) if (q.first.first >= from.first && q.first.second >= from.second && q.first.first < from.first + n.first && q.first.second < from.second + n.second) w.e[I(q.first.first - from.first, q.first.second - from.second)] = q.second; return w; }
    static R transposed(const R& r) { R w; w.n = I(r.n.second, r.n.first); for (auto& q : r.e) w.e[I(q.first.second, q.first.first)] = q.second; return w; }
    static R scaled(const R& r, double k) { R w = r; for (auto& q : w.e) q.second *= k; return w; }
    static R product(const R& a, const R& b) {
        R w; w.n = I(a.n.first, b.n.second);
        for (unsigned i = 0; i < w.n.first; ++i) for (unsigned j = 0; j < w.n.second; ++j) {
            double p = 0; for (unsigned k = 0; k < a.n.second; ++k) if (a.e.count(I(i, k)) && b.e.count(I(k, j))) p += a.get(I(i, k)) * b.get(I(k, j));
            if (p != 0) w.e[I(i, j)] = p;
        }
        return w;
    }
    // calls g(matrix or view, model, whether its rows can be accessed) with something of size n
    enum { Any = -1 };
    template<class X, class G> void viewOf(X& x, const R& r, I n, bool any, G g) {
        // windows need a source at least that large; transposed views one of the transposed size
        bool fits = r.n.first >= n.first && r.n.second >= n.second, exact = r.n == n, tr = r.n == I(n.second, n.first), fitsT = r.n.first >= n.second && r.n.second >= n.first;
        std::vector<int> how;
        if (any) { how = {0, 1, 2, 3, 4, 5}; n = I(s.draw(r.n.first + 1), s.draw(r.n.second + 1)); }
        else { if (exact) { how.push_back(0); how.push_back(1); } if (tr) how.push_back(2); if (fits) { how.push_back(3); how.push_back(4); } if (fitsT) how.push_back(5); }
        if (how.empty()) { R t = draw(n.first, n.second, 2); M m = toM(t); g(m, t); return; }
        double k = s.range(-3, 3) * 0.5;
        switch (s.pickv(how)) {
        case 0: g(x, r); break;
        case 1: s.shape("scaled"); g(x.scaled(k), scaled(r, k)); break;
        case 2: s.shape("transposed"); g(x.transposed(), transposed(r)); break;
        case 3: { I f(s.draw(r.n.first - n.first + 1), s.draw(r.n.second - n.second + 1)); s.shape("block"); if (s.draw(2)) g(x.block(f, n), window(r, f, n)); else g(x.block(f.first, f.second, n.first, n.second), window(r, f, n)); break; }
        case 4: { I f(s.draw(r.n.first - n.first + 1), s.draw(r.n.second - n.second + 1)); s.shape("scaled-block"); auto b = x.block(f, n); g(b.scaled(k), scaled(window(r, f, n), k)); break; }
        default: { I t(n.second, n.first); if (any) t = n; I f(s.draw(r.n.first - t.first + 1), s.draw(r.n.second - t.second + 1)); s.shape("transposed-block"); auto b = x.block(f, t); g(b.transposed(), transposed(window(r, f, t))); }
        }
    }
    // "not_": a sparse matrix that must not be the source, as it is being changed
    template<class G> void withMat(I n, bool any, const void* not_, G g) {
        for (int tries = 0; tries < 3; ++tries)
            if (s.draw(3) < 2) { auto& x = s.pickv(ms); if (&x == not_) continue; viewOf(const_cast<M&>(x.m), x.r, n, any, g); return; }
            else { auto& x = s.pickv(fs); if (&x == not_) continue; viewOf(const_cast<F&>(x.m), x.r, n, any, g); return; }
        R t = draw(n.first, n.second, 2); M m = toM(t); g(m, t);
    }
    static R plus(const R& a, const R& b, double k) { R w = a; for (auto& q : b.e) w.e[q.first] += k * q.second; return w; }

    void matOp() {
        Mat<M>& x = ms[s.draw(unsigned(ms.size()))]; R was = x.r; I n = was.n;
        auto settle = [&](bool done, const R& want) { if (done) x.r = want; else usable(x, was, want); };
        switch (s.draw(17)) {
        case 0: if (n.first && n.second) { I i(s.draw(n.first), s.draw(n.second)); double v = val(); R w = was; w.e[i] = v; int how = s.draw(2);
                    settle(run("write", [&] { if (how) x.m.at(i) = v; else x.m.at(i.first, i.second) = v; }), w); } break;
        case 1: { I i(s.draw(n.first + 1), s.draw(n.second + 1)); R w = was; w.e.erase(i); settle(run("removeAt", [&] { x.m.removeAt(i); }, false), w); break; }
        case 2: { R w = was; w.e.clear(); settle(run("clear", [&] { x.m.clear(); }, false), w); break; }
        case 3: { R w; w.n = I(s.draw(6), s.draw(6)); for (auto& q : was.e) if (q.first.first < w.n.first && q.first.second < w.n.second) w.e.insert(q); int how = s.draw(2);
                    settle(run("resize", [&] { if (how) x.m.resize(w.n); else x.m.resize(w.n.first, w.n.second); }), w); break; }
        case 4: { R w = was; w.n = I(0, 0); for (auto& q : was.e) { w.n.first = std::max(w.n.first, q.first.first + 1); w.n.second = std::max(w.n.second, q.first.second + 1); }
                    settle(run("resizeFromData", [&] { x.m.resizeFromData(); }), w); break; }
        case 5: { R w = was; for (auto& q : w.e) q.second = 0; settle(run("makeZero", [&] { x.m.makeZero(); }, false), w); break; }
        case 6: if (n.first == n.second) { double k = s.range(-3, 3); bool one = s.draw(3) == 0; if (one) k = 1; R w = was; for (unsigned i = 0; i < n.first; ++i) w.e[I(i, i)] += k;
                    settle(run("add identity", [&] { if (one) x.m.addIdentity(); else x.m.addScaledIdentity(k); }), w); } break;
        case 7: withMat(n, false, &x, [&](const auto& y, const R& r) { R w = plus(was, r, 1); settle(run("add", [&] { x.m += y; }), w); same(y, r, "matrix added"); }); break;
        case 8: withMat(n, false, &x, [&](const auto& y, const R& r) { R w = plus(was, r, -1); settle(run("subtract", [&] { x.m -= y; }), w); same(y, r, "matrix subtracted"); }); break;
        case 9: withMat(I(2, 2), true, &x, [&](const auto& y, const R& r) { assigned(x, run("assign", [&] { x.m = y; }), r); same(y, r, "matrix assigned"); }); break;
        case 10: run("self-assign", [&] { x.m = x.m; }); settle(true, was); viewOf(x.m, was, n, true, [&](const auto& y, const R& r) { R w = r; assigned(x, run("assign own view", [&] { x.m = y; }), w); }); break;
        case 11: withMat(I(2, 2), true, nullptr, [&](const auto& y, const R& r) { M c; who = "view"; same(y, r, "view"); norm(y, r);
                    if (run("copy", [&] { M t(y); c = t; })) { same(c, r, "copy"); c.makeZero(); c.clear(); same(y, r, "source after a change of the copy"); } }); break;
        case 12: withMat(I(n.second, s.draw(5)), false, nullptr, [&](const auto& y, const R& r) { M p; R w = product(was, r);
                    if (run("product", [&] { M t = x.m * y; p = t; })) same(p, w, "product"); same(y, r, "right factor"); same(x.m, was, "left factor"); }); break;
        case 13: if (n.first == n.second) withMat(n, false, nullptr, [&](const auto& y, const R& r) { R w = product(was, r); assigned(x, run("multiply", [&] { x.m *= y; }), w); }); break;
        case 14: window(x); break;
        case 15: text(x.m, x.r); break;
        default: { unsigned k = s.draw(5); double f = s.range(-3, 3); R w; w.n = I(k, k); for (unsigned i = 0; i < k; ++i) w.e[I(i, i)] = f;
                    assigned(x, run("identity", [&] { if (f == 1) x.m = M::identity(k); else x.m = M::scaledIdentity(k, f); }), w); }
        }
    }
    // changes through a window, or through a window of a transposed matrix
    void window(Mat<M>& x) {
        R was = x.r; I n = was.n, w(s.draw(n.first + 1), s.draw(n.second + 1)), f(s.draw(n.first - w.first + 1), s.draw(n.second - w.second + 1));
        auto back = [&](const R& r) { R a = was; for (auto it = a.e.begin(); it != a.e.end();) if (it->first.first >= f.first && it->first.second >= f.second && it->first.first < f.first + w.first && it->first.second < f.second + w.second) it = a.e.erase(it); else ++it;
            for (auto& q : r.e) a.e[I(q.first.first + f.first, q.first.second + f.second)] = q.second; return a; };
        R in = window(was, f, w); auto b = x.m.block(f, w);
        auto settle = [&](bool done, const R& want) { if (done) x.r = back(want); else usable(x, was, back(want)); };
        switch (s.draw(9)) {
        case 7: case 8: {                                       // from another window of the same matrix
            I g(s.draw(n.first - w.first + 1), s.draw(n.second - w.second + 1));
            bool apart = g.first >= f.first + w.first || f.first >= g.first + w.first || g.second >= f.second + w.second || f.second >= g.second + w.second;
            if (!apart) break;
            auto o = x.m.block(g, w); R r = window(was, g, w); double k = s.range(-2, 2); bool sc = s.draw(2); auto os = o.scaled(k); if (sc) r = scaled(r, k); s.probe("another window of the same matrix");
            if (s.draw(2)) settle(run("window assign own", [&] { if (sc) b = os; else b = o; }), r); else settle(run("window add own", [&] { if (sc) b += os; else b += o; }), plus(in, r, 1));
            break; }
        case 0: { R r = in; r.e.clear(); settle(run("window clear", [&] { b.clear(); }), r); break; }
        case 1: if (w.first && w.second) { I i(s.draw(w.first), s.draw(w.second)); double v = val(); R r = in; r.e[i] = v; settle(run("window write", [&] { b.at(i) = v; }), r); } break;
        case 2: if (w.first && w.second) { I i(s.draw(w.first), s.draw(w.second)); R r = in; r.e.erase(i); settle(run("window removeAt", [&] { b.removeAt(i); }, false), r); } break;
        case 3: withMat(w, false, &x, [&](const auto& y, const R& r) { settle(run("window assign", [&] { b = y; }), r); }); break;
        case 4: withMat(w, false, &x, [&](const auto& y, const R& r) { settle(run("window add", [&] { b += y; }), plus(in, r, 1)); }); break;
        case 5: { R r = in; for (auto& q : r.e) q.second = 0; auto t = x.m.transposed(); bool tr = s.draw(2);
                    if (tr) { R z = was; z.e.clear(); bool d = run("transposed clear", [&] { t.clear(); }, false); if (d) x.r = z; }
                    else if (w.first == w.second) { r = in; for (unsigned i = 0; i < w.first; ++i) r.e[I(i, i)] += 2; settle(run("window add identity", [&] { b.addScaledIdentity(2); }), r); } break; }
        default: if (n.first && n.second) { auto t = x.m.transposed(); I i(s.draw(n.first), s.draw(n.second)); double v = val(); R r = was; r.e[i] = v; bool rm = s.draw(2); if (rm) r.e.erase(i);
                    bool d = run("transposed write", [&] { if (rm) t.removeAt(I(i.second, i.first)); else t.at(I(i.second, i.first)) = v; }); if (d) x.r = r; else usable(x, was, r); }
        }
    }
    template<class X> void norm(const X& y, const R& r) { D d; for (auto& q : r.e) d.push_back(q.second); reduce(y, d); products(y, r); }
    template<class X> void products(const X& y, const R& r) {
        D a = draws(r.n.second), c = draws(r.n.first), ya(r.n.first), cy(r.n.second);
        for (auto& q : r.e) { ya[q.first.first] += q.second * a[q.first.second]; cy[q.first.second] += q.second * c[q.first.first]; }
        V va = toV(a), vc = toV(c), p;
        if (run("matrix times vector", [&] { V t = y * va; p.swap(t); })) same(p, ya, "product");
        if (run("vector times matrix", [&] { V t = vc * y; p.swap(t); })) same(p, cy, "product");
        D out(r.n.first + 1, 5.); y.mulVectRight(a.begin(), out.begin());
        for (unsigned i = 0; i < r.n.first; ++i) s.check(sameBits(out[i], ya[i]), "product", "mulVectRight: element %u is %g, expected %g", i, out[i], ya[i]);
        s.check(out.back() == 5, "product", "mulVectRight writes too many elements");
        D left(r.n.second + 1, 5.); y.mulVectLeft(c.begin(), left.begin());
        for (unsigned i = 0; i < r.n.second; ++i) s.check(sameBits(left[i], cy[i]), "product", "mulVectLeft: element %u is %g, expected %g", i, left[i], cy[i]);
        s.check(left.back() == 5, "product", "mulVectLeft writes too many elements");
    }
    template<class X> void text(const X& x, const R& r) {
        std::ostringstream o; o << x; std::istringstream in(o.str()); std::string line; unsigned i = 0; who = "text"; s.shape("text"); size_t width = 0;
        while (std::getline(in, line)) {
            s.check(i < r.n.first, "text", "a matrix with %u rows is written in more lines", r.n.first);
            std::istringstream l(line); std::string w; unsigned j = 0;
            while (l >> w) { s.check(j < r.n.second && w == text(r.get(I(i, j))), "text", "line %u, column %u of a matrix is %s", i, j, w.c_str()); ++j; }
            s.check(j == r.n.second, "text", "line %u of a matrix with %u columns has %u", i, r.n.second, j); ++i;
            s.check(i == 1 || line.size() == width, "text", "columns of a matrix are not aligned"); width = line.size();
        }
        s.check(i == r.n.first, "text", "a matrix with %u rows is written in %u lines", r.n.first, i);
        std::ostringstream q; printScilabMatrix(q, x, "A"); std::istringstream qi(q.str()); std::set<std::string> want, got; std::getline(qi, line);
        s.check(line == fmt("A = zeros(%u, %u);", r.n.first, r.n.second), "text", "Scilab: first line is %s", line.c_str());
        while (std::getline(qi, line)) s.check(got.insert(line).second, "text", "Scilab: repeated line");
        for (auto& e : r.e) want.insert(fmt("A(%u, %u) = ", e.first.first + 1, e.first.second + 1) + text(e.second) + ";");
        s.check(want == got, "text", "Scilab: %s", q.str().c_str());
    }
    void fastOp() {
        Mat<F>& x = fs[s.draw(unsigned(fs.size()))]; R was = x.r; I n = was.n;
        auto settle = [&](bool done, const R& want) { if (done) x.r = want; else usable(x, was, want); };
        switch (s.draw(8)) {
        case 0: withMat(I(2, 2), true, &x, [&](const auto& y, const R& r) { assigned(x, run("fast assign", [&] { x.m = y; }), r); same(y, r, "matrix assigned"); }); break;
        case 1: if (n.first && n.second) { I i(s.draw(n.first), s.draw(n.second)); double v = val(); bool thrown = false;   // there is no element to be added
                    try { run("fast write", [&] { x.m.at(i) = v; }, false); } catch (const ctm::cxx::exception&) { thrown = true; s.fault("missing-element"); }
                    s.check(thrown == !was.e.count(i), "missing-element", "writing element (%u,%u) %s", i.first, i.second, thrown ? "is refused" : "that is missing succeeds"); if (!thrown) x.r.e[i] = v; } break;
        case 2: { R w = was; for (auto& q : w.e) q.second = 0; settle(run("fast makeZero", [&] { x.m.makeZero(); }, false), w); break; }
        case 3: withMat(n, false, &x, [&](const auto& y, const R& r) { R w = plus(was, r, 1); bool missing = w.e.size() != was.e.size(), thrown = false;
                    try { run("fast add", [&] { x.m += y; }, false); } catch (const ctm::cxx::exception&) { thrown = true; s.fault("missing-element"); }
                    s.check(thrown == missing, "missing-element", "adding to a matrix with fixed elements %s", thrown ? "is refused" : "adds elements");
                    if (thrown) usable(x, was, w); else x.r = w; same(y, r, "matrix added"); }); break;
        case 4: { R w = was; w.e.clear(); settle(run("fast clear", [&] { x.m.clear(); }, false), w); break; }
        case 5: { F c; who = "fast copy"; if (run("fast copy", [&] { F t(x.m); c = t; })) { same(c, x.r, "copy"); c.makeZero(); same(x.m, was, "source after a change of the copy"); } norm(x.m, x.r); break; }
        case 6: text(x.m, x.r); break;
        default: { R r = draw(s.draw(5), s.draw(5), s.draw(5)); M m = toM(r); if (s.draw(2)) assigned(x, run("fast assign", [&] { x.m = m; }), r); else viewOf(x.m, was, n, true, [&](const auto& y, const R& r) { R w = r; assigned(x, run("fast assign own view", [&] { x.m = y; }), w); }); }
        }
    }
};
}

SCENARIO(C22, nullptr) {
    Sim& s = S_; Run r(s); r.finite = !s.chance(1, 4);
    for (int i = 0; i < 3; ++i) { Run::Vec v; v.d = r.draws(s.draw(6)); v.v = Run::toV(v.d); r.vs.push_back(v); }
    for (int i = 0; i < 2; ++i) { Run::Mat<M> m; m.r = r.draw(s.draw(5), s.draw(5), s.draw(4)); m.m = Run::toM(m.r); r.ms.push_back(m); }
    { Run::Mat<F> f; f.r = r.draw(s.draw(5), s.draw(5), s.draw(4)); f.m = Run::toM(f.r); r.fs.push_back(f); }
    r.who = "start"; r.sameAll("start");
    int what = s.draw(3), ops = s.range(4, 16);
    for (int k = 0; k < ops; ++k) {
        unsigned w = s.draw(4);
        if (what == 1 || (what == 0 && w < 2)) r.vecOp(); else if (w == 3) r.fastOp(); else r.matOp();
        r.sameAll("after an operation");
        for (auto& v : r.vs) for (double d : v.d) if (std::fabs(d) > 1e9 && std::isfinite(d)) s.discard("large numbers");
        for (auto& m : r.ms) for (auto& q : m.r.e) if (std::fabs(q.second) > 1e9 && std::isfinite(q.second)) s.discard("large numbers");
    }
    if (ops > 6) s.nontrivial();
}
}
