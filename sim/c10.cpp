// C10: LU factorizer solves the system it has been given, whatever was done to it before
#include "world.h"
#include "ode_num_int/lu/LUFactorizer.h"
#include "ode_num_int/lu/util.h"
#include "ode_num_int/la/SparseMatrixTemplate.h"
namespace sim {

typedef ctm::math::LUFactorizer<double> LU;
typedef ctm::math::sparse::SparseMatrix<double> SM;
typedef ctm::math::sparse::SparseMatrixTemplate<ctm::math::sparse::SparseMatrixFastData<double>> FSM;
typedef std::pair<std::pair<unsigned, unsigned>, double> El;
typedef std::vector<El> Els;

struct Mat {                // a matrix given to the factorizer, and what is known about it
    unsigned n = 0;
    Els els;
    std::vector<double> a;  // dense
    bool exact = false;     // all elements of L and U are small integers: everything is exact
    bool regular = true;
    double at(unsigned r, unsigned c) const { return a[r*n + c]; }
    std::vector<double> mul(const std::vector<double>& x) const {
        std::vector<double> y(n, 0.0);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (at(i, j) != 0) y[i] += at(i, j) * x[j];
        return y;
    }
};

struct Inst {
    LU lu;
    Mat m;
    bool known = true;       // contents of the factorizer are known
    bool factorized = false;
    bool updated = false;    // secant updates have been made
    std::vector<unsigned> p, q;     // envelope
};

static Mat drawMat(Sim& s, const std::vector<unsigned>* p0 = nullptr, const std::vector<unsigned>* q0 = nullptr) {
    Mat m; unsigned n = m.n = p0 ? p0->size() : s.range(1, s.chance(1, 8) ? 14 : 6);
    m.a.assign(n*n, 0.0);
    std::vector<unsigned> p(n), q(n);
    int style = s.draw(3);
    for (unsigned i = 0; i < n; ++i) {
        if (p0) { p[i] = s.range((*p0)[i], i); q[i] = s.range((*q0)[i], i); }
        else { unsigned w = style == 0 ? i : style == 1 ? std::min(i, 1u) : std::min<unsigned>(i, 3); p[i] = i - s.draw(w + 1); q[i] = i - s.draw(w + 1); }
    }
    m.exact = s.chance(1, 2);
    std::vector<double> l(n*n, 0.0), u(n*n, 0.0);
    if (m.exact) {
        for (unsigned i = 0; i < n; ++i) {
            for (unsigned j = p[i]; j < i; ++j) l[i*n + j] = s.pick({1.0, -1.0, 2.0, 0.0});
            for (unsigned j = q[i]; j < i; ++j) u[j*n + i] = s.pick({1.0, -1.0, 2.0, 0.0});
            l[i*n + i] = 1; u[i*n + i] = s.pick({1.0, -1.0, 2.0, -2.0, 4.0});
        }
        if (s.chance(1, 16)) { u[(n - 1)*n + n - 1] = 0; m.regular = false; }
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) for (unsigned k = 0; k <= std::min(i, j); ++k) m.a[i*n + j] += l[i*n + k] * u[k*n + j];
    } else {
        for (unsigned i = 0; i < n; ++i) {
            for (unsigned j = p[i]; j < i; ++j) m.a[i*n + j] = s.pick({0.5, -0.25, 0.3, 0.0, -1.1});
            for (unsigned j = q[i]; j < i; ++j) m.a[j*n + i] = s.pick({0.5, -0.25, 0.3, 0.0, -1.1});
        }
        for (unsigned i = 0; i < n; ++i) {
            double d = 0.5; for (unsigned j = 0; j < n; ++j) if (j != i) d += std::fabs(m.a[i*n + j]);
            m.a[i*n + i] = s.chance(1, 2) ? d : -d;
        }
    }
    // elements given: non-zero ones, corners of the envelope, some of zeros inside the envelope
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
        bool inside = j < i ? j >= p[i] : i >= q[j];
        bool corner = i == j || (j < i && j == p[i]) || (i < j && i == q[j]);
        if (m.a[i*n + j] != 0 || (inside && (corner || s.chance(1, 3)))) m.els.push_back(El(std::make_pair(i, j), m.a[i*n + j]));
    }
    if (s.chance(1, 3)) for (size_t i = m.els.size(); i > 1; --i) std::swap(m.els[i - 1], m.els[s.draw(i)]);   // any order
    return m;
}

static void envelope(const Els& els, unsigned n, std::vector<unsigned>& p, std::vector<unsigned>& q) {
    p.assign(n, n); q.assign(n, n);
    for (auto& e : els) { p[e.first.first] = std::min(p[e.first.first], e.first.second); q[e.first.second] = std::min(q[e.first.second], e.first.first); }
}

// 0: fine, 1: not square, 2: incomplete or the diagonal is not covered
static int invalid(const Els& els) {
    unsigned nr = 0, nc = 0; for (auto& e : els) { nr = std::max(nr, e.first.first + 1); nc = std::max(nc, e.first.second + 1); }
    if (nr != nc) return 1;
    std::vector<unsigned> p, q; envelope(els, nr, p, q);
    for (unsigned i = 0; i < nr; ++i) if (p[i] > i || q[i] > i) return 2;
    return 0;
}

static bool near(const std::vector<double>& a, const std::vector<double>& b, double tol) {
    for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= tol * (1 + std::fabs(b[i])))) return false;
    return true;
}

static void checkSolve(Sim& s, Inst& x, const char* when) {
    unsigned n = x.m.n; std::vector<double> e(n);
    for (auto& v : e) v = s.pick({0.0, 1.0, -1.0, 2.0, 3.0, -5.0});
    auto b = x.m.mul(e), r = b;
    unsigned long long f0 = x.lu.timingStats().factorizeTiming.count();
    x.lu.solve(r.data());
    unsigned long long f1 = x.lu.timingStats().factorizeTiming.count();
    s.check(f1 - f0 == (x.factorized ? 0u : 1u), "factorizations", "solution %s makes %u factorizations, matrix has %sbeen factorized", when, unsigned(f1 - f0), x.factorized ? "" : "not ");
    x.factorized = true;
    s.check(x.lu.isFactorized(), "factorized", "matrix is not factorized after solution");
    s.ev("solve", {double(n), n ? r[0] : 0.0});
    if (!x.m.regular) { s.probe("singular matrix"); return; }
    bool ok = x.m.exact && !x.updated ? same(r, e) : near(r, e, 1e-7);
    s.check(ok, "solution", "%s, %u equations: solution is %s, expected %s", when, n, str(r).c_str(), str(e).c_str());
}

static void checkElements(Sim& s, Inst& x, const char* when) {
    unsigned n = x.m.n;
    s.check(x.lu.size() == n && x.lu.empty() == (n == 0), "size", "%s: size is %u, expected %u", when, x.lu.size(), n);
    if (!x.m.regular && x.factorized) return;
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
        double v = x.lu.elementAt(i, j), e = x.m.at(i, j);
        s.check(x.m.exact && !x.updated ? sameBits(v, e) : std::fabs(v - e) <= 1e-9 * (1 + std::fabs(e)), "element", "%s: element (%u,%u) is %.17g, expected %.17g", when, i, j, v, e);
    }
    for (unsigned i = 0; i < n; ++i) {
        s.check(x.lu.firstCol(i) == x.p[i] && x.lu.firstRow(i) == x.q[i], "envelope", "%s: row %u starts at column %u, expected %u; column %u starts at row %u, expected %u", when, i, x.lu.firstCol(i), x.p[i], i, x.lu.firstRow(i), x.q[i]);
        unsigned last = i; for (unsigned c = i; c < n; ++c) if (x.q[c] <= i) last = c;
        s.check(x.lu.lastCol(i) == last, "envelope", "%s: last column of row %u of U is %u, expected %u", when, i, x.lu.lastCol(i), last);
    }
}

static void set(LU& lu, const Els& els, int how, bool fast) {
    std::map<std::pair<unsigned, unsigned>, double> mp;
    if (how == 0) { if (fast) lu.setMatrixFast(els); else lu.setMatrix(els); return; }
    if (how == 1) { AllocGuard g; for (auto& e : els) mp[e.first] = e.second; }
    if (how == 1) { if (fast) lu.setMatrixFast(mp); else lu.setMatrix(mp); return; }
    unsigned n = 0; for (auto& e : els) n = std::max(n, std::max(e.first.first, e.first.second) + 1);
    FSM f; { AllocGuard g; SM m(n, n); for (auto& e : els) m.at(e.first) = e.second; f = m; }
    if (fast) lu.setMatrixFast(f); else lu.setMatrix(f);
}

SCENARIO(C10, nullptr) {
    Sim& s = S_;
    Inst in[2];
    int ops = s.range(2, 14);
    for (int k = 0; k < ops; ++k) {
        Inst& x = in[s.draw(2)];
        int op = s.draw(8);
        if (op == 0 || op == 1) {               // new matrix
            bool fast = op == 1;
            Mat m; int kind = s.draw(4);
            if (kind == 3 && x.known && x.m.n) m = drawMat(s, &x.p, &x.q);     // inside the current envelope
            else if (kind == 2 && x.known && x.m.n) { m = drawMat(s); if (m.n != x.m.n) s.probe("size of the matrix changes"); }
            else m = drawMat(s);
            Els els = m.els;
            int bad = 0;
            if (s.chance(1, 5)) {               // invalid stencils
                switch (s.draw(3)) {
                    case 0: els.push_back(El(std::make_pair(m.n + s.draw(2), (unsigned)s.draw(m.n)), 1.0)); break;
                    case 1: { unsigned r = s.draw(m.n); Els t; for (auto& e : els) if (e.first.first != r || e.first.second > r) t.push_back(e); els = t; break; }
                    default: { unsigned c = s.draw(m.n); Els t; for (auto& e : els) if (e.first.second != c || e.first.first > c) t.push_back(e); els = t; break; }
                }
                bad = invalid(els);
                if (!bad) { els = m.els; }
            }
            int how = s.draw(3);
            if (how && bad) how = 0;
            s.ev(fast ? "set-fast" : "set", {double(m.n), double(els.size()), double(bad), double(how)});
            // may a valid matrix of this stencil be accepted by setMatrixFast as it is?
            unsigned n = 0; for (auto& e : els) n = std::max(n, std::max(e.first.first, e.first.second) + 1);
            bool fits = fast && x.known && n == x.m.n;
            if (fits) for (auto& e : els) if (e.first.second < e.first.first ? e.first.second < x.p[e.first.first] : e.first.first < x.q[e.first.second]) fits = false;
            if (bad && (fits || (fast && !x.known))) { s.probe("incomplete stencil inside the envelope"); continue; }      // accepted: elements that are not given are zero
            bool oom = !bad && s.chance(1, 6);
            if (oom) { alloc.armed = true; alloc.countdown = s.draw(12); alloc.fired = false; }
            bool thrown = false, mem = false;
            try { set(x.lu, els, how, fast); }
            catch (const std::bad_alloc&) { mem = true; }
            catch (const std::exception&) { thrown = true; }
            alloc.armed = false;
            if (oom && mem) s.fault("allocation-failure");
            if (mem) {
                // repeat: nothing should be left behind
                s.check(oom, "internal", "unexpected allocation failure");
                if (fast) x.known = false;
                else if (x.known) checkElements(s, x, "after an allocation failure");
                if (s.chance(1, 2)) continue;
                thrown = false;
                try { set(x.lu, els, how, s.chance(1, 2)); } catch (const std::exception&) { thrown = true; }
                if (bad && thrown) { x.known = false; continue; }
            }
            s.check(thrown == (bad != 0), "invalid-stencil", "%s: stencil is %s, %s", fast ? "setMatrixFast" : "setMatrix", bad == 1 ? "not square" : bad ? "incomplete" : "valid", thrown ? "exception is thrown" : "no exception is thrown");
            if (bad) {
                s.fault("invalid-stencil");
                if (fast) x.known = false; else if (x.known) checkElements(s, x, "after an invalid stencil");
                continue;
            }
            x.m = m; x.factorized = false; x.updated = false;
            if (!fits || mem) envelope(els, m.n, x.p, x.q); 
            bool wasKnown = x.known; x.known = true;
            if (mem || (fast && !wasKnown)) { for (unsigned i = 0; i < m.n; ++i) { x.p[i] = x.lu.firstCol(i); x.q[i] = x.lu.firstRow(i); } }   // the old envelope may have been kept
            s.check(!x.lu.isFactorized(), "factorized", "a new matrix is said to be factorized");
            checkElements(s, x, fast ? "after setMatrixFast" : "after setMatrix");
        }
        else if (!x.known) continue;
        else if (op <= 3) { checkSolve(s, x, "solution"); if (k) s.nontrivial(); }
        else if (op == 4) checkElements(s, x, "any time");
        else if (op == 5) {                     // copies are independent
            Inst& y = in[&x == &in[0] ? 1 : 0];
            if (s.chance(1, 2)) { y.lu = x.lu; } else { LU t(x.lu); std::swap(t, y.lu); }
            y.m = x.m; y.known = x.known; y.factorized = x.factorized; y.updated = x.updated; y.p = x.p; y.q = x.q;
            s.ev("copy", {double(x.m.n)}); s.probe("copy");
        }
        else if (op == 6 && x.m.n && x.m.regular) {     // secant update
            unsigned n = x.m.n; std::vector<double> d(n), y;
            for (auto& v : d) v = s.pick({1.0, -1.0, 0.5, -2.0, 0.75});
            y = x.m.mul(d);
            bool none = s.chance(1, 8);
            if (!none) for (auto& v : y) if (s.chance(1, 2)) v += 0.02 * (s.draw(5) - 2.0);
            bool wasExact = x.m.exact && !x.updated;
            unsigned long long f0 = x.lu.timingStats().factorizeTiming.count();
            bool prop = s.chance(1, 3);
            if (prop) {         // the update that multiplies rows: impossible if a row is orthogonal to the step
                if (guarded([&] { x.lu.secantUpdateProportional(d.data(), y.data()); }) != Thrown::None) {
                    s.check(!(none && wasExact), "update-refused", "an update which changes nothing is refused"); x.known = false; s.probe("secant update refused"); continue; }
                s.probe("proportional secant update");
            }
            else x.lu.secantUpdateHart(d.data(), y.data());
            s.check(x.lu.timingStats().factorizeTiming.count() - f0 == (x.factorized ? 0u : 1u), "factorizations", "wrong number of factorizations in an update");
            x.factorized = true;
            Mat old = x.m;
            for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
                double v = x.lu.elementAt(i, j);
                bool inside = j < i ? j >= x.p[i] : i >= x.q[j];
                s.check(inside || v == 0, "update-outside-envelope", "secant update makes element (%u,%u) outside the envelope %.17g", i, j, v);
                x.m.a[i*n + j] = v;
            }
            auto y2 = x.m.mul(d);
            double scale = 1; for (double v : x.m.a) scale = std::max(scale, std::fabs(v));
            if (!(scale < 1e3)) { x.known = false; continue; }
            s.check(near(y2, y, 1e-9 * scale), "secant-condition", "after the secant update the matrix maps %s to %s, expected %s", str(d).c_str(), str(y2).c_str(), str(y).c_str());
            if (none && wasExact) s.check(same(x.m.a, old.a), "needless-update", "secant update which holds already changes the matrix");
            else x.updated = true;
            s.probe("secant update"); s.nontrivial();
            // stays well-conditioned?
            auto r = y; x.lu.solve(r.data());
            double g = 0; for (double v : r) g = std::max(g, std::fabs(v));
            // reference solution by Gaussian elimination with pivoting gives an estimate of conditioning
            std::vector<double> A = x.m.a; double piv = 1e300; bool fine = true;
            for (unsigned c = 0; c < n && fine; ++c) {      // without pivoting, as the factorizer does
                double p = A[c*n + c]; piv = std::min(piv, std::fabs(p)); if (!(std::fabs(p) > 1e-2)) fine = false;
                for (unsigned r2 = c + 1; r2 < n && fine; ++r2) { double f = A[r2*n + c] / p; if (f != 0) for (unsigned c2 = c; c2 < n; ++c2) A[r2*n + c2] -= f * A[c*n + c2]; }
            }
            if (!fine) { x.known = false; continue; }
            s.check(near(r, d, 1e-5), "solution-after-update", "after the secant update the solution is %s, expected %s", str(r).c_str(), str(d).c_str());
        }
        else if (op == 7) {
            if (s.chance(1, 4)) {               // non-finite values pass through and are forgotten with the next matrix
                Mat m = drawMat(s); Els els = m.els; if (els.empty()) continue;
                els[s.draw(els.size())].second = s.pick({double(NAN), double(INFINITY)});
                s.fault("non-finite-element");
                set(x.lu, els, 0, s.chance(1, 2)); std::vector<double> b(m.n, 1.0); x.lu.solve(b.data());
                x.m = m; x.known = false; x.p.clear();
                if (s.chance(2, 3)) { set(x.lu, m.els, s.draw(3), false); x.known = true; x.factorized = x.updated = false; envelope(m.els, m.n, x.p, x.q); checkSolve(s, x, "after a non-finite matrix"); }
            } else if (!x.factorized || x.m.regular) {
                SM m = ctm::math::luToMatrix(x.lu);
                for (unsigned i = 0; i < x.m.n; ++i) for (unsigned j = 0; j < x.m.n; ++j) s.check(std::fabs(m.get(i, j) - x.lu.elementAt(i, j)) == 0 || x.updated, "matrix-of-factors", "element (%u,%u) of the matrix made of factors differs", i, j);
            }
        }
    }
}

}
