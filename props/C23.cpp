// C23: every solver that accepts a system gives the solution of that system
#include <stdexcept>
#include "lalib/mat.hpp"
#include "lalib/vec.hpp"
#include "lalib/ops/orthogonal.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"
#include "../engine/sparse.hpp"
#include "../engine/solve.hpp"
using namespace lalib;
using LD = long double;

// a strictly diagonally dominant system, its inverse and its conditioning
template<typename T> struct Dom {
    size_t n; std::vector<T> a; bool sym, pos, tri; std::string kind; std::vector<LD> w; LD an = 0, cond = 0;
    T operator()(size_t i, size_t j) const { return a[i * n + j]; }
    std::string show() const { return cat(kind, " ", showm(a, n, n)); }
    void prepare() {
        std::vector<LD> p(a.begin(), a.end()); w.assign(n * n, 0); for (size_t i = 0; i < n; ++i) { w[i * n + i] = 1; LD s = 0; for (size_t j = 0; j < n; ++j) { s += amag(a[i * n + j]); } an = std::max(an, s); }
        for (size_t c = 0; c < n; ++c) { LD d = p[c * n + c]; for (size_t j = 0; j < n; ++j) { p[c * n + j] /= d; w[c * n + j] /= d; }
            for (size_t i = 0; i < n; ++i) { LD f = p[i * n + c]; if (i == c || f == 0) { continue; } for (size_t j = 0; j < n; ++j) { p[i * n + j] -= f * p[c * n + j]; w[i * n + j] -= f * w[c * n + j]; } } }
        LD wn = 0; for (size_t i = 0; i < n; ++i) { LD s = 0; for (size_t j = 0; j < n; ++j) { s += std::fabs(w[i * n + j]); } wn = std::max(wn, s); } cond = an * wn;
    }
    std::vector<LD> solve(const std::vector<T>& b, size_t k, size_t q) const { std::vector<LD> x(n, 0); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { x[i] += w[i * n + j] * b[j * k + q]; } } return x; }
};
template<typename T> Dom<T> draw_dom(Ctx& c, size_t n) {
    Dom<T> m{n, std::vector<T>(n * n, T(0)), c.chance(2, 3), c.chance(2, 3), c.chance(1, 3), "", {}}; auto b = c.bulk(); bool ints = c.chance(1, 3); unsigned hole = static_cast<unsigned>(c.pick({1000, 1000, 3, 2}));
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) {
        if (i == j || (m.sym && j > i) || (m.tri && i > j + 1) || (m.tri && j > i + 1)) { continue; }
        T x = ints ? static_cast<T>(b.zig(4)) : gen::real_val<T>(b); if (x == T(0) || (m.tri && hole < 10 && b.chance(1, hole))) { x = m.tri ? T(0) : T(0.5); }
        m.a[i * n + j] = x; if (m.sym) { m.a[j * n + i] = x; } } }
    T dom = c.pick({T(1.25), T(1.5), T(2), T(4)});
    for (size_t i = 0; i < n; ++i) { T q = 0, r = 0; for (size_t j = 0; j < n; ++j) { q += std::abs(m.a[i * n + j]); r += std::abs(m.a[j * n + i]); } q = std::max(std::max(q, r), T(1)) * dom; m.a[i * n + i] = (ints ? std::ceil(q) : q) * (!m.pos && b.chance(1, 2) ? T(-1) : T(1)); }
    m.kind = cat(m.tri ? "tri-diagonal" : "full", m.sym ? " symmetric" : " unsymmetric", m.pos ? "" : " with any signs", ints ? " integers" : "");
    if (c.chance(1, 4)) { int e = static_cast<int>(c.zig(std::is_same_v<T, float> ? 10 : 60)) + far_exponent<T>(c, 240, 20); for (auto& x : m.a) { x = std::ldexp(x, e); } m.kind += ", scaled"; }
    m.prepare(); return m;
}
template<typename T> SpCooMat<T> to_coo(Ctx& c, const Dom<T>& m) { Pattern<T> p; for (size_t i = 0; i < m.n; ++i) { for (size_t j = 0; j < m.n; ++j) { if (m(i, j) != T(0)) { p.set(i, j, m(i, j)); } } } auto [v, r, k] = p.shuffled(c); return SpCooMat<T>(v, r, k); }
template<typename T> std::vector<T> column(const std::vector<T>& b, size_t n, size_t k, size_t q) { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) { v[i] = b[i * k + q]; } return v; }

template<typename T> void agree(Ctx& c) {
    size_t n = c.chance(1, 250) ? 128 + c.below(33) : order(c, 1, c.chance(1, 30) ? 70 : 24), k = 1 + c.below(4); auto m = draw_dom<T>(c, n); auto what = cat(tname<T>(), " ", m.show()); LD u = U<T>;
    // right-hand sides: columns with solutions of about unit size; sometimes the identity
    bool ident = n <= 16 && c.chance(1, 4); if (ident) { k = n; }
    std::vector<T> b(n * k, T(0)); if (ident) { for (size_t i = 0; i < n; ++i) { b[i * n + i] = T(1); } } else { b = rhs_values<T>(c, n, k, 3); }
    std::vector<std::vector<LD>> x(k); std::vector<LD> big(k, 0);
    for (size_t q = 0; q < k; ++q) {
        x[q] = m.solve(b, k, q); for (auto v : x[q]) { big[q] = std::max(big[q], std::fabs(v)); } int e; std::frexp(big[q], &e);
        if (big[q] > 0) { for (size_t i = 0; i < n; ++i) { b[i * k + q] = std::ldexp(b[i * k + q], -e); x[q][i] = std::ldexp(x[q][i], -e); } big[q] = std::ldexp(big[q], -e); }
    }
    c.note(cat(what, " rhs ", showm(b, n, k))); c.label(m.kind); c.label(n == 1 ? "order 1" : n < 8 ? "order 2..7" : n < 25 ? "order 8..24" : "order >=25"); if (ident) { c.label("identity right-hand sides"); }
    const DynMat<T> A(m.n, m.n, m.a), B(n, k, b); const auto coo = to_coo<T>(c, m); const SpMat<T> S(coo);
    LD direct = 40 * static_cast<LD>(n + 5) * u * m.cond; size_t methods = 0;
    // the columns of a solution, against the reference and against the library's own products
    auto judge = [&](auto&& at, size_t q0, size_t nq, const std::string& name, LD rel, LD abs) {
        ++methods; c.label(name); auto w = what + ": " + name;
        for (size_t q = 0; q < nq; ++q) { LD tol = rel * big[q0 + q] + abs; std::vector<T> col(n);
            for (size_t i = 0; i < n; ++i) { T g = at(i, q); col[i] = g; PBT_CHECK(finite(g) && std::fabs(static_cast<LD>(g) - x[q0 + q][i]) <= tol, w, ": element ", i, " of solution ", q0 + q, " is ", g, ", the solution of the system has ", static_cast<double>(x[q0 + q][i]), " there, allowed difference ", static_cast<double>(tol)); }
            if (q > 0 && q + 1 < nq) { continue; }
            DynVec<T> xv(col), y = A * xv, z(column(b, n, k, q0 + q)); mul(T(-1), S, xv, T(1), z); LD back = m.an * (tol + 4 * static_cast<LD>(n + 3) * u * (big[q0 + q] + tol));
            for (size_t i = 0; i < n; ++i) { T bi = b[i * k + q0 + q]; LD t = back + 4 * u * amag(bi);
                PBT_CHECK(std::fabs(static_cast<LD>(y[i]) - bi) <= t, w, ": multiplied with the matrix, element ", i, " of solution ", q0 + q, " gives ", y[i], ", the right-hand side has ", bi);
                PBT_CHECK(std::fabs(static_cast<LD>(z[i])) <= t, w, ": the residual computed with the sparse matrix has element ", z[i]); } }
    };
    auto linear = [&](const auto& f, const std::string& name) {
        auto r = f.solve_linear(B); judge([&](size_t i, size_t q) { return r(i, q); }, 0, k, name + ", all columns", direct, 0);
        size_t q = c.below(k); auto s = f.solve_linear(DynVec<T>(column(b, n, k, q))); judge([&](size_t i, size_t) { return s[i]; }, q, 1, name + ", one column", direct, 0);
        if (c.chance(1, 2)) { DynMat<T> t(B); f.solve_linear_mut(t); judge([&](size_t i, size_t p) { return t(i, p); }, 0, k, name + ", in place", direct, 0); }
        if (ident) {        // the columns were scaled by powers of two
            auto p = A * r; for (size_t j = 0; j < n; ++j) { LD sc = amag(b[j * n + j]); for (size_t i = 0; i < n; ++i) {
                PBT_CHECK(std::fabs(static_cast<LD>(p(i, j)) - (i == j ? sc : 0)) <= m.an * big[j] * (direct + 4 * static_cast<LD>(n + 3) * u), what, ": ", name, ": the matrix times its computed inverse has ", p(i, j), " at (", i, ",", j, ")"); } }
        }
    };
    if (m.sym) {
        std::vector<T> t; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j <= i; ++j) { t.push_back(m(i, j)); } }
        if (m.pos) { linear(solver::DynTriCholeskyFactorization<T>(DynHermiteMat<T>(n, std::move(t))), "packed Cholesky"); linear(solver::DynCholeskyFactorization<T>(DynMat<T>(A)), "square Cholesky"); }
        linear(solver::DynModCholeskyFactorization<T>(DynMat<T>(A)), "LDL^T");
    }
    std::vector<T> l, d, r; for (size_t i = 0; i < n; ++i) { d.push_back(m(i, i)); if (i) { l.push_back(m(i, i - 1)); r.push_back(m(i - 1, i)); } }
    if (m.tri) {
        solver::TriDiag<DynTriDiagMat<T>> f{DynTriDiagMat<T>(l, d, r)}; DynMat<T> X = B; f.solve_linear(B, X); judge([&](size_t i, size_t q) { return X(i, q); }, 0, k, "tri-diagonal, all columns", direct, 0);
        size_t q = c.below(k); DynVec<T> v(column(b, n, k, q)); f.solve_linear(v, v); judge([&](size_t i, size_t) { return v[i]; }, q, 1, "tri-diagonal, in place", direct, 0);
        auto sized = [&]<size_t N>() { if constexpr (N > 1) { std::array<T, N - 1> al, ar; std::array<T, N> ad; std::copy(l.begin(), l.end(), al.begin()); std::copy(r.begin(), r.end(), ar.begin()); std::copy(d.begin(), d.end(), ad.begin());
            solver::TriDiag<SizedTriDiagMat<T, N>> g{SizedTriDiagMat<T, N>(al, ad, ar)}; SizedVec<T, N> sb(column(b, n, k, q)), sx(sb); g.solve_linear(sb, sx); judge([&](size_t i, size_t) { return sx[i]; }, q, 1, "fixed-size tri-diagonal", direct, 0); } };
        switch (n) { case 2: sized.template operator()<2>(); break; case 3: sized.template operator()<3>(); break; case 5: sized.template operator()<5>(); break; case 8: sized.template operator()<8>(); break; default: break; }
    }
    {   // complete LU: no zero is turned into fill-in by these patterns
        size_t q = c.below(k); DynVec<T> v(column(b, n, k, q)); solver::Ilu<T, DynMat<T>> fd{DynMat<T>(A)}; solver::Ilu<T, SpMat<T>> fs{SpMat<T>(S)};
        auto xd = fd.solve(v); judge([&](size_t i, size_t) { return xd[i]; }, q, 1, "LU dense", direct, 0); auto xs = fs.solve(v); judge([&](size_t i, size_t) { return xs[i]; }, q, 1, "LU sparse", direct, 0);
        if (n <= 10) { solver::Ilu<T, SpCooMat<T>> fc{SpCooMat<T>(coo)}; auto xc = fc.solve(v); judge([&](size_t i, size_t) { return xc[i]; }, q, 1, "LU coordinates", direct, 0); }
        if (n <= 16 || c.chance(1, 3)) {
            T tol = static_cast<T>(std::max<LD>(std::is_same_v<T, float> ? 1e-4L : 1e-10L, 8 * direct)); LD slack = 2 * std::sqrt(static_cast<LD>(n + 1)) * static_cast<LD>(tol);
            if (big[q] > 0) {
                solver::Gmres<T, DynMat<T>> gd(DynMat<T>(A), tol); auto yd = gd.solve(v); judge([&](size_t i, size_t) { return yd[i]; }, q, 1, "GMRES dense", direct, slack);
                solver::Gmres<T, SpMat<T>> gs(SpMat<T>(S), tol); auto ys = gs.solve(v); judge([&](size_t i, size_t) { return ys[i]; }, q, 1, "GMRES sparse", direct, slack); }
        }
        if (n == 2) { SizedMat<T, 2, 2> s2(m.a); auto y = inverted(s2) * SizedVec<T, 2>(std::vector<T>(v.begin(), v.end())); judge([&](size_t i, size_t) { return y[i]; }, q, 1, "inverse 2x2", direct, 0); }
        // orthogonalization of the columns and back substitution
        if (m.cond * m.cond * u * static_cast<LD>(n) < 1e-4L && n <= 24) {
            std::vector<DynVec<T>> cols; for (size_t j = 0; j < n; ++j) { std::vector<T> t(n); for (size_t i = 0; i < n; ++i) { t[i] = m(i, j); } cols.emplace_back(t); } auto orig = cols; orth::cgs(cols);
            auto R = DynUpperTriMat<T>::with_capacity(n); std::vector<T> y(n); for (size_t j = 0; j < n; ++j) { std::vector<T> t(j + 1); for (size_t i = 0; i <= j; ++i) { t[i] = i == j ? T(1) : dot(cols[i], orig[j]) / cols[i].dot(cols[i]); } R.extend_with(std::move(t)); y[j] = dot(cols[j], v) / cols[j].dot(cols[j]); }
            R.back_sub(y); judge([&](size_t i, size_t) { return y[i]; }, q, 1, "orthogonalization", 100 * static_cast<LD>(n + 5) * u * m.cond * m.cond, 0);
        }
    }
    c.nontrivial(n >= 2 && methods >= 4);
}
FACET_FD("agree", 500, agree);
