// C18: incomplete LU factorization without fill-in
#include <stdexcept>
#include "lalib/mat.hpp"
#include "lalib/vec.hpp"
#include "lalib/solver/ilu.hpp"
#include "../engine/sparse.hpp"
#include "../engine/solve.hpp"
using namespace lalib;

// stored positions of a square matrix and their values (zero values may be stored)
template<typename T> struct Sq { size_t n; std::vector<T> a; std::vector<char> stored; std::string kind; std::vector<T> lu; bool exact = false; size_t bad = size_t(-1);
    T operator()(size_t i, size_t j) const { return a[i * n + j]; }
    std::string show() const { return cat(kind, " ", showm(a, n, n)); } };
template<typename T> std::vector<char> draw_support(Ctx& c, Bulk& b, size_t n, std::string& kind) {
    std::vector<char> s(n * n, 0); for (size_t i = 0; i < n; ++i) { s[i * n + i] = 1; }
    switch (c.below(7)) {
        case 0: kind = "full"; for (auto& x : s) { x = 1; } break;
        case 1: { kind = "random"; unsigned den = static_cast<unsigned>(c.pick({2, 3, 5, 8})); for (auto& x : s) { if (b.chance(1, den)) { x = 1; } } break; }
        case 2: kind = "tri-diagonal"; for (size_t i = 0; i + 1 < n; ++i) { s[i * n + i + 1] = s[(i + 1) * n + i] = 1; } break;
        case 3: { kind = "grid"; size_t w = 2 + c.below(5); for (size_t i = 0; i < n; ++i) { if (i % w && i) { s[i * n + i - 1] = s[(i - 1) * n + i] = 1; } if (i >= w) { s[i * n + i - w] = s[(i - w) * n + i] = 1; } } break; }
        case 4: kind = "arrow"; for (size_t i = 0; i < n; ++i) { s[i] = s[i * n] = 1; } break;
        case 5: kind = "reverse arrow"; for (size_t i = 0; i < n; ++i) { s[(n - 1) * n + i] = s[i * n + n - 1] = 1; } break;
        default: kind = c.chance(1, 2) ? "lower" : "upper"; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { if ((kind == "lower" ? j < i : j > i) && b.chance(1, 2)) { s[i * n + j] = 1; } } }
    }
    return s;
}
// integers with known exact factors; `bad` is the position of a zero pivot or -1
template<typename T> Sq<T> exact_case(Ctx& c, size_t n, bool reject) {
    Sq<T> m{n, std::vector<T>(n * n, T(0)), {}, "", std::vector<T>(n * n, T(0)), true}; auto b = c.bulk(); m.stored = draw_support<T>(c, b, n, m.kind);
    std::vector<long> f(n * n, 0), a(n * n, 0);       // f: unit lower and upper factor in one array
    size_t bad = reject ? (c.chance(1, 3) ? 0 : c.chance(1, 3) ? n - 1 : c.below(n)) : size_t(-1); m.bad = bad; bool structural = reject && c.chance(1, 3);
    unsigned den = n > 14 ? 5 : 2;
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) {
        if (!m.stored[i * n + j]) { continue; }
        long s = 0; for (size_t k = 0; k < std::min(i, j); ++k) { s += f[i * n + k] * f[k * n + j]; }
        if (std::labs(s) > 200000) { m.stored[i * n + j] = i == j; s = 0; if (i != j) { continue; } for (size_t k = 0; k < i; ++k) { f[i * n + k] = 0; a[i * n + k] = 0; m.stored[i * n + k] = 0; } }
        if (i == j) {
            if (i == bad) { f[i * n + j] = 0; a[i * n + j] = structural ? 0 : s; if (structural && i + 1 != n && b.chance(1, 2)) { m.stored[i * n + j] = 0; } continue; }
            long d = b.pick({1L, 2L, 4L}) * (b.chance(1, 2) ? 1 : -1); if (s + d == 0) { d = -d; } f[i * n + j] = d; a[i * n + j] = s + d;
        } else if (j < i) {
            long l = b.chance(1, den) ? b.zig(2) : 1; if (j == bad) { a[i * n + j] = 1; continue; }
            if (s + l * f[j * n + j] == 0) { l = 0; if (s != 0) { m.stored[i * n + j] = 0; a[i * n + j] = 0; f[i * n + j] = 0; continue; } }
            f[i * n + j] = l; a[i * n + j] = s + l * f[j * n + j];
        } else {
            long u = b.chance(1, den) ? b.zig(2) : -1; if (s + u == 0) { u = 0; if (s != 0) { m.stored[i * n + j] = 0; continue; } }
            f[i * n + j] = u; a[i * n + j] = s + u;
        }
    } }
    for (size_t i = 0; i < n * n; ++i) { m.a[i] = static_cast<T>(a[i]); m.lu[i] = static_cast<T>(f[i]); }
    if (int e = far_exponent<T>(c, 700, 70)) { for (size_t i = 0; i < n * n; ++i) { m.a[i] = std::ldexp(m.a[i], e); if (i % n >= i / n) { m.lu[i] = std::ldexp(m.lu[i], e); } } }
    m.kind = "exact " + m.kind; if (structural) { m.kind += ", zero diagonal entry"; }
    return m;
}
template<typename T> Sq<T> real_case(Ctx& c, size_t n) {
    Sq<T> m{n, std::vector<T>(n * n, T(0)), {}, "", {}}; auto b = c.bulk(); m.stored = draw_support<T>(c, b, n, m.kind);
    for (size_t i = 0; i < n; ++i) { T q = 0; for (size_t j = 0; j < n; ++j) { if (i != j && m.stored[i * n + j]) { T x = gen::real_val<T>(b); m.a[i * n + j] = x; q += std::abs(x); } }
        m.a[i * n + i] = (q * T(1.02) + T(0.2)) * (b.chance(1, 2) ? T(1) : T(-1)); }
    if (c.chance(1, 3)) { constexpr int E = std::is_same_v<T, float> ? 8 : 60; std::vector<int> r(n), k(n); for (auto& x : r) { x = static_cast<int>(b.zig(E)); } for (auto& x : k) { x = static_cast<int>(b.zig(E)); } m.kind += ", badly scaled";
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { m.a[i * n + j] = std::ldexp(m.a[i * n + j], r[i] + k[j]); } } }
    else if (int e = far_exponent<T>(c, 700, 70)) { for (auto& x : m.a) { x = std::ldexp(x, e); } }
    return m;
}
template<typename T, typename M> M build(Ctx& c, const Sq<T>& m) {
    if constexpr (std::is_same_v<M, DynMat<T>>) { (void)c; return DynMat<T>(m.n, m.n, m.a); }
    else {
        Pattern<T> p; for (size_t i = 0; i < m.n; ++i) { for (size_t j = 0; j < m.n; ++j) { if (m.stored[i * m.n + j] || m.a[i * m.n + j] != T(0)) { p.set(i, j, m(i, j)); } } }
        if constexpr (std::is_same_v<M, SpMat<T>>) { if (c.chance(1, 2)) { std::vector<T> v; std::vector<size_t> rp, k; p.csr(c, v, rp, k, m.n); return SpMat<T>(v, rp, k); } }
        auto [v, r, k] = p.shuffled(c); SpCooMat<T> o(v, r, k);
        if constexpr (std::is_same_v<M, SpMat<T>>) { return SpMat<T>(o); } else { return o; }
    }
}
template<typename M> const char* mn() { if constexpr (requires(M& m) { m.row_ptr(); }) { return "csr"; } else if constexpr (requires(M& m) { m.row_indices(); }) { return "coo"; } else { return "dense"; } }
template<typename M> constexpr bool is_coo = requires(M& m) { m.row_indices(); };
template<typename T, typename M> constexpr size_t top = std::is_same_v<M, DynMat<T>> ? 40 : std::is_same_v<M, SpMat<T>> ? 34 : 12;
template<typename T, typename M> void accepted(Ctx& c) {
    using F = solver::Ilu<T, M>; struct Obj { Sq<T> m; F f; std::vector<T> lu; std::vector<long double> la; };
    std::vector<Obj> obj; std::string hist = cat(mn<M>(), " ", tname<T>(), ":"); size_t nobj = 1 + c.chance(1, 4), big = 0; bool fill = false;
    for (size_t o = 0; o < nobj; ++o) {
        size_t n = c.chance(1, is_coo<M> ? 2000 : 250) ? (is_coo<M> ? 64 + c.below(8) : 128 + c.below(40)) : order(c, 1, c.chance(1, 100) ? 3 * top<T, M> : top<T, M>); auto m = c.chance(1, 2) ? exact_case<T>(c, n, false) : real_case<T>(c, n); big = std::max(big, n);
        hist += " factorize " + m.show(); c.label(m.kind); c.label(n == 1 ? "order 1" : n < 8 ? "order 2..7" : "order >=8");
        std::optional<F> f; std::string err; M a = build<T, M>(c, m);
        try { f.emplace(std::move(a)); } catch (const std::exception& e) { err = e.what(); }
        PBT_CHECK(f.has_value(), hist, ": a matrix with non-zero pivots was rejected: ", err);
        const M& g = f->mat(); PBT_CHECK(g.shape() == std::make_pair(n, n), hist, ": factors have a wrong shape");
        std::vector<T> lu(n * n); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { lu[i * n + j] = g(i, j); } }
        std::vector<long double> la(n * n, 0); long double u = U<T>;
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) {
            long double q = 0, mm = 0; for (size_t k = 0; k <= std::min(i, j); ++k) { long double l = k == i ? 1.0L : lu[i * n + k]; long double t = l * lu[k * n + j]; q += t; mm += std::fabs(t); }
            la[i * n + j] = mm; T e = m(i, j), x = lu[i * n + j];
            if (e == T(0)) { PBT_CHECK(x == T(0), hist, ": fill-in at (", i, ",", j, "): ", x); if (q != 0) { fill = true; } continue; }
            if (m.exact) { PBT_CHECK(x == m.lu[i * n + j], hist, ": factor entry (", i, ",", j, ") is ", x, ", expected ", m.lu[i * n + j]); }
            else { long double tol = 4 * static_cast<long double>(std::min(i, j) + 3) * u * mm; PBT_CHECK(finite(x) && std::fabs(q - e) <= tol, hist, ": (L*U)(", i, ",", j, ") is ", static_cast<double>(q), ", the matrix has ", e, ", allowed difference ", static_cast<double>(tol)); }
        } }
        obj.push_back({m, *f, lu, la});
    }
    size_t steps = c.below(5);
    for (size_t s = 0; s < steps; ++s) {
        auto& o = obj[c.below(obj.size())]; size_t n = o.m.n; auto b = rhs_values<T>(c, n, 1, 5); const DynVec<T> v(b); hist += " solve"; c.note(cat("b=", show(b)));
        if (!within_range<T>(n, [&](size_t i, size_t j) { return o.lu[i * n + j]; }, [&](size_t i, size_t j) { return o.lu[i * n + j]; }, [&](size_t i) { return b[i]; })) { c.label("solution beyond the range of the type"); continue; }
      for (bool again = false;; again = true) {
        auto x = o.f.solve(v); PBT_CHECK(x.size() == n, hist, ": solution has ", x.size(), " elements"); expect_unchanged(v, b, hist + ": right-hand side");
        std::vector<long double> y(n, 0); long double u = U<T>;
        for (size_t i = 0; i < n; ++i) { PBT_CHECK(finite(x[i]), hist, ": solution element ", i, " is ", x[i]); for (size_t j = i; j < n; ++j) { y[i] += static_cast<long double>(o.lu[i * n + j]) * x[j]; } }
        for (size_t i = 0; i < n; ++i) {
            long double r = b[i] - y[i]; for (size_t j = 0; j < i; ++j) { r -= static_cast<long double>(o.lu[i * n + j]) * y[j]; }
            long double tol = 2 * u * amag(b[i]), tiny = static_cast<long double>(std::numeric_limits<T>::min()); tol += 4 * tiny; for (size_t j = 0; j < n; ++j) { tol += tiny * (amag(o.lu[i * n + j]) + o.la[i * n + j]); tol += 4 * static_cast<long double>(2 * n + 6) * u * o.la[i * n + j] * amag(x[j]); }
            PBT_CHECK(std::fabs(r) <= tol, hist, ": residual ", i, " of L*U*x = b is ", static_cast<double>(r), ", allowed ", static_cast<double>(tol));
        }
        if (again || !c.chance(1, 3)) { break; }
        hist += " again";
      }
        const M& g = o.f.mat(); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { PBT_CHECK(same(T(g(i, j)), o.lu[i * n + j]), hist, ": a solve changed the factors"); } }
    }
    if (fill) { c.label("fill-in was discarded"); }
    c.note(hist); c.nontrivial(big >= 3 && steps > 0);
}
template<typename T, typename M> void rejected(Ctx& c) {
    size_t n = order(c, 1, std::min<size_t>(top<T, M>, 20)); auto m = exact_case<T>(c, n, true); auto a = build<T, M>(c, m);
    auto what = cat(mn<M>(), " ", tname<T>(), " zero pivot ", m.bad, " of ", n, ": ", m.show()); c.note(what); c.label(m.bad == 0 ? "first" : m.bad == n - 1 ? "last" : "middle"); c.label(m.kind); c.nontrivial(n >= 2);
    std::string got = "no exception";
    try { solver::Ilu<T, M> f(std::move(a)); } catch (const std::runtime_error&) { got = ""; } catch (...) { got = "another exception type"; }
    PBT_CHECK(got.empty(), what, ": ", got);
}
template<typename T> void acc_dense(Ctx& c) { accepted<T, DynMat<T>>(c); }
template<typename T> void acc_coo(Ctx& c) { accepted<T, SpCooMat<T>>(c); }
template<typename T> void acc_csr(Ctx& c) { accepted<T, SpMat<T>>(c); }
template<typename T> void rej_dense(Ctx& c) { rejected<T, DynMat<T>>(c); }
template<typename T> void rej_coo(Ctx& c) { rejected<T, SpCooMat<T>>(c); }
template<typename T> void rej_csr(Ctx& c) { rejected<T, SpMat<T>>(c); }
FACET_FD("dense", 700, acc_dense);
FACET_FD("coo", 500, acc_coo);
FACET_FD("csr", 700, acc_csr);
FACET_FD("dense rejection", 400, rej_dense);
FACET_FD("coo rejection", 300, rej_coo);
FACET_FD("csr rejection", 400, rej_csr);
