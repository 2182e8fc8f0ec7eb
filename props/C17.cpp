// C17: modified (square-root free) Cholesky factorization
#include "lalib/mat.hpp"
#include "lalib/vec.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include "../engine/solve.hpp"
using namespace lalib;

template<typename T> struct Sym { size_t n; std::vector<T> a; std::string kind; bool exact = false; T operator()(size_t i, size_t j) const { return a[i * n + j]; } std::string show() const { return cat(kind, " ", showm(a, n, n)); } };
// every leading principal minor is clearly non-zero
template<typename T> Sym<T> regular(Ctx& c, size_t n) {
    Sym<T> s{n, std::vector<T>(n * n, T(0)), ""}; auto b = c.bulk(); bool definite = c.chance(1, 4); auto sgn = [&] { return definite || b.chance(1, 2) ? 1 : -1; };
    switch (c.below(5)) {
        case 0: case 1: { s.kind = "exact factors"; s.exact = true; auto L = unit_lower(b, n, n > 24 ? 8 : 2, 3); std::vector<long> D(n); for (auto& d : D) { d = b.pick({1L, 2L, 4L, 8L}) * sgn(); } s.a = exact_ldl<T>(n, L, D); break; }
        case 2: { s.kind = "random factors"; std::vector<double> L(n * n, 0), D(n); double w = 1.0 / std::sqrt(static_cast<double>(n));
            for (size_t i = 0; i < n; ++i) { D[i] = (0.5 + std::fabs(gen::real_val<double>(b))) * sgn(); L[i * n + i] = 1; for (size_t j = 0; j < i; ++j) { L[i * n + j] = gen::real_val<double>(b) / 4 * w; } }
            for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j <= i; ++j) { double q = 0; for (size_t k = 0; k <= j; ++k) { q += L[i * n + k] * D[k] * L[j * n + k]; } s.a[i * n + j] = s.a[j * n + i] = static_cast<T>(q); } } break; }
        case 3: { s.kind = "diagonally dominant"; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) { s.a[i * n + j] = s.a[j * n + i] = b.chance(1, 3) ? T(0) : gen::real_val<T>(b); } }
            for (size_t i = 0; i < n; ++i) { T q = 0; for (size_t j = 0; j < n; ++j) { q += std::abs(s.a[i * n + j]); } s.a[i * n + i] = (q * T(1.05) + T(0.1)) * static_cast<T>(sgn()); } break; }
        default: { s.kind = "diagonal"; for (size_t i = 0; i < n; ++i) { s.a[i * n + i] = (std::fabs(gen::real_val<T>(b)) + T(0.01)) * static_cast<T>(sgn()); } }
    }
    s.kind += definite ? ", definite" : ", indefinite";
    if (c.chance(1, 3)) {
        constexpr int E = std::is_same_v<T, float> ? 8 : 60; std::vector<int> e(n); int common = static_cast<int>(c.zig(E)); bool graded = c.chance(1, 2);
        for (auto& x : e) { x = graded ? static_cast<int>(b.zig(E)) : common; } s.kind += graded ? ", graded" : ", scaled";
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { s.a[i * n + j] = std::ldexp(s.a[i * n + j], e[i] + e[j]); } }
    }
    else if (int e = far_exponent<T>(c, 400, 40)) { for (auto& x : s.a) { x = std::ldexp(x, e); } }
    return s;
}
template<typename T> std::vector<T> lower_of(const solver::DynModCholeskyFactorization<T>& f, size_t n, const std::string& what) {
    std::vector<T> l(n * n, T(0)); const auto& m = f.factor_mat(); PBT_CHECK(m.shape() == std::make_pair(n, n), what, ": factor has a wrong shape");
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j <= i; ++j) { l[i * n + j] = m(i, j); } } return l;
}
template<typename T> void accepted(Ctx& c) {
    using F = solver::DynModCholeskyFactorization<T>;
    struct Obj { Sym<T> s; F f; std::vector<T> l; std::vector<long double> la; };
    std::vector<Obj> obj; std::string hist = cat(tname<T>(), ":"); size_t nobj = 1 + c.chance(1, 3), big = 0; bool neg = false;
    for (size_t o = 0; o < nobj; ++o) {
        size_t n = order(c, 1, c.chance(1, 12) ? (c.chance(1, 20) ? 280 : 120) : 26); big = std::max(big, n); auto s = regular<T>(c, n); hist += " factorize " + s.show(); c.label(s.kind); c.label(n == 1 ? "order 1" : n < 8 ? "order 2..7" : "order >=8");
        std::optional<F> f; std::string err;
        try { f.emplace(DynMat<T>(n, n, s.a)); } catch (const std::exception& e) { err = e.what(); }
        PBT_CHECK(f.has_value(), hist, ": a matrix with non-zero leading minors was rejected: ", err);
        auto l = lower_of<T>(*f, n, hist); std::vector<long double> la(n * n, 0); long double u = U<T>;
        for (size_t k = 0; k < n; ++k) { PBT_CHECK(finite(l[k * n + k]) && l[k * n + k] != T(0), hist, ": pivot ", k, " of the factor is ", l[k * n + k]); neg = neg || l[k * n + k] < 0; }
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) {
            long double q = 0, m = 0; for (size_t k = 0; k <= std::min(i, j); ++k) { long double t = static_cast<long double>(l[i * n + k]) * l[j * n + k] / l[k * n + k]; q += t; m += std::fabs(t); }
            la[i * n + j] = m;
            long double tol = s.exact ? 0 : 4 * static_cast<long double>(n + 4) * u * m;
            PBT_CHECK(std::fabs(q - s(i, j)) <= tol, hist, ": (F*D^-1*F^T)(", i, ",", j, ") is ", static_cast<double>(q), ", the matrix has ", s(i, j), ", allowed difference ", static_cast<double>(tol));
        } }
        obj.push_back({s, *f, l, la});
    }
    size_t steps = c.below(6);
    for (size_t q = 0; q < steps; ++q) {
        auto& o = obj[c.below(obj.size())]; size_t n = o.s.n;
        one_solve<T>(c, o.f, n, hist, [&](const std::vector<T>& b, size_t k, const T* x, const std::string& what) {
            c.note(cat("rhs=", showm(b, n, k))); long double u = U<T>;
            for (size_t col = 0; col < k; ++col) {
              if (!within_range<T>(n, [&](size_t i, size_t j) { return o.l[i * n + j] / static_cast<long double>(o.l[j * n + j]); }, [&](size_t i, size_t j) { return o.l[j * n + i]; }, [&](size_t i) { return b[i * k + col]; })) { c.label("solution beyond the range of the type"); continue; }
              for (size_t i = 0; i < n; ++i) {
                PBT_CHECK(finite(x[i * k + col]), what, ": solution element ", i, " of column ", col, " is ", x[i * k + col]);
                long double r = b[i * k + col], m = amag(b[i * k + col]) * u * 2, tiny = static_cast<long double>(std::numeric_limits<T>::min()); m += 4 * tiny;
                for (size_t j = 0; j < n; ++j) { m += tiny * (amag(o.l[i * n + j]) + std::fabs(static_cast<long double>(o.l[i * n + j]) / o.l[j * n + j]) + o.la[i * n + j]); r -= static_cast<long double>(o.s(i, j)) * x[j * k + col]; m += 4 * static_cast<long double>(3 * n + 10) * u * o.la[i * n + j] * amag(x[j * k + col]); }
                PBT_CHECK(std::fabs(r) <= m, what, ": residual of equation ", i, " in column ", col, " is ", static_cast<double>(r), ", allowed ", static_cast<double>(m));
            } } });
        expect_exact(lower_of<T>(o.f, n, hist), o.l, hist + ": factor after a solve");
    }
    c.note(hist); c.nontrivial(big >= 2 && steps > 0 && neg);
}
template<typename T> void rejected(Ctx& c) {
    size_t n = order(c, 1, c.chance(1, 12) ? 100 : 20), p = c.chance(1, 3) ? 0 : c.chance(1, 3) ? n - 1 : c.below(n); auto b = c.bulk();
    auto L = unit_lower(b, n, n > 24 ? 8 : 2, 3); std::vector<long> D(n); for (auto& d : D) { d = b.pick({1L, 2L, 4L, 8L}) * (b.chance(1, 2) ? 1 : -1); } D[p] = 0;
    for (size_t i = p + 1; i < n; ++i) { if (b.chance(1, 8)) { D[i] = 0; } }
    auto a = exact_ldl<T>(n, L, D); if (c.chance(1, 2)) { int e = static_cast<int>(c.zig(20)) + far_exponent<T>(c, 380, 20); for (auto& x : a) { x = std::ldexp(x, e); } }
    // the entries below a zero pivot may be anything
    if (c.chance(1, 2)) { for (size_t i = p + 1; i < n; ++i) { T x = static_cast<T>(b.zig(5)); a[i * n + p] += x; a[p * n + i] += x; } }
    auto what = cat(tname<T>(), " zero pivot ", p, " of ", n, ": ", showm(a, n, n)); c.note(what); c.label(p == 0 ? "first" : p == n - 1 ? "last" : "middle"); c.nontrivial(n >= 2);
    std::string got = "no exception";
    try { solver::DynModCholeskyFactorization<T> f(DynMat<T>(n, n, a)); } catch (const std::runtime_error&) { got = ""; } catch (...) { got = "another exception type"; }
    PBT_CHECK(got.empty(), what, ": ", got);
}
FACET_FD("solve", 1300, accepted);
FACET_FD("rejection", 900, rejected);
