// C16: Cholesky factorization and its solves
#include "lalib/mat.hpp"
#include "lalib/vec.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include "../engine/solve.hpp"
using namespace lalib;

template<typename T> struct Sym { size_t n; std::vector<T> a; std::string kind; T operator()(size_t i, size_t j) const { return a[i * n + j]; } std::string show() const { return cat(kind, " ", showm(a, n, n)); } };
template<typename T> Sym<T> positive(Ctx& c, size_t n) {
    Sym<T> s{n, std::vector<T>(n * n, T(0)), ""}; auto b = c.bulk();
    auto mirror = [&] { for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) { s.a[j * n + i] = s.a[i * n + j]; } } };
    switch (c.below(6)) {
        case 0: { s.kind = "exact factors"; auto L = unit_lower(b, n, n > 24 ? 8 : 2, 2); std::vector<long> D(n); for (auto& d : D) { d = b.pick({1L, 4L, 16L}); } s.a = exact_ldl<T>(n, L, D); break; }
        case 1: { s.kind = "random"; size_t m = n + b.below(n + 2); std::vector<double> g(n * m); for (auto& x : g) { x = gen::real_val<double>(b) / 4; }
            for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j <= i; ++j) { double q = 0; for (size_t k = 0; k < m; ++k) { q += g[i * m + k] * g[j * m + k]; } s.a[i * n + j] = static_cast<T>(q + (i == j ? 0.02 * static_cast<double>(n) : 0.0)); } } mirror(); break; }
        case 2: { s.kind = "diagonally dominant"; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) { s.a[i * n + j] = gen::real_val<T>(b); } } mirror();
            for (size_t i = 0; i < n; ++i) { T q = 0; for (size_t j = 0; j < n; ++j) { q += std::abs(s.a[i * n + j]); } s.a[i * n + i] = q * T(1.05) + T(0.1); } break; }
        case 3: { s.kind = "laplacian"; for (size_t i = 0; i < n; ++i) { s.a[i * n + i] = T(2); if (i) { s.a[i * n + i - 1] = T(-1); } } mirror(); break; }
        case 4: { s.kind = "banded, some zero"; for (size_t i = 0; i < n; ++i) { s.a[i * n + i] = T(7) + static_cast<T>(b.below(5)); for (size_t j = i > 3 ? i - 3 : 0; j < i; ++j) { s.a[i * n + j] = b.chance(1, 2) ? T(0) : static_cast<T>(b.zig(1)); } } mirror(); break; }
        default: { s.kind = "diagonal"; for (size_t i = 0; i < n; ++i) { s.a[i * n + i] = std::fabs(gen::real_val<T>(b)) + T(0.01); } }
    }
    if (c.chance(1, 3)) {        // symmetric scaling by powers of two keeps everything exact
        constexpr int E = std::is_same_v<T, float> ? 8 : 60; std::vector<int> e(n); int common = static_cast<int>(c.zig(E)); bool graded = c.chance(1, 2);
        for (auto& x : e) { x = graded ? static_cast<int>(b.zig(E)) : common; } s.kind += graded ? ", graded" : ", scaled";
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { s.a[i * n + j] = std::ldexp(s.a[i * n + j], e[i] + e[j]); } }
    }
    else if (int e = far_exponent<T>(c, 350, 30) * 2) { for (auto& x : s.a) { x = std::ldexp(x, e); } }
    return s;
}
// a symmetric matrix one of whose pivots is not positive
template<typename T> Sym<T> indefinite(Ctx& c, size_t n, size_t& p) {
    p = c.chance(1, 3) ? 0 : c.chance(1, 3) ? n - 1 : c.below(n); auto b = c.bulk();
    switch (n == 1 ? c.below(2) : c.below(4)) {
        case 0: case 1: {
            Sym<T> s{n, {}, "exact factors, non-positive pivot"}; auto L = unit_lower(b, n, n > 24 ? 8 : 2, 2); std::vector<long> D(n); for (auto& d : D) { d = b.pick({1L, 4L, 16L}); }
            D[p] = c.pick({0L, -1L, -4L}); s.kind += D[p] ? " (negative)" : " (zero)"; s.a = exact_ldl<T>(n, L, D);
            if (c.chance(1, 2)) { int e = static_cast<int>(c.zig(10)) * 2 + far_exponent<T>(c, 340, 20) * 2; for (auto& x : s.a) { x = std::ldexp(x, e); } }
            return s; }
        case 2: { auto s = positive<T>(c, n); s.a[p * n + p] = c.pick({T(0), T(-1), T(-1e-6), T(-100)}); s.kind += " with a non-positive diagonal entry"; return s; }
        default: { auto s = positive<T>(c, n); size_t q = p == n - 1 ? 0 : p + 1 + c.below(n - 1 - p); T v = T(2) * std::sqrt(s(p, p)) * std::sqrt(s(q, q)) * (c.chance(1, 2) ? T(1) : T(-1)); s.a[p * n + q] = s.a[q * n + p] = v; s.kind += " with a dominating off-diagonal entry"; return s; }
    }
}
template<typename T, bool PACKED> auto factorize(const Sym<T>& s) {
    if constexpr (PACKED) { std::vector<T> t; for (size_t i = 0; i < s.n; ++i) { for (size_t j = 0; j <= i; ++j) { t.push_back(s(i, j)); } } return solver::DynTriCholeskyFactorization<T>(DynHermiteMat<T>(s.n, std::move(t))); }
    else { return solver::DynCholeskyFactorization<T>(DynMat<T>(s.n, s.n, s.a)); }
}
template<typename T, bool PACKED> std::vector<T> factor_of(const auto& f, size_t n, const std::string& what) {
    std::vector<T> l(n * n, T(0));
    if constexpr (PACKED) { const auto& m = f.lower_mat(); PBT_CHECK(m.shape() == std::make_pair(n, n), what, ": factor has a wrong shape"); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { l[i * n + j] = m(i, j); if (j > i) { PBT_CHECK(l[i * n + j] == T(0), what, ": factor is not lower triangular"); } } } }
    else { const auto& m = f.factor_mat(); PBT_CHECK(m.shape() == std::make_pair(n, n), what, ": factor has a wrong shape"); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j <= i; ++j) { l[i * n + j] = m(i, j); } } }
    return l;
}
template<typename T, bool PACKED> void accepted(Ctx& c) {
    using F = decltype(factorize<T, PACKED>(std::declval<Sym<T>>()));
    struct Obj { Sym<T> s; F f; std::vector<T> l; std::vector<long double> la; };
    std::vector<Obj> obj; std::string hist = cat(PACKED ? "packed " : "square ", tname<T>(), ":");
    size_t nobj = 1 + c.chance(1, 3), big = 0;
    for (size_t o = 0; o < nobj; ++o) {
        size_t n = order(c, 1, c.chance(1, 12) ? (c.chance(1, 20) ? 280 : 150) : 30); big = std::max(big, n); auto s = positive<T>(c, n); hist += " factorize " + s.show();
        c.label(s.kind); c.label(n == 1 ? "order 1" : n < 8 ? "order 2..7" : n < 32 ? "order 8..31" : "order >=32");
        std::optional<F> f; std::string err;
        try { f.emplace(factorize<T, PACKED>(s)); } catch (const std::exception& e) { err = e.what(); }
        PBT_CHECK(f.has_value(), hist, ": a positive definite matrix was rejected: ", err);
        auto l = factor_of<T, PACKED>(*f, n, hist); std::vector<long double> la(n * n, 0); long double u = U<T>;
        for (size_t i = 0; i < n; ++i) { PBT_CHECK(l[i * n + i] > T(0) && finite(l[i * n + i]), hist, ": diagonal entry ", i, " of the factor is ", l[i * n + i]);
            for (size_t j = 0; j < n; ++j) {
                long double q = 0, m = 0; for (size_t k = 0; k <= std::min(i, j); ++k) { long double t = static_cast<long double>(l[i * n + k]) * l[j * n + k]; q += t; m += std::fabs(t); }
                la[i * n + j] = m;
                PBT_CHECK(std::fabs(q - s(i, j)) <= 4 * static_cast<long double>(n + 2) * u * m, hist, ": (L*L^T)(", i, ",", j, ") is ", static_cast<double>(q), ", the matrix has ", s(i, j));
            } }
        obj.push_back({s, *f, l, la});
    }
    size_t steps = c.below(6);
    for (size_t q = 0; q < steps; ++q) {
        auto& o = obj[c.below(obj.size())]; size_t n = o.s.n; std::string shown;
        one_solve<T>(c, o.f, n, hist, [&](const std::vector<T>& b, size_t k, const T* x, const std::string& what) {
            c.note(cat("rhs=", showm(b, n, k))); long double u = U<T>;
            for (size_t col = 0; col < k; ++col) {
              if (!within_range<T>(n, [&](size_t i, size_t j) { return o.l[i * n + j] / static_cast<long double>(o.l[j * n + j]); }, [&](size_t i, size_t j) { return static_cast<long double>(o.l[i * n + i]) * o.l[j * n + i]; }, [&](size_t i) { return b[i * k + col]; })) { c.label("solution beyond the range of the type"); continue; }
              for (size_t i = 0; i < n; ++i) {
                PBT_CHECK(finite(x[i * k + col]), what, ": solution element ", i, " of column ", col, " is ", x[i * k + col]);
                long double r = b[i * k + col], m = amag(b[i * k + col]) * u * 2, tiny = static_cast<long double>(std::numeric_limits<T>::min()); m += 4 * tiny;
                for (size_t j = 0; j < n; ++j) { m += tiny * (amag(o.l[i * n + j]) + o.la[i * n + j]); r -= static_cast<long double>(o.s(i, j)) * x[j * k + col]; m += 4 * static_cast<long double>(3 * n + 8) * u * o.la[i * n + j] * amag(x[j * k + col]); }
                PBT_CHECK(std::fabs(r) <= m, what, ": residual of equation ", i, " in column ", col, " is ", static_cast<double>(r), ", allowed ", static_cast<double>(m));
            } } });
        expect_exact(factor_of<T, PACKED>(o.f, n, hist), o.l, hist + ": factor after a solve");
    }
    c.note(hist); c.nontrivial(big >= 2 && steps > 0);
}
template<typename T, bool PACKED> void rejected(Ctx& c) {
    size_t n = order(c, 1, c.chance(1, 12) ? 120 : 24), p; auto s = indefinite<T>(c, n, p);
    auto what = cat(PACKED ? "packed " : "square ", tname<T>(), " pivot ", p, " of ", n, ": ", s.show()); c.note(what); c.label(s.kind.find("exact") == 0 ? s.kind : s.kind.substr(s.kind.find("with"))); c.label(p == 0 ? "first" : p == n - 1 ? "last" : "middle"); c.nontrivial(n >= 2);
    std::string got = "no exception";
    try { auto f = factorize<T, PACKED>(s); } catch (const std::runtime_error&) { got = ""; } catch (...) { got = "another exception type"; }
    PBT_CHECK(got.empty(), what, ": ", got, " for a matrix that is not positive definite");
}
template<typename T> void acc_packed(Ctx& c) { accepted<T, true>(c); }
template<typename T> void acc_square(Ctx& c) { accepted<T, false>(c); }
template<typename T> void rej_packed(Ctx& c) { rejected<T, true>(c); }
template<typename T> void rej_square(Ctx& c) { rejected<T, false>(c); }
FACET_FD("packed", 700, acc_packed);
FACET_FD("square", 700, acc_square);
FACET_FD("packed rejection", 500, rej_packed);
FACET_FD("square rejection", 500, rej_square);
