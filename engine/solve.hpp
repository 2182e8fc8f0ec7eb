// Helpers shared by the solver harnesses.
#pragma once
#include "gen.hpp"
#include <optional>
// Vector / multi-column right-hand sides of a square system, as plain row-major data
template<typename T> struct Rhs { size_t n, k; bool vec; std::vector<T> b; };
template<typename T> std::vector<T> widened_solve_rhs(const std::vector<T>& a, size_t n, const std::vector<T>& x, size_t k) {
    std::vector<T> b(n * k); for (size_t c = 0; c < k; ++c) { for (size_t i = 0; i < n; ++i) { long double s = 0; for (size_t j = 0; j < n; ++j) { s += static_cast<long double>(a[i * n + j]) * x[j * k + c]; } b[i * k + c] = static_cast<T>(s); } } return b;
}
template<typename T> std::vector<T> rhs_values(pbt::Ctx& c, size_t n, size_t k, int exp_spread) {
    std::vector<T> b(n * k);
    switch (c.below(5)) {
        case 0: { auto u = c.bulk(); for (auto& x : b) { x = static_cast<T>(u.zig(9)); } break; }
        case 1: for (size_t q = 0; q < k; ++q) { if (n) { b[c.below(n) * k + q] = T(1); } } break;             // unit vectors
        case 2: { auto u = c.bulk(); for (auto& x : b) { x = std::ldexp(gen::real_val<T>(u), static_cast<int>(u.zig(exp_spread))); } break; }
        case 3: if (c.chance(1, 3)) { break; } [[fallthrough]];                                                 // zero right-hand side
        default: { auto u = c.bulk(); for (auto& x : b) { x = gen::real_val<T>(u); } }
    }
    return b;
}
// Solves through every calling form of a factorization: new result or in place, vector or multi-column, fixed-size or dynamic.
// `check(b, k, x, what)` judges a solution.  Factorizations return the result by value or overwrite their argument.
template<typename T, size_t N, typename F, typename Check> void sized_forms(pbt::Ctx& c, const F& f, const std::string& what, Check&& check) {
    constexpr size_t K = 3; bool mut = c.chance(1, 2);
    if (c.chance(1, 2)) {
        auto b = rhs_values<T>(c, N, 1, 5); lalib::SizedVec<T, N> v(b); auto w = what + (mut ? " fixed-size vector in place" : " fixed-size vector");
        if (mut) { auto& r = f.solve_linear_mut(v); PBT_CHECK(&r == &v, w, ": does not return its argument"); check(b, size_t(1), v.data(), w); }
        else { auto r = f.solve_linear(v); check(b, size_t(1), r.data(), w); gen::expect_unchanged(v, b, w + ": right-hand side"); }
    } else {
        auto b = rhs_values<T>(c, N, K, 5); lalib::SizedMat<T, N, K> v(b); auto w = what + (mut ? " fixed-size matrix in place" : " fixed-size matrix");
        if (mut) { auto& r = f.solve_linear_mut(v); PBT_CHECK(&r == &v, w, ": does not return its argument"); check(b, K, v.data(), w); }
        else { auto r = f.solve_linear(v); check(b, K, r.data(), w); gen::expect_unchanged(v.data(), b, w + ": right-hand side"); }
    }
}
template<typename T, typename F, typename Check> void one_solve(pbt::Ctx& c, const F& f, size_t n, const std::string& what, Check&& check) {
    switch (c.below(6)) {
        case 0: case 1: { auto b = rhs_values<T>(c, n, 1, 5); const lalib::DynVec<T> v(b); auto r = f.solve_linear(v); PBT_CHECK(r.size() == n, what, ": solution has ", r.size(), " elements"); check(b, size_t(1), r.data(), what + " solve"); gen::expect_unchanged(v, b, what + ": right-hand side"); break; }
        case 2: { auto b = rhs_values<T>(c, n, 1, 5); lalib::DynVec<T> v(b); auto& r = f.solve_linear_mut(v); PBT_CHECK(&r == &v && v.size() == n, what, ": does not return its argument"); check(b, size_t(1), v.data(), what + " solve in place"); c.label("in place"); break; }
        case 3: case 4: { size_t k = 1 + c.below(5); if (c.chance(1, 6)) { k = 1 + c.below(c.chance(1, 8) && n <= 40 ? 300 : 40); } auto b = rhs_values<T>(c, n, k, 5); lalib::DynMat<T> v(n, k, b); c.label(k > 1 ? "multi-column" : "one column");
            if (c.chance(1, 2)) { const auto& cv = v; auto r = f.solve_linear(cv); PBT_CHECK(r.shape() == std::make_pair(n, k), what, ": solution has a wrong shape"); check(b, k, r.data(), pbt::cat(what, " solve ", n, "x", k)); gen::expect_unchanged(v.data(), b, what + ": right-hand side"); }
            else { auto& r = f.solve_linear_mut(v); PBT_CHECK(&r == &v && v.shape() == std::make_pair(n, k), what, ": does not return its argument"); check(b, k, v.data(), pbt::cat(what, " solve in place ", n, "x", k)); }
            break; }
        default: switch (n) { case 1: sized_forms<T, 1>(c, f, what, check); break; case 2: sized_forms<T, 2>(c, f, what, check); break; case 3: sized_forms<T, 3>(c, f, what, check); break; case 4: sized_forms<T, 4>(c, f, what, check); break; case 6: sized_forms<T, 6>(c, f, what, check); break; default: break; }
    }
}
// L * diag(D) * L^T from integers: exact in T
template<typename T> std::vector<T> exact_ldl(size_t n, const std::vector<long>& L, const std::vector<long>& D) {
    std::vector<T> a(n * n);
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { long s = 0; for (size_t k = 0; k <= std::min(i, j); ++k) { s += L[i * n + k] * D[k] * L[j * n + k]; } a[i * n + j] = static_cast<T>(s); } }
    return a;
}
inline std::vector<long> unit_lower(gen::Bulk& b, size_t n, unsigned den, long mx) {
    std::vector<long> L(n * n, 0); for (size_t i = 0; i < n; ++i) { L[i * n + i] = 1; for (size_t j = 0; j < i; ++j) { if (b.chance(1, den)) { L[i * n + j] = b.zig(mx); } } } return L;
}
// whether the solution by the factors (unit lower: l(i,j), upper: u(i,j)) of a system stays within the range of T, whatever the order of operations
template<typename T, typename L, typename Up, typename B> bool within_range(size_t n, L&& l, Up&& u, B&& b) {
    std::vector<long double> y(n); long double top = static_cast<long double>(std::numeric_limits<T>::max()) / 1048576, big = 0;
    for (size_t i = 0; i < n; ++i) { y[i] = gen::amag(b(i)); for (size_t j = 0; j < i; ++j) { if (y[j] != 0) { long double p = gen::amag(l(i, j)) * y[j]; big = std::max(big, p); y[i] += p; } } big = std::max(big, y[i]); }
    for (size_t i = n; i-- > 0;) { for (size_t j = i + 1; j < n; ++j) { if (y[j] != 0) { long double p = gen::amag(u(i, j)) * y[j]; big = std::max(big, p); y[i] += p; } } y[i] /= gen::amag(u(i, i)); big = std::max(big, y[i]); }
    return big <= top;
}
