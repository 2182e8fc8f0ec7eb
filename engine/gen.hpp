// Generators and oracles shared by the property harnesses.
#pragma once
#include "pbt.hpp"
#include <complex>
#include <cmath>
#include <limits>
#include <array>
#include <type_traits>
#ifdef _OPENMP
#include <omp.h>
#endif

namespace gen {
using pbt::Ctx; using pbt::Src; using pbt::Bulk; using pbt::cat;

template<typename T> struct Traits { using R = T; using W = long double; static constexpr bool cx = false; };
template<typename T> struct Traits<std::complex<T>> { using R = T; using W = std::complex<long double>; static constexpr bool cx = true; };
template<typename T> using R = typename Traits<T>::R;
template<typename T> using W = typename Traits<T>::W;
template<typename T> constexpr bool is_cx = Traits<T>::cx;
template<typename T> constexpr long double U = std::numeric_limits<R<T>>::epsilon() / 2.0L;   // unit round-off
template<typename T> W<T> wide(const T& x) {
    if constexpr (is_cx<T>) { return W<T>(x.real(), x.imag()); } else { return static_cast<long double>(x); }
}
inline long double mag(long double x) { return std::fabs(x); }
inline long double mag(const std::complex<long double>& x) { return std::abs(x); }
template<typename T> long double amag(const T& x) { return mag(wide(x)); }
template<typename T> bool finite(const T& x) { if constexpr (is_cx<T>) { return std::isfinite(x.real()) && std::isfinite(x.imag()); } else { return std::isfinite(x); } }
// same value (NaN equals NaN, the sign of zero is ignored)
template<typename T> bool same(const T& a, const T& b) {
    if constexpr (is_cx<T>) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
    else { return a == b || (std::isnan(a) && std::isnan(b)); }
}
template<typename T> const char* tname() {
    if constexpr (std::is_same_v<T, float>) { return "float"; } else if constexpr (std::is_same_v<T, double>) { return "double"; }
    else if constexpr (std::is_same_v<T, int>) { return "int"; } else if constexpr (std::is_same_v<T, long double>) { return "ldouble"; }
    else if constexpr (std::is_same_v<T, std::complex<float>>) { return "cfloat"; } else { return "cdouble"; }
}

// element types other than the four the library names are only given small integers, for which every operation is exact
template<typename T> constexpr bool exact_only = std::is_integral_v<T> || std::is_same_v<T, long double>;

enum class Mode { Int, Real, Wide, Special };
inline const char* mname(Mode m) { return m == Mode::Int ? "int" : m == Mode::Real ? "real" : m == Mode::Wide ? "wide" : "special"; }

// Real number with a full mantissa in (-4, 4); the zero choice is 0.
template<typename F> F real_val(Src& s) {
    auto k = s.draw(1u << 27);
    auto m = static_cast<double>(k >> 1) / static_cast<double>(1u << 26) * 4.0 * 0.98765432101234567;
    return static_cast<F>((k & 1) ? -m : m);
}
template<typename F> F wide_val(Src& s) {
    constexpr int E = std::is_same_v<F, float> ? 28 : 140;
    return std::ldexp(real_val<F>(s), static_cast<int>(s.zig(E)));
}
template<typename F> F special_val(Src& s) {
    constexpr auto inf = std::numeric_limits<F>::infinity();
    switch (s.below(12)) {
        case 0: return 0; case 1: return 1; case 2: return F(-0.0); case 3: return -1; case 4: return inf; case 5: return -inf;
        case 6: return std::numeric_limits<F>::quiet_NaN(); case 7: return std::numeric_limits<F>::max(); case 8: return std::numeric_limits<F>::lowest();
        case 9: return std::numeric_limits<F>::min(); case 10: return std::numeric_limits<F>::denorm_min(); default: return wide_val<F>(s);
    }
}
template<typename F> F scalar_of(Src& s, Mode m, long imax) {
    if constexpr (exact_only<F>) { return static_cast<F>(s.zig(imax)); }
    switch (m) {
        case Mode::Int: return static_cast<F>(s.zig(imax));
        case Mode::Real: return real_val<F>(s);
        case Mode::Wide: return wide_val<F>(s);
        default: return special_val<F>(s);
    }
}
template<typename T> T val(Src& s, Mode m, long imax = 9) {
    if constexpr (is_cx<T>) { auto a = scalar_of<R<T>>(s, m, imax); auto b = scalar_of<R<T>>(s, m, imax); return T(a, b); }
    else { return scalar_of<T>(s, m, imax); }
}
template<typename T> std::vector<T> vec(Ctx& c, size_t n, Mode m, long imax = 9) {
    std::vector<T> v(n);
    if (n <= 64) { for (auto& x : v) { x = val<T>(c, m, imax); } }
    else { auto b = c.bulk(); for (auto& x : v) { x = val<T>(b, m, imax); } }
    return v;
}
// scalars: the values a user passes, each with its own special case in BLAS-like code
template<typename T> T coef(Src& s, Mode m) {
    using F = R<T>;
    if constexpr (exact_only<F>) { m = Mode::Int; }
    F f;
    if (m == Mode::Int) { f = static_cast<F>(s.pick({1, 0, -1, 2, -2, 3, -3, 4, 5, 10})); }
    else if (s.chance(1, 2)) { f = m == Mode::Wide ? std::ldexp(real_val<F>(s), static_cast<int>(s.zig(20))) : real_val<F>(s); }
    else { f = s.pick({F(1), F(0), F(-1), F(2), F(0.5), F(-2), F(3), F(10), F(0.1), F(1e-3), F(-0.5), F(1000)}); }
    if constexpr (is_cx<T>) { return T(f, s.chance(1, 2) ? (m == Mode::Int ? static_cast<F>(s.zig(4)) : real_val<F>(s)) : F(0)); }
    else { return f; }
}
// vector lengths: small ones, both sides of every power of two and of common block sizes, random longer ones
inline size_t length(Src& s, size_t big) {
    switch (s.below(16)) {
        case 8: case 9: case 10: { size_t p = size_t(1) << s.range(3, 12); long d = s.zig(2); size_t r = static_cast<size_t>(static_cast<long>(p) + d); return std::min(r, big); }
        case 11: case 12: return std::min(s.below(301), big);
        case 13: { size_t b = s.pick<size_t>({10, 100, 1000, 10000, 48, 96, 192, 24, 40, 80, 160, 320, 500, 5000}); return std::min(static_cast<size_t>(static_cast<long>(b) + s.zig(1)), big); }
        case 14: return std::min(s.below(3001), big);
        case 15: return s.chance(1, 4) ? s.below(big + 1) : s.below(std::min<size_t>(big, 600) + 1);
        default: return s.below(21);
    }
}
// now and then a length far above the usual ones
inline size_t huge_length(Src& s, unsigned rarity, size_t big) {
    if (!s.chance(1, rarity)) { return length(s, big); }
    size_t b = s.pick<size_t>({100000, 131072, 200000, 262144, 300000, 500000, 524288, 1000000, 1048576});
    return s.chance(1, 2) ? static_cast<size_t>(static_cast<long>(b) + s.zig(3)) : b + s.below(b);
}
inline size_t order(Src& s, size_t lo, size_t hi) {      // matrix orders: small ones dominate
    size_t r;
    switch (s.below(8)) {
        case 4: case 5: r = lo + s.below(std::min<size_t>(hi - lo, 20) + 1); break;
        case 6: { size_t p = s.pick<size_t>({8, 16, 32, 64, 4, 24, 48, 100, 128}); r = static_cast<size_t>(static_cast<long>(p) + s.zig(1)); break; }
        case 7: r = lo + s.below(hi - lo + 1); break;
        default: r = lo + s.below(std::min<size_t>(hi - lo, 7) + 1);
    }
    return std::min(std::max(r, lo), hi);
}

template<typename V> std::string show(const V& v, size_t n, size_t maxn = 12) {
    std::ostringstream o; o.precision(9); o << "[";
    for (size_t i = 0; i < std::min(n, maxn); ++i) { o << (i ? " " : "") << v[i]; }
    if (n > maxn) { o << " ... (" << n << ")"; }
    o << "]"; return o.str();
}
template<typename T> std::string show(const std::vector<T>& v) { return show(v, v.size()); }
template<typename T> std::string showm(const std::vector<T>& v, size_t n, size_t m) { return cat(n, "x", m, show(v, v.size(), 16)); }

// element i of `got` must be the same value as want[i]
template<typename G, typename T> void expect_exact(const G& got, const std::vector<T>& want, const std::string& what) {
    for (size_t i = 0; i < want.size(); ++i) {
        T g = got[i];
        if (!same(g, want[i])) { pbt::fail(cat(what, ": element ", i, " of ", want.size(), " is ", g, ", expected ", want[i])); }
    }
}
template<typename G, typename T> void expect_unchanged(const G& now, const std::vector<T>& before, const std::string& what) { expect_exact(now, before, what + " was changed by the call"); }
// |got - ref| <= tol
template<typename T> void expect_near(const T& got, const W<T>& ref, long double tol, const std::string& what) {
    if (!finite(got) || mag(wide(got) - ref) > tol) {
        std::ostringstream o; o.precision(20);
        o << what << ": got " << got << ", reference " << ref << ", allowed error " << tol;
        pbt::fail(o.str());
    }
}

// --- dispatch over compile-time sizes
template<size_t... Ns> struct Sizes {};
template<size_t N0, size_t... Rest, typename F> void with_n(Sizes<N0, Rest...>, size_t k, F&& f) {
    if (k == 0) { f.template operator()<N0>(); }
    else if constexpr (sizeof...(Rest) > 0) { with_n(Sizes<Rest...>{}, k - 1, std::forward<F>(f)); }
}
template<size_t... Ns, typename F> void any_n(Src& s, Sizes<Ns...> z, F&& f) { with_n(z, s.below(sizeof...(Ns)), std::forward<F>(f)); }

inline int& threads_now() { static int t = 0; return t; }
// thread count of the OpenMP loops, drawn per case (changed rarely, because changing it is expensive)
inline void draw_threads(Ctx& c) {
#ifdef _OPENMP
    static const int counts[] = {4, 1, 2, 3, 8, 5, 7, 6};
    int t = counts[c.chance(1, 4) ? c.below(8) : 0];
    if (c.chance(1, 1000)) { t = c.pick({12, 16, 17, 24, 33, 64}); }      // more threads than cores, and than most objects have elements
    if (t != threads_now()) { omp_set_num_threads(t); threads_now() = t; }
#else
    (void)c;
#endif
}

// an exponent of two for whole objects: large enough to leave the range where squares and cubes are representable, or not at all
template<typename T> int far_exponent(Ctx& c, int dbl, int flt) { if (!c.chance(1, 6)) { return 0; } int e = static_cast<int>(c.zig(std::is_same_v<T, float> ? flt : dbl)); if (e) { c.label(e > 0 ? "large magnitudes" : "small magnitudes"); } return e; }

// calls f with the operands themselves or with temporary copies of them (bit 0: the first, bit 1: the second)
template<typename R, typename A, typename B, typename F> R with_temps(size_t how, A& a, B& b, F f) {
    using TA = std::remove_const_t<A>; using TB = std::remove_const_t<B>;
    switch (how) { case 1: return f(TA(a), b); case 2: return f(a, TB(b)); case 3: return f(TA(a), TB(b)); default: return f(a, b); }
}
template<typename R, typename A, typename F> R with_temp(size_t how, A& a, F f) { if (how & 1) { return f(std::remove_const_t<A>(a)); } return f(a); }
inline size_t draw_temps(Ctx& c) { size_t h = c.chance(1, 2) ? 0 : c.below(4); if (h) { c.label("temporary operand"); } return h; }
#define FWD(x) std::forward<decltype(x)>(x)

#define TYPE_FACET(T, name, weight, fn) PBT_FACET(std::string(name) + "/" + ::gen::tname<T>(), weight, [](::pbt::Ctx& c) { fn<T>(c); })
#define FACET_FD(name, weight, fn) TYPE_FACET(float, name, weight, fn); TYPE_FACET(double, name, weight, fn)
#define FACET_ALL(name, weight, fn) FACET_FD(name, weight, fn); TYPE_FACET(std::complex<float>, name, weight, fn); TYPE_FACET(std::complex<double>, name, weight, fn)
#define FACET_EXACT(name, weight, fn) TYPE_FACET(int, name, weight, fn); TYPE_FACET(long double, name, weight, fn)
}
using namespace gen;
