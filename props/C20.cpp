// C20: Gram-Schmidt orthogonalization
#include "lalib/vec.hpp"
#include "lalib/ops/orthogonal.hpp"
#include "../engine/gen.hpp"
#include <deque>
using namespace lalib;
using LD = long double;

template<typename T> struct Set { size_t n, m; std::vector<std::vector<T>> v; std::vector<std::vector<T>> exact; std::string kind; LD kappa = 1; std::vector<std::vector<LD>> ref; };
inline LD ldot(const std::vector<LD>& a, const std::vector<LD>& b) { LD s = 0; for (size_t i = 0; i < a.size(); ++i) { s += a[i] * b[i]; } return s; }
// reference: two passes of modified Gram-Schmidt in extended precision; kappa bounds the condition of the normalised vectors
template<typename T> void reference(Set<T>& s) {
    std::vector<std::vector<LD>> r(s.m, std::vector<LD>(s.m, 0));
    for (size_t j = 0; j < s.m; ++j) {
        std::vector<LD> w(s.v[j].begin(), s.v[j].end()); LD nv = std::sqrt(ldot(w, w));
        for (int pass = 0; pass < 2; ++pass) { for (size_t k = 0; k < j; ++k) { LD q = ldot(s.ref[k], s.ref[k]); LD c = ldot(s.ref[k], w) / q; for (size_t i = 0; i < s.n; ++i) { w[i] -= c * s.ref[k][i]; } r[k][j] += c * std::sqrt(q) / nv; } }
        r[j][j] = std::sqrt(ldot(w, w)) / nv; s.ref.push_back(w);
    }
    LD a = 0, b = 0; for (size_t j = 0; j < s.m; ++j) {
        std::vector<LD> x(s.m, 0); x[j] = 1; for (size_t i = j + 1; i-- > 0;) { for (size_t k = i + 1; k <= j; ++k) { x[i] -= r[i][k] * x[k]; } x[i] /= r[i][i]; }
        for (size_t i = 0; i <= j; ++i) { a += r[i][j] * r[i][j]; b += x[i] * x[i]; }
    }
    s.kappa = std::sqrt(a * b);
}
template<typename T> Set<T> draw_set(Ctx& c, size_t n, size_t m) {
    Set<T> s{n, m, std::vector<std::vector<T>>(m, std::vector<T>(n, T(0))), {}, "", 1, {}}; auto b = c.bulk();
    switch (c.below(5)) {
        case 0: case 1: {      // integer combinations of orthogonal vectors with power-of-two norms: every step is exact
            s.kind = "exact"; size_t h = 1; while (2 * h <= n && h < 8) { h *= 2; } bool had = c.chance(1, 2) && n >= 2; std::vector<size_t> perm(n); for (size_t i = 0; i < n; ++i) { perm[i] = i; } for (size_t i = n; i > 1; --i) { std::swap(perm[i - 1], perm[b.below(i)]); }
            s.exact.assign(m, std::vector<T>(n, T(0)));
            for (size_t j = 0; j < m; ++j) {
                T f = static_cast<T>(b.pick({1, 2, -1, -2, 4}));
                if (had && j < (n / h) * h) { size_t base = (j / h) * h, row = j % h; for (size_t k = 0; k < h; ++k) { s.exact[j][perm[base + k]] = (__builtin_popcountll(row & k) & 1) ? -f : f; } }
                else { s.exact[j][perm[j]] = f; }
            }
            unsigned den = static_cast<unsigned>(1 + c.below(3)); bool orth = c.chance(1, 5); if (orth) { s.kind = "exact, already orthogonal"; }
            for (size_t j = 0; j < m; ++j) { s.v[j] = s.exact[j]; for (size_t k = 0; k < j && !orth; ++k) { if (b.chance(1, den)) { T q = static_cast<T>(b.zig(3)); for (size_t i = 0; i < n; ++i) { s.v[j][i] += q * s.exact[k][i]; } } } }
            break; }
        case 2: { s.kind = "random"; for (auto& v : s.v) { for (auto& x : v) { x = gen::real_val<T>(b); } } break; }
        case 3: { s.kind = "nearly orthogonal"; T e = c.pick({T(0.1), T(0.01), T(0.3)}); for (size_t j = 0; j < m; ++j) { for (auto& x : s.v[j]) { x = gen::real_val<T>(b) * e / static_cast<T>(std::sqrt(static_cast<double>(n))); } s.v[j][j] += T(1); } break; }
        default: { s.kind = "triangular"; for (size_t j = 0; j < m; ++j) { for (size_t i = 0; i < j; ++i) { s.v[j][i] = static_cast<T>(b.zig(1)) / T(2); } s.v[j][j] = static_cast<T>(1 + b.below(3)); } }
    }
    if (c.chance(1, 3)) { s.kind += ", scaled"; constexpr int E = std::is_same_v<T, float> ? 12 : 100; for (size_t j = 0; j < m; ++j) { int e = static_cast<int>(b.zig(E)); for (auto& x : s.v[j]) { x = std::ldexp(x, e); } if (!s.exact.empty()) { for (auto& x : s.exact[j]) { x = std::ldexp(x, e); } } } }
    return s;
}
template<typename T, typename C> void judge(Ctx& c, Set<T>& s, C& vecs, const std::string& what0) {
    auto what = cat(what0, " ", tname<T>(), " ", s.m, " vectors of length ", s.n, " (", s.kind, ")"); bool shown = false;
    if (c.want_notes) { std::string all; for (auto& v : s.v) { all += show(v) + " "; } c.note(what + ": " + all); shown = true; } (void)shown;
    c.label(what0); c.label(s.kind); c.label(s.m == 1 ? "1 vector" : s.m == 2 ? "2 vectors" : s.m < 6 ? "3..5 vectors" : ">=6 vectors"); c.label(s.m == s.n ? "full basis" : "fewer than the dimension");
    reference(s); if (s.exact.empty() && s.kappa > (std::is_same_v<T, float> ? 40.0L : 2000.0L)) { c.label("skipped: conditioning"); return; }
    c.nontrivial(s.m >= 3 && s.kind.find("already") == std::string::npos);
    orth::cgs(vecs);
    LD u = U<T>, f = 8 * static_cast<LD>(s.n + s.m + 8) * u * s.kappa * s.kappa;
    PBT_CHECK(vecs.size() == s.m, what, ": the number of vectors changed");
    std::vector<std::vector<LD>> q(s.m, std::vector<LD>(s.n)); std::vector<LD> nq(s.m);
    for (size_t j = 0; j < s.m; ++j) {
        PBT_CHECK(vecs[j].size() == s.n, what, ": vector ", j, " has length ", vecs[j].size());
        LD nv = 0; for (auto x : s.v[j]) { nv += static_cast<LD>(x) * x; } nv = std::sqrt(nv);
        for (size_t i = 0; i < s.n; ++i) {
            T g = vecs[j][i]; PBT_CHECK(finite(g), what, ": element ", i, " of vector ", j, " is ", g); q[j][i] = g;
            if (j == 0) { PBT_CHECK(same(g, s.v[0][i]), what, ": the first vector was changed"); }
            if (!s.exact.empty()) { PBT_CHECK(g == s.exact[j][i], what, ": element ", i, " of vector ", j, " is ", g, ", expected ", s.exact[j][i]); }
            else { PBT_CHECK(std::fabs(g - s.ref[j][i]) <= f * nv, what, ": element ", i, " of vector ", j, " is ", g, ", expected ", static_cast<double>(s.ref[j][i]), " within ", static_cast<double>(f * nv)); }
        }
        nq[j] = std::sqrt(ldot(q[j], q[j]));
        for (size_t k = 0; k < j; ++k) { LD d = std::fabs(ldot(q[k], q[j])); PBT_CHECK(d <= f * s.kappa * nq[k] * nq[j], what, ": vectors ", k, " and ", j, " are not orthogonal: inner product ", static_cast<double>(d), ", norms ", static_cast<double>(nq[k]), " ", static_cast<double>(nq[j])); }
    }
}
template<typename T> void dyn(Ctx& c) {
    draw_threads(c); size_t n = c.chance(1, 10) ? 1 + length(c, 1200) : 1 + c.below(16), m = c.chance(1, 4) ? std::min<size_t>(n, 24) : 1 + c.below(std::min<size_t>(n, 24));
    if (c.chance(1, 150)) { m = 24 + c.below(50); n = m + c.below(200); c.label("many vectors"); }
    else if (c.chance(1, 300)) { m = 128 + c.below(40); n = m + c.below(160); c.label("many vectors"); }
    else if (c.chance(1, 150)) { n = c.pick<size_t>({4096, 20000, 70000}) + c.below(5); m = 2 + c.below(3); c.label("long vectors"); }
    auto s = draw_set<T>(c, n, m);
    switch (c.below(3)) {
        case 0: { std::vector<DynVec<T>> v; for (auto& x : s.v) { v.emplace_back(x); } judge(c, s, v, "vector of DynVec"); break; }
        case 1: { std::deque<DynVec<T>> v; for (auto& x : s.v) { v.emplace_back(x); } judge(c, s, v, "deque of DynVec"); break; }
        default: if (m >= 4) { s.m = 4; s.v.resize(4); if (!s.exact.empty()) { s.exact.resize(4); } std::array<DynVec<T>, 4> v{DynVec<T>(s.v[0]), DynVec<T>(s.v[1]), DynVec<T>(s.v[2]), DynVec<T>(s.v[3])}; judge(c, s, v, "array of DynVec"); }
            else { s.m = 1; s.v.resize(1); if (!s.exact.empty()) { s.exact.resize(1); } std::array<DynVec<T>, 1> v{DynVec<T>(s.v[0])}; judge(c, s, v, "array of DynVec"); }
    }
}
template<typename T, size_t N> void sized_n(Ctx& c) {
    size_t m = c.chance(1, 3) ? N : 1 + c.below(N); auto s = draw_set<T>(c, N, m);
    if (c.chance(1, 4)) { std::deque<SizedVec<T, N>> v; for (auto& x : s.v) { v.emplace_back(x); } judge(c, s, v, "deque of SizedVec"); }
    else if (c.chance(1, 3) && m == N) { auto mk = [&]<size_t... I>(std::index_sequence<I...>) { return std::array<SizedVec<T, N>, N>{SizedVec<T, N>(s.v[I])...}; }; auto v = mk(std::make_index_sequence<N>{}); judge(c, s, v, "array of SizedVec"); }
    else { std::vector<SizedVec<T, N>> v; for (auto& x : s.v) { v.emplace_back(x); } judge(c, s, v, "vector of SizedVec"); }
}
template<typename T> void sized(Ctx& c) { draw_threads(c); any_n(c, Sizes<3, 1, 2, 4, 5, 8, 17>{}, [&]<size_t N>() { sized_n<T, N>(c); }); }
FACET_FD("dyn", 1200, dyn);
FACET_FD("sized", 900, sized);
