// C07: dense matrix-vector products
#include "lalib/mat.hpp"
#include "lalib/vec.hpp"
#include "../engine/gen.hpp"
using namespace lalib;

template<typename T> struct Case {
    size_t n, m, how = 0; bool op, alias; Mode mode; T alpha, beta; long ea = -1, eb = -1; std::vector<T> a, x, y;     // alpha/beta is element ea/eb of y
    std::string what;
    std::vector<W<T>> ref; std::vector<long double> bound;
    void generate(Ctx& c, size_t rows, size_t cols, const std::string& kind, bool can_alias) {
        n = rows; m = cols;
        op = c.chance(1, 3); alias = !op && can_alias && n == m && c.chance(1, 3);
        mode = c.pick({Mode::Int, Mode::Real, Mode::Real, Mode::Wide}); if (std::is_same_v<T, float> && mode == Mode::Wide) { mode = Mode::Real; }
        if (is_cx<T> && mode == Mode::Wide) { mode = Mode::Real; }
        alpha = op ? T(1) : coef<T>(c, mode); beta = op ? T(0) : coef<T>(c, mode);
        long imax = m <= 150 ? 9 : 5;
        a = vec<T>(c, n * m, mode, imax); x = vec<T>(c, m, mode, imax); y = alias ? x : vec<T>(c, n, mode, imax);
        if (c.chance(1, 3) && n * m > 1) { // exact zeros inside
            auto b = c.bulk(); for (auto& e : a) { if (b.chance(1, 3)) { e = T(0); } }
        }
        if (!op && n > 0 && c.chance(1, 8)) { // the scalars are elements of the result vector
            auto i = c.below(n), j = c.below(n); bool both = c.chance(1, 3), first = c.chance(1, 2);
            if (both || first) { ea = static_cast<long>(i); alpha = y[i]; } if (both || !first) { eb = static_cast<long>(j); beta = y[j]; } c.label("scalar is an element of the result");
        }
        how = op ? draw_temps(c) : 0;
        what = cat(op ? "operator* " : "mul ", kind, how ? cat(" temporary operands ", how) : std::string(), alias ? " x is y" : "", " [", tname<T>(), " ", n, "x", m, "] alpha=", alpha, " beta=", beta, ea >= 0 ? cat(" (alpha is y[", ea, "])") : std::string(), eb >= 0 ? cat(" (beta is y[", eb, "])") : std::string());
        c.label(cat(op ? "operator* " : "mul ", kind)); c.label(n == m ? "square" : n > m ? "tall" : "wide"); c.label(alias ? "aliased" : "not aliased"); c.label(n * m < 64 ? "<64 elements" : n * m < 2500 ? "<2500 elements" : "large");
        c.note(cat(what, " A=", showm(a, n, m), " x=", show(x), " y=", show(y)));
        c.nontrivial(alpha != T(0) && n * m > 1 && (n != m || alias || beta != T(0)));
        ref.assign(n, 0); bound.assign(n, 0);
        for (size_t i = 0; i < n; ++i) {
            W<T> s = 0; long double b = 0;
            for (size_t k = 0; k < m; ++k) { auto p = wide(a[i * m + k]) * wide(x[k]); s += p; b += mag(p); }
            auto by = op ? W<T>(0) : wide(beta) * wide(y[i]);
            ref[i] = wide(alpha) * s + by; bound[i] = amag(alpha) * b + mag(by);
        }
    }
    void done(const T* g, size_t size) const {
        PBT_CHECK(size == n, what, ": result has ", size, " elements");
        long double f = (static_cast<long double>(m) + 6) * (is_cx<T> ? 3 : 1) * U<T> * 1.02L;
        for (size_t i = 0; i < n; ++i) {
            auto tol = mode == Mode::Int ? 0.0L : f * bound[i];
            if (!finite(g[i]) || mag(wide(g[i]) - ref[i]) > tol) { expect_near<T>(g[i], ref[i], tol, cat(what, " element ", i)); }
        }
    }
    void keep_a(const T* g) const { for (size_t k = 0; k < n * m; ++k) { if (!same(g[k], a[k])) { pbt::fail(cat(what, ": matrix element ", k, " was changed")); } } }
    void keep_x(const T* g) const { for (size_t k = 0; k < m; ++k) { if (!same(g[k], x[k])) { pbt::fail(cat(what, ": element ", k, " of the input vector was changed")); } } }
};
template<typename T, typename MA, typename VX, typename VY> void run(Case<T>& k, MA A, VX x, VY y) {
    if (k.op) { auto r = with_temps<VY>(k.how, A, x, [](auto&& p, auto&& q) { return FWD(p) * FWD(q); }); k.done(r.data(), r.size()); k.keep_a(A.data()); k.keep_x(x.data()); return; }
    if constexpr (std::is_same_v<VX, VY>) {
        if (k.alias) { auto& r = mul(k.ea < 0 ? k.alpha : x[static_cast<size_t>(k.ea)], A, x, k.eb < 0 ? k.beta : x[static_cast<size_t>(k.eb)], x); PBT_CHECK(&r == &x, k.what, ": does not return the result object"); k.done(x.data(), x.size()); k.keep_a(A.data()); return; }
    }
    const T& alpha = k.ea < 0 ? k.alpha : y[static_cast<size_t>(k.ea)]; const T& beta = k.eb < 0 ? k.beta : y[static_cast<size_t>(k.eb)];
    auto& r = mul(alpha, A, x, beta, y);
    PBT_CHECK(&r == &y, k.what, ": does not return the result object"); k.done(y.data(), y.size()); k.keep_a(A.data()); k.keep_x(x.data());
}
template<typename T> void dyn(Ctx& c) {
    draw_threads(c);
    size_t n, m;
    switch (c.below(6)) {
        case 0: n = order(c, 1, 300); m = order(c, 1, 300); if (n * m > 40000) { m = 1 + m % 100; } break;
        case 1: n = c.chance(1, 3) ? 1 + c.below(4) : 1; m = std::max<size_t>(1, length(c, c.chance(1, 150) ? 70000 : 3000)); break;
        case 2: m = c.chance(1, 3) ? 1 + c.below(4) : 1; n = std::max<size_t>(1, length(c, c.chance(1, 150) ? 70000 : 3000)); break;
        case 3: n = m = order(c, 1, 150); if (c.chance(1, 25)) { n = m = 150 + c.below(500); } break;
        default: n = order(c, 1, 40); m = order(c, 1, 40);
    }
    Case<T> k; k.generate(c, n, m, "(Dyn,Dyn,Dyn)", true);
    run(k, DynMat<T>(n, m, k.a), DynVec<T>(k.x), DynVec<T>(k.y));
}
template<typename T, size_t N, size_t M> void sized_nm(Ctx& c, size_t form, size_t n2) {
    Case<T> k;
    if (form == 0) { k.generate(c, N, M, "(Sized,Sized,Sized)", N == M); run(k, SizedMat<T, N, M>(k.a), SizedVec<T, M>(k.x), SizedVec<T, N>(k.y)); }
    else if (form == 1) { k.generate(c, N, M, "(Sized,Dyn,Sized)", false); run(k, SizedMat<T, N, M>(k.a), DynVec<T>(k.x), SizedVec<T, N>(k.y)); }
    else { k.generate(c, n2, M, "(Dyn,Sized,Dyn)", false); run(k, DynMat<T>(n2, M, k.a), SizedVec<T, M>(k.x), DynVec<T>(k.y)); }
}
template<typename T> void sized(Ctx& c) {
    draw_threads(c);
    auto f = c.below(3); size_t n2 = f == 2 ? order(c, 1, 30) : 0;
    if (c.chance(1, 60)) { if (c.chance(1, 2)) { sized_nm<T, 2, 300>(c, f, n2); } else { sized_nm<T, 300, 2>(c, f, n2); } return; }
    switch (c.below(9)) {
        case 0: sized_nm<T, 2, 3>(c, f, n2); break; case 1: sized_nm<T, 1, 1>(c, f, n2); break; case 2: sized_nm<T, 3, 3>(c, f, n2); break; case 3: sized_nm<T, 5, 2>(c, f, n2); break;
        case 4: sized_nm<T, 4, 4>(c, f, n2); break; case 5: sized_nm<T, 1, 7>(c, f, n2); break; case 6: sized_nm<T, 9, 1>(c, f, n2); break; case 7: sized_nm<T, 16, 17>(c, f, n2); break; default: sized_nm<T, 33, 33>(c, f, n2);
    }
}
FACET_ALL("dyn", 1300, dyn);
FACET_ALL("sized", 900, sized);
FACET_EXACT("dyn", 250, dyn);
TYPE_FACET(int, "sized", 200, sized);
