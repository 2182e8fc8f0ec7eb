// C15: the tri-diagonal solver
#include "lalib/mat.hpp"
#include "lalib/vec.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "../engine/solve.hpp"
using namespace lalib;

template<typename T> struct Band {
    size_t n; std::vector<T> l, d, u; bool both; std::string kind;
    std::string show() const { return cat(kind, " n=", n, " l=", gen::show(l), " d=", gen::show(d), " u=", gen::show(u)); }
};
template<typename T> Band<T> make(Ctx& c, size_t n) {
    Band<T> a{n, std::vector<T>(n - 1), std::vector<T>(n), std::vector<T>(n - 1), true, ""};
    auto b = c.bulk(); auto frac = [&] { return static_cast<T>((static_cast<double>(b.draw(1u << 20)) + 1) / (1u << 20)); };      // (0, 1]
    auto sgn = [&] { return b.chance(1, 2) ? T(-1) : T(1); };
    constexpr int E = std::is_same_v<T, float> ? 10 : 60;
    switch (c.below(6)) {
        case 0: { a.kind = "integers"; for (size_t i = 0; i + 1 < n; ++i) { a.l[i] = static_cast<T>(b.zig(3)); a.u[i] = static_cast<T>(b.zig(3)); }
            for (size_t i = 0; i < n; ++i) { T s1 = (i ? std::abs(a.l[i - 1]) : T(0)) + (i + 1 < n ? std::abs(a.u[i]) : T(0)), s2 = (i ? std::abs(a.u[i - 1]) : T(0)) + (i + 1 < n ? std::abs(a.l[i]) : T(0)); a.d[i] = (std::max(s1, s2) + T(1) + static_cast<T>(b.below(3))) * sgn(); } break; }
        case 1: { a.kind = "graded"; for (size_t i = 0; i < n; ++i) { a.d[i] = std::ldexp((T(1) + frac()) * sgn(), static_cast<int>(b.zig(E))); }
            for (size_t i = 0; i + 1 < n; ++i) { T m = std::min(std::abs(a.d[i]), std::abs(a.d[i + 1])) * T(0.45); a.l[i] = m * frac() * sgn(); a.u[i] = m * frac() * sgn(); } break; }
        case 2: { a.kind = "scaled rows"; a.both = false;
            for (size_t i = 0; i < n; ++i) { T s = std::ldexp(T(1), static_cast<int>(b.zig(E / 2))), q = 0; if (i) { a.l[i - 1] = s * frac() * sgn(); q += std::abs(a.l[i - 1]); } if (i + 1 < n) { a.u[i] = s * frac() * sgn(); q += std::abs(a.u[i]); }
                a.d[i] = (q * (T(1) + T(0.01) + frac()) + s * T(0.01)) * sgn(); } break; }
        case 3: { a.kind = "barely dominant"; a.both = false;
            for (size_t i = 0; i < n; ++i) { T q = 0; if (i) { a.l[i - 1] = frac() * sgn(); q += std::abs(a.l[i - 1]); } if (i + 1 < n) { a.u[i] = frac() * sgn(); q += std::abs(a.u[i]); }
                a.d[i] = (q + (q + T(1)) * (b.chance(1, 2) ? T(4) * std::numeric_limits<T>::epsilon() : T(1e-3))) * sgn(); } break; }
        case 4: { a.kind = "decoupled blocks"; for (size_t i = 0; i < n; ++i) { a.d[i] = (T(2.5) + frac()) * sgn(); } for (size_t i = 0; i + 1 < n; ++i) { a.l[i] = b.chance(1, 2) ? T(0) : sgn(); a.u[i] = b.chance(1, 2) ? T(0) : sgn(); } break; }
        default: { a.kind = "laplacian"; T s = c.pick({T(1), T(1000), T(1e-3)}), q = c.pick({T(2.5), T(2.001), T(3), T(10)}); for (size_t i = 0; i < n; ++i) { a.d[i] = q * s; } for (size_t i = 0; i + 1 < n; ++i) { a.l[i] = a.u[i] = -s; } }
    }
    if (int e = far_exponent<T>(c, 700, 70)) { for (auto* v : {&a.l, &a.d, &a.u}) { for (auto& x : *v) { x = std::ldexp(x, e); } } a.kind += ", far scaled"; }
    return a;
}
template<typename T, typename G> void check_x(const Band<T>& a, const std::vector<T>& b, size_t k, const G& x, const std::string& what) {
    size_t n = a.n; long double u = U<T>;
    for (size_t q = 0; q < k; ++q) {
        long double an = 0, xn = 0;
        for (size_t i = 0; i < n; ++i) { an = std::max(an, amag(a.d[i]) + (i ? amag(a.l[i - 1]) : 0) + (i + 1 < n ? amag(a.u[i]) : 0)); xn = std::max(xn, amag(T(x[i * k + q]))); }
        for (size_t i = 0; i < n; ++i) {
            long double r = b[i * k + q], s = 0; auto add = [&](T e, T y) { long double p = static_cast<long double>(e) * y; r -= p; s += std::fabs(p); };
            PBT_CHECK(finite(T(x[i * k + q])), what, ": solution element ", i, " of column ", q, " is ", x[i * k + q]);
            if (i) { add(a.l[i - 1], x[(i - 1) * k + q]); } add(a.d[i], x[i * k + q]); if (i + 1 < n) { add(a.u[i], x[(i + 1) * k + q]); }
            long double tol = 40 * u * (s + amag(b[i * k + q]));
            #if defined(LALIB_LAPACK_BACKEND)
            if (!a.both) { tol = 80 * u * an * xn; }         // row interchanges: a normwise bound
            #endif
            tol += 4 * std::numeric_limits<T>::min() * (1 + std::max<long double>(an, 0));
            PBT_CHECK(std::fabs(r) <= tol, what, ": residual of equation ", i, " in column ", q, " of ", k, " is ", static_cast<double>(r), ", allowed ", static_cast<double>(tol), " (solution element ", x[i * k + q], ")");
        }
    }
}
// One or several solvers, several solves each.
template<typename T, typename M, typename MakeM> void history(Ctx& c, const std::function<size_t()>& size, MakeM&& mk, const std::string& kind, const std::function<void(Ctx&, size_t, solver::TriDiag<M>&, const Band<T>&, const std::string&)>& sized_solve) {
    struct Obj { solver::TriDiag<M> s; Band<T> a; M src; std::vector<T> l, d, u; };
    std::vector<Obj> obj; std::string hist = cat(kind, " ", tname<T>(), ":");
    size_t nobj = 1 + c.below(2), solves = 0;
    auto add = [&] {
        size_t n = size(); auto a = make<T>(c, n); M m = mk(a); hist += " new " + a.show();
        c.label(a.kind); c.label(n == 1 ? "order 1" : n == 2 ? "order 2" : n < 10 ? "order 3..9" : n < 100 ? "order 10..99" : "order >=100");
        if (c.chance(1, 2)) { M t = m; obj.push_back({solver::TriDiag<M>(std::move(t)), a, m, a.l, a.d, a.u}); hist += "(moved in)"; }
        else {
            solver::TriDiag<M> s(m); hist += "(copied in)";
            auto l = a.l, d = a.d, u = a.u;
            if (c.chance(1, 2)) { hist += " source overwritten"; c.label("source overwritten"); for (size_t i = 0; i < n; ++i) { m.data_d()[i] = d[i] = T(0); } for (size_t i = 0; i + 1 < n; ++i) { m.data_dl()[i] = l[i] = T(7); m.data_du()[i] = u[i] = T(-7); } }
            obj.push_back({s, a, m, l, d, u});
        }
    };
    for (size_t i = 0; i < nobj; ++i) { add(); }
    size_t steps = 1 + c.below(6); bool multi = false;
    for (size_t s = 0; s < steps; ++s) {
        auto& o = obj[c.below(obj.size())]; size_t n = o.a.n; const auto& a = o.a;
        switch (c.below(7)) {
            case 0: case 1: case 2: {
                auto b = rhs_values<T>(c, n, 1, 5); hist += " solve"; c.note(cat("b=", show(b))); const DynVec<T> vb(b); DynVec<T> x(vec<T>(c, n, Mode::Real));
                auto& r = o.s.solve_linear(vb, x); PBT_CHECK(&r == &x && x.size() == n, hist, ": wrong result object or size");
                check_x(a, b, 1, x, hist); expect_unchanged(vb, b, hist + ": right-hand side"); ++solves; break; }
            case 3: { auto b = rhs_values<T>(c, n, 1, 5); hist += " solve(in place)"; c.note(cat("b=", show(b))); DynVec<T> x(b); o.s.solve_linear(x, x); check_x(a, b, 1, x, hist); ++solves; c.label("in place"); break; }
            case 4: { size_t k = 1 + c.below(5); if (c.chance(1, 6)) { k = 1 + c.below(c.chance(1, 8) && n <= 40 ? 300 : 40); } auto b = rhs_values<T>(c, n, k, 5); bool al = c.chance(1, 3); hist += cat(" solve(", n, "x", k, al ? " in place)" : ")"); c.note(cat("B=", showm(b, n, k)));
                DynMat<T> mb(n, k, b); multi = multi || k > 1; c.label(k > 1 ? "multi-column" : "one column");
                if (al) { auto& r = o.s.solve_linear(mb, mb); PBT_CHECK(&r == &mb, hist, ": wrong result object"); check_x(a, b, k, mb.data(), hist); }
                else { DynMat<T> x(n, k, vec<T>(c, n * k, Mode::Real)); auto& r = o.s.solve_linear(mb, x); PBT_CHECK(&r == &x, hist, ": wrong result object"); check_x(a, b, k, x.data(), hist); for (size_t i = 0; i < n * k; ++i) { PBT_CHECK(same(mb.data()[i], b[i]), hist, ": right-hand side was changed"); } }
                ++solves; break; }
            case 5: { if (obj.size() < 3) { hist += " copied solver"; auto t = o; obj.push_back(t); } break; }
            default: sized_solve(c, n, o.s, a, hist + " fixed-size solve"); ++solves;
        }
        for (auto& q : obj) { for (size_t i = 0; i < q.a.n; ++i) {
            PBT_CHECK(same(q.src.data_d()[i], q.d[i]), hist, ": source matrix was changed");
            if (i + 1 < q.a.n) { PBT_CHECK(same(q.src.data_dl()[i], q.l[i]) && same(q.src.data_du()[i], q.u[i]), hist, ": source matrix was changed"); } } }
    }
    c.note(hist); c.nontrivial(solves >= 2 && obj[0].a.n >= 2);
}
template<typename T, typename M, size_t N> void sized_solve_n(Ctx& c, solver::TriDiag<M>& s, const Band<T>& a, const std::string& what) {
    constexpr size_t K = 3;
    if (c.chance(1, 2)) { auto b = rhs_values<T>(c, N, 1, 5); SizedVec<T, N> vb(b), x(std::vector<T>(N, T(-3))); auto& r = s.solve_linear(vb, x); PBT_CHECK(&r == &x, what, ": wrong result object"); check_x(a, b, 1, x, what); expect_unchanged(vb, b, what + ": right-hand side"); }
    else { auto b = rhs_values<T>(c, N, K, 5); SizedMat<T, N, K> mb(b), x(std::vector<T>(N * K, T(-3))); bool al = c.chance(1, 3);
        if (al) { s.solve_linear(mb, mb); check_x(a, b, K, mb.data(), what + " in place"); } else { s.solve_linear(mb, x); check_x(a, b, K, x.data(), what); for (size_t i = 0; i < N * K; ++i) { PBT_CHECK(same(mb.data()[i], b[i]), what, ": right-hand side was changed"); } } }
}
template<typename T> void dyn(Ctx& c) {
    using M = DynTriDiagMat<T>;
    history<T, M>(c, [&] { return c.chance(1, 150) ? 1 + length(c, 20000) : order(c, 1, c.chance(1, 10) ? 600 : 40); }, [](const Band<T>& a) { return M(a.l, a.d, a.u); }, "Dyn", [](Ctx& c, size_t n, solver::TriDiag<M>& s, const Band<T>& a, const std::string& w) {
        switch (n) { case 1: sized_solve_n<T, M, 1>(c, s, a, w); break; case 2: sized_solve_n<T, M, 2>(c, s, a, w); break; case 3: sized_solve_n<T, M, 3>(c, s, a, w); break; case 5: sized_solve_n<T, M, 5>(c, s, a, w); break; default: break; } });
}
template<typename T, size_t N> void sized_n(Ctx& c) {
    using M = SizedTriDiagMat<T, N>;
    history<T, M>(c, [] { return N; }, [](const Band<T>& a) { std::array<T, N - 1> l, u; std::array<T, N> d; std::copy(a.l.begin(), a.l.end(), l.begin()); std::copy(a.d.begin(), a.d.end(), d.begin()); std::copy(a.u.begin(), a.u.end(), u.begin()); return M(l, d, u); },
        cat("Sized<", N, ">"), [](Ctx& c, size_t, solver::TriDiag<M>& s, const Band<T>& a, const std::string& w) { sized_solve_n<T, M, N>(c, s, a, w); });
}
template<typename T> void sized(Ctx& c) { if (c.chance(1, 60)) { sized_n<T, 300>(c); return; } any_n(c, Sizes<3, 1, 2, 4, 7, 16, 33>{}, [&]<size_t N>() { sized_n<T, N>(c); }); }
FACET_FD("dyn", 1500, dyn);
FACET_FD("sized", 900, sized);
