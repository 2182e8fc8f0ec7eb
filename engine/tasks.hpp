// Operations on own objects or shared constant ones, as closures: used by the harnesses that run them in several threads (C22) and under
// memory accounting (C24).
#pragma once
#include <stdexcept>
#include "lalib/mat.hpp"
#include "lalib/vec.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
#include "lalib/ops/mat_ops.hpp"
#include "lalib/ops/orthogonal.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"
#include "sparse.hpp"
#include <memory>
using namespace lalib;

// A task owns its inputs (or shares constant ones) and returns what the library computed.
template<typename T> struct Task { std::string name; bool exact; std::function<std::vector<T>()> run; };
template<typename T, typename V> void put(std::vector<T>& o, const V& v) { for (size_t i = 0; i < v.size(); ++i) { o.push_back(v[i]); } }
template<typename T, typename M> void putm(std::vector<T>& o, const M& m) { auto [r, c] = m.shape(); for (size_t i = 0; i < r * c; ++i) { o.push_back(m.data()[i]); } }

template<typename T> struct World {
    Ctx& c; std::string hist; size_t work = 0;
    size_t dim() { return c.chance(1, 10) ? 1 + c.below(90) : 1 + c.below(14); }
    std::vector<T> ints(size_t n) { auto b = c.bulk(); std::vector<T> v(n); for (auto& x : v) { x = static_cast<T>(b.zig(5)); } return v; }
    std::vector<T> reals(size_t n) { auto b = c.bulk(); std::vector<T> v(n); for (auto& x : v) { x = gen::real_val<T>(b); } return v; }
    // symmetric and diagonally dominant; `definite` false: any signs on the diagonal
    std::vector<T> dominant(size_t n, bool symmetric, bool definite, unsigned den = 1) {
        auto b = c.bulk(); std::vector<T> a(n * n, T(0));
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { if (i != j && (!symmetric || j < i)) { T x = b.chance(1, den) ? gen::real_val<T>(b) : T(0); a[i * n + j] = x; if (symmetric) { a[j * n + i] = x; } } } }
        for (size_t i = 0; i < n; ++i) { T q = 1; for (size_t j = 0; j < n; ++j) { q += std::abs(a[i * n + j]); } a[i * n + i] = (q * T(1.5)) * (!definite && b.chance(1, 2) ? T(-1) : T(1)); }
        return a;
    }
    Pattern<T> pattern(const std::vector<T>& a, size_t n) { Pattern<T> p; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { if (a[i * n + j] != T(0)) { p.set(i, j, a[i * n + j]); } } } return p; }
    SpCooMat<T> coo(const Pattern<T>& p) { auto [v, r, k] = p.shuffled(c); return SpCooMat<T>(v, r, k); }
    template<typename F> static auto solves(const F& f, size_t n, const std::vector<T>& b, const std::vector<T>& bm, size_t k) {
        std::vector<T> o; DynVec<T> v(b); const DynMat<T> m(n, k, bm); put(o, f.solve_linear(v)); putm(o, f.solve_linear(m)); f.solve_linear_mut(v); put(o, v); DynMat<T> q(m); f.solve_linear_mut(q); putm(o, q); return o;
    }

    // `copies` tasks that share constant objects where the kind has any
    void draw(std::vector<Task<T>>& out, size_t copies) {
        using Run = std::function<std::vector<T>()>; size_t n = dim(), m = dim(), k = 1 + c.below(4);
        std::vector<std::pair<bool, Run>> made; std::string name;
        auto kind = c.below(18);
        auto each = [&](const char* nm, bool exact, auto&& f) { name = nm; for (size_t q = 0; q < copies; ++q) { made.push_back({exact, f(q)}); } };
        switch (kind) {
            case 0: { if (c.chance(1, 6)) { n = 1 + length(c, 6000); } auto a = std::make_shared<const DynVec<T>>(ints(n)), b = std::make_shared<const DynVec<T>>(ints(n)); work += n / 50;
                each("vector arithmetic", true, [&](size_t q) -> Run { T s = static_cast<T>(2 + static_cast<long>(q)); return [=] { std::vector<T> o; auto x = *a + *b; put(o, x); x = *a - x; put(o, x); x = s * x; put(o, -x); axpy(s, *b, x); put(o, x); sub(x, *a, x); put(o, x); x = x / T(2); put(o, x); o.push_back(dot(*a, *b)); o.push_back(a->norm2()); o.push_back(a->dot(*a)); return o; }; }); break; }
            case 1: { auto a = std::make_shared<const SizedVec<T, 7>>(ints(7)), b = std::make_shared<const SizedVec<T, 7>>(ints(7)); auto d = std::make_shared<const DynVec<T>>(ints(7));
                each("fixed-size vector arithmetic", true, [&](size_t q) -> Run { T s = static_cast<T>(1 + static_cast<long>(q)); return [=] { std::vector<T> o; auto x = *a + *b; put(o, x); x = *a - x; x = s * x; put(o, -x); axpy(s, *b, x); put(o, x); o.push_back(dot(*a, *b)); o.push_back(a->norm2()); o.push_back(x.dot(*d)); return o; }; }); break; }
            case 2: { auto A = std::make_shared<const DynMat<T>>(n, m, ints(n * m)); auto x = std::make_shared<const DynVec<T>>(ints(m)); auto y0 = ints(n); work += n * m / 100;
                each("matrix-vector product", true, [&](size_t q) -> Run { T s = static_cast<T>(1 + static_cast<long>(q)); return [=] { std::vector<T> o; DynVec<T> y(y0); mul(s, *A, *x, T(-1), y); put(o, y); put(o, *A * *x); return o; }; }); break; }
            case 3: { auto A = std::make_shared<const DynMat<T>>(n, n, ints(n * n)); auto x0 = ints(n); work += n * n / 100;
                each("matrix-vector product in place", true, [&](size_t q) -> Run { T s = static_cast<T>(1 + static_cast<long>(q)); return [=] { std::vector<T> o; DynVec<T> y(x0); mul(s, *A, y, T(2), y); put(o, y); return o; }; }); break; }
            case 4: { n = std::min<size_t>(n, 30); m = std::min<size_t>(m, 30); size_t l = 1 + c.below(12); auto A = std::make_shared<const DynMat<T>>(n, l, ints(n * l)), B = std::make_shared<const DynMat<T>>(l, m, ints(l * m)); auto c0 = ints(n * m); work += n * m * l / 100;
                each("matrix product", true, [&](size_t q) -> Run { T s = static_cast<T>(1 + static_cast<long>(q)); return [=] { std::vector<T> o; DynMat<T> y(n, m, c0); mul(s, *A, *B, T(-1), y); putm(o, y); putm(o, *A * *B); return o; }; }); break; }
            case 5: { n = std::min<size_t>(n, 24); auto B = std::make_shared<const DynMat<T>>(n, n, ints(n * n)); auto c0 = ints(n * n); work += n * n * n / 50;
                each("matrix product in place", true, [&](size_t q) -> Run { T s = static_cast<T>(1 + static_cast<long>(q)); return [=] { std::vector<T> o; DynMat<T> y(n, n, c0), z(y); mul(s, y, *B, T(-1), y); putm(o, y); mul(s, *B, z, T(1), z); putm(o, z); return o; }; }); break; }
            case 6: { auto A = std::make_shared<const SizedMat<T, 3, 4>>(ints(12)); auto B = std::make_shared<const SizedMat<T, 4, 3>>(ints(12)); auto x = std::make_shared<const SizedVec<T, 4>>(ints(4)); auto Q = std::make_shared<const SizedMat<T, 4, 4>>(ints(16));
                each("fixed-size products", true, [&](size_t q) -> Run { T s = static_cast<T>(1 + static_cast<long>(q)); return [=] { std::vector<T> o; auto y = *A * *B; putm(o, y); auto z(*Q); mul(s, z, *Q, T(1), z); putm(o, z); put(o, *A * *x); auto w(*x); mul(s, *Q, w, T(-1), w); put(o, w); return o; }; }); break; }
            case 7: { auto A = std::make_shared<const DynMat<T>>(n, m, ints(n * m)), B = std::make_shared<const DynMat<T>>(n, m, ints(n * m)); work += n * m / 50;
                each("matrix arithmetic", true, [&](size_t q) -> Run { T s = static_cast<T>(1 + static_cast<long>(q)); return [=] { std::vector<T> o; auto y = *A + *B; putm(o, y); y = s * y; sub(y, *A, y); putm(o, y); putm(o, -y); scale(s, y); putm(o, y); return o; }; }); break; }
            case 8: { std::vector<T> e; for (size_t i = 0; i < copies; ++i) { auto z = ints(4); z[0] = static_cast<T>(1 + static_cast<long>(i)); z[3] = T(1); z[1] = T(0); e.insert(e.end(), z.begin(), z.end()); } auto u = std::make_shared<const DynVec<T>>(ints(3)), v = std::make_shared<const DynVec<T>>(ints(3));
                each("inverse and cross product", false, [&](size_t q) -> Run { std::vector<T> g(e.begin() + static_cast<long>(4 * q), e.begin() + static_cast<long>(4 * q + 4)); return [=] { std::vector<T> o; SizedMat<T, 2, 2> a(g); putm(o, inverted(a)); invert(a); putm(o, a); DynVec<T> w(*u); cross(w, *v, w); put(o, w); cross_acc(*u, *v, w); put(o, w); return o; }; }); break; }
            case 9: { auto p = draw_pattern<T>(c, 0, Mode::Int, true), r = draw_pattern<T>(c, 0, Mode::Int, true); auto a = std::make_shared<const SpCooMat<T>>(coo(p)), b = std::make_shared<const SpCooMat<T>>(coo(r)); auto s = std::make_shared<const SpMat<T>>(coo(p)); work += 5;
                each("sparse arithmetic and access", true, [&](size_t q) -> Run { T f = static_cast<T>(1 + static_cast<long>(q)); return [=] { std::vector<T> o; auto sizes = [&](const auto& g) { auto [rows, cols] = g.shape(); o.push_back(static_cast<T>(rows % 4096)); o.push_back(static_cast<T>(cols % 4096)); o.push_back(static_cast<T>(g.nnz())); }; sizes(*a); sizes(*s); if (q % 2) { sizes(*b); } for (auto v : a->values()) { o.push_back(v); } for (auto v : b->row_indices()) { o.push_back(static_cast<T>(v % 4096)); } { SpMat<T> own(*b); SpCooMat<T> copy(*a); sizes(own); sizes(copy); } auto x = *a + *b; x += *a; auto y = *b - x; y = f * y; SpMat<T> z(y); auto [rows, cols] = y.shape(); for (size_t i = 0; i < std::min<size_t>(rows + 1, 12); ++i) { for (size_t j = 0; j < std::min<size_t>(cols + 1, 12); ++j) { o.push_back(x(i, j)); o.push_back(z(i, j)); o.push_back((*a)(i, j)); o.push_back((*s)(i, j)); } } o.push_back(static_cast<T>(y.nnz())); return o; }; }); break; }
            case 10: { auto p = draw_pattern<T>(c, 0, Mode::Int, true); auto s = std::make_shared<const SpMat<T>>(coo(p)); auto [rows, cols] = coo(p).shape(); auto x = std::make_shared<const DynVec<T>>(ints(cols)); auto y0 = ints(rows);
                each("sparse matrix-vector product", true, [&](size_t q) -> Run { T f = static_cast<T>(1 + static_cast<long>(q)); return [=] { std::vector<T> o; DynVec<T> y(y0); mul(f, *s, *x, T(2), y); put(o, y); put(o, *s * *x); return o; }; }); break; }
            case 11: { auto b0 = c.bulk(); std::vector<T> l(n - 1), d(n), u(n - 1); for (auto& x : l) { x = gen::real_val<T>(b0); } for (auto& x : u) { x = gen::real_val<T>(b0); } for (auto& x : d) { x = T(10) + gen::real_val<T>(b0); }
                auto src = std::make_shared<const DynTriDiagMat<T>>(l, d, u); auto rhs = std::make_shared<const DynVec<T>>(reals(n)); auto rm = std::make_shared<const DynMat<T>>(n, k, reals(n * k)); work += n * k / 10;
                each("tri-diagonal solve", false, [&](size_t q) -> Run { T f = static_cast<T>(1 + static_cast<long>(q)); return [=] { std::vector<T> o; auto cp = *src; solver::TriDiag<DynTriDiagMat<T>> t(std::move(cp)); auto b = f * *rhs; auto x = b; t.solve_linear(b, x); put(o, x); t.solve_linear(x, x); put(o, x); auto y = *rm; t.solve_linear(*rm, y); putm(o, y); return o; }; }); break; }
            case 12: case 13: case 14: {
                n = std::min<size_t>(n, 40); auto a = dominant(n, true, kind != 14); auto b = reals(n * copies), bm = reals(n * k); work += n * n * n / 100; bool own = c.chance(1, 2);
                auto part = [&](size_t q) { return std::vector<T>(b.begin() + static_cast<long>(q * n), b.begin() + static_cast<long>((q + 1) * n)); };
                std::vector<T> tri; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j <= i; ++j) { tri.push_back(a[i * n + j]); } }
                using P = solver::DynTriCholeskyFactorization<T>; using S = solver::DynCholeskyFactorization<T>; using D = solver::DynModCholeskyFactorization<T>;
                if (kind == 12) { auto f = std::make_shared<const P>(DynHermiteMat<T>(n, std::vector<T>(tri))); each(own ? "packed Cholesky" : "shared packed Cholesky", false, [&](size_t q) -> Run { auto r = part(q); if (own) { return [=] { const P g(DynHermiteMat<T>(n, std::vector<T>(tri))); return solves(g, n, r, bm, k); }; } return [=] { return solves(*f, n, r, bm, k); }; }); }
                else if (kind == 13) { auto f = std::make_shared<const S>(DynMat<T>(n, n, a)); each(own ? "Cholesky" : "shared Cholesky", false, [&](size_t q) -> Run { auto r = part(q); if (own) { return [=] { const S g(DynMat<T>(n, n, a)); return solves(g, n, r, bm, k); }; } return [=] { return solves(*f, n, r, bm, k); }; }); }
                else { auto f = std::make_shared<const D>(DynMat<T>(n, n, a)); each(own ? "modified Cholesky" : "shared modified Cholesky", false, [&](size_t q) -> Run { auto r = part(q); if (own) { return [=] { const D g(DynMat<T>(n, n, a)); return solves(g, n, r, bm, k); }; } return [=] { return solves(*f, n, r, bm, k); }; }); }
                break; }
            case 15: {
                n = std::min<size_t>(n, 24); auto a = dominant(n, false, false, 2); auto b = reals(n * copies); work += n * n * n / 20; bool own = c.chance(1, 2), sparse = c.chance(1, 2);
                auto part = [&](size_t q) { return std::vector<T>(b.begin() + static_cast<long>(q * n), b.begin() + static_cast<long>((q + 1) * n)); };
                auto dm = std::make_shared<const DynMat<T>>(n, n, a); auto sm = std::make_shared<const SpMat<T>>(coo(pattern(a, n)));
                using ID = solver::Ilu<T, DynMat<T>>; using IS = solver::Ilu<T, SpMat<T>>; auto fd = std::make_shared<const ID>(DynMat<T>(*dm)); auto fs = std::make_shared<const IS>(SpMat<T>(*sm));
                each(own ? "ILU" : "shared ILU", false, [&](size_t q) -> Run { DynVec<T> r(part(q)); if (own && sparse) { return [=] { std::vector<T> o; const IS g{SpMat<T>(*sm)}; put(o, g.solve(r)); return o; }; } if (own) { return [=] { std::vector<T> o; const ID g{DynMat<T>(*dm)}; put(o, g.solve(r)); return o; }; } return [=] { std::vector<T> o; put(o, fs->solve(r)); put(o, fd->solve(r)); return o; }; });
                break; }
            case 16: {
                n = std::min<size_t>(n, 14); auto a = dominant(n, false, false, 2); auto b = reals(n * copies); work += n * n * n / 5; bool sparse = c.chance(1, 2);
                auto part = [&](size_t q) { return std::vector<T>(b.begin() + static_cast<long>(q * n), b.begin() + static_cast<long>((q + 1) * n)); }; T tol = std::is_same_v<T, float> ? T(1e-4) : T(1e-10);
                using GD = solver::Gmres<T, DynMat<T>>; using GS = solver::Gmres<T, SpMat<T>>; auto fd = std::make_shared<const GD>(DynMat<T>(n, n, a), tol); auto fs = std::make_shared<const GS>(SpMat<T>(coo(pattern(a, n))), tol);
                each("shared GMRES", false, [&](size_t q) -> Run { DynVec<T> r(part(q)); return [=] { std::vector<T> o; if (sparse) { put(o, fs->solve(r)); } else { put(o, fd->solve(r)); } return o; }; });
                break; }
            default: {
                n = std::min<size_t>(n, 20); size_t len = n * (n + 1) / 2; auto e = ints(len); for (size_t i = 0, q = 0; i < n; ++i) { q += i; e[q + i] = T(1); for (size_t j = 0; j < i; ++j) { if (n > 6) { e[q + j] = j + 1 == i ? T(1) : T(0); } } }
                auto up = std::make_shared<const DynUpperTriMat<T>>(std::vector<T>(e)); auto lo = std::make_shared<const DynLowerTriMat<T>>(n, std::vector<T>(e)); auto he = std::make_shared<const DynHermiteMat<T>>(n, std::vector<T>(e)); auto td = std::make_shared<const DynTriDiagMat<T>>(ints(n - 1), ints(n), ints(n - 1)); auto b = ints(n);
                each("packed matrices and size errors", true, [&](size_t q) -> Run { size_t wrong = n + 1 + q; return [=] {
                    std::vector<T> o; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { o.push_back((*up)(i, j)); o.push_back((*lo)(i, j)); o.push_back((*he)(i, j)); o.push_back((*td)(i, j)); } }
                    auto r = b; up->back_sub(r); put(o, r); DynUpperTriMat<T> g(*up); g.extend_with_zero(); g.extend_with(std::vector<T>(n + 2, T(3))); o.push_back(g(n + 1, n + 1)); HessenbergMat<T> h = HessenbergMat<T>::with_capacity(2); h.extend_with_zero(); h.extend_with_zero(); h(1, 0) = static_cast<T>(static_cast<long>(q)); o.push_back(h(1, 0));
                    std::vector<DynVec<T>> vs; for (size_t i = 0; i < 3; ++i) { std::vector<T> z(4, T(0)); z[i] = T(2); z[0] = T(1); vs.emplace_back(z); } orth::cgs(vs); for (auto& x : vs) { put(o, x); }
                    try { DynVec<T> x(std::vector<T>(n, T(1))), y(std::vector<T>(wrong, T(1))); o.push_back(dot(x, y)); o.push_back(T(-1)); }
                    catch (const std::exception& ex) { std::string msg = ex.what(); o.push_back(static_cast<T>(msg.find(std::to_string(wrong)) != std::string::npos && msg.find(std::to_string(n)) != std::string::npos)); }
                    return o; }; });
            }
        }
        hist += cat(" ", copies, "x ", name, "(n=", n, ")"); c.label(name);
        for (auto& [ex, f] : made) { out.push_back({name, ex, std::move(f)}); }
    }
};
