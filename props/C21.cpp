// C21: programs over shared vectors, dense matrices and sparse matrices, on dynamic and fixed-size objects side by side
#include "lalib/mat.hpp"
#include "lalib/vec.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
#include "lalib/ops/mat_ops.hpp"
#include "../engine/sparse.hpp"
using namespace lalib;

template<typename T> constexpr long double LIM = std::is_same_v<R<T>, float> ? 4.0e6L : 1.0e15L;
template<typename T> struct Arr { std::vector<W<T>> e; bool fits = true; };
template<typename T> T narrow(const W<T>& x) { if constexpr (is_cx<T>) { return T(static_cast<R<T>>(x.real()), static_cast<R<T>>(x.imag())); } else { return static_cast<T>(x); } }
template<typename T> T small(Src& s) { if constexpr (is_cx<T>) { auto a = static_cast<R<T>>(s.zig(3)); return T(a, static_cast<R<T>>(s.zig(2))); } else { return static_cast<T>(s.zig(4)); } }
template<typename T> T scalar(Ctx& c) { if constexpr (is_cx<T>) { return c.pick({T(1, 0), T(0, 0), T(-1, 0), T(0, 1), T(2, 0), T(1, -1)}); } else { return c.pick({T(1), T(0), T(-1), T(2), T(-2), T(3)}); } }

template<typename T, size_t N, size_t K> struct Prog {
    static constexpr bool S = N > 0;
    using V = std::vector<W<T>>;
    using SV = std::conditional_t<S, SizedVec<T, S ? N : 1>, char>; using SW = std::conditional_t<S, SizedVec<T, S ? K : 1>, char>;
    using SM = std::conditional_t<S, SizedMat<T, S ? N : 1, S ? N : 1>, char>; using SR = std::conditional_t<S, SizedMat<T, S ? N : 1, S ? K : 1>, char>; using SQ = std::conditional_t<S, SizedMat<T, S ? K : 1, S ? N : 1>, char>;
    Ctx& c; size_t n, k; std::string hist; size_t effective = 0;
    std::vector<V> v, m, r, q, w; std::vector<Pattern<W<T>>> p;                            // models
    std::vector<DynVec<T>> dv, dw; std::vector<DynMat<T>> dm, dr, dq; std::vector<SpCooMat<T>> coo; std::vector<SpMat<T>> csr;
    std::vector<SV> sv; std::vector<SW> sw; std::vector<SM> sm; std::vector<SR> sr; std::vector<SQ> sq;

    V fresh(size_t len) { V x(len); if (len <= 12) { for (auto& e : x) { e = wide(small<T>(c)); } } else { auto b = c.bulk(); for (auto& e : x) { e = wide(small<T>(b)); } } return x; }
    static std::vector<T> nar(const V& x) { std::vector<T> y(x.size()); for (size_t i = 0; i < x.size(); ++i) { y[i] = narrow<T>(x[i]); } return y; }
    Prog(Ctx& c_, size_t n_, size_t k_): c(c_), n(n_), k(k_) {
        hist = cat(tname<T>(), S ? " fixed-size and dynamic" : " dynamic", " n=", n, " k=", k, ":");
        for (int i = 0; i < 3; ++i) { v.push_back(fresh(n)); m.push_back(fresh(n * n)); }
        for (int i = 0; i < 2; ++i) { r.push_back(fresh(n * k)); w.push_back(fresh(k)); q.push_back(fresh(k * n)); p.push_back(pattern()); }
        for (auto& x : v) { dv.emplace_back(nar(x)); if constexpr (S) { sv.emplace_back(nar(x)); } }
        for (auto& x : w) { dw.emplace_back(nar(x)); if constexpr (S) { sw.emplace_back(nar(x)); } }
        for (auto& x : m) { dm.emplace_back(n, n, nar(x)); if constexpr (S) { sm.emplace_back(nar(x)); } }
        for (auto& x : r) { dr.emplace_back(n, k, nar(x)); if constexpr (S) { sr.emplace_back(nar(x)); } }
        for (auto& x : q) { dq.emplace_back(k, n, nar(x)); if constexpr (S) { sq.emplace_back(nar(x)); } }
        for (auto& x : p) { coo.push_back(make_coo(x)); csr.emplace_back(coo.back()); }
        for (size_t i = 0; i < 3; ++i) { hist += cat(" v", i, "=", show(nar(v[i])), " M", i, "=", showm(nar(m[i]), n, n)); }
        for (size_t i = 0; i < 2; ++i) { hist += cat(" R", i, "=", showm(nar(r[i]), n, k), " S", i, "=", p[i].show()); }
    }
    Pattern<W<T>> pattern() { Pattern<W<T>> x; auto b = c.bulk(); unsigned den = static_cast<unsigned>(2 + c.below(5)); size_t skip = c.below(n + 1); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { if (i != skip && b.chance(1, den) && x.e.size() < 300) { x.set(i, j, wide(small<T>(b))); } } } x.set(n - 1, n - 1, wide(small<T>(b))); return x; }
    SpCooMat<T> make_coo(const Pattern<W<T>>& x) { auto [val, row, col] = x.shuffled(c); return SpCooMat<T>(nar(val), row, col); }
    template<typename G> void cmp(const G& g, const V& want, const char* name, size_t i, const char* kind) { for (size_t e = 0; e < want.size(); ++e) { T x = g[e]; if (!finite(x) || wide(x) != want[e]) { pbt::fail(cat(hist, " -> ", kind, " ", name, i, " element ", e, " is ", x, ", expected ", narrow<T>(want[e]))); } } }
    void check() {
        for (size_t i = 0; i < v.size(); ++i) { PBT_CHECK(dv[i].size() == n, hist, ": length of v", i); cmp(dv[i].data(), v[i], "v", i, "dynamic"); if constexpr (S) { cmp(sv[i].data(), v[i], "v", i, "fixed-size"); } }
        for (size_t i = 0; i < w.size(); ++i) { PBT_CHECK(dw[i].size() == k, hist, ": length of w", i); cmp(dw[i].data(), w[i], "w", i, "dynamic"); if constexpr (S) { cmp(sw[i].data(), w[i], "w", i, "fixed-size"); } }
        for (size_t i = 0; i < m.size(); ++i) { PBT_CHECK(dm[i].shape() == std::make_pair(n, n), hist, ": shape of M", i); cmp(dm[i].data(), m[i], "M", i, "dynamic"); if constexpr (S) { cmp(sm[i].data(), m[i], "M", i, "fixed-size"); } }
        for (size_t i = 0; i < r.size(); ++i) { PBT_CHECK(dr[i].shape() == std::make_pair(n, k), hist, ": shape of R", i); cmp(dr[i].data(), r[i], "R", i, "dynamic"); if constexpr (S) { cmp(sr[i].data(), r[i], "R", i, "fixed-size"); } }
        for (size_t i = 0; i < q.size(); ++i) { PBT_CHECK(dq[i].shape() == std::make_pair(k, n), hist, ": shape of Q", i); cmp(dq[i].data(), q[i], "Q", i, "dynamic"); if constexpr (S) { cmp(sq[i].data(), q[i], "Q", i, "fixed-size"); } }
        for (size_t i = 0; i < p.size(); ++i) {
            PBT_CHECK(coo[i].nnz() == p[i].e.size() && csr[i].nnz() == p[i].e.size(), hist, ": number of entries of S", i, " is ", coo[i].nnz(), " and ", csr[i].nnz(), ", expected ", p[i].e.size());
            size_t done = 0; for (auto& [pos, x] : p[i].e) { if (++done > 40) { break; } T a = coo[i](pos.first, pos.second), b = csr[i](pos.first, pos.second); if (wide(a) != x || wide(b) != x) { pbt::fail(cat(hist, " -> S", i, "(", pos.first, ",", pos.second, ") is ", a, " and ", b, ", expected ", narrow<T>(x))); } }
        }
    }
    // models; the second member is false if a partial sum could leave the exactly representable range
    Arr<T> lin(const T& a, const V& x, const T& b, const V& y) { Arr<T> o; o.e.resize(x.size()); for (size_t i = 0; i < x.size(); ++i) { auto s = wide(a) * x[i], t = wide(b) * y[i]; o.e[i] = s + t; if (mag(s) + mag(t) > LIM<T>) { o.fits = false; } } return o; }
    Arr<T> prod(const T& al, const V& a, const V& b, size_t rows, size_t mid, size_t cols, const T& be, const V& old) {
        Arr<T> o; o.e.assign(rows * cols, W<T>(0)); std::vector<long double> bd(rows * cols, 0);
        for (size_t i = 0; i < rows; ++i) { for (size_t l = 0; l < mid; ++l) { auto x = a[i * mid + l]; if (x == W<T>(0)) { continue; } for (size_t j = 0; j < cols; ++j) { auto t = x * b[l * cols + j]; o.e[i * cols + j] += t; bd[i * cols + j] += mag(t); } } }
        long double f = std::max(1.0L, amag(al)); for (size_t i = 0; i < o.e.size(); ++i) { auto t = old.empty() ? W<T>(0) : wide(be) * old[i]; o.e[i] = wide(al) * o.e[i] + t; if (f * bd[i] * 2 + mag(t) > LIM<T>) { o.fits = false; } }
        return o;
    }
    V dense(const Pattern<W<T>>& x) { return x.dense(n, n); }
    // writes small new values into a register that has grown too large for the next operation
    void reset_v(size_t i) { v[i] = fresh(n); auto x = nar(v[i]); for (size_t e = 0; e < n; ++e) { dv[i][e] = x[e]; if constexpr (S) { sv[i][e] = x[e]; } } hist += cat(" v", i, "=", show(x)); }
    void reset_m(size_t i) { m[i] = fresh(n * n); dm[i] = DynMat<T>(n, n, nar(m[i])); if constexpr (S) { sm[i] = SM(nar(m[i])); } hist += cat(" M", i, "=", showm(nar(m[i]), n, n)); }
    void reset_r(size_t i) { r[i] = fresh(n * k); dr[i] = DynMat<T>(n, k, nar(r[i])); if constexpr (S) { sr[i] = SR(nar(r[i])); } hist += cat(" R", i, "=", showm(nar(r[i]), n, k)); }
    void reset_s(size_t i) { p[i] = pattern(); coo[i] = make_coo(p[i]); csr[i] = SpMat<T>(coo[i]); hist += cat(" S", i, "=", p[i].show()); }

    struct Step { size_t i, j, l, i2, j2; T al, be; int mix; size_t op; };
    void step() {
        Step s;
        s.i = c.below(3); s.j = c.below(3); s.l = c.below(3); s.i2 = s.i % 2; s.j2 = s.j % 2; s.al = scalar<T>(c); s.be = scalar<T>(c); s.mix = static_cast<int>(c.below(S ? 3 : 1));
        s.op = c.below(30); ++effective;
        if (s.op < 5) { step_vec(s); } else if (s.op < 11) { step_scal(s); } else if (s.op < 16) { step_matvec(s); } else if (s.op < 20) { step_madd(s); } else if (s.op < 23) { step_matmat(s); } else if (s.op < 25) { step_rect(s); } else if (s.op < 28) { step_sparse(s); } else { step_other(s); }
    }
    // (split so that it compiles quickly)
    PBT_NOINLINE_PLAIN void step_vec(const Step& st) {
        [[maybe_unused]] const auto [i, j, l, i2, j2, al, be, mix, op] = st;
        switch (op) {
        case 0: case 1: { bool sb = op == 1; auto o = lin(T(1), v[j], sb ? T(-1) : T(1), v[l]); if (!o.fits) { return reset_v(j); } hist += cat(sb ? " sub(v" : " add(v", j, ",v", l, ",v", i, ")", mix ? cat("/mix", mix) : "");
            if (sb) { sub(dv[j], dv[l], dv[i]); } else { add(dv[j], dv[l], dv[i]); }
            if constexpr (S) { 
                // in the mixed forms the dynamic operand has already been overwritten when it is the result of the dynamic run
                bool d1 = mix == 1 && j != i, d2 = mix == 2 && l != i;
                if (sb) { if (d1) { sub(dv[j], sv[l], sv[i]); } else if (d2) { sub(sv[j], dv[l], sv[i]); } else { sub(sv[j], sv[l], sv[i]); } }
                else { if (d1) { add(dv[j], sv[l], sv[i]); } else if (d2) { add(sv[j], dv[l], sv[i]); } else { add(sv[j], sv[l], sv[i]); } } }
            v[i] = o.e; break; }
        case 2: { auto o = lin(T(1), v[j], T(1), v[l]); if (!o.fits) { return reset_v(j); } hist += cat(" v", i, "=v", j, "+v", l); dv[i] = dv[j] + dv[l]; if constexpr (S) { sv[i] = sv[j] + sv[l]; } v[i] = o.e; break; }
        case 3: { auto o = lin(T(1), v[j], T(-1), v[l]); if (!o.fits) { return reset_v(j); } hist += cat(" v", i, "=v", j, "-v", l); dv[i] = dv[j] - dv[l]; if constexpr (S) { sv[i] = sv[j] - sv[l]; } v[i] = o.e; break; }
        case 4: { hist += cat(" neg(v", j, ",v", i, ")"); neg(dv[j], dv[i]); if constexpr (S) { neg(sv[j], sv[i]); } auto o = v[j]; for (auto& x : o) { x = -x; } v[i] = o; break; }
        default: break;
        }
    }
    PBT_NOINLINE_PLAIN void step_scal(const Step& st) {
        [[maybe_unused]] const auto [i, j, l, i2, j2, al, be, mix, op] = st;
        switch (op) {
        case 5: { auto o = lin(al, v[i], T(0), v[i]); if (!o.fits) { return reset_v(i); } hist += cat(" scale(", al, ",v", i, ")"); scale(al, dv[i]); if constexpr (S) { scale(al, sv[i]); } v[i] = o.e; break; }
        case 6: { auto o = lin(al, v[j], T(0), v[j]); if (!o.fits) { return reset_v(j); } hist += cat(" v", i, "=", al, "*v", j); dv[i] = al * dv[j]; if constexpr (S) { sv[i] = al * sv[j]; } v[i] = o.e; break; }
        case 7: case 8: { auto o = lin(al, v[j], T(1), v[i]); if (!o.fits) { return reset_v(i); } hist += cat(" axpy(", al, ",v", j, ",v", i, ")"); axpy(al, dv[j], dv[i]); if constexpr (S) { axpy(al, sv[j], sv[i]); } v[i] = o.e; break; }
        case 9: { if constexpr (is_cx<T>) { return; } else {
            auto o = prod(T(1), v[j], v[l], 1, n, 1, T(0), {}); if (!o.fits) { return reset_v(j); } hist += cat(" v", i, "[..]=dot(v", j, ",v", l, ")"); size_t e = c.below(n);
            T d = dot(dv[j], dv[l]); if (wide(d) != o.e[0]) { pbt::fail(cat(hist, " -> ", d, ", expected ", narrow<T>(o.e[0]))); } T d2 = dv[j].dot(dv[l]); if (wide(d2) != o.e[0]) { pbt::fail(cat(hist, " (member) -> ", d2, ", expected ", narrow<T>(o.e[0]))); }
            if constexpr (S) { T f = mix == 0 ? dot(sv[j], sv[l]) : mix == 1 ? dv[j].dot(sv[l]) : sv[j].dot(dv[l]); if (wide(f) != o.e[0]) { pbt::fail(cat(hist, " (fixed-size) -> ", f, ", expected ", narrow<T>(o.e[0]))); } sv[i][e] = f; }
            dv[i][e] = d; v[i][e] = o.e[0]; break; } }
        case 10: { auto o = prod(T(1), m[j], v[l], n, n, 1, T(0), {}); if (!o.fits) { reset_m(j); return reset_v(l); } hist += cat(" v", i, "=M", j, "*v", l, mix ? cat("/mix", mix) : "");
            auto d = dm[j] * dv[l]; if constexpr (S) { if (mix == 1) { auto s = dm[j] * sv[l]; for (size_t e = 0; e < n; ++e) { sv[i][e] = s[e]; } } else if (mix == 2) { sv[i] = sm[j] * dv[l]; } else { sv[i] = sm[j] * sv[l]; } } dv[i] = d; v[i] = o.e; break; }
        default: break;
        }
    }
    PBT_NOINLINE_PLAIN void step_matvec(const Step& st) {
        [[maybe_unused]] const auto [i, j, l, i2, j2, al, be, mix, op] = st;
        switch (op) {
        case 11: case 12: { auto o = prod(al, m[j], v[l], n, n, 1, be, v[i]); if (!o.fits) { reset_m(j); reset_v(l); return reset_v(i); } hist += cat(" mul(", al, ",M", j, ",v", l, ",", be, ",v", i, ")", mix ? cat("/mix", mix) : "");
            if (l == i) { c.label("aliased matrix-vector product"); }
            if constexpr (S) { if (mix == 2) { mul(al, sm[j], dv[l], be, sv[i]); } else { mul(al, sm[j], sv[l], be, sv[i]); if (mix == 1 && l != i) { auto t = dv[i]; mul(al, dm[j], sv[l], be, t); cmp(t.data(), o.e, "mixed result ", i, "dynamic"); } } }
            mul(al, dm[j], dv[l], be, dv[i]); v[i] = o.e; break; }
        case 13: case 14: { auto o = prod(al, dense(p[j2]), v[l], n, n, 1, be, v[i]); if (!o.fits) { reset_s(j2); reset_v(l); return reset_v(i); } hist += cat(" mul(", al, ",S", j2, ",v", l, ",", be, ",v", i, ")"); if (l == i) { c.label("aliased sparse product"); }
            if (c.chance(1, 2)) { DynMat<T> t(n, n, nar(dense(p[j2]))); auto y = dv[i]; mul(al, t, dv[l], be, y); cmp(y.data(), o.e, "dense copy of S times v ", i, "dynamic"); }
            mul(al, csr[j2], dv[l], be, dv[i]); if constexpr (S) { for (size_t e = 0; e < n; ++e) { sv[i][e] = dv[i][e]; } } v[i] = o.e; break; }
        case 15: { auto o = prod(T(1), dense(p[j2]), v[l], n, n, 1, T(0), {}); if (!o.fits) { reset_s(j2); return reset_v(l); } hist += cat(" v", i, "=S", j2, "*v", l); dv[i] = csr[j2] * dv[l]; if constexpr (S) { for (size_t e = 0; e < n; ++e) { sv[i][e] = dv[i][e]; } } v[i] = o.e; break; }
        default: break;
        }
    }
    PBT_NOINLINE_PLAIN void step_madd(const Step& st) {
        [[maybe_unused]] const auto [i, j, l, i2, j2, al, be, mix, op] = st;
        switch (op) {
        case 16: { bool sb = c.chance(1, 2); auto o = lin(T(1), m[j], sb ? T(-1) : T(1), m[l]); if (!o.fits) { return reset_m(j); } hist += cat(sb ? " sub(M" : " add(M", j, ",M", l, ",M", i, ")", mix ? cat("/mix", mix) : "");
            if constexpr (S) { if (mix == 1) { if (sb) { sub(dm[j], sm[l], sm[i]); } else { add(dm[j], sm[l], sm[i]); } } else if (mix == 2) { if (sb) { sub(sm[j], dm[l], sm[i]); } else { add(sm[j], dm[l], sm[i]); } } else { if (sb) { sub(sm[j], sm[l], sm[i]); } else { add(sm[j], sm[l], sm[i]); } } }
            if (sb) { sub(dm[j], dm[l], dm[i]); } else { add(dm[j], dm[l], dm[i]); } m[i] = o.e; break; }
        case 17: { bool sb = c.chance(1, 2); auto o = lin(T(1), m[j], sb ? T(-1) : T(1), m[l]); if (!o.fits) { return reset_m(j); } hist += cat(" M", i, "=M", j, sb ? "-M" : "+M", l); if (sb) { dm[i] = dm[j] - dm[l]; if constexpr (S) { sm[i] = sm[j] - sm[l]; } } else { dm[i] = dm[j] + dm[l]; if constexpr (S) { sm[i] = sm[j] + sm[l]; } } m[i] = o.e; break; }
        case 18: { bool in = c.chance(1, 2); auto o = lin(al, m[in ? i : j], T(0), m[in ? i : j]); if (!o.fits) { return reset_m(in ? i : j); } if (in) { hist += cat(" scale(", al, ",M", i, ")"); scale(al, dm[i]); if constexpr (S) { scale(al, sm[i]); } } else { hist += cat(" M", i, "=", al, "*M", j); dm[i] = al * dm[j]; if constexpr (S) { sm[i] = al * sm[j]; } } m[i] = o.e; break; }
        case 19: { if constexpr (is_cx<T>) { return; } else { hist += cat(" M", i, "=-M", j); dm[i] = -dm[j]; if constexpr (S) { sm[i] = -sm[j]; } auto o = m[j]; for (auto& x : o) { x = -x; } m[i] = o; break; } }
        default: break;
        }
    }
    PBT_NOINLINE_PLAIN void step_matmat(const Step& st) {
        [[maybe_unused]] const auto [i, j, l, i2, j2, al, be, mix, op] = st;
        switch (op) {
        case 20: { auto o = prod(T(1), m[j], m[l], n, n, n, T(0), {}); if (!o.fits) { reset_m(j); return reset_m(l); } hist += cat(" M", i, "=M", j, "*M", l); dm[i] = dm[j] * dm[l]; if constexpr (S) { sm[i] = sm[j] * sm[l]; } m[i] = o.e; break; }
        case 21: case 22: { auto o = prod(al, m[j], m[l], n, n, n, be, m[i]); if (!o.fits) { reset_m(j); reset_m(l); return reset_m(i); } size_t f = c.below(S ? 8 : 1); hist += cat(" mul(", al, ",M", j, ",M", l, ",", be, ",M", i, ")/form", f); if (i == j || i == l) { c.label("aliased matrix product"); }
            if constexpr (S) {       // all eight storage combinations
                auto td = dm[i]; auto ts = sm[i]; bool toD = false;
                switch (f) {
                    case 1: mul(al, dm[j], sm[l], be, ts); break; case 2: mul(al, sm[j], dm[l], be, ts); break; case 3: mul(al, dm[j], dm[l], be, ts); break;
                    case 4: mul(al, sm[j], sm[l], be, td); toD = true; break; case 5: mul(al, dm[j], sm[l], be, td); toD = true; break; case 6: mul(al, sm[j], dm[l], be, td); toD = true; break;
                    default: mul(al, sm[j], sm[l], be, sm[i]); ts = sm[i]; }
                cmp(toD ? td.data() : ts.data(), o.e, "M", i, "product"); mul(al, dm[j], dm[l], be, dm[i]); if (!toD) { sm[i] = ts; } else { sm[i] = SM(nar(o.e)); }
            } else { mul(al, dm[j], dm[l], be, dm[i]); }
            m[i] = o.e; break; }
        default: break;
        }
    }
    // products with matrices of one row or one column, and between the rectangular ones; vectors carry the results on
    PBT_NOINLINE_PLAIN void thin(const Step& st) {
        [[maybe_unused]] const auto [i, j, l, i2, j2, al, be, mix, op] = st; size_t l2 = l % 2; c.label("thin or rectangular product");
        auto keep_v = [&](const DynMat<T>& y, const V& e, const char* what) { cmp(y.data(), e, what, i, "dynamic"); for (size_t x = 0; x < n; ++x) { dv[i][x] = y.data()[x]; if constexpr (S) { sv[i][x] = y.data()[x]; } } v[i] = e; };
        switch (c.below(5)) {
            case 0: { auto o = prod(al, r[j2], w[l2], n, k, 1, be, v[i]); if (!o.fits) { reset_r(j2); return reset_v(i); } hist += cat(" mul(", al, ",R", j2, ",w", l2, " as column,", be, ",v", i, " as column)"); DynMat<T> a(k, 1, nar(w[l2])), y(n, 1, nar(v[i])); mul(al, dr[j2], a, be, y); keep_v(y, o.e, "column"); break; }
            case 1: { auto o = prod(al, w[l2], q[j2], 1, k, n, be, v[i]); if (!o.fits) { return reset_v(i); } hist += cat(" mul(", al, ",w", l2, " as row,Q", j2, ",", be, ",v", i, " as row)"); DynMat<T> a(1, k, nar(w[l2])), y(1, n, nar(v[i])); mul(al, a, dq[j2], be, y); keep_v(y, o.e, "row"); break; }
            case 2: { auto o = prod(al, q[j2], m[l], k, n, n, be, q[i2]); if (!o.fits) { return reset_m(l); } hist += cat(" mul(", al, ",Q", j2, ",M", l, ",", be, ",Q", i2, ") and back"); auto y = dq[i2]; mul(al, dq[j2], dm[l], be, y); cmp(y.data(), o.e, "Q", i2, "dynamic"); if constexpr (S) { auto z = sq[i2]; mul(al, sq[j2], sm[l], be, z); cmp(z.data(), o.e, "Q", i2, "fixed-size"); } break; }
            case 3: { auto o = prod(T(1), q[j2], r[l2], k, n, k, T(0), {}); if (!o.fits) { return reset_r(l2); } hist += cat(" Q", j2, "*R", l2); auto y = dq[j2] * dr[l2]; PBT_CHECK(y.shape() == std::make_pair(k, k), hist, ": shape of the product"); cmp(y.data(), o.e, "Q*R", 0, "dynamic"); if constexpr (S) { auto z = sq[j2] * sr[l2]; cmp(z.data(), o.e, "Q*R", 0, "fixed-size"); } break; }
            default: { auto o = prod(al, v[j], w[l2], n, 1, k, be, r[i2]); if (!o.fits) { reset_v(j); return reset_r(i2); } hist += cat(" mul(", al, ",v", j, " as column,w", l2, " as row,", be, ",R", i2, ")"); DynMat<T> a(n, 1, nar(v[j])), b(1, k, nar(w[l2])); mul(al, a, b, be, dr[i2]); if constexpr (S) { for (size_t x = 0; x < n * k; ++x) { sr[i2].data()[x] = dr[i2].data()[x]; } } r[i2] = o.e; }
        }
    }
    PBT_NOINLINE_PLAIN void step_rect(const Step& st) {
        [[maybe_unused]] const auto [i, j, l, i2, j2, al, be, mix, op] = st;
        switch (op) {
        case 23: { if (c.chance(2, 5)) { return thin(st); } if (c.chance(1, 2)) { auto o = prod(al, m[j], r[j2], n, n, k, be, r[i2]); if (!o.fits) { reset_m(j); reset_r(j2); return reset_r(i2); } hist += cat(" mul(", al, ",M", j, ",R", j2, ",", be, ",R", i2, ")"); mul(al, dm[j], dr[j2], be, dr[i2]); if constexpr (S) { mul(al, sm[j], sr[j2], be, sr[i2]); } r[i2] = o.e; }
            else { auto o = prod(al, r[j2], q[l % 2], n, k, n, be, m[i]); if (!o.fits) { reset_r(j2); return reset_m(i); } hist += cat(" mul(", al, ",R", j2, ",Q", l % 2, ",", be, ",M", i, ")"); mul(al, dr[j2], dq[l % 2], be, dm[i]); if constexpr (S) { mul(al, sr[j2], sq[l % 2], be, sm[i]); } m[i] = o.e; }
            break; }
        case 24: { if (c.chance(1, 2)) { auto o = prod(al, q[j2], v[l], k, n, 1, be, w[i2]); if (!o.fits) { return reset_v(l); } hist += cat(" mul(", al, ",Q", j2, ",v", l, ",", be, ",w", i2, ")"); mul(al, dq[j2], dv[l], be, dw[i2]); if constexpr (S) { mul(al, sq[j2], sv[l], be, sw[i2]); } w[i2] = o.e; }
            else { auto o = prod(T(1), r[j2], w[l % 2], n, k, 1, T(0), {}); if (!o.fits) { w[l % 2] = fresh(k); dw[l % 2] = DynVec<T>(nar(w[l % 2])); if constexpr (S) { sw[l % 2] = SW(nar(w[l % 2])); } return reset_r(j2); } hist += cat(" v", i, "=R", j2, "*w", l % 2); dv[i] = dr[j2] * dw[l % 2]; if constexpr (S) { sv[i] = sr[j2] * sw[l % 2]; } v[i] = o.e; }
            break; }
        default: break;
        }
    }
    PBT_NOINLINE_PLAIN void step_sparse(const Step& st) {
        [[maybe_unused]] const auto [i, j, l, i2, j2, al, be, mix, op] = st;
        switch (op) {
        case 25: { // sparse sums
            auto o = lin(T(1), dense(p[j2]), T(1), dense(p[l % 2])); if (!o.fits) { return reset_s(j2); } bool sb = !is_cx<T> && c.chance(1, 2), in = !sb && c.chance(1, 2); size_t t = in ? j2 : i2; Pattern<W<T>> s = p[j2]; for (auto& [pos, x] : p[l % 2].e) { s.set(pos.first, pos.second, sb ? s.get(pos.first, pos.second) - x : s.get(pos.first, pos.second) + x); }
            hist += cat(" S", t, "=S", j2, sb ? "-S" : in ? "+=S" : "+S", l % 2);
            if (in) { coo[j2] += coo[l % 2]; } else if (sb) { if constexpr (!is_cx<T>) { coo[t] = coo[j2] - coo[l % 2]; } } else { coo[t] = coo[j2] + coo[l % 2]; }
            p[t] = s; csr[t] = SpMat<T>(coo[t]); break; }
        case 26: { auto o = lin(al, dense(p[i2]), T(0), dense(p[i2])); if (!o.fits) { return reset_s(i2); } hist += cat(" scale(", al, ",S", i2, ")"); scale(al, coo[i2]); scale(al, csr[i2]); for (auto& [pos, x] : p[i2].e) { x = wide(al) * x; } break; }
        case 27: { hist += cat(" M", i, "=dense(S", j2, ")"); m[i] = dense(p[j2]); for (size_t a = 0; a < n; ++a) { for (size_t b = 0; b < n; ++b) { T x = (a + b) % 2 ? csr[j2](a, b) : coo[j2](a, b); dm[i](a, b) = x; if constexpr (S) { sm[i](a, b) = x; } } } break; }
        default: break;
        }
    }
    PBT_NOINLINE_PLAIN void step_other(const Step& st) {
        [[maybe_unused]] const auto [i, j, l, i2, j2, al, be, mix, op] = st;
        switch (op) {
        case 28: { size_t what = c.below(6); switch (what) {
            case 0: hist += cat(" v", i, "=v", j); dv[i] = dv[j]; if constexpr (S) { sv[i] = sv[j]; } { auto t = v[j]; v[i] = t; } break;
            case 1: hist += cat(" M", i, "=M", j); dm[i] = dm[j]; if constexpr (S) { sm[i] = sm[j]; } { auto t = m[j]; m[i] = t; } break;
            case 2: { hist += cat(" S", i2, "=S", j2); coo[i2] = coo[j2]; csr[i2] = csr[j2]; auto t = p[j2]; p[i2] = t; break; }
            case 3: { hist += cat(" M", i, "=diag(v", j, ")"); m[i].assign(n * n, W<T>(0)); for (size_t e = 0; e < n; ++e) { m[i][e * n + e] = v[j][e]; } dm[i] = DynMat<T>::diag(nar(v[j])); if constexpr (S) { std::array<T, S ? N : 1> a; auto x = nar(v[j]); std::copy(x.begin(), x.end(), a.begin()); sm[i] = SM::diag(a); } break; }
            case 4: { hist += cat(" v", i, " through a moved copy"); auto t = dv[j]; dv[i] = std::move(t); if constexpr (S) { auto u = sv[j]; sv[i] = std::move(u); } auto x = v[j]; v[i] = x; break; }
            default: { hist += cat(" S", i2, " unit"); p[i2] = unit_pattern<W<T>>(n); coo[i2] = SpCooMat<T>::unit(n); csr[i2] = SpMat<T>::unit(n); } } break; }
        default: { size_t e = c.below(n), f = c.below(n); T x = small<T>(c); switch (c.below(3)) {
            case 0: hist += cat(" v", i, "[", e, "]=", x); v[i][e] = wide(x); dv[i][e] = x; if constexpr (S) { sv[i][e] = x; } break;
            case 1: hist += cat(" M", i, "(", e, ",", f, ")=", x); m[i][e * n + f] = wide(x); dm[i](e, f) = x; if constexpr (S) { sm[i](e, f) = x; } break;
            default: hist += cat(" S", i2, "(", n - 1, ",", n - 1, ")=", x); p[i2].set(n - 1, n - 1, wide(x)); coo[i2].mut_at(n - 1, n - 1) = x; csr[i2].mut_at(n - 1, n - 1) = x; } }
        }
    }
    void run() {
        size_t steps = 1 + c.below(14); check();
        for (size_t s = 0; s < steps; ++s) { if (c.chance(1, 12)) { draw_threads(c); } step(); check(); }
        c.label(n < 4 ? "n < 4" : n < 16 ? "n 4..15" : n < 64 ? "n 16..63" : "n >= 64"); c.label(steps < 5 ? "1..4 steps" : steps < 10 ? "5..9 steps" : "10..14 steps");
        c.note(hist); c.nontrivial(effective >= 4);
    }
};
template<typename T> void dyn(Ctx& c) { draw_threads(c); size_t n = c.chance(1, 16) ? order(c, 1, 90) : order(c, 1, 20), k = order(c, 1, 20); Prog<T, 0, 0> p(c, n, k); p.run(); }
template<typename T> void sized(Ctx& c) {
    draw_threads(c);
    if constexpr (std::is_same_v<T, float>) { switch (c.below(3)) { case 0: { Prog<T, 3, 2> p(c, 3, 2); p.run(); break; } case 1: { Prog<T, 1, 4> p(c, 1, 4); p.run(); break; } default: { Prog<T, 8, 9> p(c, 8, 9); p.run(); } } }
    else if constexpr (std::is_same_v<T, double>) { switch (c.below(3)) { case 0: { Prog<T, 2, 3> p(c, 2, 3); p.run(); break; } case 1: { Prog<T, 4, 1> p(c, 4, 1); p.run(); break; } default: { Prog<T, 5, 4> p(c, 5, 4); p.run(); } } }
    else { if (c.below(2) == 0) { Prog<T, 3, 2> p(c, 3, 2); p.run(); } else { Prog<T, 4, 5> p(c, 4, 5); p.run(); } }
}
FACET_ALL("dynamic", 700, dyn);
FACET_ALL("fixed-size", 700, sized);
