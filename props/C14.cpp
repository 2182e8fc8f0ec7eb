// C14: sparse matrix-vector products
#include "lalib/mat.hpp"
#include "lalib/vec.hpp"
#include "../engine/sparse.hpp"
using namespace lalib;

template<typename T> void product(Ctx& c) {
    draw_threads(c);
    // -- pattern
    Pattern<T> p; Mode md = is_cx<T> ? c.pick({Mode::Int, Mode::Real}) : c.pick({Mode::Int, Mode::Int, Mode::Real, Mode::Wide});
    if (std::is_same_v<T, float> && md == Mode::Wide) { md = Mode::Real; }
    if (c.chance(1, 8)) {        // large
        size_t n = order(c, 1, 700), m = order(c, 1, 700); if (c.chance(1, 20)) { n = 1 + length(c, 70000); m = 1 + length(c, 70000); c.label("very large"); } auto b = c.bulk(); size_t per = 1 + c.below(6), heavy = std::min<size_t>(2 * m, c.pick({200u, 300u, 600u, 1100u})); unsigned skip = static_cast<unsigned>(2 + c.below(6));
        for (size_t i = 0; i < n; ++i) { if (b.chance(1, skip)) { continue; } size_t k = b.below(8 * per) == 0 ? heavy : b.below(per + 1); for (size_t q = 0; q < k; ++q) { p.set(i, b.below(m), val<T>(b, md)); } }
    } else { p = draw_pattern<T>(c, c.chance(1, 3) ? 1 + c.below(9) : 0, md, true); }
    // -- where the matrix comes from
    SpMat<T> a; size_t min_rows = 0; std::string from;
    switch (c.below(6)) {
        case 0: case 1: { min_rows = c.chance(1, 3) ? p.rows() + c.below(4) : 0; std::vector<T> v; std::vector<size_t> rp, k; p.csr(c, v, rp, k, min_rows); a = SpMat<T>(v, rp, k); from = "csr arrays"; break; }
        case 2: { min_rows = c.chance(1, 3) ? p.rows() + c.below(4) : 0; std::vector<T> v; std::vector<size_t> rp, k; p.csr(c, v, rp, k, min_rows); a = SpMat<T>(std::move(v), std::move(rp), std::move(k)); from = "moved csr arrays"; break; }
        case 3: { auto [v, r, k] = p.shuffled(c); a = SpMat<T>(SpCooMat<T>(v, r, k)); from = "moved coo"; break; }
        case 4: { auto [v, r, k] = p.shuffled(c); SpCooMat<T> o(v, r, k); a = SpMat<T>(o); from = "coo"; break; }
        default: if (c.chance(1, 2)) { size_t n = 1 + c.below(c.chance(1, 10) ? 400 : 20); p = unit_pattern<T>(n); a = SpMat<T>::unit(n); from = "unit"; }
            else { auto [v, r, k] = p.shuffled(c); SpMat<T> t(SpCooMat<T>(v, r, k)); a = t; for (auto& [q, x] : p.e) { if (c.chance(1, 6)) { x = val<T>(c, md); a.mut_at(q.first, q.second) = x; } } from = "copy, mutated"; }
    }
    size_t n = std::max(p.rows(), min_rows), m = p.cols();
    PBT_CHECK(a.shape().first == n && a.shape().second == m, "the matrix made from ", from, " has a wrong shape");
    // -- operands
    bool op = c.chance(1, 3), alias = !op && n == m && c.chance(1, 2);
    size_t how = op ? draw_temps(c) : 0;
    T alpha = op ? T(1) : coef<T>(c, md), beta = op ? T(0) : coef<T>(c, md);
    auto x = vec<T>(c, m, md), y = alias ? x : vec<T>(c, n, md);
    auto what = cat(op ? "operator*" : "mul", " ", tname<T>(), " ", n, "x", m, " from ", from, alias ? " x is y" : "", how ? cat(" temporary operands ", how) : std::string(), " alpha=", alpha, " beta=", beta);
    bool holes = p.has_empty_row() || min_rows > p.rows();
    c.label(op ? "operator*" : alias ? "mul aliased" : "mul"); c.label(from); if (holes) { c.label("empty row"); } c.label(n > m ? "tall" : n < m ? "wide" : "square"); c.label(p.e.empty() ? "no entries" : p.e.size() < 10 ? "<10 entries" : p.e.size() < 100 ? "<100 entries" : ">=100 entries");
    c.note(cat(what, " S=", p.show(), " x=", show(x), " y=", show(y))); c.nontrivial(p.e.size() >= 3 && alpha != T(0) && (holes || n != m || alias || beta != T(0)));
    // -- reference
    std::vector<W<T>> ref(n, W<T>(0)); std::vector<long double> bound(n, 0); std::vector<size_t> cnt(n, 0);
    for (auto& [k, v] : p.e) { auto q = wide(alpha) * wide(v) * wide(x[k.second]); ref[k.first] += q; bound[k.first] += mag(q); ++cnt[k.first]; }
    for (size_t i = 0; i < n && !op; ++i) { auto q = wide(beta) * wide(y[i]); ref[i] += q; bound[i] += mag(q); }
    auto done = [&](const DynVec<T>& g) {
        PBT_CHECK(g.size() == n, what, ": result has ", g.size(), " elements, expected ", n);
        for (size_t i = 0; i < n; ++i) { expect_near<T>(g[i], ref[i], md == Mode::Int ? 0.0L : bound[i] * (static_cast<long double>(cnt[i]) + 5) * (is_cx<T> ? 3 : 1) * U<T> * 1.02L, cat(what, " element ", i)); }
        PBT_CHECK(a.nnz() == p.e.size(), what, ": the matrix was changed"); size_t k = 0;
        for (auto& [q, v] : p.e) { if (++k > 400) { break; } PBT_CHECK(same(T(a(q.first, q.second)), v), what, ": matrix element (", q.first, ",", q.second, ") was changed"); }
    };
    DynVec<T> vx(x), vy(y); const SpMat<T>& ca = a;
    if (op) { auto r = with_temps<DynVec<T>>(how, ca, vx, [](auto&& p, auto&& q) { return FWD(p) * FWD(q); }); done(r); expect_unchanged(vx, x, what + ": input vector"); auto r2 = ca * vx; done(r2); }
    else if (alias) { auto& r = mul(alpha, ca, vx, beta, vx); PBT_CHECK(&r == &vx, what, ": does not return the result object"); done(vx); }
    else { auto& r = mul(alpha, ca, vx, beta, vy); PBT_CHECK(&r == &vy, what, ": does not return the result object"); done(vy); expect_unchanged(vx, x, what + ": input vector"); PBT_CHECK(vx.size() == m, what, ": input vector resized"); }
}
FACET_ALL("product", 1500, product);
TYPE_FACET(long double, "product", 250, product);
