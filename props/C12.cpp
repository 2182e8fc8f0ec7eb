// C12: construction, access, copies and conversions of sparse matrices
#include "lalib/mat.hpp"
#include "../engine/sparse.hpp"
using namespace lalib;

template<typename M> void check_arrays_coo(const M& a, const std::string& what) {
    PBT_CHECK(a.values().size() == a.nnz() && a.row_indices().size() == a.nnz() && a.col_indices().size() == a.nnz(), what, ": value/index arrays have different lengths");
}
template<typename T, typename M> void check_sp(const M& a, const Pattern<T>& p, const std::string& what, size_t min_rows) {
    auto sh = a.shape();
    size_t rows = std::max(p.rows(), min_rows);
    PBT_CHECK(a.nnz() == p.e.size(), what, ": nnz() is ", a.nnz(), ", expected ", p.e.size());
    PBT_CHECK(sh.first == rows && sh.second == p.cols(), what, ": shape ", sh.first, "x", sh.second, ", expected ", rows, "x", p.cols());
    auto look = [&](size_t i, size_t j) {
        T w = p.get(i, j);
        PBT_CHECK(same(T(a(i, j)), w), what, ": element (", i, ",", j, ") is ", a(i, j), ", expected ", w);
        PBT_CHECK(same(T(a.at(i, j)), w), what, ": at(", i, ",", j, ") is ", a.at(i, j), ", expected ", w);
    };
    if (rows < 1000 && p.cols() < 1000 && p.e.size() < 300) { for (size_t i = 0; i < rows + 3; ++i) { for (size_t j = 0; j < p.cols() + 3; ++j) { look(i, j); } } }
    else { probe(p, rows, look); }
    auto f = [&](size_t i, size_t j) { PBT_CHECK(same(T(a(i, j)), p.get(i, j)), what, ": element (", i, ",", j, ") far outside the shape is not zero"); };
    f(1000, 0); f(0, 100000); f(rows, p.cols()); f(rows + 70, 1);
}
template<typename T, typename M> void mutate(Ctx& c, M& a, Pattern<T>& p, Mode md, std::string& hist, size_t min_rows) {
    size_t i, j;
    if (!p.e.empty() && c.chance(1, 2)) { auto it = p.e.begin(); std::advance(it, static_cast<long>(c.below(p.e.size()))); i = it->first.first; j = it->first.second; }
    else { i = c.below(std::max(p.rows(), min_rows) + 3); j = c.below(p.cols() + 3); if (c.chance(1, 10)) { i += 50; } }
    T x = val<T>(c, md); hist += cat(" mut_at(", i, ",", j, ")=", x);
    bool oor = false, other = false;
    T* held = nullptr;
    try { held = &a.mut_at(i, j); *held = x; } catch (const std::out_of_range&) { oor = true; } catch (...) { other = true; }
    if (p.has(i, j)) { PBT_CHECK(!oor && !other, hist, ": stored position rejected"); p.set(i, j, x); c.label("mutated a stored position");
        if (c.chance(1, 4)) { // again, through the reference or the raw values
            check_sp<T>(a, p, hist, min_rows); x = val<T>(c, md);
            hist += cat(" then ", x, " through the same reference"); *held = x;
            p.set(i, j, x);
        } }
    else { PBT_CHECK(oor, hist, other ? ": throws something else than std::out_of_range" : ": no exception for a position without entry"); c.label(i < p.rows() && j < p.cols() ? "mut_at on a zero inside" : "mut_at outside the shape"); }
}
// history over several objects of one format
template<typename T, typename M> struct Reg { M a; Pattern<T> p; size_t min_rows; };
template<typename T, typename M> void history(Ctx& c, std::vector<Reg<T, M>>& regs, Mode md, std::string& hist, const std::function<Reg<T, M>()>& fresh) {
    size_t steps = c.below(9);
    for (size_t s = 0; s < steps; ++s) {
        size_t a = c.below(regs.size()), b = c.below(regs.size());
        switch (c.below(8)) {
            case 0: if (regs.size() < 4) { regs.push_back(fresh()); } break;
            case 1: case 2: case 3: mutate(c, regs[a].a, regs[a].p, md, hist, regs[a].min_rows); break;
            case 4: { hist += cat(" #", a, "=#", b); regs[a].a = regs[b].a; auto p = regs[b].p; regs[a].p = p; regs[a].min_rows = regs[b].min_rows; break; }
            case 5: if (regs.size() < 4) { hist += cat(" copy#", a); auto p = regs[a].p; M t(regs[a].a); regs.push_back({std::move(t), p, regs[a].min_rows}); } break;
            case 6: { hist += cat(" #", a, "=move(copy#", b, ")"); M t(regs[b].a); regs[a].a = std::move(t); auto p = regs[b].p; regs[a].p = p; regs[a].min_rows = regs[b].min_rows; break; }
            default: { hist += cat(" reserve/move#", a); M t(std::move(regs[a].a)); if constexpr (requires { t.reserve(5); }) { t.reserve(c.below(40)); } else { t.reserve(c.below(20), c.below(40)); } regs[a].a = t; }
        }
        for (size_t k = 0; k < regs.size(); ++k) { check_sp<T>(regs[k].a, regs[k].p, cat(hist, " -> #", k), regs[k].min_rows); }
    }
}
template<typename T> void classify(Ctx& c, const Pattern<T>& p) {
    c.label(p.e.empty() ? "no entries" : p.e.size() < 5 ? "1..4 entries" : p.e.size() < 30 ? "5..29 entries" : ">=30 entries");
    if (p.has_empty_row()) { c.label("has an empty row"); }
}
// index range of a case: [0] none (small dense patterns), [1] rows short enough for a conversion, [2] any
inline size_t draw_range(Ctx& c, size_t kinds) { return c.chance(1, 20) ? 1 + c.below(kinds) : 0; }
template<typename T> Pattern<T> ranged(Ctx& c, size_t range, Mode md) {
    if (range == 0) { return c.chance(1, 100) ? crowded<T>(c, md, c.chance(1, 8) ? 5000 : 900) : draw_pattern<T>(c, 0, md, true); }
    size_t top_r = range == 1 ? c.pick<size_t>({300, 4000, 70000}) : c.pick<size_t>({70000, size_t(1) << 32, size_t(1) << 34, size_t(1) << 48}), top_c = c.pick<size_t>({300, 70000, size_t(1) << 32, size_t(1) << 33, size_t(1) << 48});
    c.label(top_r > 70000 || top_c > 70000 ? "indices beyond 32 bits" : "scattered indices"); return scattered<T>(c, md, top_r, top_c);
}
template<typename T> void coo(Ctx& c) {
    auto md = c.pick({Mode::Int, Mode::Real, Mode::Special}); std::string hist = cat("COO ", tname<T>(), ":");
    bool interesting = false; size_t range = draw_range(c, 2);
    std::function<Reg<T, SpCooMat<T>>()> fresh = [&]() -> Reg<T, SpCooMat<T>> {
        if (c.chance(1, 10)) { hist += " default"; return {SpCooMat<T>(), {}, 0}; }
        if (c.chance(1, 10)) { size_t n = c.below(c.chance(1, 1000) ? 300 : c.chance(1, 20) ? 40 : 12); hist += cat(" unit(", n, ")"); return {SpCooMat<T>::unit(n), unit_pattern<T>(n), 0}; }
        auto p = ranged<T>(c, range, md); auto [v, r, k] = p.shuffled(c); classify(c, p); interesting = interesting || p.e.size() >= 3;
        hist += " new" + p.show();
        bool sorted = std::is_sorted(r.begin(), r.end()); if (!sorted) { c.label("unsorted input"); }
        if (c.chance(1, 2)) { SpCooMat<T> a(v, r, k); return {a, p, 0}; }
        return {SpCooMat<T>(std::move(v), std::move(r), std::move(k)), p, 0};
    };
    std::vector<Reg<T, SpCooMat<T>>> regs; regs.reserve(8); regs.push_back(fresh());
    check_sp<T>(regs[0].a, regs[0].p, hist, 0); check_arrays_coo(regs[0].a, hist);
    history<T, SpCooMat<T>>(c, regs, md, hist, fresh);
    // conversion to compressed rows
    if (range == 2) { c.note(hist); c.nontrivial(interesting); return; }        // as many row pointers as rows would be needed
    size_t a = c.below(regs.size()); std::string h2 = cat(hist, " SpMat(#", a, ")");
    { const SpCooMat<T>& src = regs[a].a; SpMat<T> s(src); check_sp<T>(s, regs[a].p, h2, 0); check_sp<T>(src, regs[a].p, h2 + " source", 0);
      PBT_CHECK(s.row_ptr().size() == s.shape().first + 1 && s.row_ptr().back() == s.nnz() && s.col_indices().size() == s.nnz(), h2, ": inconsistent row pointers");
      if (!regs[a].p.e.empty()) { auto it = regs[a].p.e.begin(); auto old = it->second; s.mut_at(it->first.first, it->first.second) = T(77); PBT_CHECK(same(T(regs[a].a(it->first.first, it->first.second)), old), h2, ": shares values with its source"); } }
    { SpCooMat<T> t(regs[a].a); SpMat<T> s(std::move(t)); check_sp<T>(s, regs[a].p, h2 + " by move", 0); for (int k = 0; k < 3; ++k) { auto p = regs[a].p; std::string h3 = h2; SpMat<T> q(s); mutate(c, q, p, md, h3, 0); check_sp<T>(q, p, h3, 0); check_sp<T>(s, regs[a].p, h3 + " original", 0); } }
    c.note(hist); c.nontrivial(interesting);
}
template<typename T> void csr(Ctx& c) {
    auto md = c.pick({Mode::Int, Mode::Real, Mode::Special}); std::string hist = cat("CSR ", tname<T>(), ":");
    bool interesting = false; size_t range = draw_range(c, 1);
    std::function<Reg<T, SpMat<T>>()> fresh = [&]() -> Reg<T, SpMat<T>> {
        if (c.chance(1, 10)) { hist += " default"; return {SpMat<T>(), {}, 0}; }
        if (c.chance(1, 10)) { size_t n = c.below(c.chance(1, 1000) ? 300 : c.chance(1, 20) ? 40 : 12); hist += cat(" unit(", n, ")"); return {SpMat<T>::unit(n), unit_pattern<T>(n), 0}; }
        auto p = ranged<T>(c, range, md); classify(c, p); interesting = interesting || p.e.size() >= 3;
        hist += " new" + p.show();
        if (c.chance(1, 3)) { auto [v, r, k] = p.shuffled(c); SpCooMat<T> t(v, r, k); return {SpMat<T>(t), p, 0}; }
        std::vector<T> v; std::vector<size_t> rp, k; p.csr(c, v, rp, k, 0);
        if (c.chance(1, 2)) { SpMat<T> a(v, rp, k); return {a, p, 0}; }
        return {SpMat<T>(std::move(v), std::move(rp), std::move(k)), p, 0};
    };
    std::vector<Reg<T, SpMat<T>>> regs; regs.reserve(8); regs.push_back(fresh());
    check_sp<T>(regs[0].a, regs[0].p, hist, 0);
    history<T, SpMat<T>>(c, regs, md, hist, fresh);
    c.note(hist); c.nontrivial(interesting);
}
template<typename T> void bad_lengths(Ctx& c) {
    size_t a = c.below(6), b = c.below(6), d = c.below(6); bool mv = c.chance(1, 2);
    std::vector<T> v(a, T(1)); std::vector<size_t> r(b), k(d); for (size_t i = 0; i < b; ++i) { r[i] = i; } for (size_t i = 0; i < d; ++i) { k[i] = i; }
    auto thrown = [&](auto f) { try { f(); } catch (const std::exception&) { return true; } return false; };
    bool t = thrown([&] { if (mv) { auto x = v; auto y = r; auto z = k; SpCooMat<T> m(std::move(x), std::move(y), std::move(z)); } else { SpCooMat<T> m(v, r, k); } });
    PBT_CHECK(t == (a != b || a != d), "SpCooMat from ", a, " values, ", b, " rows, ", d, " columns: ", t ? "rejected" : "accepted");
    std::vector<size_t> rp{0, a};
    t = thrown([&] { if (mv) { auto x = v; auto y = rp; auto z = k; SpMat<T> m(std::move(x), std::move(y), std::move(z)); } else { SpMat<T> m(v, rp, k); } });
    PBT_CHECK(t == (a != d), "SpMat from ", a, " values and ", d, " columns: ", t ? "rejected" : "accepted");
    c.note(cat("lengths ", a, ",", b, ",", d)); c.nontrivial(a != b || a != d); c.label(a != b || a != d ? "inconsistent lengths" : "consistent lengths");
}
FACET_FD("coo", 1000, coo); TYPE_FACET(std::complex<double>, "coo", 300, coo);
FACET_FD("csr", 1000, csr); TYPE_FACET(std::complex<double>, "csr", 300, csr);
FACET_FD("lengths", 300, bad_lengths);
TYPE_FACET(long double, "coo", 200, coo); TYPE_FACET(long double, "csr", 200, csr);
