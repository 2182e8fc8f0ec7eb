// C13: histories of additions, subtractions, scalings and negations of sparse matrices
#include "lalib/mat.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
#include "lalib/ops/mat_ops.hpp"
#include "../engine/sparse.hpp"
using namespace lalib;

template<typename T, typename M> void check_sp(const M& a, const Pattern<T>& p, const std::string& what, size_t min_rows = 0) {
    auto sh = a.shape(); size_t rows = std::max(p.rows(), min_rows);
    PBT_CHECK(a.nnz() == p.e.size(), what, ": nnz() is ", a.nnz(), ", expected ", p.e.size());
    PBT_CHECK(sh.first == rows && sh.second == p.cols(), what, ": shape ", sh.first, "x", sh.second, ", expected ", rows, "x", p.cols());
    if (rows < 1000 && p.cols() < 1000 && rows * p.cols() * p.e.size() < 20000) {
        for (size_t i = 0; i < rows + 1; ++i) { for (size_t j = 0; j < p.cols() + 1; ++j) { T w = p.get(i, j); PBT_CHECK(same(T(a(i, j)), w), what, ": element (", i, ",", j, ") is ", a(i, j), ", expected ", w); } }
    } else {
        for (auto& [k, w] : p.e) { PBT_CHECK(same(T(a(k.first, k.second)), w), what, ": element (", k.first, ",", k.second, ") is ", a(k.first, k.second), ", expected ", w); }
        probe(p, rows, [&](size_t i, size_t j) { PBT_CHECK(same(T(a(i, j)), p.get(i, j)), what, ": element (", i, ",", j, ") is ", a(i, j), ", expected ", p.get(i, j)); });
    }
    if constexpr (requires { a.row_indices(); }) {
        PBT_CHECK(a.values().size() == p.e.size() && a.row_indices().size() == p.e.size() && a.col_indices().size() == p.e.size(), what, ": value and index arrays have different lengths");
        std::map<std::pair<size_t, size_t>, int> seen;
        for (size_t q = 0; q < p.e.size(); ++q) {
            size_t i = a.row_indices()[q], j = a.col_indices()[q];
            PBT_CHECK(p.has(i, j) && same(T(a.values()[q]), p.get(i, j)), what, ": stored entry (", i, ",", j, ")=", a.values()[q], " should not be there");
            PBT_CHECK(++seen[std::make_pair(i, j)] == 1, what, ": position (", i, ",", j, ") is stored twice");
        }
    }
}
template<typename T> T factor(Ctx& c, Mode md) {
    if constexpr (is_cx<T>) { return c.pick({T(2, 0), T(0, 1), T(-1, 0), T(0, 0), T(1, 1), T(0, -1), T(1, 0)}); }
    else { return coef<T>(c, md); }
}
// sometimes the factor is an element of the matrix itself
template<typename T, typename M> const T& own_element(Ctx& c, M& m, const Pattern<T>& p, T& f) {
    if (p.e.empty() || !c.chance(1, 5)) { return f; }
    auto it = p.e.begin(); std::advance(it, static_cast<long>(c.below(p.e.size())));
    if (amag(it->second) > 100) { return f; }
    f = it->second; return std::as_const(m)(it->first.first, it->first.second);
}
template<typename T> Pattern<T> combine(const Pattern<T>& a, const Pattern<T>& b, bool minus) {
    Pattern<T> r = a;
    for (auto& [k, v] : b.e) { auto it = r.e.find(k); if (it == r.e.end()) { r.e[k] = minus ? T(-v) : v; } else { it->second = minus ? T(it->second - v) : T(it->second + v); } }
    return r;
}
template<typename T> long double largest(const Pattern<T>& p) { long double m = 0; for (auto& [k, v] : p.e) { m = std::max(m, amag(v)); } return m; }
template<typename T> struct Reg { SpCooMat<T> a; Pattern<T> p; };

template<typename T> void history(Ctx& c) {
    auto md = is_cx<T> ? Mode::Int : c.pick({Mode::Int, Mode::Real, Mode::Wide});
    std::string hist = cat("COO ", tname<T>(), ":");
    size_t frame = c.chance(1, 2) ? c.range(2, 6) : 0;       // half of the cases share one shape
    size_t range = c.chance(1, 30) ? 1 + c.below(2) : 0; if (range) { c.label(range == 1 ? "scattered indices" : "many entries"); }
    auto fresh = [&]() -> Reg<T> {
        if (c.chance(1, 12)) { hist += " empty"; return {SpCooMat<T>(), {}}; }
        if (c.chance(1, 12)) { size_t n = c.below(9); hist += cat(" unit(", n, ")"); return {SpCooMat<T>::unit(n), unit_pattern<T>(n)}; }
        auto p = range == 1 ? scattered<T>(c, md, c.pick<size_t>({300, 4000, 70000, size_t(1) << 32, size_t(1) << 33, size_t(1) << 48}), c.pick<size_t>({300, 70000, size_t(1) << 33, size_t(1) << 48})) : range == 2 ? crowded<T>(c, md, 1500) : draw_pattern<T>(c, frame, md, true, 2); auto [v, r, k] = p.shuffled(c); hist += " new" + p.show();
        return {SpCooMat<T>(v, r, k), p};
    };
    std::vector<Reg<T>> reg; size_t nreg = 2 + c.below(2); for (size_t i = 0; i < nreg; ++i) { reg.push_back(fresh()); }
    for (size_t i = 0; i < nreg; ++i) { check_sp<T>(reg[i].a, reg[i].p, cat(hist, " -> #", i)); }
    size_t steps = 1 + c.below(8), unions = 0;
    for (size_t s = 0; s < steps; ++s) {
        size_t a = c.below(nreg), b = c.below(nreg), t = c.below(nreg);
        auto op = c.below(12);
        if (is_cx<T> && (op == 4 || op == 5 || op == 8)) { op = 0; }
        if (is_cx<T> && (largest(reg[a].p) > 1e5 || largest(reg[b].p) > 1e5)) { break; }
        auto count = [&](const Pattern<T>& x, const Pattern<T>& y) {
            size_t shared = 0; for (auto& [k, v] : y.e) { shared += x.e.count(k); }
            bool part = shared && shared < y.e.size() ; if (part) { ++unions; }
            c.label(x.e.empty() || y.e.empty() ? "an empty operand" : !shared ? "disjoint patterns" : part ? "partly shared patterns" : "right pattern contained in left");
            if (x.rows() != y.rows() || x.cols() != y.cols()) { c.label("different shapes"); } if (x.has_empty_row() || y.has_empty_row()) { c.label("operand with an empty row"); }
        };
        switch (op) {
            case 0: case 1: { hist += cat(" #", t, "=#", a, "+#", b); count(reg[a].p, reg[b].p); size_t h = draw_temps(c); hist += std::string(h, '\''); SpCooMat<T> r = with_temps<SpCooMat<T>>(h, reg[a].a, reg[b].a, [](auto&& x, auto&& y) { return FWD(x) + FWD(y); }); auto p = combine(reg[a].p, reg[b].p, false);
                check_sp<T>(reg[a].a, reg[a].p, hist + " (left operand)"); check_sp<T>(reg[b].a, reg[b].p, hist + " (right operand)"); reg[t].a = std::move(r); reg[t].p = p; break; }
            case 2: case 3: { if (a == b) { c.label("added to itself"); } hist += cat(" #", a, "+=#", b); count(reg[a].p, reg[b].p); auto p = combine(reg[a].p, reg[b].p, false);
                size_t h = draw_temps(c) & 1; if (h) { hist += "'"; } auto& r = h ? (reg[a].a += SpCooMat<T>(reg[b].a)) : (reg[a].a += reg[b].a); PBT_CHECK(&r == &reg[a].a, hist, ": += does not return the left operand"); reg[a].p = p; break; }
            case 4: case 5: if constexpr (!is_cx<T>) { hist += cat(" #", t, "=#", a, "-#", b); count(reg[a].p, reg[b].p); size_t h = draw_temps(c); hist += std::string(h, '\''); SpCooMat<T> r = with_temps<SpCooMat<T>>(h, reg[a].a, reg[b].a, [](auto&& x, auto&& y) { return FWD(x) - FWD(y); }); auto p = combine(reg[a].p, reg[b].p, true);
                check_sp<T>(reg[a].a, reg[a].p, hist + " (left operand)"); check_sp<T>(reg[b].a, reg[b].p, hist + " (right operand)"); reg[t].a = r; reg[t].p = p; } break;
            case 6: { T f = factor<T>(c, md); const T& fr = own_element(c, reg[a].a, reg[a].p, f); hist += cat(" scale(", f, &fr != &f ? "(own element)" : "", ",#", a, ")"); auto& r = scale(fr, reg[a].a); PBT_CHECK(&r == &reg[a].a, hist, ": scale does not return its operand"); for (auto& [k, v] : reg[a].p.e) { v = f * v; } c.label("scale"); break; }
            case 7: { T f = factor<T>(c, md); const T& fr = own_element(c, reg[a].a, reg[a].p, f); hist += cat(" #", t, "=", f, &fr != &f ? "(own element)" : "", "*#", a); size_t h = draw_temps(c); hist += std::string(h, '\''); SpCooMat<T> r = with_temp<SpCooMat<T>>(h, reg[a].a, [&](auto&& x) { return fr * FWD(x); }); check_sp<T>(reg[a].a, reg[a].p, hist + " (operand)"); auto p = reg[a].p; for (auto& [k, v] : p.e) { v = f * v; } reg[t].a = r; reg[t].p = p; c.label("scale"); break; }
            case 8: if constexpr (!is_cx<T>) { hist += cat(" #", t, "=-#", a); size_t h = draw_temps(c); hist += std::string(h, '\''); SpCooMat<T> r = with_temp<SpCooMat<T>>(h, reg[a].a, [](auto&& x) { return -FWD(x); }); check_sp<T>(reg[a].a, reg[a].p, hist + " (operand)"); auto p = reg[a].p; for (auto& [k, v] : p.e) { v = -v; } reg[t].a = r; reg[t].p = p; c.label("negate"); } break;
            case 9: { auto r = fresh(); reg[t].a = r.a; reg[t].p = r.p; break; }
            case 10: { // through the compressed-row form
                if (reg[a].p.rows() > 100000) { break; }      // as many row pointers as rows would be needed
                hist += cat(" csr#", a); SpMat<T> m(reg[a].a); auto p = reg[a].p; check_sp<T>(m, p, hist);
                auto back = m; auto bp = p;
                for (size_t q = 0, e = 1 + c.below(3); q < e; ++q) {
                    T f = factor<T>(c, md);
                    if (is_cx<T> && largest(p) > 1e5) { break; }
                    switch (c.below(is_cx<T> ? 2 : 3)) {
                        case 0: { const T& fr = own_element(c, m, p, f); hist += cat(" scale(", f, ")"); auto& r = scale(fr, m); PBT_CHECK(&r == &m, hist, ": scale does not return its operand"); for (auto& [k, v] : p.e) { v = f * v; } break; }
                        case 1: { const T& fr = own_element(c, m, p, f); hist += cat(" ", f, "*"); size_t h = draw_temps(c); hist += std::string(h, '\''); SpMat<T> r = with_temp<SpMat<T>>(h, m, [&](auto&& x) { return fr * FWD(x); }); check_sp<T>(m, p, hist + " (operand)"); for (auto& [k, v] : p.e) { v = f * v; } m = r; break; }
                        default: if constexpr (!is_cx<T>) { hist += " neg"; size_t h = draw_temps(c); hist += std::string(h, '\''); SpMat<T> r = with_temp<SpMat<T>>(h, m, [](auto&& x) { return -FWD(x); }); check_sp<T>(m, p, hist + " (operand)"); for (auto& [k, v] : p.e) { v = -v; } m = std::move(r); }
                    }
                    check_sp<T>(m, p, hist); check_sp<T>(back, bp, hist + " (copy)");
                }
                c.label("compressed-row scale/negate");
                break; }
            default: if (!reg[a].p.e.empty()) { auto it = reg[a].p.e.begin(); std::advance(it, static_cast<long>(c.below(reg[a].p.e.size()))); T x = val<T>(c, md); hist += cat(" #", a, "(", it->first.first, ",", it->first.second, ")=", x); reg[a].a.mut_at(it->first.first, it->first.second) = x; it->second = x; }
        }
        for (size_t i = 0; i < nreg; ++i) { check_sp<T>(reg[i].a, reg[i].p, cat(hist, " -> #", i)); }
    }
    c.note(hist); c.nontrivial(unions > 0);
}
FACET_ALL("history", 1200, history);
TYPE_FACET(long double, "history", 250, history);
