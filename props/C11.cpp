// C11: growable upper-triangular and upper-Hessenberg matrices
#include "lalib/mat.hpp"
#include "lalib/vec.hpp"
#include <deque>
#include <ranges>
#include <algorithm>
#include "../engine/gen.hpp"
using namespace lalib;

template<typename T> struct Model {
    bool hess; size_t n = 0; std::vector<std::vector<T>> col;       // col[j] holds rows 0..
    bool stored(size_t i, size_t j) const { return hess ? i <= j + 1 : i <= j; }
    T get(size_t i, size_t j) const { return stored(i, j) ? col[j][i] : T(0); }
    // appends one dimension: components in storage order (Hessenberg: the sub-diagonal entry of the previous column first)
    void grow(const std::vector<T>& e) {
        size_t k = 0; if (hess && n > 0) { col[n - 1].push_back(e[k++]); }
        col.emplace_back(); for (size_t i = 0; i <= n; ++i) { col[n].push_back(e[k++]); }
        ++n;
    }
    size_t need() const { return hess ? (n == 0 ? 1 : n + 2) : n + 1; }
    std::vector<T> packed() const { std::vector<T> v; for (auto& c : col) { v.insert(v.end(), c.begin(), c.end()); } return v; }
};
template<typename T, typename M> void check(const M& cm, M& mm, const Model<T>& o, const std::string& what) {
    auto sh = cm.shape(); PBT_CHECK(sh.first == o.n && sh.second == o.n, what, ": shape ", sh.first, "x", sh.second, ", expected order ", o.n);
    for (size_t i = 0; i < o.n; ++i) { for (size_t j = 0; j < o.n; ++j) {
        PBT_CHECK(same(T(cm(i, j)), o.get(i, j)) && same(T(cm.at(i, j)), o.get(i, j)), what, ": element (", i, ",", j, ") of order ", o.n, " is ", cm(i, j), ", expected ", o.get(i, j));
        if (o.stored(i, j)) { PBT_CHECK(same(T(mm(i, j)), o.get(i, j)) && same(T(mm.mut_at(i, j)), o.get(i, j)), what, ": mutable element (", i, ",", j, ") is ", mm(i, j), ", expected ", o.get(i, j)); }
    } }
    if constexpr (requires { cm.get_col(size_t(0)); }) {
        for (size_t j = 0; j < o.n; ++j) {
            auto s = cm.get_col(j); size_t rows = std::min(j + 2, o.n);
            PBT_CHECK(s.size() == rows, what, ": get_col(", j, ") has ", s.size(), " elements, expected ", rows);
            for (size_t i = 0; i < rows; ++i) { PBT_CHECK(same(T(s[i]), o.get(i, j)), what, ": get_col(", j, ")[", i, "] is ", s[i], ", expected ", o.get(i, j)); }
        }
    }
    auto p = o.packed(); for (size_t k = 0; k < p.size(); ++k) { PBT_CHECK(same(mm.data()[k], p[k]), what, ": data()[", k, "] is ", mm.data()[k], ", expected ", p[k]); }
}
// M: kind under test; `def` creates an empty one
template<typename T, bool H, typename M> void history(Ctx& c) {
    auto md = c.pick({Mode::Int, Mode::Real, Mode::Special});
    Model<T> o; o.hess = H; std::string hist = cat(H ? "Hessenberg " : "upper triangular ", tname<T>(), ":");
    size_t writes = 0, grown = 0, rejected = 0;
    auto impossible = [&](size_t k) { for (size_t n = 0; n < 60; ++n) { if (k == n * (n + 1) / 2 + (H && n > 0 ? n - 1 : 0)) { return false; } } return true; };
    if (c.chance(1, 4)) {                // packed data of a length no order has
        size_t k = c.below(40); if (!impossible(k)) { k += 1; if (!impossible(k)) { k += 1; } }
        if (impossible(k)) {
            bool thrown = false; try { M bad(vec<T>(c, k, md)); } catch (const std::exception&) { thrown = true; }
            PBT_CHECK(thrown, hist, " packed data of impossible length ", k, " was accepted"); ++rejected; hist += cat(" packed(", k, ") rejected");
        }
    }
    auto start = [&]() -> M {
        switch (c.below(4)) {
            case 0: hist += " with_capacity"; return M::with_capacity(c.below(50));
            case 1: if constexpr (std::is_default_constructible_v<M>) { hist += " default"; M d; return d; } else { hist += " packed(0)"; return M(std::vector<T>()); }
            default: {
                size_t n = c.below(7); if (c.chance(1, 8)) { n += c.chance(1, 60) ? 200 + c.below(200) : c.below(30); }
                for (size_t k = 0; k < n; ++k) { o.grow(vec<T>(c, o.need(), md)); }
                hist += cat(" packed(order ", n, ")"); return M(o.packed());
            }
        }
    };
    M m = start(); check<T>(m, m, o, hist);
    std::vector<std::pair<M, Model<T>>> others; others.reserve(8);
    size_t steps = o.n > 100 ? 3 : 2 + c.below(c.chance(1, 10) ? (c.chance(1, 20) ? 160 : 50) : 14);
    for (size_t s = 0; s < steps; ++s) {
        switch (c.below(8)) {
            case 0: m.extend_with_zero(); o.grow(std::vector<T>(o.need(), T(0))); ++grown; hist += " extend_with_zero"; break;
            case 1: case 2: { auto e = vec<T>(c, o.need(), md); auto t = e; m.extend_with(std::move(t)); o.grow(e); ++grown; hist += cat(" extend_with", show(e)); break; }
            case 3: {                     // wrong length
                size_t k = c.chance(1, 2) ? o.need() + 1 : c.chance(1, 2) ? o.need() - 1 : c.below(12); if (k == o.need()) { k += 1; }
                auto t = vec<T>(c, k, md); bool thrown = false; try { m.extend_with(std::move(t)); } catch (const std::exception&) { thrown = true; }
                hist += cat(" extend_with(", k, " of ", o.need(), ")"); PBT_CHECK(thrown, hist, ": component list of the wrong length was accepted"); ++rejected; break;
            }
            case 4: if (others.size() < 3) { others.emplace_back(m, o); hist += " copy"; if (c.chance(1, 2)) { others.back().first.extend_with_zero(); others.back().second.grow(std::vector<T>(o.need(), T(0))); hist += "+extend"; } } break;
            default: {
                if (o.n == 0) { break; }
                size_t i = c.below(o.n), j = c.below(o.n); if (!o.stored(i, j) && c.chance(2, 3)) { std::swap(i, j); }
                bool at = c.chance(1, 2); T x = val<T>(c, md); hist += cat(at ? " mut_at(" : " (", i, ",", j, ")=", x);
                bool thrown = false, twice = c.chance(1, 5); T* held = nullptr; try { T& r = at ? m.mut_at(i, j) : m(i, j); r = x; held = &r; } catch (const std::exception&) { thrown = true; }
                if (o.stored(i, j)) { PBT_CHECK(!thrown, hist, ": a representable entry rejected the write"); o.col[j][i] = x; ++writes;
                    if (twice) { check<T>(m, m, o, hist); x = val<T>(c, md); hist += cat(" then ", x, " through the same reference"); *held = x; o.col[j][i] = x; } }
                else { PBT_CHECK(thrown, hist, ": a writable reference to a structural zero was handed out"); ++rejected; }
            }
        }
        check<T>(m, m, o, hist);
        for (auto& [v, w] : others) { check<T>(v, v, w, hist + " (copy)"); }
    }
    c.label(H ? "Hessenberg" : "upper triangular"); if (grown) { c.label("grown"); } if (writes && grown) { c.label("written and grown"); } if (rejected) { c.label("rejected request"); }
    c.label(o.n < 4 ? "order <4" : o.n < 10 ? "order 4..9" : "order >=10");
    c.note(hist); c.nontrivial(grown >= 2);
}
template<typename T> void hess(Ctx& c) { history<T, true, HessenbergMat<T>>(c); }
template<typename T> void upper(Ctx& c) { history<T, false, DynUpperTriMat<T>>(c); }

template<typename T> long double wide_re(const T& x) { if constexpr (is_cx<T>) { return x.real(); } else { return x; } }
template<typename T> void backsub(Ctx& c) {
    size_t n = order(c, 1, c.chance(1, 60) ? 400 : 60); auto mode = n > 60 ? Mode::Real : c.pick({Mode::Int, Mode::Real});
    std::vector<std::vector<T>> u(n, std::vector<T>(n, T(0))); std::vector<T> packed;
    // growth of the solution is limited by the row sums, so that float cannot overflow
    for (size_t j = 0; j < n; ++j) { auto e = vec<T>(c, j + 1, mode, 2); for (size_t i = 0; i <= j; ++i) {
        T x = e[i]; if (i < j) { if (mode == Mode::Real && n > 8) { x /= static_cast<T>(n); } if (mode == Mode::Int && n > 12) { x = c.chance(1, 4) ? x : T(0); } }
        if (i == j) { T s = wide_re(x) < 0 ? T(-1) : T(1); x = mode == Mode::Int ? s * c.pick<T>({T(1), T(2), T(1), T(0.5)}) : x + s * c.pick<T>({T(1), T(0.25), T(3)}); }
        u[i][j] = x; } }
    for (size_t j = 0; j < n; ++j) { for (size_t i = 0; i <= j; ++i) { packed.push_back(u[i][j]); } }
    auto b = vec<T>(c, n, mode, 3); const DynUpperTriMat<T> m(std::vector<T>(packed.begin(), packed.end()));
    size_t kind = c.below(7); std::vector<T> x = b;
    auto solve = [&](std::vector<T> r) {
        switch (kind) {
            case 0: m.back_sub(r); return r;
            case 1: { std::span<T> sp(r); m.back_sub(sp); return r; }
            case 2: { DynVec<T> d(r); m.back_sub(d); PBT_CHECK(d.size() == r.size(), "back_sub changed the size of a DynVec"); return std::vector<T>(d.begin(), d.end()); }
            case 4: { std::deque<T> d(r.begin(), r.end()); for (size_t q = 0; q < r.size() % 5; ++q) { d.push_front(T(98)); } for (size_t q = 0; q < r.size() % 5; ++q) { d.pop_front(); } m.back_sub(d); PBT_CHECK(d.size() == r.size(), "back_sub changed the size of a deque"); return std::vector<T>(d.begin(), d.end()); }
            case 5: { std::vector<T> l(r.size() + 4, T(99)); std::reverse_copy(r.begin(), r.end(), l.begin() + 2); m.back_sub(l | std::views::drop(2) | std::views::take(r.size()) | std::views::reverse);
                      PBT_CHECK(l[0] == T(99) && l[1] == T(99) && l[r.size() + 2] == T(99) && l[r.size() + 3] == T(99), "back_sub wrote outside of a reversed view"); std::vector<T> o(r.size()); std::reverse_copy(l.begin() + 2, l.end() - 2, o.begin()); return o; }
            case 6: { std::vector<std::pair<int, T>> l(r.size()); for (size_t q = 0; q < r.size(); ++q) { l[q] = {7, r[q]}; } m.back_sub(l | std::views::values); std::vector<T> o(r.size()); for (size_t q = 0; q < r.size(); ++q) { PBT_CHECK(l[q].first == 7, "back_sub wrote between the elements of a strided view"); o[q] = l[q].second; } return o; }
            default: { auto l = r; l.push_back(T(99)); m.back_sub(l | std::views::take(r.size())); PBT_CHECK(l.back() == T(99), "back_sub wrote behind a view"); l.pop_back(); return l; }
        }
    };
    x = solve(b);
    c.note(cat("back_sub ", tname<T>(), " n=", n, " packed=", show(packed), " b=", show(b))); c.nontrivial(n >= 2);
    c.label(n < 4 ? "back_sub order <4" : n < 16 ? "back_sub order 4..15" : "back_sub order >=16");
    for (size_t i = 0; i < n; ++i) {
        W<T> r = wide(b[i]); long double s = amag(b[i]), f = is_cx<T> ? 4 : 1;
        for (size_t j = i; j < n; ++j) { r -= wide(u[i][j]) * wide(x[j]); s += mag(wide(u[i][j]) * wide(x[j])); }
        auto tol = f * (static_cast<long double>(n) + 4) * U<T> * s;
        PBT_CHECK(finite(x[i]), "back_sub: solution element ", i, " is ", x[i]);
        PBT_CHECK(mag(r) <= tol, "back_sub [", tname<T>(), " n=", n, "]: residual ", r, " in row ", i, ", allowed ", tol);
    }
    auto again = solve(b); for (size_t i = 0; i < n; ++i) { PBT_CHECK(same(again[i], x[i]), "back_sub: a second substitution gives another result at ", i); }
    // wrong length: rejected, right-hand side unchanged
    size_t k = c.chance(1, 2) ? n + 1 : c.chance(1, 2) ? n - 1 : c.below(2 * n + 3); if (k == n) { k = n + 2; }
    auto w = vec<T>(c, k, Mode::Int), w0 = w; bool thrown = false; try { m.back_sub(w); } catch (const std::exception&) { thrown = true; }
    PBT_CHECK(thrown, "back_sub: right-hand side of length ", k, " for order ", n, " was accepted"); expect_unchanged(w, w0, "rejected right-hand side of back_sub");
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { PBT_CHECK(same(T(m(i, j)), u[i][j]), "back_sub changed the matrix"); } }
}
FACET_FD("hessenberg", 700, hess); TYPE_FACET(std::complex<double>, "hessenberg", 250, hess);
FACET_FD("upper", 700, upper); TYPE_FACET(std::complex<float>, "upper", 250, upper);
FACET_FD("backsub", 900, backsub); TYPE_FACET(std::complex<double>, "backsub", 400, backsub); TYPE_FACET(std::complex<float>, "backsub", 300, backsub);
