// C10: packed tri-diagonal, lower-triangular and symmetric matrices
#include "lalib/mat.hpp"
#include <utility>
#include "../engine/gen.hpp"
using namespace lalib;

enum Kind { TRI, LOWER, HERM };
static const char* kn[] = {"tri-diagonal", "lower triangular", "symmetric"};
template<typename T> struct Dense {
    Kind kind; size_t n; std::vector<T> e;
    T& operator()(size_t i, size_t j) { return e[i * n + j]; }
    const T& operator()(size_t i, size_t j) const { return e[i * n + j]; }
    bool stored(size_t i, size_t j) const { return kind == TRI ? (i <= j + 1 && j <= i + 1) : kind == LOWER ? j <= i : true; }
    void set(size_t i, size_t j, T x) { (*this)(i, j) = x; if (kind == HERM) { (*this)(j, i) = x; } }
};
template<typename M> constexpr bool has_tri = requires(M& m) { m.data_dl(); };
template<typename T, typename M> void check(const M& cm, M& mm, const Dense<T>& o, const std::string& what, bool through_mut) {
    auto sh = cm.shape();
    PBT_CHECK(sh.first == o.n && sh.second == o.n, what, ": shape ", sh.first, "x", sh.second, ", expected order ", o.n);
    std::vector<T> got(o.n * o.n);
    // two passes: the values are collected first, so that a reference to a temporary is seen
    for (size_t i = 0; i < o.n; ++i) { for (size_t j = 0; j < o.n; ++j) { const T& r = cm(i, j); const T& q = cm.at(i, j); got[i * o.n + j] = r; PBT_CHECK(same(T(q), o(i, j)), what, ": at(", i, ",", j, ") is ", q, ", expected ", o(i, j)); } }
    for (size_t i = 0; i < o.n; ++i) { for (size_t j = 0; j < o.n; ++j) { PBT_CHECK(same(got[i * o.n + j], o(i, j)), what, ": element (", i, ",", j, ") of order ", o.n, " is ", got[i * o.n + j], ", expected ", o(i, j)); } }
    if (!through_mut) { return; }
    for (size_t i = 0; i < o.n; ++i) { for (size_t j = 0; j < o.n; ++j) { if (o.stored(i, j)) {
        PBT_CHECK(same(T(mm(i, j)), o(i, j)) && same(T(mm.mut_at(i, j)), o(i, j)), what, ": mutable element (", i, ",", j, ") is ", mm(i, j), ", expected ", o(i, j)); } } }
    if constexpr (has_tri<M>) {
        for (size_t i = 0; i < o.n; ++i) {
            PBT_CHECK(same(cm.data_d()[i], o(i, i)) && same(mm.data_d()[i], o(i, i)), what, ": data_d()[", i, "]");
            if (i + 1 < o.n) { PBT_CHECK(same(cm.data_dl()[i], o(i + 1, i)) && same(mm.data_dl()[i], o(i + 1, i)), what, ": data_dl()[", i, "]"); PBT_CHECK(same(cm.data_du()[i], o(i, i + 1)) && same(mm.data_du()[i], o(i, i + 1)), what, ": data_du()[", i, "]"); }
        }
    } else {
        size_t k = 0;
        for (size_t i = 0; i < o.n; ++i) { for (size_t j = 0; j <= i; ++j, ++k) { PBT_CHECK(same(cm.lower_data()[k], o(i, j)) && same(mm.lower_data()[k], o(i, j)), what, ": lower_data()[", k, "] is ", cm.lower_data()[k], ", expected element (", i, ",", j, ") = ", o(i, j)); } }
    }
}
template<typename T, typename M> void history(Ctx& c, M m, Dense<T> o, Mode md, std::string hist) {
    check<T>(m, m, o, hist, true);
    std::vector<std::pair<M, Dense<T>>> others;
    size_t steps = c.below(o.n > 60 ? 4 : 14); size_t writes = 0, rejected = 0;
    for (size_t s = 0; s < steps; ++s) {
        switch (c.below(8)) {
            case 7: if (others.size() < 3) { others.emplace_back(m, o); hist += " copy"; } break;
            case 6:
                if constexpr (!has_tri<M>) { if (o.n) { size_t k = c.below(o.n * (o.n + 1) / 2), i = 0; while ((i + 1) * (i + 2) / 2 <= k) { ++i; } T x = val<T>(c, md); m.lower_data()[k] = x; o.set(i, k - i * (i + 1) / 2, x); ++writes; hist += cat(" lower_data[", k, "]=", x); } }
                else { if (o.n > 1) { size_t i = c.below(o.n - 1); T x = val<T>(c, md); switch (c.below(3)) { case 0: m.data_dl()[i] = x; o.set(i + 1, i, x); break; case 1: m.data_du()[i] = x; o.set(i, i + 1, x); break; default: m.data_d()[i] = x; o.set(i, i, x); } ++writes; hist += cat(" data[", i, "]=", x); } }
                break;
            case 5: if (!others.empty()) { auto k = c.below(others.size()); m = others[k].first; auto oo = others[k].second; o = oo; hist += " assign"; } break;
            default: {
                if (o.n == 0) { break; }
                size_t i = c.below(o.n), j;
                if (o.kind == TRI && !c.chance(1, 4)) { long q = static_cast<long>(i) + c.zig(1); j = q < 0 ? 0 : std::min<size_t>(static_cast<size_t>(q), o.n - 1); } else { j = c.below(o.n); }
                bool at = c.chance(1, 2); T x = val<T>(c, md);
                hist += cat(at ? " mut_at(" : " (", i, ",", j, ")=", x);
                bool thrown = false, twice = c.chance(1, 5); T* held = nullptr;
                try { T& r = at ? m.mut_at(i, j) : m(i, j); r = x; held = &r; } catch (const std::exception&) { thrown = true; }
                if (o.stored(i, j)) { PBT_CHECK(!thrown, hist, ": a representable entry rejected the write"); o.set(i, j, x); ++writes;
                    if (twice) { check<T>(m, m, o, hist, true); x = val<T>(c, md); hist += cat(" then ", x, " through the same reference"); *held = x; o.set(i, j, x); } }
                else { PBT_CHECK(thrown, hist, ": a writable reference to a structural zero was handed out"); ++rejected; }
            }
        }
        check<T>(m, m, o, hist, (s & 1) != 0);
        for (auto& [v, w] : others) { check<T>(v, v, w, hist + " (copy)", false); }
    }
    check<T>(m, m, o, hist, true);
    if constexpr (requires { m.into_lower_mat(); }) {
        if (c.chance(1, 2)) {
            auto l = m.into_lower_mat(); o.kind = LOWER; for (size_t i = 0; i < o.n; ++i) { for (size_t j = i + 1; j < o.n; ++j) { o(i, j) = T(0); } }
            hist += " into_lower_mat"; check<T>(l, l, o, hist, true);
            if (o.n > 1) { bool thrown = false; try { l(0, o.n - 1) = T(1); } catch (const std::exception&) { thrown = true; } PBT_CHECK(thrown, hist, ": a writable reference above the diagonal was handed out"); check<T>(l, l, o, hist, true); }
        }
    }
    if (writes) { c.label("writes"); } if (rejected) { c.label("rejected write"); }
    c.note(hist); c.nontrivial(o.n >= 2 && writes > 0);
}
template<typename T> Dense<T> make(Ctx& c, Kind k, size_t n, Mode md, std::vector<T>& p, std::vector<T>& q, std::vector<T>& r) {
    Dense<T> o{k, n, std::vector<T>(n * n, T(0))};
    if (k == TRI) {
        p = vec<T>(c, n ? n - 1 : 0, md); q = vec<T>(c, n, md); r = vec<T>(c, n ? n - 1 : 0, md);
        for (size_t i = 0; i < n; ++i) { o(i, i) = q[i]; if (i + 1 < n) { o(i + 1, i) = p[i]; o(i, i + 1) = r[i]; } }
    } else {
        p = vec<T>(c, n * (n + 1) / 2, md);
        size_t x = 0; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j <= i; ++j) { o.set(i, j, p[x++]); } }
    }
    c.label(cat(kn[k], n == 1 ? " order 1" : n == 2 ? " order 2" : n < 8 ? " order 3..7" : " order >=8"));
    return o;
}
template<typename T> void dyn(Ctx& c) {
    auto k = static_cast<Kind>(c.below(is_cx<T> ? 2 : 3)); size_t n = order(c, 1, c.chance(1, 200) ? (c.chance(1, 5) ? 400 : 150) : 20); auto md = c.pick({Mode::Int, Mode::Real, Mode::Special});
    std::vector<T> p, q, r; auto o = make<T>(c, k, n, md, p, q, r);
    auto hist = cat("Dyn ", kn[k], " ", tname<T>(), " order ", n, ":");
    bool mv = c.chance(1, 2);
    if (k == TRI) { if (mv) { auto a = p, b = q, d = r; history<T>(c, DynTriDiagMat<T>(std::move(a), std::move(b), std::move(d)), o, md, hist); } else { history<T>(c, DynTriDiagMat<T>(p, q, r), o, md, hist); } }
    else if (k == LOWER) { history<T>(c, DynLowerTriMat<T>(n, std::move(p)), o, md, hist); }
    else { history<T>(c, DynHermiteMat<T>(n, std::move(p)), o, md, hist); }
}
template<typename T, size_t N> void sized_n(Ctx& c) {
    auto k = static_cast<Kind>(c.below(is_cx<T> ? 2 : 3)); auto md = c.pick({Mode::Int, Mode::Real, Mode::Special});
    std::vector<T> p, q, r; auto o = make<T>(c, k, N, md, p, q, r);
    auto hist = cat("Sized ", kn[k], " ", tname<T>(), " order ", N, ":");
    auto arr = [](auto& a, const std::vector<T>& v) { std::copy(v.begin(), v.end(), a.begin()); };
    if (k == TRI) { std::array<T, N - 1> a, d; std::array<T, N> b; arr(a, p); arr(b, q); arr(d, r); history<T>(c, SizedTriDiagMat<T, N>(a, b, d), o, md, hist); }
    else { std::array<T, N * (N + 1) / 2> a; arr(a, p); if (k == LOWER) { history<T>(c, SizedLowerTriMat<T, N>(a), o, md, hist); } else { history<T>(c, SizedHermiteMat<T, N>(a), o, md, hist); } }
}
template<typename T> void sized(Ctx& c) { if (c.chance(1, 150)) { sized_n<T, 270>(c); return; } any_n(c, Sizes<3, 1, 2, 4, 5, 8, 13>{}, [&]<size_t N>() { sized_n<T, N>(c); }); }
// the symmetric kind is claimed for real elements only
FACET_ALL("dyn", 900, dyn);
TYPE_FACET(long double, "dyn", 200, dyn);
FACET_FD("sized", 900, sized);
