// C05: dense vectors and matrices as row-major value arrays, under histories
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include <optional>
#include "../engine/gen.hpp"
using namespace lalib;

static const Mode modes[] = {Mode::Int, Mode::Real, Mode::Special};

// a pointer to an element is taken now and written through in a later step: it denotes the element until the object is assigned to or moved from
template<typename R, typename T> void hold(Ctx& c, R& r, std::vector<T>& m, Mode md, size_t a, std::string& hist, bool& written) {
    if (m.empty()) { return; }
    if (r.held && !c.chance(1, 4)) { T x = val<T>(c, md); *r.held = x; m[r.at] = x; hist += cat(" held#", a, "[", r.at, "]=", x); written = true; c.label("write through a pointer taken in an earlier step"); return; }
    r.at = c.below(m.size());
    switch (c.below(3)) { case 0: r.held = r.v.data() + r.at; break; case 1: r.held = &*(r.v.begin() + static_cast<long>(r.at)); break;
        default: if constexpr (requires { r.v[r.at]; }) { r.held = &r.v[r.at]; } else { auto w = r.v.shape().second; r.held = c.chance(1, 2) ? &r.v(r.at / w, r.at % w) : &r.v.mut_at(r.at / w, r.at % w); } }
    hist += cat(" hold#", a, "[", r.at, "]");
}
// ---- vectors
template<typename T, typename V> void check_vec(const V& cv, V& v, const std::vector<T>& m, const std::string& what) {
    PBT_CHECK(cv.size() == m.size(), what, ": size ", cv.size(), ", expected ", m.size());
    size_t i = 0;
    for (const T& e : cv) { PBT_CHECK(i < m.size() && same(e, m[i]), what, ": iteration shows ", e, " at ", i); ++i; }
    PBT_CHECK(i == m.size(), what, ": iteration visited ", i, " elements");
    i = 0; for (T& e : v) { PBT_CHECK(same(e, m[i]), what, ": mutable iteration shows ", e, " at ", i); ++i; }
    PBT_CHECK(i == m.size(), what, ": mutable iteration visited ", i, " elements");
    i = 0; for (auto it = v.cbegin(); it != v.cend(); ++it) { PBT_CHECK(same(T(*it), m[i]), what, ": cbegin/cend shows ", *it, " at ", i); ++i; }
    PBT_CHECK(i == m.size(), what, ": cbegin/cend visited ", i, " elements");
    for (i = 0; i < m.size(); ++i) {
        PBT_CHECK(same(cv[i], m[i]), what, ": [", i, "] is ", cv[i], ", expected ", m[i]);
        PBT_CHECK(same(v[i], m[i]), what, ": mutable [", i, "] is ", v[i], ", expected ", m[i]);
        PBT_CHECK(same(cv.data()[i], m[i]) && same(v.data()[i], m[i]), what, ": data()[", i, "] is ", cv.data()[i], ", expected ", m[i]);
    }
}
template<typename T, typename V> void write_vec(Ctx& c, V& v, std::vector<T>& m, Mode md) {
    if (m.empty()) { return; }
    size_t i = c.below(m.size()); T x = val<T>(c, md);
    T* p; size_t how = c.below(3);
    switch (how) { case 0: p = &v[i]; break; case 1: p = v.data() + i; break; default: p = &*(v.begin() + static_cast<long>(i)); }
    *p = x; m[i] = x;
    if (c.chance(1, 4)) { check_vec<T>(v, v, m, "after a write"); x = val<T>(c, md); *p = x; m[i] = x; check_vec<T>(std::as_const(v), v, m, "after a write through a reference taken before other reads"); }
}
inline size_t small_len(Ctx& c) { return c.chance(1, 12) ? (c.chance(1, 60) ? c.below(70000) : c.below(300)) : c.below(12); }

template<typename T> void dynvec(Ctx& c) {
    auto md = modes[c.below(3)];
    struct R { DynVec<T> v; std::vector<T> m; T* held = nullptr; size_t at = 0; };
    std::vector<R> regs; std::string hist = cat("DynVec<", tname<T>(), ">");
    size_t steps = 3 + c.below(22); bool copied = false, written = false;
    auto fresh = [&]() -> R {
        size_t n = small_len(c); std::vector<T> m = vec<T>(c, n, md);
        switch (c.below(6)) {
            case 0: hist += cat(" new(vector,", n, ")"); return {DynVec<T>(m), m};
            case 1: { auto t = m; hist += cat(" new(vector&&,", n, ")"); return {DynVec<T>(std::move(t)), m}; }
            case 2: { T a = val<T>(c, md), b = val<T>(c, md), d = val<T>(c, md); hist += " new{3}"; return {DynVec<T>({a, b, d}), {a, b, d}}; }
            case 3: { T a = val<T>(c, md); hist += cat(" filled(", n, ")"); return {DynVec<T>::filled(n, a), std::vector<T>(n, a)}; }
            case 4: { auto v = DynVec<T>::uninit(n); PBT_CHECK(v.size() == n, "uninit(", n, ") has size ", v.size()); for (size_t i = 0; i < n; ++i) { v[i] = m[i]; } hist += cat(" uninit(", n, ")"); return {v, m}; }
            default: hist += " new()"; return {DynVec<T>(), {}};
        }
    };
    regs.reserve(8); regs.push_back(fresh());
    for (size_t s = 0; s < steps; ++s) {
        size_t a = c.below(regs.size()), b = c.below(regs.size());
        switch (c.below(9)) {
            case 7: case 8: hold(c, regs[a], regs[a].m, md, a, hist, written); break;
            case 0: if (regs.size() < 5) { regs.push_back(fresh()); } break;
            case 1: case 2: write_vec(c, regs[a].v, regs[a].m, md); hist += cat(" write#", a); written = true; break;
            case 3: regs[a].v = regs[b].v; regs[a].held = nullptr; regs[a].m = std::vector<T>(regs[b].m); hist += cat(" #", a, "=#", b); copied = true; break;
            case 4: if (regs.size() < 5) { regs.push_back({DynVec<T>(regs[a].v), regs[a].m}); hist += cat(" copy#", a); copied = true; } break;
            case 5: { DynVec<T> t(regs[b].v); auto m = regs[b].m; regs[a].v = std::move(t); regs[a].held = nullptr; regs[a].m = m; hist += cat(" #", a, "=move(copy#", b, ")"); copied = true; break; }
            default: { DynVec<T> t(std::move(regs[a].v)); regs[a].v = t; regs[a].held = nullptr; hist += cat(" moveout#", a); break; }
        }
        for (size_t k = 0; k < regs.size(); ++k) { check_vec<T>(regs[k].v, regs[k].v, regs[k].m, cat(hist, " -> #", k)); }
    }
    c.note(hist); c.nontrivial(copied && written); c.label(copied ? "history with copies" : "no copy"); if (written) { c.label("history with writes"); }
}
template<typename T, size_t N> void sizedvec_n(Ctx& c) {
    auto md = modes[c.below(3)];
    using V = SizedVec<T, N>;
    struct R { V v; std::vector<T> m; T* held = nullptr; size_t at = 0; };
    std::vector<R> regs; std::string hist = cat("SizedVec<", tname<T>(), ",", N, ">"); bool copied = false, written = false;
    auto fresh = [&]() -> R {
        auto m = vec<T>(c, N, md);
        switch (c.below(4)) {
            case 0: { std::array<T, N> arr; std::copy(m.begin(), m.end(), arr.begin()); hist += " new(array)"; return {V(arr), m}; }
            case 1: hist += " new(vector)"; return {V(m), m};
            case 2: { T a = val<T>(c, md); hist += " filled"; return {V::filled(a), std::vector<T>(N, a)}; }
            default: { auto v = V::uninit(); for (size_t i = 0; i < N; ++i) { v[i] = m[i]; } hist += " uninit"; return {v, m}; }
        }
    };
    regs.reserve(8); regs.push_back(fresh());
    size_t steps = 3 + c.below(18);
    for (size_t s = 0; s < steps; ++s) {
        size_t a = c.below(regs.size()), b = c.below(regs.size());
        switch (c.below(8)) {
            case 6: case 7: hold(c, regs[a], regs[a].m, md, a, hist, written); break;
            case 0: if (regs.size() < 5) { regs.push_back(fresh()); } break;
            case 1: case 2: write_vec(c, regs[a].v, regs[a].m, md); hist += cat(" write#", a); written = true; break;
            case 3: regs[a].v = regs[b].v; regs[a].held = nullptr; regs[a].m = std::vector<T>(regs[b].m); hist += cat(" #", a, "=#", b); copied = true; break;
            case 4: if (regs.size() < 5) { regs.push_back({V(regs[a].v), regs[a].m}); hist += cat(" copy#", a); copied = true; } break;
            default: { V t(regs[b].v); regs[a].v = std::move(t); regs[a].held = nullptr; auto m = regs[b].m; regs[a].m = m; copied = true; hist += cat(" #", a, "=move(copy#", b, ")"); }
        }
        for (size_t k = 0; k < regs.size(); ++k) { check_vec<T>(regs[k].v, regs[k].v, regs[k].m, cat(hist, " -> #", k)); }
    }
    c.note(hist); c.nontrivial(copied && written && N > 0); c.label(cat("SizedVec N=", N));
}
template<typename T> void sizedvec(Ctx& c) { any_n(c, Sizes<3, 1, 2, 5, 0, 16, 33, 300>{}, [&]<size_t N>() { sizedvec_n<T, N>(c); }); }

// ---- matrices
template<typename T> struct Model { size_t n = 0, m = 0; std::vector<T> e; };
template<typename T, typename M> void check_mat(const M& cm, M& mm, const Model<T>& o, const std::string& what) {
    auto sh = cm.shape();
    PBT_CHECK(sh.first == o.n && sh.second == o.m, what, ": shape ", sh.first, "x", sh.second, ", expected ", o.n, "x", o.m);
    size_t k = 0;
    for (const T& e : cm) { PBT_CHECK(k < o.e.size() && same(e, o.e[k]), what, ": iteration shows ", e, " at position ", k); ++k; }
    PBT_CHECK(k == o.e.size(), what, ": iteration visited ", k, " elements of ", o.e.size());
    k = 0; for (T& e : mm) { PBT_CHECK(same(e, o.e[k]), what, ": mutable iteration shows ", e, " at position ", k); ++k; }
    PBT_CHECK(k == o.e.size(), what, ": mutable iteration visited ", k, " elements of ", o.e.size());
    k = 0; for (auto it = cm.cbegin(); it != cm.cend(); ++it) { PBT_CHECK(same(T(*it), o.e[k]), what, ": cbegin/cend shows ", *it, " at position ", k); ++k; }
    PBT_CHECK(k == o.e.size(), what, ": cbegin/cend visited ", k, " elements of ", o.e.size());
    for (size_t i = 0; i < o.n; ++i) { for (size_t j = 0; j < o.m; ++j) {
        const T& w = o.e[i * o.m + j];
        PBT_CHECK(same(cm(i, j), w) && same(cm.at(i, j), w) && same(mm(i, j), w) && same(mm.mut_at(i, j), w) && same(mm.at(i, j), w), what, ": element (", i, ",", j, ") reads ", cm(i, j), " / ", cm.at(i, j), " / ", mm.mut_at(i, j), ", expected ", w);
        PBT_CHECK(same(cm.data()[i * o.m + j], w) && same(mm.data()[i * o.m + j], w), what, ": data()[", i * o.m + j, "] is ", cm.data()[i * o.m + j], ", expected ", w);
    } }
}
template<typename T, typename M> void write_mat(Ctx& c, M& v, Model<T>& o, Mode md) {
    if (o.e.empty()) { return; }
    size_t i = c.below(o.n), j = c.below(o.m), k = i * o.m + j; T x = val<T>(c, md);
    T* p;
    switch (c.below(4)) { case 0: p = &v(i, j); break; case 1: p = &v.mut_at(i, j); break; case 2: p = v.data() + k; break; default: p = &*(v.begin() + static_cast<long>(k)); }
    *p = x; o.e[k] = x;
    if (c.chance(1, 4) && o.e.size() <= 400) { check_mat<T>(v, v, o, "after a write"); x = val<T>(c, md); *p = x; o.e[k] = x; check_mat<T>(std::as_const(v), v, o, "after a write through a reference taken before other reads"); }
}
template<typename T> Model<T> diag_model(const std::vector<T>& d) { Model<T> o; o.n = o.m = d.size(); o.e.assign(o.n * o.n, T(0)); for (size_t i = 0; i < o.n; ++i) { o.e[i * o.n + i] = d[i]; } return o; }

template<typename T> void dynmat(Ctx& c) {
    auto md = modes[c.below(3)];
    struct R { DynMat<T> v; Model<T> o; T* held = nullptr; size_t at = 0; };
    std::vector<R> regs; std::string hist = cat("DynMat<", tname<T>(), ">"); bool copied = false, written = false, rect = false;
    bool large = c.chance(1, 300);       // few and large objects
    auto dim = [&] { return large ? 1 + c.below(c.chance(1, 2) ? 300 : 20) : c.chance(1, 10) ? c.below(25) : 1 + c.below(6); };
    auto fresh = [&]() -> R {
        size_t n = dim(), m = dim(); Model<T> o{n, m, {}};
        rect = rect || n != m;
        auto h = [&](const char* s) { hist += cat(" ", s, "(", n, "x", m, ")"); };
        switch (c.below(8)) {
            case 0: { o.e = vec<T>(c, n * m, md); h("new"); return {DynMat<T>(n, m, o.e), o}; }
            case 1: { o.e = vec<T>(c, n * m, md); h("new-old-order");
                #pragma GCC diagnostic push
                #pragma GCC diagnostic ignored "-Wdeprecated-declarations"
                DynMat<T> v(o.e, n, m);
                #pragma GCC diagnostic pop
                return {v, o}; }
            case 2: { T a = val<T>(c, md), b = val<T>(c, md), d = val<T>(c, md), e = val<T>(c, md), f = val<T>(c, md), g = val<T>(c, md);
                      n = c.chance(1, 2) ? 2 : 3; m = 6 / n; h("new-list"); o = {n, m, {a, b, d, e, f, g}}; return {DynMat<T>(n, m, {a, b, d, e, f, g}), o}; }
            case 3: { T a = val<T>(c, md); h("filled"); o.e.assign(n * m, a); return {DynMat<T>::filled(a, n, m), o}; }
            case 4: { auto d = vec<T>(c, n, md); hist += cat(" diag-list(", n, ")"); return {DynMat<T>::diag(d), diag_model(d)}; }
            case 5: { T a = val<T>(c, md); hist += cat(" diag(", n, ")"); return {DynMat<T>::diag(a, n), diag_model(std::vector<T>(n, a))}; }
            case 6: hist += cat(" identity(", n, ")"); return {DynMat<T>::identity(n), diag_model(std::vector<T>(n, T(1)))};
            default: { auto v = DynMat<T>::uninit(n, m); o.e = vec<T>(c, n * m, md); h("uninit"); auto sh = v.shape(); PBT_CHECK(sh.first == n && sh.second == m, hist, ": wrong shape ", sh.first, "x", sh.second);
                for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < m; ++j) { v(i, j) = o.e[i * m + j]; } } return {v, o}; }
        }
    };
    regs.reserve(8); regs.push_back(fresh());
    check_mat<T>(regs[0].v, regs[0].v, regs[0].o, hist);
    size_t steps = large ? 1 + c.below(5) : 3 + c.below(20);
    for (size_t s = 0; s < steps; ++s) {
        size_t a = c.below(regs.size()), b = c.below(regs.size());
        switch (c.below(9)) {
            case 7: case 8: hold(c, regs[a], regs[a].o.e, md, a, hist, written); break;
            case 0: case 6: if (regs.size() < 5) { regs.push_back(fresh()); } break;
            case 1: case 2: write_mat(c, regs[a].v, regs[a].o, md); hist += cat(" write#", a); written = true; break;
            case 3: regs[a].v = regs[b].v; regs[a].held = nullptr; { auto o = regs[b].o; regs[a].o = o; } hist += cat(" #", a, "=#", b); copied = true; break;
            case 4: if (regs.size() < 5) { regs.push_back({DynMat<T>(regs[a].v), regs[a].o}); hist += cat(" copy#", a); copied = true; } break;
            default: { DynMat<T> t(regs[b].v); auto o = regs[b].o; regs[a].v = std::move(t); regs[a].held = nullptr; regs[a].o = o; copied = true; hist += cat(" #", a, "=move(copy#", b, ")"); }
        }
        for (size_t k = 0; k < regs.size(); ++k) { check_mat<T>(regs[k].v, regs[k].v, regs[k].o, cat(hist, " -> #", k)); }
    }
    c.note(hist); c.nontrivial(copied && written && rect); c.label(rect ? "has non-square matrices" : "square only"); if (copied) { c.label("history with copies"); }
}
template<typename T, size_t N, size_t M> void sizedmat_nm(Ctx& c) {
    auto md = modes[c.below(3)];
    using V = SizedMat<T, N, M>;
    struct R { V v; Model<T> o; T* held = nullptr; size_t at = 0; };
    std::vector<R> regs; std::string hist = cat("SizedMat<", tname<T>(), ",", N, ",", M, ">"); bool copied = false, written = false;
    auto fresh = [&]() -> R {
        Model<T> o{N, M, vec<T>(c, N * M, md)};
        switch (c.below(N == M ? 7 : 4)) {
            case 0: { std::array<T, N * M> a; std::copy(o.e.begin(), o.e.end(), a.begin()); hist += " new(array)"; return {V(a), o}; }
            case 1: hist += " new(vector)"; return {V(o.e), o};
            case 2: { T a = val<T>(c, md); o.e.assign(N * M, a); hist += " filled"; return {V::filled(a), o}; }
            case 3: { auto v = V::uninit(); for (size_t i = 0; i < N; ++i) { for (size_t j = 0; j < M; ++j) { v.mut_at(i, j) = o.e[i * M + j]; } } hist += " uninit"; return {v, o}; }
            default:
                if constexpr (N == M) {
                    auto d = vec<T>(c, N, md);
                    switch (c.below(3)) {
                        case 0: { std::array<T, N> a; std::copy(d.begin(), d.end(), a.begin()); hist += " diag-list"; return {V::diag(a), diag_model(d)}; }
                        case 1: hist += " diag"; return {V::diag(d[0]), diag_model(std::vector<T>(N, d[0]))};
                        default: hist += " identity"; return {V::identity(), diag_model(std::vector<T>(N, T(1)))};
                    }
                }
        }
        return {V(o.e), o};
    };
    regs.reserve(8); regs.push_back(fresh());
    check_mat<T>(regs[0].v, regs[0].v, regs[0].o, hist);
    size_t steps = 2 + c.below(16);
    for (size_t s = 0; s < steps; ++s) {
        size_t a = c.below(regs.size()), b = c.below(regs.size());
        switch (c.below(8)) {
            case 6: case 7: hold(c, regs[a], regs[a].o.e, md, a, hist, written); break;
            case 0: if (regs.size() < 5) { regs.push_back(fresh()); } break;
            case 1: case 2: write_mat(c, regs[a].v, regs[a].o, md); hist += cat(" write#", a); written = true; break;
            case 3: regs[a].v = regs[b].v; regs[a].held = nullptr; { auto o = regs[b].o; regs[a].o = o; } hist += cat(" #", a, "=#", b); copied = true; break;
            case 4: if (regs.size() < 5) { regs.push_back({V(regs[a].v), regs[a].o}); hist += cat(" copy#", a); copied = true; } break;
            default: { V t(regs[b].v); auto o = regs[b].o; regs[a].v = std::move(t); regs[a].held = nullptr; regs[a].o = o; copied = true; hist += cat(" #", a, "=move(copy#", b, ")"); }
        }
        for (size_t k = 0; k < regs.size(); ++k) { check_mat<T>(regs[k].v, regs[k].v, regs[k].o, cat(hist, " -> #", k)); }
    }
    c.note(hist); c.nontrivial(copied && written && N * M > 1); c.label(cat("SizedMat ", N, "x", M));
}
template<typename T> void sizedmat(Ctx& c) {
    switch (c.below(8)) {
        case 7: if (c.chance(1, 8)) { if (c.chance(1, 3)) { sizedmat_nm<T, 2, 300>(c); } else if (c.chance(1, 2)) { sizedmat_nm<T, 300, 2>(c); } else { sizedmat_nm<T, 18, 17>(c); } } else { sizedmat_nm<T, 5, 3>(c); } break;
        case 0: sizedmat_nm<T, 2, 3>(c); break; case 1: sizedmat_nm<T, 3, 3>(c); break; case 2: sizedmat_nm<T, 4, 2>(c); break; case 3: sizedmat_nm<T, 1, 1>(c); break;
        case 4: sizedmat_nm<T, 1, 5>(c); break; case 5: sizedmat_nm<T, 6, 1>(c); break; default: sizedmat_nm<T, 7, 7>(c);
    }
}
// long lists: the number of elements of a list is known to the compiler, so one length is tried
template<typename T> void lists(Ctx& c) {
    auto md = modes[c.below(3)]; std::vector<T> e = vec<T>(c, 300, md); std::string hist = cat("list of 300 ", tname<T>());
    [&]<size_t... I>(std::index_sequence<I...>) {
        DynVec<T> v({e[I]...}); check_vec<T>(v, v, e, "DynVec " + hist);
        SizedVec<T, 300> w({e[I]...}); check_vec<T>(w, w, e, "SizedVec " + hist);
        size_t n = c.pick<size_t>({300, 1, 150, 20, 15, 12}), m = 300 / n; Model<T> o{n, m, e};
        DynMat<T> a(n, m, {e[I]...}); check_mat<T>(a, a, o, cat("DynMat ", n, "x", m, " ", hist));
        SizedMat<T, 100, 3> b({e[I]...}); Model<T> o2{100, 3, e}; check_mat<T>(b, b, o2, "SizedMat 100x3 " + hist);
    }(std::make_index_sequence<300>{});
    c.note(hist); c.nontrivial(true); c.label("long initializer list");
}
FACET_ALL("dynvec", 400, dynvec); TYPE_FACET(double, "lists", 4, lists); TYPE_FACET(float, "lists", 4, lists);
FACET_FD("sizedvec", 400, sizedvec); TYPE_FACET(std::complex<double>, "sizedvec", 200, sizedvec);
FACET_ALL("dynmat", 400, dynmat);
TYPE_FACET(int, "dynvec", 100, dynvec); TYPE_FACET(long double, "dynmat", 100, dynmat); TYPE_FACET(long double, "sizedmat", 100, sizedmat);
FACET_FD("sizedmat", 400, sizedmat); TYPE_FACET(std::complex<float>, "sizedmat", 200, sizedmat);
