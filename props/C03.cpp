// C03: size mismatches
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "../engine/gen.hpp"
using namespace lalib;

template<typename T> struct Probe {
    std::string what; size_t a, b, r; bool three;
    std::vector<std::pair<const T*, std::vector<T>>> watch;
    std::vector<std::function<size_t()>> sizes; std::vector<size_t> sizes0;
    template<typename V> void guard(const V& v) {
        watch.push_back({v.data(), std::vector<T>(v.begin(), v.end())});
        sizes.push_back([&v] { return v.size(); }); sizes0.push_back(v.size());
    }
    template<typename F> void must_throw(F f) {
        bool thrown = false;
        try { f(); }
        catch (const vec_error::SizeMismatched& e) {
            thrown = true;
            const std::runtime_error& re = e; std::string m = re.what();
            // the message names two of the operand lengths that differ
            auto has = [&](size_t k) { return m.find(std::to_string(k)) != std::string::npos; };
            bool ok = a != b ? (has(a) && has(b)) : false;
            if (three) { ok = ok || (a != r && has(a) && has(r)) || (b != r && has(b) && has(r)); }
            PBT_CHECK(ok, what, " with lengths ", a, ", ", b, three ? cat(", ", r) : std::string(), ": the message does not report the two lengths: ", m);
        }
        catch (const std::exception& e) { pbt::fail(cat(what, ": throws something other than the size-mismatch error: ", e.what())); }
        PBT_CHECK(thrown, what, " with lengths ", a, ", ", b, three ? cat(", ", r) : std::string(), ": no exception");
        untouched();
    }
    template<typename F> void must_pass(F f) {
        try { f(); } catch (const std::exception& e) { pbt::fail(cat(what, " with matching lengths ", a, ": throws ", e.what())); }
    }
    void untouched() {
        for (size_t k = 0; k < watch.size(); ++k) {
            PBT_CHECK(sizes[k]() == sizes0[k], what, ": the size of operand ", k, " changed");
            for (size_t i = 0; i < watch[k].second.size(); ++i) { PBT_CHECK(same(watch[k].first[i], watch[k].second[i]), what, ": element ", i, " of operand ", k, " changed although the call failed"); }
        }
    }
};
static size_t len(Ctx& c) { return c.chance(1, 6) ? length(c, 5000) : c.below(24); }
static size_t other(Ctx& c, size_t n) {        // a length different from n
    size_t m;
    switch (c.below(6)) {
        case 0: m = n + 1; break; case 1: m = n > 0 ? n - 1 : 1; break; case 2: m = 0; break;
        case 3: m = n + c.pick({16, 4, 8, 32, 64, 256, 1024}); if (c.chance(1, 40)) { m = n + 65536; } break; case 4: m = 2 * n + 1; break; default: m = len(c);
    }
    return m == n ? n + 2 : m;
}

template<typename T> void dyn(Ctx& c) {
    draw_threads(c);
    static const char* names[] = {"add(Dyn,Dyn,Dyn)", "sub(Dyn,Dyn,Dyn)", "Dyn + Dyn", "Dyn - Dyn", "neg(Dyn,Dyn)", "axpy(a,Dyn,Dyn)", "dot(Dyn,Dyn)", "Dyn.dot(Dyn)"};
    int op = static_cast<int>(c.below(is_cx<T> ? 6 : 8));
    bool three = op < 2;
    size_t n = len(c), m, r;
    int pat = static_cast<int>(c.below(three ? 5 : 4));
    // which lengths differ: 0-2 second operand, 3 nothing, 4 (three operands) only the result ...
    m = pat == 3 || pat == 4 ? n : other(c, n);
    r = pat == 4 ? other(c, n) : pat == 1 ? m : pat == 2 ? other(c, n) : n;
    bool alias = three && c.chance(1, 3);
    if (alias && pat == 4) { alias = false; }
    auto av = vec<T>(c, n, Mode::Int), bv = vec<T>(c, m, Mode::Int), rv = vec<T>(c, r, Mode::Int);
    DynVec<T> a(av), b(bv), res(rv);
    DynVec<T>& out = alias ? (pat == 1 ? b : a) : res;
    Probe<T> p{cat(names[op], " [", tname<T>(), "]"), n, m, three ? out.size() : n, three, {}, {}, {}};
    bool mism = n != m || (three && out.size() != n);
    p.guard(a); p.guard(b); if (three && !alias) { p.guard(res); }
    c.label(cat(names[op], mism ? (n == m ? " result length differs" : " mismatch") : " ok"));
    c.note(cat(p.what, " lengths ", n, ",", m, three ? cat(",", out.size()) : std::string(), alias ? " result aliases an operand" : ""));
    c.nontrivial(mism);
    T s = coef<T>(c, Mode::Int); size_t how = op == 2 || op == 3 || op == 6 ? draw_temps(c) : 0; if (how) { p.what += cat(" temporary operands ", how); }
    auto call = [&] {
        switch (op) {
            case 0: add(a, b, out); break; case 1: sub(a, b, out); break;
            case 2: { auto q = with_temps<DynVec<T>>(how, a, b, [](auto&& x, auto&& y) { return FWD(x) + FWD(y); }); (void)q; break; } case 3: { auto q = with_temps<DynVec<T>>(how, a, b, [](auto&& x, auto&& y) { return FWD(x) - FWD(y); }); (void)q; break; }
            case 4: neg(a, b); break; case 5: axpy(s, a, b); break;
            case 6: if constexpr (!is_cx<T>) { volatile T d = with_temps<T>(how, a, b, [](auto&& x, auto&& y) { return dot(FWD(x), FWD(y)); }); (void)d; } break;
            case 7: if constexpr (!is_cx<T>) { volatile T d = a.dot(b); (void)d; } break;
        }
    };
    if (mism) { p.must_throw(call); } else { p.must_pass(call); }
}

using NS = Sizes<3, 0, 1, 2, 4, 5, 8, 10, 16, 17, 33>;
template<typename T, size_t N> void mixed_n(Ctx& c) {
    static const char* names[] = {"add(Sized,Dyn,Sized)", "add(Dyn,Sized,Sized)", "sub(Sized,Dyn,Sized)", "sub(Dyn,Sized,Sized)", "Sized.dot(Dyn)", "Dyn.dot(Sized)"};
    int op = static_cast<int>(c.below(is_cx<T> ? 4 : 6));
    size_t n = c.chance(1, 4) ? N : other(c, N);
    bool alias = c.chance(1, 2);
    auto sv = vec<T>(c, N, Mode::Int), dv = vec<T>(c, n, Mode::Int), rv = vec<T>(c, N, Mode::Int);
    SizedVec<T, N> s(sv), res(rv); DynVec<T> d(dv);
    SizedVec<T, N>& out = alias ? s : res;
    Probe<T> p{cat(names[op], " [", tname<T>(), "]"), N, n, n, false, {}, {}, {}};
    p.guard(s); p.guard(d); p.guard(res);
    c.label(cat(names[op], n != N ? " mismatch" : " ok")); c.note(cat(p.what, " fixed length ", N, ", dynamic length ", n)); c.nontrivial(n != N);
    auto call = [&] {
        switch (op) {
            case 0: add(s, d, out); break; case 1: add(d, s, out); break; case 2: sub(s, d, out); break; case 3: sub(d, s, out); break;
            case 4: if constexpr (!is_cx<T>) { volatile T q = s.dot(d); (void)q; } break;
            case 5: if constexpr (!is_cx<T>) { volatile T q = d.dot(s); (void)q; } break;
        }
    };
    if (n != N) { p.must_throw(call); } else { p.must_pass(call); }
}
template<typename T> void mixed(Ctx& c) { draw_threads(c); any_n(c, NS{}, [&]<size_t N>() { mixed_n<T, N>(c); }); }

// construction of fixed-size objects from std::vector and initializer lists
template<typename V, typename T, size_t... I> V from_list(const std::vector<T>& v, std::index_sequence<I...>) { return V(std::initializer_list<T>{v[I]...}); }
template<typename V, typename T, size_t K = 0> V from_list_of(const std::vector<T>& v) {
    if constexpr (K <= 12) { if (v.size() == K) { return from_list<V, T>(v, std::make_index_sequence<K>{}); } return from_list_of<V, T, K + 1>(v); }
    else { throw std::logic_error("list too long for this harness"); }
}
template<typename V, typename T> void construct(Ctx& c, size_t want, const std::string& what) {
    bool list = c.chance(1, 2);
    size_t n = c.chance(1, 3) ? want : other(c, want);
    if (list && n > 12) { n = n % 13; }
    auto data = vec<T>(c, n, Mode::Int);
    c.label(cat(what, list ? " from list" : " from vector", n == want ? " ok" : " wrong length")); c.note(cat(what, list ? " from a list" : " from a vector", " of ", n, " elements, needs ", want)); c.nontrivial(n != want);
    bool thrown = false;
    try {
        V v = list ? from_list_of<V, T>(data) : V(data);
        if (n == want) { for (size_t i = 0; i < n; ++i) { PBT_CHECK(same(v.data()[i], data[i]), what, ": element ", i, " is ", v.data()[i], ", given ", data[i]); } }
    } catch (const std::runtime_error&) { thrown = true; }
    PBT_CHECK(thrown == (n != want), what, list ? " from a list" : " from a vector", " of ", n, " elements (needs ", want, "): ", thrown ? "throws" : "does not throw");
}
template<typename T> void ctor(Ctx& c) {
    if (c.chance(1, 2)) { any_n(c, Sizes<3, 1, 2, 4, 7, 10, 16>{}, [&]<size_t N>() { construct<SizedVec<T, N>, T>(c, N, cat("SizedVec<", tname<T>(), ",", N, ">")); }); }
    else if (c.chance(1, 2)) { construct<SizedMat<T, 2, 3>, T>(c, 6, cat("SizedMat<", tname<T>(), ",2,3>")); }
    else if (c.chance(1, 2)) { construct<SizedMat<T, 3, 3>, T>(c, 9, cat("SizedMat<", tname<T>(), ",3,3>")); }
    else if (c.chance(1, 2)) { construct<SizedMat<T, 1, 1>, T>(c, 1, cat("SizedMat<", tname<T>(), ",1,1>")); }
    else if (c.chance(1, 2)) { construct<SizedMat<T, 4, 1>, T>(c, 4, cat("SizedMat<", tname<T>(), ",4,1>")); }
    else { construct<SizedMat<T, 5, 7>, T>(c, 35, cat("SizedMat<", tname<T>(), ",5,7>")); }
}
FACET_ALL("dyn", 1000, dyn);
FACET_ALL("mixed", 700, mixed);
FACET_ALL("construct", 500, ctor);
