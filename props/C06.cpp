// C06: element-wise operations on dense matrices
#include "lalib/mat.hpp"
#include "../engine/gen.hpp"
using namespace lalib;

enum Op { ADD, ADD_TO, SUB, SUB_TO, SCALE, LMUL, NEG };
static const char* opn[] = {"m1+m2", "add(m1,m2,mr)", "m1-m2", "sub(m1,m2,mr)", "scale(a,m)", "a*m", "-m"};
template<typename T> struct Case {
    int op, alias; Mode mode; size_t n, m; T a; bool binary; size_t how = 0; std::vector<T> x, y, r; std::string what; long e = -1;     // the factor is element e of the matrix
    void generate(Ctx& c, size_t rows, size_t cols, int op_, const std::string& kind, int naliases) {
        n = rows; m = cols; op = op_; binary = op <= SUB_TO;
        mode = binary ? c.pick({Mode::Int, Mode::Real, Mode::Wide, Mode::Special}) : c.pick({Mode::Int, Mode::Real, Mode::Wide});
        alias = binary ? static_cast<int>(c.below(static_cast<size_t>(naliases))) : 0;     // 0 none, 1 r=m1, 2 r=m2, 3 m1=m2, 4 all one
        if ((op == ADD || op == SUB) && alias) { alias = 3; }
        a = op == NEG ? T(-1) : (op == SCALE || op == LMUL) ? coef<T>(c, mode) : T(1);
        x = vec<T>(c, n * m, mode); y = binary && alias < 3 ? vec<T>(c, n * m, mode) : x; r = vec<T>(c, n * m, Mode::Int);
        if ((op == SCALE || op == LMUL) && n * m > 0 && mode != Mode::Wide && c.chance(1, 5)) { auto j = c.below(n * m); a = x[j]; e = static_cast<long>(j); c.label("factor is an element of the matrix"); }
        how = op == ADD || op == SUB || op == LMUL || op == NEG ? draw_temps(c) : 0;
        what = cat(opn[op], " ", kind, how ? cat(" temporary operands ", how) : std::string(), " [", tname<T>(), " ", n, "x", m, alias ? cat(" alias ", alias) : std::string(), "]");
        c.label(cat(opn[op], " ", kind)); c.label(n * m == 0 ? "0 elements" : n * m < 16 ? "<16 elements" : n * m < 256 ? "16..255 elements" : ">=256 elements"); c.label(cat("alias ", alias));
        if (n != m) { c.label("non-square"); }
        c.note(cat(what, " a=", a, e >= 0 ? cat(" (element ", e, ")") : std::string(), " m1=", showm(x, n, m), " m2=", binary ? showm(y, n, m) : std::string("-")));
        c.nontrivial(n * m > 0 && (binary || a != T(1)));
    }
    void done(const T* g, std::pair<size_t, size_t> sh) const {
        PBT_CHECK(sh.first == n && sh.second == m, what, ": result has shape ", sh.first, "x", sh.second);
        for (size_t k = 0; k < n * m; ++k) {
            auto at = [&] { return cat(what, " element (", k / m, ",", k % m, ") from ", x[k], " and ", binary ? y[k] : a); };
            if (binary || !is_cx<T>) {
                T want = op <= ADD_TO ? T(x[k] + y[k]) : op <= SUB_TO ? T(x[k] - y[k]) : T(a * x[k]);
                if (!same(g[k], want)) { pbt::fail(cat(at(), ": got ", g[k], ", expected ", want)); }
            } else {
                auto ref = wide(a) * wide(x[k]); auto tol = mode == Mode::Int ? 0.0L : 6 * U<T> * mag(ref);
                if (!finite(g[k]) || mag(wide(g[k]) - ref) > tol) { expect_near<T>(g[k], ref, tol, at()); }
            }
        }
    }
    void keep(const T* now, std::pair<size_t, size_t> sh, bool first) const {
        PBT_CHECK(sh.first == n && sh.second == m, what, ": shape of an operand changed");
        auto& b = first ? x : y;
        for (size_t k = 0; k < n * m; ++k) { if (!same(now[k], b[k])) { pbt::fail(cat(what, ": element ", k, " of the ", first ? "first" : "second", " operand was changed")); } }
    }
    void same_obj(const void* p, const void* q) const { PBT_CHECK(p == q, what, ": does not return the result object"); }
};
template<typename T, typename M> void body(const Case<T>& k, M x, M y, M r) {
    auto fin = [&](const M& q) { k.done(q.data(), q.shape()); if (&q != &x) { k.keep(x.data(), x.shape(), true); } if (k.binary && &q != &y) { k.keep(y.data(), y.shape(), false); } };
    M& m2 = k.alias >= 3 ? x : y; M& mr = k.alias == 0 || k.alias == 3 ? r : k.alias == 2 ? y : x;
    const T& a = k.e >= 0 ? x(static_cast<size_t>(k.e) / k.m, static_cast<size_t>(k.e) % k.m) : k.a;
    switch (k.op) {
        case ADD: { M q = with_temps<M>(k.how, x, m2, [](auto&& a, auto&& b) { return FWD(a) + FWD(b); }); fin(q); break; }
        case SUB: { M q = with_temps<M>(k.how, x, m2, [](auto&& a, auto&& b) { return FWD(a) - FWD(b); }); fin(q); break; }
        case ADD_TO: { auto& q = add(x, m2, mr); k.same_obj(&q, &mr); fin(mr); break; }
        case SUB_TO: { auto& q = sub(x, m2, mr); k.same_obj(&q, &mr); fin(mr); break; }
        case SCALE: { auto& q = scale(a, x); k.same_obj(&q, &x); fin(x); break; }
        case LMUL: { M q = with_temp<M>(k.how, x, [&](auto&& m) { return a * FWD(m); }); fin(q); break; }
        case NEG: if constexpr (!is_cx<T>) { M q = with_temp<M>(k.how, x, [](auto&& m) { return -FWD(m); }); fin(q); } break;
    }
}
template<typename T> int draw_op(Ctx& c) { return static_cast<int>(c.below(is_cx<T> ? NEG : NEG + 1)); }
template<typename T> void dyn(Ctx& c) {
    draw_threads(c);
    size_t n, m;
    if (c.chance(1, 3)) { auto len = std::max<size_t>(huge_length(c, 2000, 40000), 1); n = 1 + c.below(4); m = std::max<size_t>(len / n, 1); if (c.chance(1, 2)) { std::swap(n, m); } }
    else { n = order(c, 1, 60); m = order(c, 1, 60); }
    if (c.chance(1, 40)) { n = 0; }
    Case<T> k; k.generate(c, n, m, draw_op<T>(c), "Dyn", 5);
    body<T, DynMat<T>>(k, DynMat<T>(n, m, k.x), DynMat<T>(n, m, k.y), DynMat<T>(n, m, k.r));
}
template<typename T, size_t N, size_t M> void sized_nm(Ctx& c) {
    Case<T> k; k.generate(c, N, M, draw_op<T>(c), "Sized", 5);
    using S = SizedMat<T, N, M>; body<T, S>(k, S(k.x), S(k.y), S(k.r));
}
template<typename T, size_t N, size_t M> void mixed_nm(Ctx& c) {
    bool dyn_first = c.chance(1, 2);
    Case<T> k; k.generate(c, N, M, c.chance(1, 2) ? SUB_TO : ADD_TO, dyn_first ? "(Dyn,Sized,Sized)" : "(Sized,Dyn,Sized)", 2);
    using S = SizedMat<T, N, M>;
    S s(dyn_first ? k.y : k.x), r(k.r); DynMat<T> d(N, M, dyn_first ? k.x : k.y); S& mr = k.alias ? s : r;
    S* ret = k.op == ADD_TO ? (dyn_first ? &add(d, s, mr) : &add(s, d, mr)) : (dyn_first ? &sub(d, s, mr) : &sub(s, d, mr));
    k.same_obj(ret, &mr); k.done(mr.data(), mr.shape()); k.keep(d.data(), d.shape(), dyn_first); if (!k.alias) { k.keep(s.data(), s.shape(), !dyn_first); }
}
template<typename T> void sized(Ctx& c) {
    draw_threads(c);
    bool mixed = c.chance(1, 3), wide = c.chance(1, 60);
    auto go = [&]<size_t N, size_t M>() { if (mixed) { mixed_nm<T, N, M>(c); } else { sized_nm<T, N, M>(c); } };
    if (wide) { if (c.chance(1, 2)) { go.template operator()<2, 300>(); } else { go.template operator()<300, 2>(); } return; }
    switch (c.below(10)) {
        case 0: go.template operator()<2, 3>(); break; case 1: go.template operator()<1, 1>(); break; case 2: go.template operator()<3, 2>(); break;
        case 3: go.template operator()<4, 4>(); break; case 4: go.template operator()<3, 5>(); break; case 5: go.template operator()<17, 1>(); break;
        case 6: go.template operator()<1, 16>(); break; case 7: go.template operator()<5, 7>(); break; case 8: go.template operator()<16, 16>(); break; default: go.template operator()<9, 33>();
    }
}
FACET_ALL("dyn", 1000, dyn);
FACET_ALL("sized", 1200, sized);
FACET_EXACT("dyn", 250, dyn);
TYPE_FACET(int, "sized", 250, sized);
