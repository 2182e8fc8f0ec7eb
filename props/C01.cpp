// C01: element-wise vector arithmetic
#include "lalib/vec.hpp"
#include "../engine/gen.hpp"

using namespace lalib;
enum Op { NEG_TO, NEG, ADD_TO, ADD, SUB_TO, SUB, SCALE, SCALED, LMUL, RMUL, DIV, AXPY, NOPS };
static const char* opn[] = {"neg(v,vr)", "-v", "add(v1,v2,vr)", "v1+v2", "sub(v1,v2,vr)", "v1-v2", "scale(a,v)", "scaled(a,v)", "a*v", "v*a", "v/a", "axpy(a,x,y)"};
static bool is_elementwise_pure(int op) { return op <= SUB; }

template<typename T> struct Case {
    int op; Mode mode; int alias; T a; size_t n, how = 0; bool binary, with_result;
    std::vector<T> x0, y0, r0; long ex = -1, ey = -1;     // the scalar is element ex of x or ey of y
    std::string what;

    void generate(Ctx& c, size_t len, const char* kind) {
        n = len; op = static_cast<int>(c.below(NOPS));
        mode = is_elementwise_pure(op) ? c.pick({Mode::Int, Mode::Real, Mode::Wide, Mode::Special}) : c.pick({Mode::Int, Mode::Real, Mode::Wide});
        binary = op == ADD_TO || op == ADD || op == SUB_TO || op == SUB || op == AXPY;
        with_result = op == NEG_TO || op == ADD_TO || op == SUB_TO;
        // aliasing: 0 none, 1 result is v1, 2 result is v2, 3 both operands are one object, 4 all three
        alias = 0;
        if (binary || with_result) { alias = static_cast<int>(c.below(5)); }
        if (op == NEG_TO) { alias = alias ? 1 : 0; }
        if (op == ADD || op == SUB || op == AXPY) { alias = alias ? 3 : 0; }
        a = T(1);
        if (op >= SCALE) { a = coef<T>(c, mode); }
        if (exact_only<T> && op == DIV) { op = SCALED; }      // integers do not divide; long double divides through a reciprocal
        if (op == DIV && a == T(0)) { a = T(2); }
        x0 = vec<T>(c, n, mode); if (binary) { y0 = vec<T>(c, n, mode); } else { y0 = x0; }
        if (with_result) { r0 = vec<T>(c, n, Mode::Int); } else { r0 = x0; }
        if (alias >= 3) { y0 = x0; }
        if (op >= SCALE && n > 0 && mode != Mode::Wide && c.chance(1, 6)) {
            bool of_y = op == AXPY && c.chance(1, 2); auto j = c.below(n); T e = of_y ? y0[j] : x0[j];
            if (op != DIV || amag(e) > 1e-3L) { a = e; (of_y ? ey : ex) = static_cast<long>(j); c.label("scalar is an element of an operand"); }
        }
        how = draw_temps(c);
        what = cat(opn[op], " [", kind, " ", tname<T>(), how ? cat(", temporary operands ", how) : std::string(), "]");
        c.label(cat("op ", opn[op])); c.label(cat("alias ", alias)); c.label(n == 0 ? "len 0" : n < 16 ? "len 1..15" : n < 64 ? "len 16..63" : n < 1024 ? "len 64..1023" : "len >=1024");
        c.note(cat(what, " n=", n, " values=", mname(mode), " alias=", alias, " a=", a, ex >= 0 ? cat(" (element ", ex, " of x)") : ey >= 0 ? cat(" (element ", ey, " of y)") : std::string(), " x=", show(x0), " y=", binary ? show(y0) : std::string("-")));
        c.nontrivial(n >= 1 && (binary || op == NEG || op == NEG_TO || a != T(1)));
    }
    // what every position must hold, and how far from it the result may be
    void done(const T* got, size_t size) const {
        PBT_CHECK(size == n, what, ": result has ", size, " elements, expected ", n);
        for (size_t i = 0; i < n; ++i) {
            const T& x = x0[i]; const T& y = y0[i];
            auto at = [&] { return cat(what, " at position ", i, " of ", n, " (operands ", x, ", ", y, ", scalar ", a, ")"); };
            auto exact = [&](const T& want) { if (!same(got[i], want)) { pbt::fail(cat(at(), ": got ", got[i], ", expected ", want)); } };
            switch (op) {
                case NEG: case NEG_TO: exact(T(-x)); break;
                case ADD: case ADD_TO: exact(T(x + y)); break;
                case SUB: case SUB_TO: exact(T(x - y)); break;
                case SCALE: case SCALED: case LMUL: case RMUL: {
                    auto ref = wide(a) * wide(x);
                    if constexpr (!is_cx<T>) { exact(a * x); }
                    else if (mode == Mode::Int) { exact(T(static_cast<R<T>>(ref.real()), static_cast<R<T>>(ref.imag()))); }
                    else if (mag(wide(got[i]) - ref) > 6 * U<T> * mag(ref) || !finite(got[i])) { expect_near<T>(got[i], ref, 6 * U<T> * mag(ref), at()); }
                    break;
                }
                case DIV: { auto ref = wide(x) / wide(a); auto tol = 12 * U<T> * mag(ref); if (!finite(got[i]) || mag(wide(got[i]) - ref) > tol) { expect_near<T>(got[i], ref, tol, at()); } break; }
                case AXPY: {
                    auto p = wide(a) * wide(x); auto ref = p + wide(y);
                    auto tol = mode == Mode::Int ? 0.0L : 8 * U<T> * (mag(p) + amag(y));
                    if (!finite(got[i]) || mag(wide(got[i]) - ref) > tol) { expect_near<T>(got[i], ref, tol, at()); }
                    break;
                }
            }
        }
    }
    void unchanged(const T* now, size_t size, bool first) const {
        PBT_CHECK(size == n, what, ": the size of an operand changed");
        auto& b = first ? x0 : y0;
        for (size_t i = 0; i < n; ++i) { if (!same(now[i], b[i])) { pbt::fail(cat(what, ": element ", i, " of the ", first ? "first" : "second", " operand was changed by the call")); } }
    }
    void same_obj(const void* a, const void* b) const { PBT_CHECK(a == b, what, ": does not return the result object"); }
};

template<typename T, typename V> void body(const Case<T>& k) {
    V x(k.x0), y(k.y0), r(k.r0);
    V& v1 = x; V& v2 = k.alias >= 3 ? x : y;
    V& vr = k.alias == 0 || k.alias == 3 ? r : k.alias == 2 ? y : x;
    const T& a = k.ex >= 0 ? v1[static_cast<size_t>(k.ex)] : k.ey >= 0 ? v2[static_cast<size_t>(k.ey)] : k.a;
    auto fin = [&](const V& q) { k.done(q.data(), q.size()); };
    auto spoil = [&] { if (k.n > 0 && k.n < 3000) { for (auto& e : x) { e = T(77); } for (auto& e : y) { e = T(78); } } };      // a result is independent of its operands
    auto f2 = [&](auto f) { V q = with_temps<V>(k.how, v1, v2, f); if (&v2 == &x) { k.unchanged(x.data(), x.size(), true); } else { k.unchanged(x.data(), x.size(), true); k.unchanged(y.data(), y.size(), false); } spoil(); fin(q); };
    auto f1 = [&](auto f) { V q = with_temp<V>(k.how, x, f); k.unchanged(x.data(), x.size(), true); spoil(); fin(q); };
    auto keep = [&](const V& res) { if (&res != &x) { k.unchanged(x.data(), x.size(), true); } if (k.binary && &res != &y) { k.unchanged(y.data(), y.size(), false); } };
    switch (k.op) {
        case NEG_TO: { auto& q = neg(v1, vr); k.same_obj(&q, &vr); fin(vr); keep(vr); break; }
        case NEG: f1([](auto&& p) { return -FWD(p); }); break;
        case ADD_TO: { auto& q = add(v1, v2, vr); k.same_obj(&q, &vr); fin(vr); keep(vr); break; }
        case SUB_TO: { auto& q = sub(v1, v2, vr); k.same_obj(&q, &vr); fin(vr); keep(vr); break; }
        case ADD: f2([](auto&& p, auto&& q) { return FWD(p) + FWD(q); }); break;
        case SUB: f2([](auto&& p, auto&& q) { return FWD(p) - FWD(q); }); break;
        case SCALE: { auto& q = scale(a, x); k.same_obj(&q, &x); fin(x); break; }
        case SCALED: f1([&](auto&& p) { return scaled(a, FWD(p)); }); break;
        case LMUL: f1([&](auto&& p) { return a * FWD(p); }); break;
        case RMUL: f1([&](auto&& p) { return FWD(p) * a; }); break;
        case DIV: if constexpr (!exact_only<T>) { f1([&](auto&& p) { return FWD(p) / a; }); } break;
        case AXPY: { auto& q = axpy(a, v1, v2); k.same_obj(&q, &v2); fin(v2); keep(v2); break; }
    }
}

template<typename T> void dyn(Ctx& c) {
    draw_threads(c);
    Case<T> k; k.generate(c, huge_length(c, 6000, 70000), "DynVec");
    body<T, DynVec<T>>(k);
}
using NS = Sizes<3, 0, 1, 2, 4, 5, 8, 10, 15, 16, 17, 33, 64, 129, 1025>;
template<typename T> void sized(Ctx& c) {
    draw_threads(c);
    any_n(c, NS{}, [&]<size_t N>() { Case<T> k; k.generate(c, N, "SizedVec"); body<T, SizedVec<T, N>>(k); });
}
// fixed-size and dynamic operands together: the result is fixed-size
template<typename T, size_t N> void mixed_n(Ctx& c) {
    bool plus = !c.chance(1, 2), dyn_first = c.chance(1, 2), alias = c.chance(1, 2);
    Case<T> k; k.mode = c.pick({Mode::Int, Mode::Real, Mode::Wide, Mode::Special});
    k.n = N; k.op = plus ? ADD_TO : SUB_TO; k.binary = true; k.a = T(1);
    k.x0 = vec<T>(c, N, k.mode); k.y0 = vec<T>(c, N, k.mode);
    k.what = cat(plus ? "add" : "sub", dyn_first ? "(Dyn,Sized,Sized) " : "(Sized,Dyn,Sized) ", alias ? "result is operand " : "", "[", tname<T>(), "]");
    SizedVec<T, N> s(dyn_first ? k.y0 : k.x0), r(vec<T>(c, N, Mode::Int)); DynVec<T> d(dyn_first ? k.x0 : k.y0);
    SizedVec<T, N>& vr = alias ? s : r;
    c.label(k.what); c.note(cat(k.what, " n=", N, " v1=", show(k.x0), " v2=", show(k.y0))); c.nontrivial();
    SizedVec<T, N>* ret;
    if (plus) { ret = dyn_first ? &add(d, s, vr) : &add(s, d, vr); } else { ret = dyn_first ? &sub(d, s, vr) : &sub(s, d, vr); }
    k.same_obj(ret, &vr); k.done(vr.data(), vr.size());
    k.unchanged(d.data(), d.size(), dyn_first); if (!alias) { k.unchanged(s.data(), s.size(), !dyn_first); }
}
template<typename T> void mixed(Ctx& c) { draw_threads(c); any_n(c, NS{}, [&]<size_t N>() { mixed_n<T, N>(c); }); }

FACET_ALL("dyn", 1400, dyn);
FACET_ALL("sized", 900, sized);
FACET_ALL("mixed", 400, mixed);
FACET_EXACT("dyn", 300, dyn);
FACET_EXACT("sized", 200, sized);
