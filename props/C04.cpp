// C04: cross products
#include "lalib/vec.hpp"
#include "../engine/gen.hpp"
using namespace lalib;

// one operand/result of either kind
template<typename T, size_t N> struct Slot {
    bool dyn; SizedVec<T, N> s; DynVec<T> d;
    Slot(bool dyn_, const std::vector<T>& v): dyn(dyn_), s(v), d(v) {}
    T operator[](size_t i) const { return dyn ? d[i] : s[i]; }
    size_t size() const { return dyn ? d.size() : N; }
    const void* id() const { return dyn ? static_cast<const void*>(&d) : static_cast<const void*>(&s); }
};
template<typename T> W<T> crossref(const std::vector<T>& x, const std::vector<T>& y, size_t i, size_t j, long double& m) {
    auto p = wide(x[i]) * wide(y[j]), q = wide(y[i]) * wide(x[j]); m = mag(p) + mag(q); return p - q;
}
template<typename T> long double tolc(Mode md, long double m) { return md == Mode::Int ? 0.0L : 8 * U<T> * m; }

template<typename T> void two(Ctx& c) {
    auto mode = c.pick({Mode::Int, Mode::Real, Mode::Wide});
    int kind = static_cast<int>(c.below(3)); bool self = kind == 0 && c.chance(1, 6);
    auto xv = vec<T>(c, 2, mode), yv = self ? xv : vec<T>(c, 2, mode);
    const char* names[] = {"cross(Sized2,Sized2)", "cross(Sized2,Dyn)", "cross(Dyn,Sized2)"};
    auto what = cat(names[kind], " [", tname<T>(), "]");
    c.label(what); c.note(cat(what, " x=", show(xv), " y=", show(yv)));
    long double m; auto ref = crossref(xv, yv, 0, 1, m);
    c.nontrivial(m > 0);
    Slot<T, 2> x(kind == 2, xv), y(kind == 1, yv);
    auto call = [&](Slot<T, 2>& a, Slot<T, 2>& b) -> T { return a.dyn ? cross(a.d, b.s) : b.dyn ? cross(a.s, b.d) : cross(a.s, b.s); };
    auto& y2 = self ? x : y;
    T r = call(x, y2), ra = call(y2, x);
    expect_near<T>(r, ref, tolc<T>(mode, m), what); expect_near<T>(ra, -ref, tolc<T>(mode, m), what + " with swapped operands");
    if (self) { PBT_CHECK(r == T(0), what, ": cross product of a vector with itself is ", r); }
    expect_unchanged(x, xv, what + " first operand"); expect_unchanged(y, yv, what + " second operand");
}

template<typename T> void three(Ctx& c) {
    auto mode = c.pick({Mode::Int, Mode::Real, Mode::Wide});
    enum { RET, TO, ACC }; int form = static_cast<int>(c.below(3));
    bool kx = c.chance(1, 2), ky = c.chance(1, 2), kr = c.chance(1, 2);
    int alias = static_cast<int>(c.below(5));      // 0 none, 1 r=x, 2 r=y, 3 x=y, 4 all
    if (form == RET) { alias = alias ? 3 : 0; if (kx && ky) { ky = false; } }
    if (alias >= 3) { ky = kx; if (form == RET) { kx = ky = false; } }
    if (alias == 1 || alias == 4) { kr = kx; } else if (alias == 2) { kr = ky; }
    auto xv = vec<T>(c, 3, mode), yv = alias >= 3 ? xv : vec<T>(c, 3, mode), rv = vec<T>(c, 3, mode);
    if (alias == 1 || alias == 4) { rv = xv; } else if (alias == 2) { rv = yv; }
    auto k = [](bool d) { return d ? "Dyn" : "Sized3"; };
    auto what = cat(form == ACC ? "cross_acc(" : "cross(", k(kx), ",", k(ky), form == RET ? "" : ",", form == RET ? "" : k(kr), ")", alias == 1 ? " result is first operand" : alias == 2 ? " result is second operand" : alias == 3 ? " operands are one object" : alias == 4 ? " all one object" : "", " [", tname<T>(), "]");
    c.label(what); c.note(cat(what, " x=", show(xv), " y=", show(yv), " r=", show(rv), " ", mname(mode)));
    Slot<T, 3> x(kx, xv), y(ky, yv), r(kr, rv);
    auto& y2 = alias >= 3 ? x : y; auto& r2 = alias == 1 || alias == 4 ? x : alias == 2 ? y : r;
    const void* ret = nullptr; std::vector<T> got(3);
    auto with = [&](auto& a, auto& b) {
        auto to = [&](auto& q) { if (form == TO) { ret = &cross(a, b, q); } else { ret = &cross_acc(a, b, q); } };
        if (r2.dyn) { to(r2.d); } else { to(r2.s); }
    };
    auto ret_form = [&](Slot<T, 3>& a, Slot<T, 3>& b) { auto q = a.dyn ? cross(a.d, b.s) : b.dyn ? cross(a.s, b.d) : cross(a.s, b.s); std::vector<T> o(3); for (size_t i = 0; i < 3; ++i) { o[i] = q[i]; } PBT_CHECK(q.size() == 3, what, ": result size"); return o; };
    if (form == RET) { got = ret_form(x, y2); }
    else {
        if (x.dyn && y2.dyn) { with(x.d, y2.d); } else if (x.dyn) { with(x.d, y2.s); } else if (y2.dyn) { with(x.s, y2.d); } else { with(x.s, y2.s); }
        PBT_CHECK(ret == r2.id(), what, ": does not return the result object"); PBT_CHECK(r2.size() == 3, what, ": size of the result changed");
        for (size_t i = 0; i < 3; ++i) { got[i] = r2[i]; }
    }
    long double tot = 0;
    for (size_t i = 0; i < 3; ++i) {
        long double m; auto ref = crossref(xv, yv, (i + 1) % 3, (i + 2) % 3, m);
        if (form == ACC) { ref += wide(rv[i]); m += amag(rv[i]); }
        tot += m;
        expect_near<T>(got[i], ref, tolc<T>(mode, m), cat(what, " component ", i));
    }
    c.nontrivial(tot > 0);
    if (&r2 != &x) { expect_unchanged(x, xv, what + " first operand"); }
    if (&r2 != &y) { expect_unchanged(y, yv, what + " second operand"); }
    if (form == RET && alias == 0) {
        auto sw = ret_form(y, x);
        for (size_t i = 0; i < 3; ++i) { long double m; auto ref = crossref(xv, yv, (i + 1) % 3, (i + 2) % 3, m); expect_near<T>(sw[i], -ref, tolc<T>(mode, m), cat(what, " with swapped operands, component ", i)); }
    }
}
FACET_ALL("two", 600, two);
FACET_ALL("three", 2500, three);
FACET_EXACT("two", 200, two);
FACET_EXACT("three", 500, three);
