// C02: inner product and Euclidean norm
#include "lalib/vec.hpp"
#include "../engine/gen.hpp"
using namespace lalib;

// Forms of one inner product; all of them must agree with the reference.
template<typename T> struct Pair {
    std::vector<T> x, y; Mode mode; size_t n; bool self;
    long double ref = 0, absum = 0, sq = 0;
    void generate(Ctx& c, size_t len, const char* kind) {
        n = len; mode = c.pick({Mode::Int, Mode::Real, Mode::Wide}); self = c.chance(1, 5);
        // integers small enough for an exact sum in single precision
        long imax = n <= 100 ? 9 : n <= 3000 ? 7 : 2;
        x = vec<T>(c, n, mode, imax); y = self ? x : vec<T>(c, n, mode, imax);
        if (c.chance(1, 12)) { std::fill(x.begin(), x.end(), T(0)); }
        if (self) { y = x; }
        measure();
        c.label(n == 0 ? "len 0" : n == 1 ? "len 1" : n < 16 ? "len 2..15" : n < 64 ? "len 16..63" : n < 1024 ? "len 64..1023" : "len >=1024");
        c.label(cat("values ", mname(mode)));
        c.note(cat(kind, " ", tname<T>(), " n=", n, self ? " x is y" : "", " x=", show(x), " y=", show(y)));
        c.nontrivial(n >= 2 && absum > 0);
    }
    void measure() { ref = absum = sq = 0; for (size_t i = 0; i < n; ++i) { auto p = wide(x[i]) * wide(y[i]); ref += p; absum += std::fabs(p); sq += wide(x[i]) * wide(x[i]); } }
    void dot(const T& got, const char* form) const {
        if (mode == Mode::Int) { PBT_CHECK(wide(got) == ref, form, " [", tname<T>(), ", n=", n, "]: got ", got, ", expected exactly ", ref); return; }
        auto tol = (static_cast<long double>(n) + 2) * U<T> * absum * 1.01L;
        PBT_CHECK(finite(got) && std::fabs(wide(got) - ref) <= tol, form, " [", tname<T>(), ", n=", n, "]: got ", got, ", reference ", ref, ", allowed error ", tol);
    }
    void norm(const T& got, const char* form) const {
        if constexpr (exact_only<T>) { return; }
        auto r = std::sqrt(sq);
        auto tol = (static_cast<long double>(n) + 6) * U<T> * r;
        PBT_CHECK(finite(got) && got >= 0 && std::fabs(wide(got) - r) <= tol, form, " [", tname<T>(), ", n=", n, "]: got ", got, ", reference ", r, ", allowed error ", tol);
        PBT_CHECK((got == 0) == (sq == 0), form, " [", tname<T>(), "]: norm is zero exactly for zero vectors; got ", got, " for sum of squares ", sq);
    }
};
// the vectors are then changed in every way the interface offers; products and norms must be those of the present values
template<typename T, typename V> void changed(Ctx& c, Pair<T>& p, V& x, V& y) {
    if (p.n == 0 || !c.chance(1, 3)) { return; }
    long imax = p.n <= 100 ? 9 : p.n <= 3000 ? 7 : 2;
    T* px = x.data(); T* py = y.data(); size_t i0 = c.below(p.n); T* ex = &x[i0]; T* ey = &y[i0]; auto bx = x.begin(); auto by = y.begin();     // taken before, written through later
    for (size_t q = 0, e = 1 + c.below(5); q < e; ++q) {
        bool first = c.chance(2, 3); V& v = first ? x : y; auto& m = first ? p.x : p.y;
        size_t i = c.below(p.n); T t = val<T>(c, p.mode, imax); static const char* how[] = {"v[i]", "data()[i]", "iterator", "assignment", "move assignment", "swap", "cross-assignment", "a pointer taken earlier", "a reference taken earlier", "an iterator taken earlier"};
        size_t k = c.below(10);
        switch (k) {
            case 0: v[i] = t; m[i] = t; break;
            case 1: v.data()[i] = t; m[i] = t; break;
            case 2: *(v.begin() + static_cast<long>(i)) = t; m[i] = t; break;
            case 3: { m = vec<T>(c, p.n, p.mode, imax); V other(m); v = other; break; }
            case 4: { m = vec<T>(c, p.n, p.mode, imax); V other(m); (void)other.norm2(); v = std::move(other); break; }
            case 5: std::swap(x, y); std::swap(p.x, p.y); break;
            case 6: y = x; p.y = p.x; break;
            case 7: (first ? px : py)[i] = t; m[i] = t; break;
            case 8: *(first ? ex : ey) = t; m[i0] = t; break;
            default: (first ? bx : by)[static_cast<long>(i)] = t; m[i] = t;
        }
        if (k >= 3 && k <= 6) { px = x.data(); py = y.data(); ex = &x[i0]; ey = &y[i0]; bx = x.begin(); by = y.begin(); }
        p.measure(); c.note(cat(" then ", how[k], first ? " of x" : " of y")); c.label(cat("after ", how[k]));
        p.dot(x.dot(y), "dot after a change"); p.dot(y.dot(x), "swapped dot after a change"); p.norm(x.norm2(), "norm2 after a change");
        expect_unchanged(x, p.x, "first operand of dot"); expect_unchanged(y, p.y, "second operand of dot");
    }
}

template<typename T> void dyn(Ctx& c) {
    draw_threads(c);
    Pair<T> p; p.generate(c, huge_length(c, 6000, 70000), "DynVec");
    DynVec<T> x(p.x), y(p.y); const DynVec<T>& v2 = p.self ? x : y;
    p.dot(x.dot(v2), "DynVec::dot(DynVec)");
    p.dot(v2.dot(x), "DynVec::dot(DynVec) with swapped operands");
    p.dot(dot(x, v2), "dot(DynVec,DynVec)");
    p.norm(x.norm2(), "DynVec::norm2");
    expect_unchanged(x, p.x, "first operand of dot"); expect_unchanged(y, p.y, "second operand of dot");
    changed(c, p, x, y);
}
using NS = Sizes<3, 0, 1, 2, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 257>;
template<typename T, size_t N> void sized_n(Ctx& c) {
    Pair<T> p; p.generate(c, N, "SizedVec");
    SizedVec<T, N> x(p.x), y(p.y); const SizedVec<T, N>& v2 = p.self ? x : y; DynVec<T> dx(p.x), dy(p.y);
    p.dot(x.dot(v2), "SizedVec::dot(SizedVec)");
    p.dot(v2.dot(x), "SizedVec::dot(SizedVec) with swapped operands");
    p.dot(dot(x, v2), "dot(SizedVec,SizedVec)");
    p.dot(x.dot(dy), "SizedVec::dot(DynVec)");
    p.dot(dx.dot(y), "DynVec::dot(SizedVec)");
    p.norm(x.norm2(), "SizedVec::norm2");
    expect_unchanged(x, p.x, "first operand of dot"); expect_unchanged(y, p.y, "second operand of dot");
    expect_unchanged(dx, p.x, "first operand of dot"); expect_unchanged(dy, p.y, "second operand of dot");
    changed(c, p, x, y);
}
template<typename T> void sized(Ctx& c) { draw_threads(c); any_n(c, NS{}, [&]<size_t N>() { sized_n<T, N>(c); }); }

FACET_FD("dyn", 1500, dyn);
FACET_FD("sized", 1500, sized);
FACET_EXACT("dyn", 300, dyn);
FACET_EXACT("sized", 200, sized);
