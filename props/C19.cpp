// C19: preconditioned GMRES
#include <stdexcept>
#include "lalib/mat.hpp"
#include "lalib/vec.hpp"
#include "lalib/solver/gmres.hpp"
#include "../engine/sparse.hpp"
#include "../engine/solve.hpp"
#include <memory>
using namespace lalib;
using LD = long double;

template<typename T> struct System {
    size_t n; std::vector<T> a; std::string kind; std::vector<LD> lu; LD k = 0, inv = 0; bool usable = true;
    std::string show() const { return cat(kind, " ", showm(a, n, n)); }
    // reference ILU(0) of the pattern of a, and the conditioning of everything a solve goes through
    void prepare() {
        lu.assign(a.begin(), a.end());
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { if (a[i * n + j] == T(0)) { continue; } LD s = lu[i * n + j]; for (size_t q = 0; q < std::min(i, j); ++q) { s -= lu[i * n + q] * lu[q * n + j]; } lu[i * n + j] = j < i ? s / lu[j * n + j] : s; } if (lu[i * n + i] == 0) { usable = false; return; } }
        // K bounds ||  |U^-1| |L^-1| (|A| + |L||U|) ||_inf
        std::vector<LD> v(n); for (size_t i = 0; i < n; ++i) { LD s = 0; for (size_t j = 0; j < n; ++j) { s += amag(a[i * n + j]); for (size_t q = 0; q <= std::min(i, j); ++q) { s += (q == i ? 1.0L : std::fabs(lu[i * n + q])) * std::fabs(lu[q * n + j]); } } v[i] = s; }
        for (size_t i = 0; i < n; ++i) { for (size_t q = 0; q < i; ++q) { v[i] += std::fabs(lu[i * n + q]) * v[q]; } }
        for (size_t i = n; i-- > 0;) { for (size_t q = i + 1; q < n; ++q) { v[i] += std::fabs(lu[i * n + q]) * v[q]; } v[i] /= std::fabs(lu[i * n + i]); }
        k = *std::max_element(v.begin(), v.end());
        // norm of the inverse of the preconditioned matrix, by Gauss-Jordan with pivoting
        std::vector<LD> p(n * n), w(n * n, 0); for (size_t j = 0; j < n; ++j) { std::vector<LD> col(n); for (size_t i = 0; i < n; ++i) { col[i] = a[i * n + j]; } col = precondition(col); for (size_t i = 0; i < n; ++i) { p[i * n + j] = col[i]; } w[j * n + j] = 1; }
        for (size_t c = 0; c < n; ++c) {
            size_t best = c; for (size_t i = c; i < n; ++i) { if (std::fabs(p[i * n + c]) > std::fabs(p[best * n + c])) { best = i; } }
            if (std::fabs(p[best * n + c]) < 1e-12L) { usable = false; return; }
            for (size_t j = 0; j < n; ++j) { std::swap(p[c * n + j], p[best * n + j]); std::swap(w[c * n + j], w[best * n + j]); }
            LD d = p[c * n + c]; for (size_t j = 0; j < n; ++j) { p[c * n + j] /= d; w[c * n + j] /= d; }
            for (size_t i = 0; i < n; ++i) { if (i == c || p[i * n + c] == 0) { continue; } LD f = p[i * n + c]; for (size_t j = 0; j < n; ++j) { p[i * n + j] -= f * p[c * n + j]; w[i * n + j] -= f * w[c * n + j]; } }
        }
        LD fro = 0; for (auto x : w) { fro += x * x; } inv = std::sqrt(fro);
    }
    std::vector<LD> precondition(std::vector<LD> v) const {
        for (size_t i = 0; i < n; ++i) { for (size_t q = 0; q < i; ++q) { v[i] -= lu[i * n + q] * v[q]; } }
        for (size_t i = n; i-- > 0;) { for (size_t q = i + 1; q < n; ++q) { v[i] -= lu[i * n + q] * v[q]; } v[i] /= lu[i * n + i]; }
        return v;
    }
    template<typename G> LD residual(const G& x, const std::vector<T>& b) const {
        std::vector<LD> r(n); for (size_t i = 0; i < n; ++i) { r[i] = b.empty() ? 0 : b[i]; for (size_t j = 0; j < n; ++j) { if (a[i * n + j] != T(0)) { r[i] -= static_cast<LD>(a[i * n + j]) * x[j]; } } }
        return norm(precondition(r));
    }
    static LD norm(const std::vector<LD>& v) { LD s = 0; for (auto x : v) { s += x * x; } return std::sqrt(s); }
};
template<typename T> System<T> draw_system(Ctx& c, size_t n, bool large) {
    System<T> m{n, std::vector<T>(n * n, T(0)), ""}; auto b = c.bulk(); auto at = [&](size_t i, size_t j) -> T& { return m.a[i * n + j]; };
    T dom = c.pick({T(1.3), T(1.02), T(2), T(5), T(1.1)}); bool signs = c.chance(1, 2);
    auto dominate = [&] { for (size_t i = 0; i < n; ++i) { T q = 0; for (size_t j = 0; j < n; ++j) { if (j != i) { q += std::abs(at(i, j)); } } at(i, i) = (q * dom + T(0.1)) * (signs && b.chance(1, 2) ? T(-1) : T(1)); } };
    switch (large && c.chance(3, 4) ? 10 + c.chance(1, 2) : c.below(10)) {
        case 11: { // a few strong entries far from the diagonal in every row
            m.kind = "strong"; T w = c.pick({T(1.3), T(1), T(0.8), T(1.5)}); for (size_t i = 0; i < n; ++i) { for (int k = 0; k < 4; ++k) { at(i, b.below(n)) = gen::real_val<T>(b) * w / T(4); } at(i, i) = T(1); } break; }
        case 8: case 9: { m.kind = "not dominant"; unsigned den = static_cast<unsigned>(2 + c.below(8)); bool ints = c.chance(1, 2); T d = c.pick({T(1), T(0.75), T(1.5), T(3)}); for (auto& x : m.a) { if (b.chance(1, den)) { x = ints ? static_cast<T>(b.zig(2)) : gen::real_val<T>(b) / T(4); } } for (size_t i = 0; i < n; ++i) { at(i, i) = d * (signs && b.chance(1, 2) ? T(-1) : T(1)); } break; }
        case 10: { // rows and columns far from each other: the incomplete factors say little about the matrix, so that many iterations are needed
            m.kind = "shuffled"; std::vector<size_t> q(n); T w = c.pick({T(0.3), T(0.45), T(0.48)}); for (int k = 0; k < 2; ++k) { for (size_t i = 0; i < n; ++i) { q[i] = i; } for (size_t i = n; i > 1; --i) { std::swap(q[i - 1], q[b.below(i)]); } for (size_t i = 0; i < n; ++i) { at(i, q[i]) += w * (b.chance(1, 2) ? T(-1) : T(1)); } } for (size_t i = 0; i < n; ++i) { at(i, i) = T(1); } break; }
        case 0: { m.kind = "full"; for (auto& x : m.a) { x = gen::real_val<T>(b); if (x == T(0)) { x = T(0.5); } } dominate(); break; }
        case 1: { m.kind = "integers"; unsigned den = static_cast<unsigned>(2 + c.below(4)); for (auto& x : m.a) { if (b.chance(1, den)) { x = static_cast<T>(b.zig(3)); } } for (size_t i = 0; i < n; ++i) { T q = 1; for (size_t j = 0; j < n; ++j) { if (j != i) { q += std::abs(at(i, j)); } } at(i, i) = q; } break; }
        case 2: case 3: { m.kind = "random pattern"; unsigned den = static_cast<unsigned>(2 + c.below(7)); for (auto& x : m.a) { if (b.chance(1, den)) { x = gen::real_val<T>(b); } } dominate(); break; }
        case 4: { m.kind = "grid"; size_t w = 2 + c.below(10); T up = T(-1) - static_cast<T>(c.below(4)) / T(4), lo = T(-1);
            for (size_t i = 0; i < n; ++i) { at(i, i) = T(4) + static_cast<T>(c.chance(1, 2)) * T(0.5); if (i % w && i) { at(i, i - 1) = lo; at(i - 1, i) = up; } if (i >= w) { at(i, i - w) = lo; at(i - w, i) = up; } }
            for (size_t i = 0; i < n; ++i) { T q = 0; for (size_t j = 0; j < n; ++j) { if (j != i) { q += std::abs(at(i, j)); } } if (std::abs(at(i, i)) < q * T(1.05)) { at(i, i) = q * T(1.05); } } break; }
        case 5: { m.kind = "arrow"; for (size_t i = 1; i < n; ++i) { at(0, i) = gen::real_val<T>(b); at(i, 0) = gen::real_val<T>(b); } dominate(); break; }
        case 6: { m.kind = "cyclic"; for (size_t i = 0; i < n; ++i) { at(i, (i + 1) % n) += T(1); at(i, (i + n / 2 + 1) % n) -= T(0.5); at((i + 3) % n, i) += T(0.25); } dominate(); break; }
        default: { m.kind = "diagonal"; for (size_t i = 0; i < n; ++i) { at(i, i) = static_cast<T>(1 + b.below(9)) * (b.chance(1, 2) ? T(1) : T(-1)); } }
    }
    if (c.chance(1, 4)) { int e = static_cast<int>(c.zig(std::is_same_v<T, float> ? 10 : 60)) + far_exponent<T>(c, 240, 20); for (auto& x : m.a) { x = std::ldexp(x, e); } m.kind += ", scaled"; }
    m.prepare(); return m;
}
template<typename T, typename M> M build(Ctx& c, const System<T>& m) {
    if constexpr (std::is_same_v<M, DynMat<T>>) { (void)c; return DynMat<T>(m.n, m.n, m.a); }
    else {
        Pattern<T> p; for (size_t i = 0; i < m.n; ++i) { for (size_t j = 0; j < m.n; ++j) { if (m.a[i * m.n + j] != T(0)) { p.set(i, j, m.a[i * m.n + j]); } } }
        if (c.chance(1, 2)) { std::vector<T> v; std::vector<size_t> rp, k; p.csr(c, v, rp, k, m.n); return SpMat<T>(v, rp, k); }
        auto [v, r, k] = p.shuffled(c); return SpMat<T>(SpCooMat<T>(v, r, k));
    }
}
template<typename T> void history(Ctx& c) {
    using D = DynMat<T>; using S = SpMat<T>; using GD = solver::Gmres<T, D>; using GS = solver::Gmres<T, S>;
    struct Obj { System<T> m; T tol; LD floor; std::shared_ptr<GD> d; std::shared_ptr<GS> s; D dsrc; S ssrc; std::vector<T> scale_rhs; };
    std::vector<Obj> obj; std::string hist = cat(tname<T>(), ":"); size_t nobj = 1 + c.chance(1, 4); bool inexact = false; LD u = U<T>;
    for (size_t o = 0; o < nobj; ++o) {
        bool large = c.chance(1, 14); size_t n = large ? 30 + c.below(c.chance(1, 24) ? 191 : 81) : order(c, 1, 24); auto m = draw_system<T>(c, n, large);
        LD cond = m.k * m.inv; if (!m.usable || cond * n * u > 2e-4L) { c.label("skipped: conditioning"); continue; }
        // tolerance relative to right-hand sides of preconditioned norm about 1 (they are scaled below)
        LD floor = 20 * static_cast<LD>(n + 5) * u * m.k * (m.inv * std::sqrt(static_cast<LD>(n)) + 1);
        LD want = std::pow(10.0L, -static_cast<LD>(large && c.chance(1, 2) ? 11 : c.below(std::is_same_v<T, float> ? 5 : 12)) + 1); T tol = static_cast<T>(std::max(want, 4 * floor));
        hist += cat(" new ", m.show(), " tol=", tol); c.label(m.kind); c.label(n == 1 ? "order 1" : n < 8 ? "order 2..7" : n < 25 ? "order 8..24" : "order >=40"); c.label(tol >= T(1) ? "tol >= 1" : tol > T(1e-3) ? "tol > 1e-3" : tol > T(1e-7) ? "tol > 1e-7" : "tol <= 1e-7");
        Obj q{m, tol, floor, nullptr, nullptr, build<T, D>(c, m), build<T, S>(c, m), {}};
        { D t = q.dsrc; S v = q.ssrc; q.d = std::make_shared<GD>(std::move(t), tol); q.s = std::make_shared<GS>(std::move(v), tol); }
        if (c.chance(1, 4)) { auto d = std::make_shared<GD>(*q.d); auto s = std::make_shared<GS>(*q.s); if (c.chance(1, 2)) { q.d->solve(DynVec<T>(std::vector<T>(n, T(1)))); } q.d = d; q.s = s; hist += " copied"; c.label("copied solver"); }
        obj.push_back(std::move(q));
    }
    if (obj.empty()) { return; }
    struct Old { size_t o; bool sparse; std::vector<T> b, x; }; std::vector<Old> done;
    size_t steps = 1 + c.below(5);
    for (size_t s = 0; s < steps; ++s) {
        if (!done.empty() && c.chance(1, 3)) {      // repeat an earlier solve
            auto& o = done[c.below(done.size())]; hist += " repeat"; DynVec<T> v(o.b); auto x = o.sparse ? obj[o.o].s->solve(v) : obj[o.o].d->solve(v); c.label("repeated solve");
            PBT_CHECK(x.size() == o.x.size(), hist, ": size of a repeated solve differs"); for (size_t i = 0; i < o.x.size(); ++i) { PBT_CHECK(x[i] == o.x[i], hist, ": a repeated solve gives ", x[i], " instead of ", o.x[i], " at ", i); } continue;
        }
        size_t k = c.below(obj.size()); auto& o = obj[k]; size_t n = o.m.n; auto b = rhs_values<T>(c, n, 1, 3);
        std::vector<LD> bl(b.begin(), b.end()); LD beta = System<T>::norm(o.m.precondition(bl)); bool zero = std::all_of(b.begin(), b.end(), [](T x) { return x == T(0); });
        int e = 0; if (!zero) { std::frexp(beta, &e); if (c.chance(1, 2)) { int f = static_cast<int>(c.zig(14)), room = static_cast<int>(std::floor(std::log2(static_cast<LD>(o.tol) / (4 * o.floor)))); f = std::min(f, std::max(room, 0)); e -= f; c.label(f > 0 ? "large right-hand side" : "small right-hand side"); } for (auto& x : b) { x = std::ldexp(x, -e); } beta = std::ldexp(beta, -e); }
        if (!zero && std::any_of(b.begin(), b.end(), [](T x) { return x != T(0) && std::fabs(x) < std::numeric_limits<T>::min() * 1e6; })) { continue; }
        LD floor = o.floor * std::max<LD>(beta, 1);
        hist += " solve"; c.note(cat("b=", show(b))); const DynVec<T> v(b); std::vector<T> xs[2];
        for (int sp = 0; sp < 2; ++sp) {
            auto x = sp ? o.s->solve(v) : o.d->solve(v); auto w = hist + (sp ? " (csr)" : " (dense)"); PBT_CHECK(x.size() == n, w, ": solution has ", x.size(), " elements");
            expect_unchanged(v, b, w + ": right-hand side");
            for (size_t i = 0; i < n; ++i) { PBT_CHECK(finite(x[i]), w, ": solution element ", i, " is ", x[i]); if (zero) { PBT_CHECK(x[i] == T(0), w, ": solution of a zero right-hand side has element ", x[i]); } }
            LD r = o.m.residual(x, b), loss = u * (beta / o.tol) * (beta / o.tol) * static_cast<LD>(n + 1) * o.m.k;
            LD allowed = static_cast<LD>(o.tol) * (loss < 1e-3L ? 1.01L : std::sqrt(static_cast<LD>(n + 1))) + floor;
            PBT_CHECK(r <= allowed, w, ": preconditioned residual norm is ", static_cast<double>(r), ", tolerance ", o.tol, " (allowed ", static_cast<double>(allowed), ", |preconditioned rhs| ", static_cast<double>(beta), ")");
            if (loss < 1e-3L && !zero) { c.label("sharp tolerance check"); } if (!zero && r > static_cast<LD>(o.tol) * 1e-6L && r > floor) { inexact = true; c.label("stopped by the tolerance"); }
            xs[sp].assign(x.begin(), x.end()); done.push_back({k, sp == 1, b, xs[sp]});
        }
        std::vector<T> diff(n); for (size_t i = 0; i < n; ++i) { diff[i] = xs[0][i] - xs[1][i]; }
        LD dr = o.m.residual(diff, {}); PBT_CHECK(dr <= 2 * (static_cast<LD>(o.tol) * std::sqrt(static_cast<LD>(n + 1)) + floor), hist, ": dense and sparse solutions differ by a residual of ", static_cast<double>(dr));
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { PBT_CHECK(same(T(o.dsrc(i, j)), o.m.a[i * n + j]), hist, ": the source matrix was changed"); } }
        if (n <= 24) { for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) { PBT_CHECK(same(T(o.ssrc(i, j)), o.m.a[i * n + j]), hist, ": the sparse source matrix was changed"); } } }
    }
    if (inexact) { c.label("several iterations or early stop"); }
    c.note(hist); c.nontrivial(!done.empty() && obj[0].m.n >= 3 && obj[0].m.kind.find("diagonal") == std::string::npos);
}
FACET_FD("history", 700, history);
