// C09: inverse of 2x2 matrices
#include "lalib/mat.hpp"
#include "../engine/gen.hpp"
using namespace lalib;

template<typename T> void inv(Ctx& c) {
    using M = SizedMat<T, 2, 2>;
    int gen = static_cast<int>(c.below(6)); std::vector<T> a(4);
    switch (gen) {
        case 0: for (auto& x : a) { x = val<T>(c, Mode::Int, 9); } break;
        case 1: for (auto& x : a) { x = val<T>(c, Mode::Real); } break;
        case 2: { for (auto& x : a) { x = val<T>(c, Mode::Real); } int e = static_cast<int>(c.zig(std::is_same_v<T, float> ? (c.chance(1, 3) ? 45 : 12) : c.chance(1, 3) ? 430 : 100)); for (auto& x : a) { x = std::ldexp(x, e); } break; }
        case 3: { for (auto& x : a) { x = val<T>(c, Mode::Real); } int e = static_cast<int>(c.zig(8)), f = static_cast<int>(c.zig(8)); a[0] = std::ldexp(a[0], e); a[1] = std::ldexp(a[1], f); a[2] = std::ldexp(a[2], -f); a[3] = std::ldexp(a[3], -e); break; }
        case 4: { a[0] = 0; a[3] = c.chance(1, 2) ? T(0) : val<T>(c, Mode::Real); a[1] = val<T>(c, Mode::Real); a[2] = val<T>(c, Mode::Real); break; }
        default: { a[1] = c.chance(1, 2) ? T(0) : val<T>(c, Mode::Real); a[2] = c.chance(1, 2) ? T(0) : val<T>(c, Mode::Real); a[0] = val<T>(c, Mode::Real); a[3] = val<T>(c, Mode::Real); }
    }
    auto W4 = [&](size_t i) { return wide(a[i]); };
    long double det = W4(0) * W4(3) - W4(1) * W4(2), ab = std::fabs(W4(0) * W4(3)) + std::fabs(W4(1) * W4(2));
    // singular up to rounding: not invertible; make it so
    if (std::fabs(det) < ab * 256 * U<T> || det == 0) { a = {T(2), T(1), T(1), T(3)}; det = 5; ab = 7; }
    long double adj[4] = {W4(3) / det, -W4(1) / det, -W4(2) / det, W4(0) / det};
    long double rel = 8 * U<T> * (1 + ab / std::fabs(det));
    auto what = [&](const char* f) { return cat(f, " [", tname<T>(), "] of ", show(a)); };
    c.label(cat("generator ", gen)); c.label(ab / std::fabs(det) > 100 ? "ill-conditioned determinant" : "benign determinant"); c.note(cat(tname<T>(), " ", show(a)));
    c.nontrivial(a[1] != a[2] || a[0] != a[3]);
    auto check = [&](const M& g, const char* f) { for (size_t k = 0; k < 4; ++k) { expect_near<T>(g(k / 2, k % 2), adj[k], rel * std::fabs(adj[k]), cat(what(f), " entry (", k / 2, ",", k % 2, ")")); } };
    auto keep = [&](const M& g, const char* f) { expect_exact(g.data(), a, what(f) + ": source"); };
    { M m(a); auto& r = invert(m); PBT_CHECK(&r == &m, what("invert(m)"), ": does not return its argument"); check(m, "invert(m)"); }
    { M m(a), r(std::vector<T>(4, T(7))); auto q = invert(m, r); check(r, "invert(m,r)"); check(q, "result of invert(m,r)"); keep(m, "invert(m,r)"); }
    { M m(a); auto q = invert(m, m); check(m, "invert(m,m)"); check(q, "result of invert(m,m)"); }
    const M m(a); auto q = inverted(m); check(q, "inverted(m)"); keep(m, "inverted(m)");
    // product with the original
    for (size_t i = 0; i < 2; ++i) { for (size_t j = 0; j < 2; ++j) {
        long double s = 0, t = 0; for (size_t k = 0; k < 2; ++k) { s += wide(m(i, k)) * wide(q(k, j)); t += std::fabs(wide(m(i, k)) * wide(q(k, j))); }
        PBT_CHECK(std::fabs(s - (i == j ? 1 : 0)) <= rel * 1.05L * t, what("inverted(m)"), ": product with the original is not the identity at (", i, ",", j, "): ", s);
    } }
    // twice gives the original back: relative perturbations of the entries (rel) are amplified once more
    if (rel * (ab / std::fabs(det)) < 0.01L) {
        auto b = inverted(q); long double tol = (4 * rel + 8 * U<T>) * (1 + 2 * ab / std::fabs(det));
        for (size_t k = 0; k < 4; ++k) { expect_near<T>(b(k / 2, k % 2), W4(k), tol * std::fabs(W4(k)), cat(what("inverted(inverted(m))"), " entry ", k)); }
    }
}
FACET_FD("inverse", 6000, inv);
