// C08: dense matrix-matrix products
#include "lalib/mat.hpp"
#include "../engine/gen.hpp"
using namespace lalib;

template<typename T> struct Case {
    size_t n, m, l, how = 0; bool op; int alias; Mode mode; T alpha, beta; long ea = -1, eb = -1; std::vector<T> a, b, c0;     // alpha/beta is element ea/eb of C
    std::string what;
    std::vector<W<T>> ref; std::vector<long double> bound;
    // alias: 0 none, 1 C is A, 2 C is B, 3 A is B, 4 all one object; bits of `can` say which are possible
    void generate(Ctx& c, size_t n_, size_t m_, size_t l_, const std::string& kind, bool can_a, bool can_b, bool can_ab) {
        n = n_; m = m_; l = l_;
        op = kind != "mul only" && c.chance(1, 3);
        alias = 0;
        if (c.chance(1, 2)) {
            alias = static_cast<int>(c.below(5));
            bool ca = can_a && m == l && !op, cb = can_b && n == l && !op, cab = can_ab && n == l && l == m;
            if ((alias == 1 && !ca) || (alias == 2 && !cb) || (alias == 3 && !cab) || (alias == 4 && !(ca && cb && cab))) { alias = ca && alias != 3 ? 1 : cb && alias != 3 ? 2 : cab ? 3 : 0; }
        }
        mode = c.pick({Mode::Int, Mode::Real, Mode::Real, Mode::Wide}); if (mode == Mode::Wide && !std::is_same_v<T, double>) { mode = Mode::Real; }
        alpha = op ? T(1) : coef<T>(c, mode); beta = op ? T(0) : coef<T>(c, mode);
        long imax = l <= 150 ? 9 : 5;
        a = vec<T>(c, n * l, mode, imax); b = alias >= 3 ? a : vec<T>(c, l * m, mode, imax);
        c0 = alias == 1 || alias == 4 ? a : alias == 2 ? b : vec<T>(c, n * m, mode, imax);
        if (c.chance(1, 3)) { auto q = c.bulk(); for (auto& e : a) { if (q.chance(1, 3)) { e = T(0); } } if (alias >= 3) { b = a; } if (alias == 1 || alias == 4) { c0 = a; } }
        if (!op && n * m > 0 && c.chance(1, 8)) { // the scalars are elements of the result matrix
            auto i = c.below(n * m), j = c.below(n * m); bool both = c.chance(1, 3), first = c.chance(1, 2);
            if (both || first) { ea = static_cast<long>(i); alpha = c0[i]; } if (both || !first) { eb = static_cast<long>(j); beta = c0[j]; } c.label("scalar is an element of the result");
        }
        how = op ? draw_temps(c) : 0;
        what = cat(op ? "operator* " : "mul ", kind, how ? cat(" temporary operands ", how) : std::string(), alias == 1 ? " C is A" : alias == 2 ? " C is B" : alias == 3 ? " A is B" : alias == 4 ? " all one object" : "", " [", tname<T>(), " ", n, "x", l, " by ", l, "x", m, "] alpha=", alpha, " beta=", beta, ea >= 0 ? cat(" (alpha is element ", ea, " of C)") : std::string(), eb >= 0 ? cat(" (beta is element ", eb, " of C)") : std::string());
        c.label(cat(op ? "operator* " : "mul ", kind)); c.label(cat("alias ", alias)); c.label(n != m ? "non-square result" : n != l ? "square result, other inner size" : "all square");
        c.label(n * m * l < 1000 ? "small" : n * m * l < 64000 ? "medium" : "large");
        c.note(cat(what, " A=", showm(a, n, l), " B=", showm(b, l, m), " C=", showm(c0, n, m)));
        c.nontrivial(alpha != T(0) && n * m * l > 1 && (n != m || m != l || alias || beta != T(0)));
        std::vector<W<T>> wa(a.size()), wb(b.size()); std::vector<long double> ma(a.size()), mb(b.size());
        for (size_t k = 0; k < a.size(); ++k) { wa[k] = wide(a[k]); ma[k] = mag(wa[k]); }
        for (size_t k = 0; k < b.size(); ++k) { wb[k] = wide(b[k]); mb[k] = mag(wb[k]); }
        ref.assign(n * m, 0); bound.assign(n * m, 0);
        for (size_t i = 0; i < n; ++i) { for (size_t k = 0; k < l; ++k) { for (size_t j = 0; j < m; ++j) { ref[i * m + j] += wa[i * l + k] * wb[k * m + j]; bound[i * m + j] += ma[i * l + k] * mb[k * m + j]; } } }
        for (size_t k = 0; k < n * m; ++k) { auto by = op ? W<T>(0) : wide(beta) * wide(c0[k]); ref[k] = wide(alpha) * ref[k] + by; bound[k] = amag(alpha) * bound[k] + mag(by); }
    }
    void done(const T* g, std::pair<size_t, size_t> sh) const {
        PBT_CHECK(sh.first == n && sh.second == m, what, ": result has shape ", sh.first, "x", sh.second);
        long double f = (static_cast<long double>(l) + 6) * (is_cx<T> ? 3 : 1) * U<T> * 1.02L;
        for (size_t k = 0; k < n * m; ++k) {
            auto tol = mode == Mode::Int ? 0.0L : f * bound[k];
            if (!finite(g[k]) || mag(wide(g[k]) - ref[k]) > tol) { expect_near<T>(g[k], ref[k], tol, cat(what, " element (", k / m, ",", k % m, ")")); }
        }
    }
    void keep(const T* g, bool first) const { auto& o = first ? a : b; for (size_t k = 0; k < o.size(); ++k) { if (!same(g[k], o[k])) { pbt::fail(cat(what, ": element ", k, " of ", first ? "A" : "B", " was changed")); } } }
};
template<typename T, typename MA, typename MB, typename MC> void run(Case<T>& k, MA A, MB B, MC C) {
    auto call = [&](auto& a, auto& b, auto& c) {
        const T& alpha = k.ea < 0 ? k.alpha : c.data()[k.ea]; const T& beta = k.eb < 0 ? k.beta : c.data()[k.eb];
        auto& r = mul(alpha, a, b, beta, c);
        PBT_CHECK(static_cast<const void*>(&r) == static_cast<const void*>(&c), k.what, ": does not return the result object");
        k.done(c.data(), c.shape());
        if (static_cast<const void*>(&a) != static_cast<const void*>(&c)) { k.keep(a.data(), true); }
        if (static_cast<const void*>(&b) != static_cast<const void*>(&c)) { k.keep(b.data(), false); }
    };
    constexpr bool ac = std::is_same_v<MA, MC>, bc = std::is_same_v<MB, MC>, ab = std::is_same_v<MA, MB>;
    if (k.op) {
        if constexpr (requires { A * B; }) {
            if constexpr (ab) { if (k.alias == 3) { auto r = with_temps<std::remove_cvref_t<decltype(A * A)>>(k.how, A, A, [](auto&& p, auto&& q) { return FWD(p) * FWD(q); }); k.done(r.data(), r.shape()); k.keep(A.data(), true); return; } }
            auto r = with_temps<std::remove_cvref_t<decltype(A * B)>>(k.how, A, B, [](auto&& p, auto&& q) { return FWD(p) * FWD(q); }); k.done(r.data(), r.shape()); k.keep(A.data(), true); k.keep(B.data(), false);
        }
        return;
    }
    if constexpr (ab && ac) { if (k.alias == 4) { call(A, A, A); return; } }
    if constexpr (ab) { if (k.alias == 3) { call(A, A, C); return; } }
    if constexpr (ac) { if (k.alias == 1) { call(A, B, A); return; } }
    if constexpr (bc) { if (k.alias == 2) { call(A, B, B); return; } }
    call(A, B, C);
}
template<typename T> void dyn(Ctx& c) {
    draw_threads(c);
    size_t n, m, l;
    size_t shape = c.below(6);
    if (c.chance(1, 25)) { n = order(c, 1, 140); m = order(c, 1, 140); l = order(c, 1, 140); }
    else { n = order(c, 1, 24); m = order(c, 1, 24); l = order(c, 1, 24); }
    bool thin = c.chance(1, 150);       // one or two long dimensions, the others such that the work stays small
    if (thin) {
        size_t most = c.chance(1, 12) ? 70000 : 2200; auto big = [&] { return 1 + length(c, most); }; size_t d[3] = {big(), c.chance(1, 2) ? 1 + c.below(600) : 1 + c.below(40), 1 + c.below(12)};
        while (d[0] * d[1] * d[2] > 1500000) { d[1] = d[1] / 2 + 1; d[0] = d[0] * 3 / 4 + 1; }
        size_t r = c.below(6); n = d[r % 3]; m = d[(r + 1 + r / 3) % 3]; l = d[(r + 2 - r / 3) % 3]; shape = 5; c.label("long dimensions");
    }
    if (shape == 0) { m = n; } else if (shape == 1) { l = m; } else if (shape == 2) { l = n; } else if (shape == 3) { l = m = n; }
    Case<T> k; k.generate(c, n, m, l, "(Dyn,Dyn,Dyn)", true, true, true);
    run(k, DynMat<T>(n, l, k.a), DynMat<T>(l, m, k.b), DynMat<T>(n, m, k.c0));
}
template<typename T, size_t N, size_t M, size_t L> void sized_nml(Ctx& c, size_t form, size_t dn, size_t dm, size_t dl) {
    Case<T> k; using SA = SizedMat<T, N, L>; using SB = SizedMat<T, L, M>; using SC = SizedMat<T, N, M>; using D = DynMat<T>;
    constexpr bool ac = L == M, bc = N == L;
    switch (form) {
        case 0: k.generate(c, N, M, L, "(Sized,Sized,Sized)", ac, bc, N == L && L == M); run(k, SA(k.a), SB(k.b), SC(k.c0)); break;
        default: {
            // forms without operator*
            auto g = [&](size_t n, size_t m, size_t l, bool ca, bool cb, bool cab, const char* nm) { k.generate(c, n, m, l, "mul only", ca, cb, cab); k.what += nm; c.label(nm); };
            switch (form) {
                case 1: g(N, M, L, false, bc, false, "(Dyn,Sized,Sized)"); run(k, D(N, L, k.a), SB(k.b), SC(k.c0)); break;
                case 2: g(N, M, L, ac, false, false, "(Sized,Dyn,Sized)"); run(k, SA(k.a), D(L, M, k.b), SC(k.c0)); break;
                case 3: g(N, M, dl, false, false, N == M, "(Dyn,Dyn,Sized)"); run(k, D(N, dl, k.a), D(dl, M, k.b), SC(k.c0)); break;
                case 4: g(N, M, L, false, false, N == L && L == M, "(Sized,Sized,Dyn)"); run(k, SA(k.a), SB(k.b), D(N, M, k.c0)); break;
                case 5: g(dn, M, L, ac, false, false, "(Dyn,Sized,Dyn)"); run(k, D(dn, L, k.a), SB(k.b), D(dn, M, k.c0)); break;
                default: g(N, dm, L, false, bc, false, "(Sized,Dyn,Dyn)"); run(k, SA(k.a), D(L, dm, k.b), D(N, dm, k.c0)); break;
            }
        }
    }
}
template<typename T> void sized(Ctx& c) {
    draw_threads(c);
    auto f = c.below(7); size_t dn = order(c, 1, 12), dm = order(c, 1, 12), dl = order(c, 1, 12);
    if (c.chance(1, 200)) { switch (c.below(3)) { case 0: sized_nml<T, 2, 3, 260>(c, f, dn, dm, dl); break; case 1: sized_nml<T, 260, 2, 3>(c, f, dn, dm, dl); break; default: sized_nml<T, 3, 260, 2>(c, f, dn, dm, dl); } return; }
    switch (c.below(7)) {
        case 0: sized_nml<T, 2, 3, 4>(c, f, dn, dm, dl); break; case 1: sized_nml<T, 1, 1, 1>(c, f, dn, dm, dl); break; case 2: sized_nml<T, 3, 3, 3>(c, f, dn, dm, dl); break;
        case 3: sized_nml<T, 5, 2, 5>(c, f, dn, dm, dl); break; case 4: sized_nml<T, 2, 4, 4>(c, f, dn, dm, dl); break; case 5: sized_nml<T, 1, 6, 2>(c, f, dn, dm, dl); break;
        default: sized_nml<T, 9, 1, 3>(c, f, dn, dm, dl);
    }
}
FACET_ALL("dyn", 1300, dyn);
FACET_ALL("sized", 1500, sized);
FACET_EXACT("dyn", 250, dyn);
TYPE_FACET(int, "sized", 200, sized);
