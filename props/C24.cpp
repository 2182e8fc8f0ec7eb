// C24: operations give back the memory they take and depend on nothing but their operands
#include <cstdlib>
#include <cstring>
#include <new>
#include <atomic>
#include <optional>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
// --- every block: a header, a guard, the memory itself (filled), a guard.  AddressSanitizer guards the end itself.
namespace mem {
struct alignas(16) Head { size_t size; unsigned long long magic; };
inline constexpr unsigned long long MAGIC = 0x6c616c69625f6d65ull; inline constexpr size_t G = 32; inline constexpr unsigned char GUARD = 0xA5;
inline std::atomic<long> bytes{0}; inline std::atomic<int> broken{0}; inline std::atomic<unsigned char> fill{0};
#if defined(__SANITIZE_ADDRESS__)
inline constexpr size_t TAIL = 0;
#else
inline constexpr size_t TAIL = G;
#endif
inline void* take(size_t n) {
    auto* p = static_cast<unsigned char*>(std::malloc(sizeof(Head) + G + n + TAIL)); if (!p) { throw std::bad_alloc(); }
    new (p) Head{n, MAGIC}; std::memset(p + sizeof(Head), GUARD, G); std::memset(p + sizeof(Head) + G, fill.load(std::memory_order_relaxed), n); std::memset(p + sizeof(Head) + G + n, GUARD, TAIL);
    bytes.fetch_add(static_cast<long>(n + 1), std::memory_order_relaxed); return p + sizeof(Head) + G;
}
inline void give(void* q) {
    if (!q) { return; }
    auto* p = static_cast<unsigned char*>(q) - G - sizeof(Head); auto* h = reinterpret_cast<Head*>(p);
    if (h->magic != MAGIC) { broken = 1; return; }
    for (size_t i = 0; i < G; ++i) { if (p[sizeof(Head) + i] != GUARD) { broken = 2; } }
    for (size_t i = 0; i < TAIL; ++i) { if (static_cast<unsigned char*>(q)[h->size + i] != GUARD) { broken = 3; } }
    h->magic = 0; bytes.fetch_sub(static_cast<long>(h->size + 1), std::memory_order_relaxed); std::free(p);
}
inline const char* what(int b) { return b == 1 ? "memory was released that is not in use" : b == 2 ? "memory in front of an array was overwritten" : "memory behind an array was overwritten"; }
inline long in_use() {
#if defined(__SANITIZE_ADDRESS__)
    return static_cast<long>(__sanitizer_get_current_allocated_bytes());
#else
    return bytes.load();
#endif
}
[[gnu::noinline]] inline void spoil_stack(unsigned char v) { volatile unsigned char a[24000]; for (size_t i = 0; i < sizeof a; ++i) { a[i] = v; } }
}
void* operator new(size_t n) { return mem::take(n); }
void* operator new[](size_t n) { return mem::take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return mem::take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return mem::take(n); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { mem::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mem::give(p); }
void operator delete(void* p) noexcept { mem::give(p); }
void operator delete[](void* p) noexcept { mem::give(p); }
void operator delete(void* p, size_t) noexcept { mem::give(p); }
void operator delete[](void* p, size_t) noexcept { mem::give(p); }

#include "../engine/tasks.hpp"

// operations that C22 does not have: failing ones, and whole lives of objects
template<typename T> void more(World<T>& w, std::vector<Task<T>>& out) {
    auto& c = w.c; size_t n = 1 + c.below(12); using Run = std::function<std::vector<T>()>; std::string name; Run run; auto put1 = [](std::vector<T>& o, long x) { o.push_back(static_cast<T>(x)); };
    switch (c.below(10)) {
        case 0: { name = "rejected factorizations"; auto a = w.dominant(n, true, true); size_t p = c.below(n); for (size_t i = 0; i < n; ++i) { a[i * n + p] = a[p * n + i] = T(0); } int kind = static_cast<int>(c.below(6)); auto coo = w.coo(w.pattern(a, n)); bool empty = coo.nnz() == 0;
            run = [=] { std::vector<T> o; try {
                std::vector<T> tri; for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j <= i; ++j) { tri.push_back(a[i * n + j]); } }
                switch (empty && kind > 3 ? 0 : kind) {
                    case 0: { solver::DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(n, std::move(tri))); break; }
                    case 1: { solver::DynCholeskyFactorization<T> f(DynMat<T>(n, n, a)); break; }
                    case 2: { solver::DynModCholeskyFactorization<T> f(DynMat<T>(n, n, a)); break; }
                    case 3: { solver::Ilu<T, DynMat<T>> f(DynMat<T>(n, n, a)); break; }
                    case 4: { solver::Gmres<T, DynMat<T>> f(DynMat<T>(n, n, a), T(1e-3)); break; }
                    default: { solver::Gmres<T, DynMat<T>> f(DynMat<T>(n, n, a), T(1)); SpMat<T> s(coo); o.push_back(s(0, 0)); }
                } put1(o, 1); } catch (const std::exception&) { put1(o, 2); } return o; }; break; }
        case 1: { name = "size mismatches"; auto a = w.ints(n), b = w.ints(n + 1 + c.below(40)); int kind = static_cast<int>(c.below(5));
            run = [=] { std::vector<T> o; DynVec<T> x(a), y(b); try { switch (kind) { case 0: { auto r = x + y; o.push_back(r[0]); break; } case 1: sub(x, y, y); break; case 2: axpy(T(2), x, y); break; case 3: o.push_back(dot(x, y)); break; default: { auto r = y - x; o.push_back(r[0]); } } put1(o, 1); } catch (const std::exception& e) { put1(o, static_cast<long>(std::strlen(e.what()))); } put(o, x); put(o, y); return o; }; break; }
        case 2: { name = "rejected contents"; int kind = static_cast<int>(c.below(7)); auto a = w.ints(n * (n + 1) / 2 + (n > 1 ? 1 : 3));
            run = [=] { std::vector<T> o; std::vector<size_t> r(n + 3, 0), k(n, 0); for (size_t i = 0; i < n; ++i) { r[i] = k[i] = i; } try { switch (kind) {
                case 0: { SpCooMat<T> m(std::vector<T>(n, T(1)), std::vector<size_t>(r), std::vector<size_t>(k)); put1(o, 1); break; }
                case 1: { SpMat<T> m(std::vector<T>(n + 2, T(1)), std::vector<size_t>(r), std::vector<size_t>(k)); put1(o, 1); break; }
                case 2: { auto m = SpCooMat<T>::unit(n); m.mut_at(0, n) = T(3); break; }
                case 3: { auto m = SpMat<T>::unit(n); m.mut_at(n, 0) = T(3); break; }
                case 4: { DynUpperTriMat<T> m{std::vector<T>(a)}; put1(o, 1); break; }
                case 5: { auto m = DynUpperTriMat<T>::with_capacity(3); m.extend_with_zero(); m.extend_with(std::vector<T>(n + 2, T(1))); break; }
                default: { auto m = HessenbergMat<T>::with_capacity(3); m.extend_with_zero(); m.extend_with(std::vector<T>(n + 3, T(1))); } } put1(o, 2); } catch (const std::exception&) { put1(o, 3); } return o; }; break; }
        case 3: { name = "lives of dense objects"; auto a = w.ints(n * (n + 2)); auto b = w.ints(n);
            run = [=] { std::vector<T> o; DynMat<T> A(n, n + 2, a), B(A), C = DynMat<T>::identity(n + 1); C = A; B = std::move(C); A = DynMat<T>::filled(T(2), 2, n); A = *&A; C = DynMat<T>::diag(b); putm(o, A); putm(o, B); putm(o, C);
                DynVec<T> x(b), y = x, z({T(1), T(2)}); z = y; y = std::move(x); x = z; x = *&x; put(o, x); put(o, y); put(o, z); y = z + y; put(o, y); auto f = DynVec<T>::filled(n + 3, T(4)); put(o, f); std::vector<DynMat<T>> v; for (int i = 0; i < 5; ++i) { v.push_back(A); v.push_back(B); } v.erase(v.begin() + 1, v.begin() + 4); for (auto& m : v) { putm(o, m); } return o; }; break; }
        case 4: { name = "lives of sparse objects"; auto p = draw_pattern<T>(c, 0, Mode::Int, true), q = draw_pattern<T>(c, 0, Mode::Int, true); auto a = w.coo(p), b = w.coo(q);
            run = [=] { std::vector<T> o; SpCooMat<T> x(a), y(b), e; auto see = [&](const auto& m) { auto [r, k] = m.shape(); put1(o, static_cast<long>(m.nnz())); for (size_t i = 0; i < std::min<size_t>(r, 9); ++i) { for (size_t j = 0; j < std::min<size_t>(k, 9); ++j) { o.push_back(m(i, j)); } } };
                e = x; x = y; y = std::move(e); e = y + x; e += y; x = e; x = *&x; see(x); see(y); see(e); SpMat<T> s(e), t{SpCooMat<T>(y)}, u(s); u = t; t = std::move(s); s = u; u = *&u; see(s); see(t); see(u); s = T(2) * s; t = -t; see(s); see(t); see(SpMat<T>::unit(3)); std::vector<SpMat<T>> v(4, t); v.erase(v.begin()); v.push_back(u); for (auto& m : v) { see(m); } return o; }; break; }
        case 5: { name = "growing matrices"; auto e = w.ints(n * (n + 2)); 
            run = [=] { std::vector<T> o; auto h = HessenbergMat<T>::with_capacity(n / 2); auto u = DynUpperTriMat<T>::with_capacity(n); for (size_t i = 0; i < n; ++i) { if (e[i] > T(0)) { h.extend_with_zero(); u.extend_with_zero(); } else { h.extend_with(std::vector<T>(e.begin(), e.begin() + static_cast<long>(i ? i + 2 : 1))); u.extend_with(std::vector<T>(e.begin(), e.begin() + static_cast<long>(i + 1))); } u(i, i) = T(2); if (i) { h(i, i - 1) = T(5); } }
                auto h2 = h; auto u2 = u; h2.extend_with_zero(); u2.extend_with_zero(); const auto &h3 = h2; const auto &u3 = u2; for (size_t j = 0; j < n; ++j) { auto col = h.get_col(j); for (auto x : col) { o.push_back(x); } for (size_t i = 0; i < n; ++i) { o.push_back(h3(i, j)); o.push_back(u3(i, j)); } } std::vector<T> y(n, T(0)); y[n - 1] = T(4); y[0] = T(2); if (n < 4) { u.back_sub(y); for (auto x : y) { o.push_back(x); } } return o; }; break; }
        case 6: { name = "copied solvers"; auto a = w.dominant(n, true, true), b = w.reals(n); T tol = std::is_same_v<T, float> ? T(1e-3) : T(1e-8);
            run = [=] { std::vector<T> o; DynVec<T> v(b); solver::DynCholeskyFactorization<T> f(DynMat<T>(n, n, a)); auto g = f; auto h = std::move(f); put(o, g.solve_linear(v)); put(o, h.solve_linear(v)); solver::Ilu<T, DynMat<T>> i(DynMat<T>(n, n, a)); auto j = i; put(o, j.solve(v)); solver::Gmres<T, DynMat<T>> p(DynMat<T>(n, n, a), tol); auto q = p; put(o, q.solve(v)); put(o, p.solve(v)); return o; }; break; }
        case 8: { name = "products in place"; n = 1 + c.below(9); auto a = w.ints(n * n), b = w.ints(n); size_t m = 1 + c.below(9); auto e = w.ints(n * m); for (auto* q : {&a, &e}) { for (auto& x : *q) { x = x > T(2) ? T(2) : x < T(-2) ? T(-2) : x; } } T al = static_cast<T>(std::array<int, 4>{1, 2, -1, 0}[c.below(4)]), be = static_cast<T>(std::array<int, 4>{0, 0, 1, -2}[c.below(4)]);
            run = [=] { std::vector<T> o; DynMat<T> A(n, n, a), B(A), E(n, m, e); DynVec<T> v(b); mul(al, A, v, be, v); put(o, v); mul(al, A, B, be, B); putm(o, B); B = A; mul(al, B, A, be, B); putm(o, B); mul(al, A, A, be, A); putm(o, A); mul(al, B, E, be, E); putm(o, E); SpMat<T> s(SpCooMat<T>(std::vector<T>(b), [&] { std::vector<size_t> r(n); for (size_t i = 0; i < n; ++i) { r[i] = i; } return r; }(), [&] { std::vector<size_t> r(n); for (size_t i = 0; i < n; ++i) { r[i] = n - 1 - i; } return r; }())); DynVec<T> x(b); mul(al, s, x, be, x); put(o, x);
                if (n > 3) { return o; } auto S = SizedMat<T, 3, 3>::filled(T(0)); SizedVec<T, 3> y({T(1), T(2), T(3)}); for (size_t i = 0; i < 3; ++i) { for (size_t j = 0; j < 3; ++j) { S(i, j) = a[(i * 3 + j) % (n * n)]; } } mul(al, S, y, be, y); for (auto z : y) { o.push_back(z); } mul(al, S, S, be, S); for (size_t i = 0; i < 3; ++i) { for (size_t j = 0; j < 3; ++j) { o.push_back(S(i, j)); } } return o; }; break; }
        case 7: { name = "kept objects"; auto a = w.dominant(n, true, true); auto b = w.reals(n), b2 = w.reals(n * 2); struct Kept { std::optional<solver::TriDiag<DynTriDiagMat<T>>> tri; std::optional<solver::DynCholeskyFactorization<T>> chol; SpCooMat<T> coo, none; SpMat<T> csr; DynVec<T> v; DynMat<T> m = DynMat<T>::filled(T(0), 1, 1); }; auto k = std::make_shared<Kept>();
            std::vector<T> l, d, u; for (size_t i = 0; i < n; ++i) { d.push_back(a[i * n + i]); if (i) { l.push_back(a[i * n + i - 1]); u.push_back(a[(i - 1) * n + i]); } }
            { DynTriDiagMat<T> t(std::move(l), std::move(d), std::move(u)); k->tri.emplace(std::move(t)); k->chol.emplace(DynMat<T>(n, n, a)); } auto p = w.pattern(a, n); k->coo = w.coo(p); { std::vector<T> zero(k->coo.nnz(), T(0)); k->none = SpCooMat<T>(zero, k->coo.row_indices(), k->coo.col_indices()); }
            run = [=] { std::vector<T> o; DynVec<T> r(b), x(b); k->tri->solve_linear(r, x); put(o, x); k->tri->solve_linear(x, x); put(o, x); DynMat<T> R(n, 2, b2), X(R); k->tri->solve_linear(R, X); putm(o, X); put(o, k->chol->solve_linear(r)); k->chol->solve_linear_mut(X); putm(o, X);
                k->coo += k->none; k->csr = SpMat<T>(k->coo); put1(o, static_cast<long>(k->coo.nnz())); put(o, k->csr * r); k->v = r; put(o, k->v); k->v = k->v + r; put(o, k->v); k->m = X; k->m = R; putm(o, k->m); DynMat<T> A(n, n, a); mul(T(1), A, k->v, T(0), k->v); put(o, k->v); return o; }; break; }
        default: { name = "GMRES built and used"; auto a = w.dominant(n, false, false, 2), b = w.reals(n); auto s = w.coo(w.pattern(a, n)); bool zero = c.chance(1, 4); T tol = std::is_same_v<T, float> ? T(1e-3) : T(1e-8);
            run = [=] { std::vector<T> o; DynVec<T> v(zero ? std::vector<T>(n, T(0)) : b); solver::Gmres<T, DynMat<T>> p(DynMat<T>(n, n, a), tol); solver::Gmres<T, SpMat<T>> q(SpMat<T>(s), tol); put(o, p.solve(v)); put(o, q.solve(v)); put(o, q.solve(v)); return o; }; }
    }
    w.hist += cat(" ", name, "(n=", n, ")"); c.label(name); out.push_back({name, name[0] != 'c' && name[0] != 'k' && name[0] != 'G', std::move(run)});
}
template<typename T> void memory(Ctx& c) {
    draw_threads(c);
    std::string hist;
    {
        World<T> w{c, cat(tname<T>(), ":"), 0}; std::vector<Task<T>> all; size_t groups = 1 + c.below(3); for (size_t g = 0; g < groups; ++g) { if (c.chance(1, 2)) { more(w, all); } else { w.draw(all, 1 + c.chance(1, 4)); } }
        hist = w.hist; c.note(hist); c.nontrivial(!all.empty());
        // fill patterns of fresh memory: zeros, NaN, ordinary values
        unsigned char fills[3] = {c.pick<unsigned char>({0x00, 0x3F, 0x01}), 0xFF, c.pick<unsigned char>({0x41, 0x7F, 0xC1, 0x80})}; std::vector<std::vector<T>> want(all.size()), got(all.size());
        std::vector<size_t> order(all.size()); for (size_t i = 0; i < order.size(); ++i) { order[i] = i; } if (c.chance(1, 2)) { std::reverse(order.begin(), order.end()); } bool often = c.chance(1, 16);
        for (int round = 0; round < 3; ++round) {
            for (auto i : order) {
                mem::fill = fills[round]; mem::spoil_stack(fills[round]); long before = 0; size_t grown = 0, repeats = round < 2 ? 1 : often ? 40 : 4;
                for (size_t q = 0; q < repeats; ++q) {
                    long now = 0; { auto r = all[i].run(); auto& keep = round == 0 ? want[i] : got[i]; if (keep.size() != r.size()) { keep.assign(r.size(), T(0)); } std::copy(r.begin(), r.end(), keep.begin()); } now = mem::in_use(); if (q > 0 && now > before) { ++grown; } before = std::max(before, now);
                }
                mem::fill = 0;
                PBT_CHECK(mem::broken == 0, hist, ": ", all[i].name, ": ", mem::what(mem::broken.exchange(0)));
                PBT_CHECK(grown < 3, hist, ": ", all[i].name, ": repetitions leave more and more memory in use");
                if (round == 0) { for (auto x : want[i]) { PBT_CHECK(finite(x), hist, ": ", all[i].name, " yields ", x); } continue; }
                PBT_CHECK(got[i].size() == want[i].size(), hist, ": ", all[i].name, " yields ", got[i].size(), " values, before ", want[i].size());
                long double big = 0; for (auto x : want[i]) { big = std::max(big, amag(x)); } long double tol = all[i].exact ? -1.0L : (std::is_same_v<T, float> ? 1e-2L : 1e-7L) * (big + 1e-3L);
                for (size_t k = 0; k < got[i].size(); ++k) {
                    PBT_CHECK(finite(got[i][k]) && std::fabs(static_cast<long double>(got[i][k]) - want[i][k]) <= (tol < 0 ? 4 * U<T> * std::fabs(static_cast<long double>(want[i][k])) : tol), hist, ": ", all[i].name, ": value ", k, " is ", got[i][k], " when fresh memory is filled with ", static_cast<int>(fills[round]), ", and ", want[i][k], " when it is filled with ", static_cast<int>(fills[0]));
                }
            }
        }
    }
    PBT_CHECK(mem::broken == 0, hist, ": ", mem::what(mem::broken.exchange(0)));
}
FACET_FD("memory", 500, memory);
