// Reference model and generators for sparse matrices.
#pragma once
#include "gen.hpp"
#include <map>
#include <tuple>
template<typename T> struct Pattern {
    std::map<std::pair<size_t, size_t>, T> e;
    bool has(size_t i, size_t j) const { return e.count({i, j}) > 0; }
    T get(size_t i, size_t j) const { auto it = e.find({i, j}); return it == e.end() ? T(0) : it->second; }
    void set(size_t i, size_t j, T x) { e[{i, j}] = x; }
    size_t rows() const { size_t r = 0; for (auto& [k, v] : e) { r = std::max(r, k.first + 1); } return r; }
    size_t cols() const { size_t r = 0; for (auto& [k, v] : e) { r = std::max(r, k.second + 1); } return r; }
    bool has_empty_row() const { size_t filled = 0, last = size_t(-1); for (auto& [k, v] : e) { filled += k.first != last; last = k.first; } return filled < rows(); }
    std::string show() const {
        std::ostringstream o; o.precision(9); o << "{"; size_t n = 0;
        for (auto& [k, v] : e) { if (n++ == 12) { o << " ... " << e.size() << " entries"; break; } o << " (" << k.first << "," << k.second << ")=" << v; }
        o << " }"; return o.str();
    }
    std::vector<T> dense(size_t n, size_t m) const { std::vector<T> d(n * m, T(0)); for (auto& [k, v] : e) { d[k.first * m + k.second] = v; } return d; }
    // entry lists in a drawn order
    std::tuple<std::vector<T>, std::vector<size_t>, std::vector<size_t>> shuffled(Src& c) const {
        std::vector<std::pair<std::pair<size_t, size_t>, T>> l(e.begin(), e.end());
        size_t how = c.below(4);
        if (how == 1) { std::reverse(l.begin(), l.end()); }
        else if (how == 2) { std::stable_sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.first.second < b.first.second; }); }
        else if (how == 3) { pbt::Bulk b(c.draw(1ull << 32)); for (size_t i = l.size(); i > 1; --i) { std::swap(l[i - 1], l[b.below(i)]); } }
        std::vector<T> v; std::vector<size_t> r, k; for (auto& [p, x] : l) { v.push_back(x); r.push_back(p.first); k.push_back(p.second); }
        return {v, r, k};
    }
    // compressed rows, columns inside a row in a drawn order, at least min_rows rows
    void csr(Src& c, std::vector<T>& v, std::vector<size_t>& rp, std::vector<size_t>& k, size_t min_rows) const {
        size_t n = std::max(rows(), min_rows); rp.assign(1, 0); v.clear(); k.clear(); bool mixed = c.chance(1, 2); pbt::Bulk b(mixed ? c.draw(1ull << 32) : 0);
        for (size_t i = 0; i < n; ++i) {
            size_t s = k.size();
            for (auto it = e.lower_bound({i, 0}); it != e.end() && it->first.first == i; ++it) { v.push_back(it->second); k.push_back(it->first.second); }
            if (mixed) { for (size_t q = k.size(); q > s + 1; --q) { size_t z = s + b.below(q - s); std::swap(k[q - 1], k[z]); std::swap(v[q - 1], v[z]); } }
            rp.push_back(k.size());
        }
    }
};
template<typename T> Pattern<T> unit_pattern(size_t n) { Pattern<T> p; for (size_t i = 0; i < n; ++i) { p.set(i, i, T(1)); } return p; }
// random pattern; square = 0 draws a shape, otherwise positions lie in square x square
template<typename T> Pattern<T> draw_pattern(pbt::Ctx& c, size_t square, gen::Mode md, bool zeros_allowed, size_t big = 1) {
    Pattern<T> p; size_t n = square, m = square;
    if (!square) { n = 1 + c.below(8); m = 1 + c.below(8); if (c.chance(1, 8)) { n = 1 + c.below(40 * big); } if (c.chance(1, 8)) { m = 1 + c.below(40 * big); } }
    auto put = [&](pbt::Src& s, size_t i, size_t j) { T x = gen::val<T>(s, md); if (!zeros_allowed && x == T(0)) { x = T(1); } p.set(i, j, x); };
    switch (c.below(6)) {
        case 0: { size_t k = c.below(n * m + 1); k = std::min<size_t>(k, 60); for (size_t q = 0; q < k; ++q) { put(c, c.below(n), c.below(m)); } break; }
        case 1: { size_t k = c.below(6); for (size_t q = 0; q < k; ++q) { put(c, c.below(n), c.below(m)); } break; }
        case 2: { auto b = c.bulk(); unsigned den = static_cast<unsigned>(c.pick({2, 3, 5, 9})); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < m; ++j) { if (b.chance(1, den)) { put(b, i, j); } } } break; }
        case 3: { auto b = c.bulk(); for (size_t i = 0; i < n; ++i) { if (c.chance(1, 2)) { for (size_t j = 0; j < m; ++j) { if (b.chance(1, 2)) { put(b, i, j); } } } } break; }     // whole rows empty
        case 4: { auto b = c.bulk(); for (size_t i = 0; i < n; ++i) { for (size_t j = i ? i - 1 : 0; j < std::min(m, i + 2); ++j) { if (b.chance(4, 5)) { put(b, i, j); } } } break; }  // band
        default: { size_t k = 1 + c.below(5); for (size_t q = 0; q < k; ++q) { put(c, c.chance(1, 2) ? n - 1 : c.below(n), c.chance(1, 2) ? m - 1 : c.below(m)); } }                       // near the last row and column
    }
    return p;
}
// few entries at indices far apart: around powers of two, sharing rows and columns now and then
inline size_t far_index(pbt::Src& c, size_t top) {
    size_t i;
    switch (c.below(4)) {
        case 0: i = c.below(6); break;
        case 1: { unsigned bits = 0; while (bits < 63 && (size_t(2) << bits) <= top) { ++bits; } i = (size_t(1) << c.below(bits + 1)) + static_cast<size_t>(c.below(3)); i = i > 1 ? i - 1 : 0; break; }
        case 2: i = top - std::min<size_t>(c.below(3), top); break;
        default: i = static_cast<size_t>(c.draw(1ull << 32)) ^ (static_cast<size_t>(top >> 32 ? c.draw(1ull << 32) : 0) << 20); i %= top + 1;
    }
    return std::min(i, top);
}
template<typename T> Pattern<T> scattered(pbt::Ctx& c, gen::Mode md, size_t top_row, size_t top_col, size_t most = 24) {
    Pattern<T> p; size_t k = 1 + c.below(most); std::vector<size_t> rs, cs;
    for (size_t q = 0; q < k; ++q) {
        size_t i = !rs.empty() && c.chance(1, 3) ? rs[c.below(rs.size())] : far_index(c, top_row), j = !cs.empty() && c.chance(1, 3) ? cs[c.below(cs.size())] : far_index(c, top_col);
        rs.push_back(i); cs.push_back(j); p.set(i, j, gen::val<T>(c, md));
    }
    return p;
}
// many entries
template<typename T> Pattern<T> crowded(pbt::Ctx& c, gen::Mode md, size_t most) {
    Pattern<T> p; size_t n = 1 + c.below(400), m = 1 + c.below(400), k = c.below(most); auto b = c.bulk();
    for (size_t q = 0; q < k; ++q) { p.set(b.below(n), b.below(m), gen::val<T>(b, md)); }
    return p;
}
// positions worth looking at when there are too many to look at all: stored ones, their neighbours and mirror images, others
template<typename T, typename F> void probe(const Pattern<T>& p, size_t rows, F&& f) {
    pbt::Bulk b(p.e.size() * 31 + rows); size_t step = p.e.size() / (p.e.size() > 200 ? 20 : 200) + 1, k = 0;
    for (auto& [q, v] : p.e) {
        if (k++ % step && k != p.e.size()) { continue; }
        auto [i, j] = q; f(i, j); f(i + 1, j); f(i, j + 1); if (i) { f(i - 1, j); } if (j) { f(i, j - 1); } f(j, i); f(i, size_t(0)); f(size_t(0), j); f(i & 0xffffffffu, j & 0xffffffffu); f(i ^ (size_t(1) << 32), j); f(i, j ^ (size_t(1) << 32));
    }
    for (int q = 0; q < 40; ++q) { f(b.below(rows + 2), b.below(p.cols() + 2)); }
}
