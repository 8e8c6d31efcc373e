// Large sizes: every pattern of a list of long histories, at sizes around powers of two up to 2^17, on the real classes
// with their default hash functions, comparators and allocators. The other harnesses enumerate everything at small sizes;
// this one looks for what only a large container shows (widths of counters, thresholds, deep trees).
//   -DPART=1 hash containers (-DKIND=1..4)  2 b-trees  3 vector  4 bit_vector  5 soa  6 lru_cache, memoize  7 dump / load
#include "vx.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <list>
#include <string>
#include <sstream>
#include <numeric>
using vx::Ctx;
static std::vector<int> sizes() {
    std::vector<int> s = { 511, 512, 4095, 4097, 32769, 66000 };
    if (vx::thorough) for (int i : { 1023, 1025, 2049, 8191, 8193, 16385, 57344, 57345, 114688, 114689, 131073, 300000 }) s.push_back(i);
    return s;
}
static int perm(int how, int i, int n) { // the i-th key of 0..n-1 in one of five orders
    switch (how) {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return (int)((long long)i * 7919 % n);                   // 7919 is prime and divides none of the sizes
    case 3: return i % 2 ? n - 1 - i / 2 : i / 2;                    // from both ends
    default: return i < n / 2 ? 2 * i : 2 * (i - n / 2) + (n % 2 == 0 || i > n / 2 ? 1 : 0) - (n % 2 && i > n / 2 ? 2 : 0); // evens, then odds
    }
}
static int order(int how, int i, int n) { int r = perm(how, i, n); if (how == 4) { int ev = (n + 1) / 2; r = i < ev ? 2 * i : 2 * (i - ev) + 1; } return r; }

#if PART == 1
#include <gtl/phmap.hpp>
struct HI { size_t operator()(int k) const { return (size_t)k << 7; } };               // all tags equal: everything is decided by positions
struct HL { size_t operator()(int k) const { return ((size_t)k * 0x9E3779B97F4A7C15ull) & ~(size_t)0xffff; } };
template<class K, class V, class H> using Mp =
#if KIND == 1
    gtl::flat_hash_map<K, V, H>;
#elif KIND == 2
    gtl::node_hash_map<K, V, H>;
#elif KIND == 3
    gtl::parallel_flat_hash_map<K, V, H, std::equal_to<K>, std::allocator<std::pair<const K, V>>, 4>;
#else
    gtl::parallel_node_hash_map<K, V, H, std::equal_to<K>, std::allocator<std::pair<const K, V>>, 2>;
#endif
static int ki(int k) { return k; }
template<class K> static K mk(int k) { if constexpr (std::is_same_v<K, std::string>) return "key " + std::to_string(k); else return (K)k; }
static int ku(int k) { return k; }
static int ku(const std::string& s) { return atoi(s.c_str() + 4); }
template<class M> struct Big {
    using K = typename M::key_type;
    Ctx& x; M m; std::vector<int> r; size_t n = 0; const char* where = "";
    Big(Ctx& x, int univ) : x(x), r(univ, -1) {}
    void put(int k, int v) { if (r[k] < 0) { r[k] = v; ++n; } }
    void ins(int k, int v) { auto p = m.insert({ mk<K>(k), v }); x.step(); VX_CHECK(p.second == (r[k] < 0), "%s: insert(%d) of %zu says %d", where, k, n, p.second); put(k, v); VX_CHECK(p.first->second == r[k] && ku(p.first->first) == k, "%s: insert(%d): iterator to another element", where, k); VX_CHECK(m.size() == n, "%s: size", where); }
    void del(int k) { size_t e = m.erase(mk<K>(k)); x.step(); VX_CHECK(e == (r[k] >= 0 ? 1u : 0u), "%s: erase(%d) of %zu returned %zu", where, k, n, e); if (r[k] >= 0) { r[k] = -1; --n; } VX_CHECK(m.size() == n, "%s: size", where); }
    void check(const M& c, const char* w) const {
        VX_CHECK(c.size() == n && c.empty() == (n == 0), "%s %s: size %zu, expected %zu", where, w, c.size(), n);
        for (int k = 0; k < (int)r.size(); ++k) { auto it = c.find(mk<K>(k)); if (r[k] < 0) VX_CHECK(it == c.end(), "%s %s: key %d should be absent", where, w, k); else VX_CHECK(it != c.end() && it->second == r[k], "%s %s: key %d of %zu lost or wrong", where, w, k, n); }
        std::vector<bool> seen(r.size()); size_t s = 0;
        for (auto it = c.begin(); it != c.end(); ++it) { int k = ku(it->first); VX_CHECK(k >= 0 && k < (int)r.size() && r[k] == it->second && !seen[k], "%s %s: traversal meets key %d", where, w, k); seen[k] = true; ++s; }
        VX_CHECK(s == n, "%s %s: traversal of %zu meets %zu", where, w, n, s);
        VX_CHECK(c.load_factor() <= 0.876f, "%s: load factor %f", where, c.load_factor());
    }
    void check() { check(m, ""); x.state(vx::mix(n, m.capacity())); }
};
template<class K, class H> static void hist(Ctx& x, bool par) {
    using M = Mp<K, int, H>; auto S = sizes(); int n = S[x.choose((int)S.size())]; int how = x.choose(4), er = x.choose(4), res = x.choose(2);
    if (n > 5000 && !vx::thorough && (how == 3 || (res && er != 1))) throw vx::Prune{};
    x.log("%d elements, order %d, erase %d, reserved %d", n, how, er, res);
    Big<M> b(x, 2 * n); size_t cap = 0;
    b.where = "fill"; if (res) { b.m.reserve(n); cap = b.m.capacity(); }
    for (int i = 0; i < n; ++i) b.ins(order(how, i, n), i);
    if (res && !par) VX_CHECK(b.m.capacity() == cap, "capacity %zu became %zu while inserting the %d reserved elements", cap, b.m.capacity(), n);
    b.check();
    b.where = "erase";
    if (er == 0) for (int i = 0; i < n; ++i) { if (i % 5) b.del(i); }
    else if (er == 1) for (int i = 0; i < n; ++i) { if (i != n / 2) b.del(n - 1 - i); }
    else if (er == 2) { for (auto it = b.m.begin(); it != b.m.end();) { int k = ku(it->first); if (k % 3 == 0) { b.r[k] = -1; --b.n; it = b.m.erase(it); } else ++it; } }
    else { size_t c = erase_if(b.m, [](const auto& e) { return e.second & 1; }), want = 0; for (int& v : b.r) if (v >= 0 && (v & 1)) { v = -1; ++want; --b.n; } VX_CHECK(c == want, "erase_if returned %zu, expected %zu", c, want); }
    b.check(); size_t c0 = b.m.capacity();
    b.where = "refill"; for (int i = 0; i < n; ++i) b.ins(n + order(how, i, n), i + 7);
    b.check(); if (er == 1 && !par) VX_CHECK(b.m.capacity() <= 2 * std::max(c0, cap) + 1, "capacity %zu after refilling a table of capacity %zu", b.m.capacity(), c0);
    { M c(b.m); b.check(c, "copy"); VX_CHECK(c == b.m, "a copy of %zu compares unequal", b.n);
      c.erase(mk<K>(n)); VX_CHECK(!(c == b.m) && c != b.m, "comparison does not see a missing key"); b.check();
      M d; d.insert({ mk<K>(0), 3 }); d.swap(c); VX_CHECK(c.size() == 1 && d.size() == b.n - 1, "sizes after swap"); d.insert({ mk<K>(n), b.r[n] }); b.check(d, "swapped");
      M e(std::move(d)); b.check(e, "moved"); c = std::move(e); b.check(c, "move assigned"); M f; f.merge(c); b.check(f, "merged"); VX_CHECK(c.empty(), "merge left %zu", c.size()); f = b.m; b.check(f, "copy assigned"); }
    b.where = "window"; int lo = 0; for (int i = 0; i < n / 2; ++i) { b.del(n + i); b.ins(lo++ % n, 5); } b.check();
    b.where = "rehash(0)"; b.m.rehash(0); b.check();
    b.where = "clear"; b.m.clear(); std::fill(b.r.begin(), b.r.end(), -1); b.n = 0; b.check();
    for (int i = 0; i < n / 3; ++i) b.ins(i * 3, i); b.check();
}
void reg() {
    bool par = KIND > 2;
    vx::add("big-int", 24, 3, [=](Ctx& x) { hist<int, gtl::Hash<int>>(x, par); });
    vx::add("big-tags", 24, 3, [=](Ctx& x) { hist<int, HI>(x, par); });
    if (vx::thorough) vx::add("big-low", 24, 3, [=](Ctx& x) { hist<int, HL>(x, par); });
    if (vx::thorough) vx::add("big-string", 24, 3, [=](Ctx& x) { hist<std::string, gtl::Hash<std::string>>(x, par); });
}
#elif PART == 2
#include <gtl/btree.hpp>
template<class C, class R> static void same(Ctx& x, const C& c, const R& r, const char* w) {
    x.step(); VX_CHECK(c.size() == r.size() && c.empty() == r.empty(), "%s: size %zu, expected %zu", w, c.size(), r.size());
    auto i = c.begin(); size_t n = 0; for (auto& e : r) { VX_CHECK(i != c.end() && *i == e, "%s: wrong element at %zu of %zu", w, n, r.size()); ++i; ++n; } VX_CHECK(i == c.end(), "%s: too many elements", w);
    auto j = c.rbegin(); for (auto k = r.rbegin(); k != r.rend(); ++k, ++j) VX_CHECK(j != c.rend() && *j == *k, "%s: wrong element in reverse", w); VX_CHECK(j == c.rend(), "%s: reverse end", w);
}
template<class C, class R> static void look(Ctx& x, const C& c, const R& r, int univ, const char* w) {
    for (int k = -1; k <= univ; ++k) { auto a = c.lower_bound(k), b = c.upper_bound(k); auto p = r.lower_bound(k), q = r.upper_bound(k);
        VX_CHECK((a == c.end()) == (p == r.end()) && (a == c.end() || *a == *p), "%s: lower_bound(%d)", w, k); VX_CHECK((b == c.end()) == (q == r.end()) && (b == c.end() || *b == *q), "%s: upper_bound(%d)", w, k);
        VX_CHECK(c.contains(k) == (r.count(k) > 0) && c.count(k) == r.count(k) && (c.find(k) == c.end()) == (r.count(k) == 0), "%s: lookup of %d", w, k); x.step(); }
}
static int val(int k) { return k * 3 + 1; }
template<class C, class R> static void hist(Ctx& x) {
    constexpr bool MAP = requires { typename C::mapped_type; }; constexpr bool MULTI = !requires(C c) { c.insert(*c.begin()).second; };
    auto S = sizes(); int n = S[x.choose((int)S.size())], how = x.choose(5), er = x.choose(4), dup = MULTI ? 1 + 6 * x.choose(2) : 1;
    if (n > 5000 && !vx::thorough && er == 1 && how > 1) throw vx::Prune{};
    x.log("%d elements, order %d, erase order %d, keys repeated %d times", n, how, er, dup);
    auto mk = [](int k, int i) { if constexpr (MAP) return typename C::value_type(k, val(i)); else { (void)i; return k; } };
    C c; R r;
    for (int i = 0; i < n; ++i) { int k = order(how, i, n) / dup; auto e = mk(k, i);
        if (i % 3 == 2) { auto it = c.insert(c.lower_bound(k), e); r.insert(r.lower_bound(k), e); VX_CHECK(*it == e, "hinted insertion returns another element"); }
        else if constexpr (MULTI) { auto it = c.insert(e); r.insert(e); VX_CHECK(*it == e, "insertion returns another element"); } else { auto p = c.insert(e); r.insert(e); VX_CHECK(p.second && *p.first == e, "insertion"); } x.step(); }
    same(x, c, r, "filled"); look(x, c, r, n / dup + 2, "filled"); x.state(vx::mix(n, how * 16 + dup));
    { C d(c); same(x, d, r, "copy"); VX_CHECK(d == c && !(d < c), "a copy compares unequal"); C e(std::move(d)); same(x, e, r, "moved"); d = std::move(e); same(x, d, r, "move assigned"); e.insert(mk(5, 5)); e = d; same(x, e, r, "copy assigned"); C f; f.swap(e); same(x, f, r, "swapped"); C g; g.merge(f); same(x, g, r, "merged"); VX_CHECK(f.empty(), "merge left elements"); g.clear(); VX_CHECK(g.empty() && g.begin() == g.end(), "clear"); C h(c.begin(), c.end()); same(x, h, r, "range"); }
    if (er == 0) { int q = n / dup; auto a = c.lower_bound(q / 4), b = c.upper_bound(3 * q / 4); auto p = r.lower_bound(q / 4), s = r.upper_bound(3 * q / 4); auto it = c.erase(a, b); auto jt = r.erase(p, s); VX_CHECK((it == c.end()) == (jt == r.end()) && (it == c.end() || *it == *jt), "erase(range) returns another element"); }
    else if (er == 1) { auto jt = r.begin(); for (auto it = c.begin(); it != c.end();) { VX_CHECK(jt != r.end() && *it == *jt, "erasing while traversing"); int k; if constexpr (MAP) k = it->first; else k = *it; if (k % 4) { it = c.erase(it); jt = r.erase(jt); } else { ++it; ++jt; } x.step(); } }
    else if (er == 2) { for (int i = 0; i < n; ++i) { int k = order((how + 2) % 5, i, n) / dup; if (k % 7 == 3) continue; size_t a = c.erase(k), b = r.erase(k); VX_CHECK(a == b, "erase(%d) returned %zu, expected %zu", k, a, b); x.step(); } }
    else { auto pr = [](const auto& e) { if constexpr (MAP) return (e.first % 5) != 0; else return (e % 5) != 0; }; erase_if(c, pr); std::erase_if(r, pr); }
    same(x, c, r, "after erasing"); look(x, c, r, n / dup + 2, "after erasing");
    for (int i = 0; i < n / 2; ++i) { int k = order((how + 1) % 5, i, n) / dup; auto e = mk(k, i + 1); c.insert(e); r.insert(e); x.step(); }
    same(x, c, r, "refilled");
    while (!r.empty()) { auto e = r.size() % 2 ? *r.begin() : *std::prev(r.end()); if (r.size() % 2) { VX_CHECK(*c.begin() == e, "first"); c.erase(c.begin()); r.erase(r.begin()); } else { auto it = std::prev(c.end()); VX_CHECK(*it == e, "last"); c.erase(it); r.erase(std::prev(r.end())); } x.step(); }
    VX_CHECK(c.empty() && c.begin() == c.end(), "drained"); c.insert(mk(1, 1)); VX_CHECK(c.size() == 1, "reuse");
}
void reg() {
#if KIND == 1
    vx::add("big-set", 24, 3, [](Ctx& x) { hist<gtl::btree_set<int>, std::set<int>>(x); }); vx::add("big-map", 24, 3, [](Ctx& x) { hist<gtl::btree_map<int, int>, std::map<int, int>>(x); });
#else
    vx::add("big-multiset", 24, 3, [](Ctx& x) { hist<gtl::btree_multiset<int>, std::multiset<int>>(x); }); vx::add("big-multimap", 24, 3, [](Ctx& x) { hist<gtl::btree_multimap<int, int>, std::multimap<int, int>>(x); });
#endif
}
#elif PART == 3
#include <gtl/vector.hpp>
template<class T> static T mk(int i) { if constexpr (std::is_same_v<T, std::string>) return "a rather long element " + std::to_string(i); else return (T)i; }
template<class T> static void hist(Ctx& x) {
    auto S = sizes(); int n = S[x.choose((int)S.size())], how = x.choose(4);
    if (sizeof(T) > 8 && n > 5000 && !vx::thorough && n != 32769) throw vx::Prune{};
    gtl::vector<T> v; std::vector<T> r; x.log("%d elements, way %d", n, how);
    auto same = [&](const char* w) { x.step(); VX_CHECK(v.size() == r.size() && v.capacity() >= v.size(), "%s: size %zu, expected %zu", w, v.size(), r.size()); for (size_t i = 0; i < r.size(); ++i) VX_CHECK(v[i] == r[i], "%s: wrong element at %zu of %zu", w, i, r.size()); };
    for (int i = 0; i < n; ++i) { T e = mk<T>(i); if (how == 0) v.push_back(e); else if (how == 1) v.emplace_back(e); else if (how == 2) v.insert(v.end(), e); else if (i == 0) v.resize(n, e); if (how < 3) r.push_back(e); x.step(); }
    if (how == 3) { r.resize(n, mk<T>(0)); for (int i = 0; i < n; ++i) v[i] = r[i] = mk<T>(i); }
    same("filled"); VX_CHECK(v.capacity() <= 4 * (size_t)n + 64, "capacity %zu for %d elements", v.capacity(), n);
    for (int p : { 0, 1, n / 2, n - 1, n }) { T e = mk<T>(-p - 1); v.insert(v.begin() + p, e); r.insert(r.begin() + p, e); same("insert"); v.insert(v.begin() + p, 100, e); r.insert(r.begin() + p, 100, e); same("insert(count)"); v.insert(v.begin() + p, r.begin(), r.begin() + 70); { std::vector<T> t(r.begin(), r.begin() + 70); r.insert(r.begin() + p, t.begin(), t.end()); } same("insert(range)"); }
    for (int p : { 0, 1, n / 2, n - 1 }) { auto it = v.erase(v.begin() + p); r.erase(r.begin() + p); VX_CHECK(it == v.begin() + p, "erase returns another position"); same("erase"); v.erase(v.begin() + p, v.begin() + p + 60); r.erase(r.begin() + p, r.begin() + p + 60); same("erase(range)"); }
    { gtl::vector<T> w(v); VX_CHECK(w == v, "copy"); w.push_back(mk<T>(1)); same("after copying"); gtl::vector<T> u; u = w; VX_CHECK(u.size() == r.size() + 1, "assigned"); u.pop_back(); VX_CHECK(u == v, "copy assigned"); w = std::move(u); VX_CHECK(w == v, "move assigned"); u.clear(); w.swap(u); VX_CHECK(u == v && w.empty(), "swap"); }
    v.resize(n / 2); r.resize(n / 2); same("shrunk"); v.shrink_to_fit(); same("shrink_to_fit"); v.resize(n + 100, mk<T>(9)); r.resize(n + 100, mk<T>(9)); same("resized"); v.assign(n / 3, mk<T>(4)); r.assign(n / 3, mk<T>(4)); same("assign"); v.reserve(3 * n); same("reserve"); VX_CHECK(v.capacity() >= 3 * (size_t)n, "reserve"); v.assign(r.begin(), r.end()); same("assign(range)"); v.clear(); r.clear(); same("clear");
}
void reg() { vx::add("big-int", 8, 2, hist<int>); vx::add("big-char", 8, 2, hist<unsigned short>); vx::add("big-string", 8, 2, hist<std::string>); }
#elif PART == 4
#include <gtl/bit_vector.hpp>
static void hist(Ctx& x) {
    std::vector<int> S = { 511, 512, 513, 4095, 4096, 4097, 16448, 65535, 65536, 65537, 70001 }; if (vx::thorough) S.insert(S.end(), { 131071, 131073, 262145, 1000003 });
    int n = S[x.choose((int)S.size())], pat = x.choose(6), op = x.choose(13);
    std::vector<bool> r(n), q(n); gtl::bit_vector v(n), o(n);
    for (int i = 0; i < n; ++i) { r[i] = pat == 0 ? false : pat == 1 ? true : pat == 2 ? i == n - 1 : pat == 3 ? i % 3 == 0 : pat == 4 ? (i / 64) % 2 : i == 0; q[i] = (i / 5) % 2; if (r[i]) v.set(i); if (q[i]) o.set(i); }
    auto same = [&](const char* w) { x.step(); VX_CHECK(v.size() == r.size(), "%s: size", w); size_t c = 0; for (size_t i = 0; i < r.size(); ++i) { VX_CHECK(v[i] == r[i], "%s: bit %zu of %zu", w, i, r.size()); c += r[i]; } VX_CHECK(v.count() == c && v.any() == (c > 0) && v.none() == (c == 0) && v.every() == (c == r.size()), "%s: count or predicates of %zu bits", w, r.size());
        size_t f = 0; while (f < r.size() && !r[f]) ++f; VX_CHECK(v.find_first() == (f == r.size() ? gtl::bit_vector::npos : f), "%s: find_first", w);
        for (size_t s : { (size_t)0, (size_t)63, (size_t)64, r.size() / 2, r.size() - 64, r.size() - 1 }) { size_t g = s; while (g < r.size() && !r[g]) ++g; VX_CHECK(v.find_next(s) == (g == r.size() ? gtl::bit_vector::npos : g), "%s: find_next(%zu)", w, s); } };
    x.log("%d bits, pattern %d, operation %d", n, pat, op); same("made");
    auto shl = [&](size_t k) { for (size_t i = r.size(); i-- > 0;) r[i] = i >= k ? (bool)r[i - k] : false; };
    auto shr = [&](size_t k) { for (size_t i = 0; i < r.size(); ++i) r[i] = i + k < r.size() ? (bool)r[i + k] : false; };
    switch (op) {
    case 0: for (int k : { 1, 63, 64, 65, 130, n / 2, n - 1, n }) { v <<= k; shr(k); /* to lower indices */ same("<<="); v |= o; for (int i = 0; i < n; ++i) r[i] = r[i] || q[i]; } break;
    case 1: for (int k : { 1, 63, 64, 65, 130, n / 2, n - 1, n }) { v >>= k; shl(k); same(">>="); v |= o; for (int i = 0; i < n; ++i) r[i] = r[i] || q[i]; } break;
    case 2: v |= o; for (int i = 0; i < n; ++i) r[i] = r[i] || q[i]; same("|="); break;
    case 3: v &= o; for (int i = 0; i < n; ++i) r[i] = r[i] && q[i]; same("&="); break;
    case 4: v ^= o; for (int i = 0; i < n; ++i) r[i] = r[i] != q[i]; same("^="); break;
    case 5: v -= o; for (int i = 0; i < n; ++i) r[i] = r[i] && !q[i]; same("-="); break;
    case 6: v.flip(); r.flip(); same("flip"); v.flip(n - 1); r[n - 1] = !r[n - 1]; same("flip(last)"); break;
    case 7: v.set(); r.assign(n, true); same("set"); v.reset(n / 2); r[n / 2] = false; same("reset(bit)"); v.reset(); r.assign(n, false); same("reset"); break;
    case 8: for (int m : { n + 1, n + 700, n / 2, n / 2 + 1, n }) { v.resize(m, m % 2); r.resize(m, m % 2); same("resize"); } break;
    case 9: v.view(70, n - 70).set(); for (int i = 70; i < n - 70; ++i) r[i] = true; same("view set"); v.view(130, n - 3).flip(); for (int i = 130; i < n - 3; ++i) r[i] = !r[i]; same("view flip"); v.view(1, n - 1).reset(); for (int i = 1; i < n - 1; ++i) r[i] = false; same("view reset"); break;
    case 10: { gtl::bit_vector w(v); VX_CHECK(w == v, "copy"); w.flip(n - 1); VX_CHECK(w != v, "comparison does not see the last bit"); w = v; VX_CHECK(w == v && w.contains(v), "assigned"); VX_CHECK(v.disjoint(~v) && !v.intersects(~v), "disjoint from its complement"); VX_CHECK((v | ~v).every() && (v & ~v).none(), "complement"); w.swap(o); VX_CHECK(o == v, "swap"); same("copied"); break; }
    case 11: { auto a = v.view(64, n), b = v.view(1, n - 63); bool e = true; for (int i = 0; i < n - 64; ++i) e = e && r[64 + i] == r[1 + i]; VX_CHECK((a == b) == e, "view comparison"); size_t c = 0; for (int i = 64; i < n; ++i) c += r[i]; VX_CHECK(a.count() == c, "view count"); break; }
    case 12: v.view(3, n - 61) <<= 70; { std::vector<bool> t(r.begin() + 3, r.end() - 61); size_t m = t.size(); for (size_t i = 0; i < m; ++i) r[3 + i] = i + 70 < m ? (bool)t[i + 70] : false; } same("view <<="); break;
    }
    x.state(vx::mix(n, pat * 16 + op));
}
void reg() { vx::add("v-big", 8, 2, hist); }
#elif PART == 5
#include <gtl/soa.hpp>
static void hist(Ctx& x) {
    auto S = sizes(); int n = S[x.choose((int)S.size())], how = x.choose(5), mod = (int[]){ 2, 97, 1 << 20 }[x.choose(3)];
    gtl::soa<int, std::string, unsigned short> s; x.log("%d rows, order %d, keys modulo %d", n, how, mod);
    for (int i = 0; i < n; ++i) { s.insert(order(how, i, n) % mod, "row " + std::to_string(i), (unsigned short)i); x.step(); }
    s.sort_by_field<0>(); VX_CHECK(s.size() == (size_t)n, "size"); std::vector<bool> seen(n); int lastk = -1, lasti = -1;
    for (int j = 0; j < n; ++j) { auto [k, t, u] = s[j]; int i = atoi(t.c_str() + 4); VX_CHECK(i >= 0 && i < n && !seen[i] && u == (unsigned short)i && k == order(how, i, n) % mod, "row %d of %d is torn", j, n); seen[i] = true; VX_CHECK(k > lastk || (k == lastk && i > lasti), "row %d of %d out of order or unstable", j, n); lastk = k; lasti = i; x.step(); }
    s.resize(n / 2); VX_CHECK(s.size() == (size_t)n / 2, "resize"); s.sort_by_field<2>([](auto a, auto b) { return a > b; }); int last = 65536; for (int j = 0; j < n / 2; ++j) { auto [k, t, u] = s[j]; VX_CHECK(u <= last && (unsigned short)atoi(t.c_str() + 4) == u, "second sort, row %d", j); last = u; } s.clear(); VX_CHECK(s.empty(), "clear"); x.state(vx::mix(n, how));
}
void reg() { vx::add("soa-big", 16, 2, hist); }
#elif PART == 6
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#ifndef MEMO
static void lru(Ctx& x) {
    int cap = (int[]){ 300, 1000, 5000 }[x.choose(3)], how = x.choose(4), upd = x.choose(2);
    gtl::lru_cache<int, int> c((size_t)cap); std::list<std::pair<int, int>> l; std::map<int, std::list<std::pair<int, int>>::iterator> m; x.log("cache of %d, order %d", cap, how);
    auto put = [&](int k, int v) { c.insert(k, v); auto i = m.find(k); if (i != m.end()) l.erase(i->second); l.emplace_front(k, v); m[k] = l.begin(); if ((int)l.size() > cap) { m.erase(l.back().first); l.pop_back(); } x.step(); VX_CHECK(c.size() == l.size(), "size %zu, expected %zu", c.size(), l.size()); };
    auto get = [&](int k) { auto r = c.get(k); auto i = m.find(k); x.step(); VX_CHECK(!!r == (i != m.end()), "get(%d) %s", k, r ? "finds an evicted entry" : "misses an entry that was used more recently than the ones kept"); if (r) { VX_CHECK(*r == i->second->second, "get(%d) value", k); l.splice(l.begin(), l, i->second); } };
    int N = cap * 4; for (int i = 0; i < N; ++i) { put(order(how, i, N), i); if (i % 3 == 0) get(order(how, i / 2, N)); if (upd && i % 5 == 0) put(order(how, (i * 3) / 4, N), -i); }
    for (int i = 0; i < N; ++i) VX_CHECK(c.exists(i) == (m.count(i) > 0), "exists(%d)", i); for (int i = 0; i < N; ++i) get(i); x.state(vx::mix(cap, how)); c.clear(); VX_CHECK(c.size() == 0 && !c.exists(order(how, N - 1, N)), "clear");
}
void reg() { vx::add("lru-big", 8, 2, lru); }
#else
static int calls;
template<class F> static void memo(Ctx& x, int keep) {
    int n = (int[]){ 300, 4097, 66000 }[x.choose(3)], how = x.choose(4); calls = 0; std::vector<int> per(n); auto f = [&](int k) { ++calls; ++per[k]; return k * 5 + 1; };
    F m(f); x.log("%d arguments", n); for (int r = 0; r < 2; ++r) for (int i = 0; i < n; ++i) { int k = order(r ? 0 : how, i, n); VX_CHECK(m(k) == k * 5 + 1, "result for %d", k); x.step(); }
    if (!keep) for (int k = 0; k < n; ++k) VX_CHECK(per[k] == 1 && m.contains(k).has_value(), "argument %d of %d was computed %d times", k, n, per[k]); x.state(vx::mix(n, how));
}
using L = std::function<int(int)>;
void reg() { vx::add("memo-big", 4, 2, [](Ctx& x) { memo<gtl::memoize<L>>(x, 0); }); vx::add("mt-big", 4, 2, [](Ctx& x) { memo<gtl::mt_memoize<L>>(x, 0); }); }
#endif
#elif PART == 7
#include <gtl/phmap.hpp>
#include <gtl/phmap_dump.hpp>
#include <unistd.h>
template<class M> static void dump(Ctx& x) {
    auto S = sizes(); int n = S[x.choose((int)S.size())], er = x.choose(3), tgt = x.choose(2); x.log("%d elements, erased %d", n, er);
    M m; std::vector<bool> in(n); for (int i = 0; i < n; ++i) { m.insert({ i, i * 3ll }); in[i] = true; x.step(); } for (int i = 0; i < n && er; ++i) if (er == 1 ? i % 3 : i < n - 5) { m.erase(i); in[i] = false; }
    std::string f = "/tmp/vx-big-" + std::to_string(getpid()) + ".bin"; M l; if (tgt) for (int i = 0; i < 777; ++i) l.insert({ -i - 1, i });
    { gtl::BinaryOutputArchive a(f.c_str()); VX_CHECK(m.phmap_dump(a), "dump of %d failed", n); } { gtl::BinaryInputArchive a(f.c_str()); bool ok = l.phmap_load(a); unlink(f.c_str()); VX_CHECK(ok, "load of %d failed", n); }
    VX_CHECK(l.size() == m.size() && l == m, "loaded map differs"); for (int i = 0; i < n; ++i) { auto it = l.find(i); VX_CHECK((it != l.end()) == in[i] && (!in[i] || it->second == i * 3ll), "key %d of %d after loading", i, n); x.step(); } VX_CHECK(!l.contains(-1), "an old key survived loading");
    for (int i = 0; i < 2 * n; ++i) l.insert({ i, 1ll }); VX_CHECK(l.size() == (size_t)2 * n, "insertion after loading"); for (int i = 0; i < 2 * n; ++i) VX_CHECK(l.contains(i) && l.erase(i) == 1, "use after loading, key %d", i); VX_CHECK(l.empty(), "empty at the end"); x.state(vx::mix(n, er));
}
void reg() { vx::add("big-flat", 8, 2, dump<gtl::flat_hash_map<int, long long>>); vx::add("big-par", 8, 2, dump<gtl::parallel_flat_hash_map<int, long long>>); }
#endif
VX_MAIN(reg)
