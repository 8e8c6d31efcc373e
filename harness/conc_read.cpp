// C28: readers of one container, and users of distinct containers, never race.
// Every memory access of the library is checked with vector clocks by lib/mc_rt.cpp.
#include "mc.hpp"
#include <algorithm>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <sstream>
#include <gtl/phmap_dump.hpp>
#include <gtl/phmap.hpp>
#include <gtl/btree.hpp>
#include <gtl/vector.hpp>
#include <gtl/bit_vector.hpp>
#include <gtl/soa.hpp>
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <gtl/vec_utils.hpp>
#include <gtl/utils.hpp>
using namespace vx;
#ifndef PART
#define PART 1
#endif
static uint64_t hv(uint64_t v) { return (v + 1) * 0x9E3779B97F4A7C15ull ^ v; }
template<class C> constexpr bool is_map = requires { typename C::mapped_type; };
template<class C> constexpr bool is_par = requires(C& c) { c.subcnt(); };
using V1 = std::vector<int>;
static uint64_t ev(int e) { return hv(e); }
static uint64_t ev(const V1& v) { uint64_t h = v.size(); for (int i : v) h += hv(i); return h; }
template<class A, class B> static uint64_t ev(const std::pair<A, B>& p) { return mix(ev(p.first), ev(p.second)); }
template<class C> static uint64_t sum(const C& c) { uint64_t h = 0; for (const auto& e : c) h += ev(e); return h; } // independent of the order
template<class T> static T mapped(int i) { if constexpr (std::is_same_v<T, int>) return i; else return T(3, i); }
struct Mem { char b[20000]; size_t n = 0, r = 0; bool saveBinary(const void* p, size_t k) { memcpy(b + n, p, k); n += k; return true; } bool loadBinary(void* p, size_t k) { if (k > n - r) return false; memcpy(p, b + r, k); r += k; return true; } };

// hash containers
template<class C> struct HashT {
    using T = C; using K = typename C::key_type;
    static void ins(C& c, int k, int v) { if constexpr (is_map<C>) c.insert({ k, mapped<typename C::mapped_type>(v) }); else c.insert(k); }
    static C* make(int s) { C* c = new C; static const int n[] = { 0, 1, 9, 30 }; for (int i = 0; i < n[s]; ++i) ins(*c, i * 3, i); if (s == 2) { c->erase(3); c->erase(9); } return c; }
    static constexpr int starts = 4;
    static constexpr int nread = 15;
    static uint64_t read(const C& c, int op, C& other) {
        switch (op) {
        case 0: { uint64_t h = 0; for (int k = 0; k < 12; ++k) h = h * 2 + c.contains(k); return h; }
        case 1: { uint64_t h = 0; for (int k : { 0, 3, 4, 27 }) { auto it = c.find(k); h = mix(h, it == c.end() ? 0 : ev(*it)); } return h; }
        case 2: return c.count(0) + c.count(1) * 2 + c.count(6) * 4;
        case 3: return sum(c);
        case 4: return c.size() * 3 + c.empty() + c.capacity() * 100 + (uint64_t)c.bucket_count() * 7;
        case 5: { C d(c); return sum(d); }
        case 6: return (c == other) + 2 * (other != c);
        case 7: { auto p = c.equal_range(6); return (uint64_t)(p.first != p.second) + 2; }
        case 8: { uint64_t h = c.hash(5); c.prefetch(5); return h; }
        case 9: { if constexpr (is_map<C>) { try { return ev(c.at(3)); } catch (std::out_of_range&) { return 77; } } else return 1; }
        case 10: { C d; d = c; ins(d, 1000, 1); return sum(d) + d.size(); }
        case 11: return (uint64_t)(c.load_factor() * 1000) + (uint64_t)(c.max_load_factor() * 7) + c.max_size() % 5;
        case 12: { auto a = c.get_allocator(); auto e = c.key_eq(); auto h = c.hash_function(); return e(3, 3) + h(4) * 2; }
        case 13: { C d(c, c.get_allocator()); return d == c; }
        case 14: { if constexpr (is_par<C>) { uint64_t h = 0; c.for_each([&](const auto& e) { h += ev(e); }); for (int k : { 0, 3, 4 }) h = h * 3 + c.if_contains(k, [&](const auto& e) { h += ev(e); }); for (size_t i = 0; i < c.subcnt(); ++i) c.with_submap(i, [&](const auto& s) { h += s.size(); }); return h; }
                   else if constexpr (requires(const C& q, Mem& m) { q.dump(m); } && std::is_trivially_copyable_v<typename C::value_type> ) { auto m = std::make_unique<Mem>(); c.dump(*m); return m->n; } else return sum(c); }
        }
        return 0;
    }
    static constexpr int nwrite = 13;
    static void write(C& c, int op) {
        switch (op) {
        case 0: for (int i = 0; i < 20; ++i) ins(c, i * 5, i); break;
        case 1: for (int i = 0; i < 20; ++i) c.erase(i); break;
        case 2: c.clear(); ins(c, 5, 5); break;
        case 3: if constexpr (!is_par<C>) c.rehash(0); else c.rehash(64); break;
        case 4: c.reserve(100); ins(c, 6, 6); break;
        case 5: { C d; for (int i = 40; i < 50; ++i) ins(d, i, i); c.swap(d); for (int i = 60; i < 64; ++i) ins(c, i, i); break; }
        case 6: { C d(std::move(c)); c = C(); ins(c, 2, 2); C e; e = std::move(d); c.merge(e); break; }
        case 7: if (!c.empty()) { auto nh = c.extract(c.begin()); C d; d.insert(std::move(nh)); c.merge(d); } break;
        case 8: if constexpr (is_map<C>) { c[7] = mapped<typename C::mapped_type>(4); c.try_emplace(8, mapped<typename C::mapped_type>(8)); c.insert_or_assign(0, mapped<typename C::mapped_type>(9)); } else { c.emplace(7); c.insert({ 1, 2, 3 }); } break;
        case 9: { C d(c); d.erase(0); c = d; ins(c, 77, 7); break; }
        case 10: for (auto it = c.begin(); it != c.end();) { int k; if constexpr (is_map<C>) k = it->first; else k = *it; if (k % 2) c.erase(it++); else ++it; } break;
        case 11: if constexpr (is_par<C>) { c.lazy_emplace_l(9, [](auto&) {}, [](const auto& ctor) { if constexpr (is_map<C>) ctor(9, mapped<typename C::mapped_type>(1)); else ctor(9); }); c.erase_if(3, [](auto&) { return true; }); c.modify_if(0, [](auto&) {}); }
                 else c.lazy_emplace(9, [](const auto& ctor) { if constexpr (is_map<C>) ctor(9, mapped<typename C::mapped_type>(1)); else ctor(9); }); break;
        case 12: for (int i = 0; i < 40; ++i) { ins(c, 100 + i, i); c.erase(100 + i - 3); } break;
        }
    }
    static uint64_t digest(const C& c) { return sum(c) + c.size(); }
};
// b-trees
template<class C> struct BtT {
    using T = C;
    static void ins(C& c, int k, int v) { if constexpr (is_map<C>) c.insert({ k, mapped<typename C::mapped_type>(v) }); else c.insert(k); }
    static C* make(int s) { C* c = new C; static const int n[] = { 0, 1, 9, 200 }; for (int i = 0; i < n[s]; ++i) ins(*c, i * 7 % 199, i); return c; }
    static constexpr int starts = 4, nread = 12, nwrite = 11;
    static uint64_t read(const C& c, int op, C& other) {
        switch (op) {
        case 0: { uint64_t h = 0; for (int k = 0; k < 12; ++k) h = h * 2 + c.contains(k); return h; }
        case 1: { uint64_t h = 0; for (int k : { 0, 7, 4, 150 }) { auto it = c.find(k); h = mix(h, it == c.end() ? 0 : ev(*it)); } return h; }
        case 2: return c.count(0) + c.count(1) * 2 + c.count(7) * 4;
        case 3: return sum(c);
        case 4: { uint64_t h = 0; for (auto it = c.rbegin(); it != c.rend(); ++it) h = mix(h, ev(*it)); return h; }
        case 5: { C d(c); return sum(d); }
        case 6: return (c == other) + 2 * (other != c) + 4 * (c < other) + 8 * (other <= c);
        case 7: { auto p = c.equal_range(6); auto l = c.lower_bound(10), u = c.upper_bound(100); return std::distance(p.first, p.second) + 100 * std::distance(l, u); }
        case 8: return c.size() + c.empty() * 1000;
        case 9: { if constexpr (requires { c.at(7); }) { try { return ev(c.at(7)); } catch (std::out_of_range&) { return 77; } } else return 1; }
        case 10: { C d; d = c; ins(d, 1000, 1); return sum(d) + d.size(); }
        case 11: { auto a = c.get_allocator(); auto e = c.key_comp(); auto v = c.value_comp(); c.verify(); return e(3, 4) + c.max_size() % 3; }
        }
        return 0;
    }
    static void write(C& c, int op) {
        switch (op) {
        case 0: for (int i = 0; i < 90; ++i) ins(c, i * 5, i); break;
        case 1: for (int i = 0; i < 90; ++i) c.erase(i); break;
        case 2: c.clear(); ins(c, 5, 5); break;
        case 3: for (int i = 90; i > 0; --i) ins(c, i, i); break;
        case 4: if (!c.empty()) c.erase(c.begin(), c.end()); ins(c, 1, 1); c.erase(c.begin()); break;
        case 5: { C d; for (int i = 40; i < 50; ++i) ins(d, i, i); c.swap(d); for (int i = 60; i < 64; ++i) ins(c, i, i); break; }
        case 6: { C d(std::move(c)); c = C(); ins(c, 2, 2); C e; e = std::move(d); c.merge(e); break; }
        case 7: if (!c.empty()) { auto nh = c.extract(c.begin()); C d; d.insert(std::move(nh)); c.merge(d); } break;
        case 8: while (!c.empty()) c.erase(std::prev(c.end())); ins(c, 3, 3); ins(c, 4, 4); break;
        case 9: { C d(c); d.erase(0); c = d; ins(c, 77, 7); break; }
        case 10: for (auto it = c.begin(); it != c.end();) { it = c.erase(it); if (it != c.end()) ++it; } break;
        }
    }
    static uint64_t digest(const C& c) { uint64_t h = c.size(); for (auto& e : c) h = mix(h, ev(e)); return h; }
};
// vector
template<class C> struct VecT {
    using T = C; using E = typename C::value_type;
    static E mk(int i) { if constexpr (std::is_same_v<E, int>) return i; else return E(2, i); }
    static C* make(int s) { C* c = new C; static const int n[] = { 0, 1, 4, 70 }; for (int i = 0; i < n[s]; ++i) c->push_back(mk(i)); return c; }
    static constexpr int starts = 4, nread = 8, nwrite = 10;
    static uint64_t read(const C& c, int op, C& other) {
        switch (op) {
        case 0: return sum(c); case 1: return c.size() + c.capacity() * 100 + c.empty() + c.max_size() % 7;
        case 2: return c.empty() ? 0 : ev(c.front()) + ev(c.back()) + ev(c[c.size() / 2]) + ev(c.at(0));
        case 3: { C d(c); d.push_back(mk(1)); return sum(d); } case 4: { C d; d = c; return d == c; }
        case 5: return (c == other) + 2 * (c < other) + 4 * (other <= c); case 6: { uint64_t h = 0; for (auto it = c.rbegin(); it != c.rend(); ++it) h = mix(h, ev(*it)); return h; }
        case 7: try { return ev(c.at(1000)); } catch (std::out_of_range&) { return 5; } }
        return 0;
    }
    static void write(C& c, int op) {
        switch (op) {
        case 0: for (int i = 0; i < 40; ++i) c.push_back(mk(i)); break; case 1: c.clear(); c.push_back(mk(1)); break; case 2: c.resize(90); c.resize(3); break; case 3: c.reserve(200); c.shrink_to_fit(); break;
        case 4: c.insert(c.begin(), 5, mk(3)); break; case 5: if (!c.empty()) { c.erase(c.begin()); } c.emplace_back(mk(8)); break; case 6: { C d(3, mk(9)); c.swap(d); c.insert(c.end(), d.begin(), d.end()); break; }
        case 7: { C d(std::move(c)); c = C(); c.push_back(mk(1)); c = std::move(d); break; } case 8: { C d(c); d.push_back(mk(4)); c = d; break; } case 9: c.assign(7, mk(2)); while (c.size() > 2) c.pop_back(); break; }
    }
    static uint64_t digest(const C& c) { uint64_t h = c.size(); for (auto& e : c) h = mix(h, ev(e)); return h; }
};
struct BvT {
    using T = gtl::bit_vector; using C = T;
    static C* make(int s) { static const int n[] = { 0, 1, 64, 200 }; C* c = new C(n[s]); for (int i = 0; i < n[s]; i += 3) c->set(i); return c; }
    static C* partner(int s) { C* c = make(s); for (size_t i = 0; i < c->size(); i += 2) c->flip(i); return c; }
    static constexpr int starts = 4, nread = 10, nwrite = 10;
    static uint64_t read(const C& c, int op, C& o) {
        size_t n = c.size();
        switch (op) {
        case 0: { uint64_t h = 0; for (size_t i = 0; i < n; ++i) h = mix(h, c[i] + 2 * c.test(i)); return h; } case 1: return c.count() + c.any() * 1000 + c.every() * 2000 + c.none() * 4000;
        case 2: { uint64_t h = 0; for (size_t i = c.find_first(); i != C::npos && i < n; i = c.find_next(i + 1)) { h = mix(h, i); if (i + 1 >= n) break; } return h; }
        case 3: { C d(c); d.flip(); return d.count(); } case 4: return (c == o) + 2 * c.contains(o) + 4 * c.disjoint(o) + 8 * c.intersects(o);
        case 5: { auto v = c.view(n / 3, n); return v.count() + 1000 * v.any() + 2000 * (n ? v.find_first() : 0) + 7 * v.every(); }
        case 6: { auto d = c & o; auto e = c | o; auto f = c ^ o; return d.count() + e.count() * 100 + f.count() * 10000; } case 7: { auto d = c << 5; auto e = c >> 3; auto f = ~c; return d.count() + e.count() * 100 + f.count() * 10000; }
        case 8: return std::hash<C>()(c); case 9: return c.size() + c.num_blocks() * 10000 + c.empty() + c.to_ullong(); }
        return 0;
    }
    static void write(C& c, int op) {
        size_t n = c.size();
        switch (op) {
        case 0: c.set(); break; case 1: c.reset(); break; case 2: c.flip(); break; case 3: c.resize(n + 70, true); break; case 4: c.resize(n / 2); break; case 5: for (int i = 0; i < 9; ++i) c.resize(c.size() + 1, i & 1); break;
        case 6: if (n) { c.view(0, n / 2).flip(); c.view(n / 2, n) <<= 1; } break; case 7: c <<= 3; break; case 8: { C d(c); d ^= c; c |= d; break; } case 9: { C d(std::move(c)); c = d; if (n) c.set(n - 1); break; } }
    }
    static uint64_t digest(const C& c) { uint64_t h = c.size(); for (size_t i = 0; i < c.size(); ++i) h = mix(h, c[i]); return h; }
};
struct SoaT {
    using T = gtl::soa<int, V1, long>; using C = T;
    static C* make(int s) { static const int n[] = { 0, 1, 5, 40 }; C* c = new C; for (int i = 0; i < n[s]; ++i) c->insert(i * 7 % 5, V1(2, i), (long)i); return c; }
    static constexpr int starts = 4, nread = 4, nwrite = 8;
    static uint64_t read(const C& c, int op, C&) {
        switch (op) {
        case 0: { uint64_t h = 0; for (size_t i = 0; i < c.size(); ++i) { auto t = c[i]; h = mix(h, std::get<0>(t) + ev(std::get<1>(t)) + std::get<2>(t)); } return h; }
        case 1: { uint64_t h = 0; for (size_t i = 0; i < c.size(); ++i) { auto t = c.view<2, 0>(i); h = mix(h, std::get<0>(t) * 10 + std::get<1>(t)); } return h; }
        case 2: return c.size() + 1000 * c.empty() + sum(c.get_column<0>()); case 3: { C d(c); d.sort_by_field<2>(); return digest(d); } }
        return 0;
    }
    static void write(C& c, int op) {
        switch (op) {
        case 0: c.sort_by_field<0>(); break; case 1: c.sort_by_field<0>([](int a, int b) { return a > b; }); break; case 2: c.sort_by_field<1>(); break; case 3: c.insert(3, V1(1, 2), 4l); c.sort_by_field<2>(); break;
        case 4: c.clear(); c.insert(1, V1(1, 1), 1l); break; case 5: c.resize(12); c.reserve(40); break; case 6: { C d(c); d.sort_by_field<0>(); c = d; break; } case 7: { C d(std::move(c)); c = C(); c = std::move(d); if (c.size()) c[0] = std::make_tuple(9, V1(1, 9), 9l); break; } }
    }
    static uint64_t digest(const C& c) { uint64_t h = c.size(); for (size_t i = 0; i < c.size(); ++i) { auto t = c[i]; h = mix(h, std::get<0>(t)); h = mix(h, ev(std::get<1>(t))); h = mix(h, std::get<2>(t)); } return h; }
};
// single-threaded caches and the helpers: only distinct objects
static int twice(int a) { return 2 * a; }
struct LruT {
    using T = gtl::lru_cache<int, int>; using C = T; static C* make(int s) { C* c = new C(4); for (int i = 0; i < s; ++i) c->insert(i, i); return c; }
    static constexpr int starts = 4, nread = 0, nwrite = 4; static uint64_t read(const C&, int, C&) { return 0; }
    static void write(C& c, int op) { switch (op) { case 0: for (int i = 0; i < 9; ++i) c.insert(i, i * 2); break; case 1: for (int i = 0; i < 9; ++i) (void)c.get(i); break; case 2: c.clear(); break; case 3: (void)c.exists(1); c.insert(50, 5); break; } }
    static uint64_t digest(const C& cc) { C& c = const_cast<C&>(cc); uint64_t h = c.size(); for (int i = 0; i < 60; ++i) { auto v = c.get(i); h = mix(h, v ? *v : 1000); } return h; }
};
struct MemoT {
    using T = gtl::memoize<int (*)(int)>; using C = T; static C* make(int s) { C* c = new C(&twice); for (int i = 0; i < s; ++i) (*c)(i); return c; }
    static constexpr int starts = 3, nread = 0, nwrite = 3; static uint64_t read(const C&, int, C&) { return 0; }
    static void write(C& c, int op) { switch (op) { case 0: for (int i = 0; i < 9; ++i) c(i); break; case 1: c.clear(); break; case 2: (void)c.contains(3); c(70); break; } }
    static uint64_t digest(const C& cc) { C& c = const_cast<C&>(cc); uint64_t h = c.size(); for (int i = 0; i < 80; ++i) { auto v = c.contains(i); h = mix(h, v ? *v : 1000); } return h; }
};
struct MemoLruT {
    using T = gtl::memoize_lru<int (*)(int)>; using C = T; static C* make(int s) { C* c = new C(&twice, 80); for (int i = 0; i < s; ++i) (*c)(i); return c; }
    static constexpr int starts = 3, nread = 0, nwrite = 3; static uint64_t read(const C&, int, C&) { return 0; }
    static void write(C& c, int op) { switch (op) { case 0: for (int i = 0; i < 130; ++i) c(i); break; case 1: c.clear(); break; case 2: (void)c.contains(3); c(70); break; } }
    static uint64_t digest(const C& cc) { C& c = const_cast<C&>(cc); uint64_t h = c.size(); for (int i = 0; i < 140; ++i) { auto v = c.contains(i); h = mix(h, v ? *v : 1000); } return h; }
};
struct UtilT { // no container: the helpers used by two threads on their own data
    struct T { int v = 0; V1 w{ 3, 1, 2, 5 }; }; using C = T; static C* make(int) { return new C; }
    static constexpr int starts = 1, nread = 0, nwrite = 4; static uint64_t read(const C&, int, C&) { return 0; }
    static void write(C& c, int op) { switch (op) { case 0: { gtl::scoped_set_value<int> s(c.v, 5); c.w.push_back(c.v); break; } case 1: { auto s = gtl::slice(c.w, 1, (size_t)c.w.size()); c.v += (int)s.size(); break; } case 2: { bool ok = false; { gtl::scoped_guard g([&] { c.v += 7; ok = true; }); } c.v += ok; break; } case 3: c.w = gtl::cat(c.w, c.w); break; } }
    static uint64_t digest(const C& c) { return mix(c.v, ev(c.w)); }
};

static uint64_t exp_[2][3], got_[2][3];
// every pair of sequences of const operations on one object
template<class K> static void readers(Ctx& x, int no, int preempt, int nt = 2) {
    using C = typename K::T; int s = x.choose(K::starts), ops[3][3];
    for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) ops[t][i] = x.choose(K::nread);
    mc::begin(); C* c = K::make(s); C* o; if constexpr (requires { K::partner(s); }) o = K::partner(s); else o = K::make((s + 1) % K::starts); uint64_t d0 = K::digest(*c);
    x.log("start %d; ops %d,%d | %d,%d", s, ops[0][0], no > 1 ? ops[0][1] : -1, ops[1][0], no > 1 ? ops[1][1] : -1);
    uint64_t* e = new uint64_t[16]; uint64_t* g = new uint64_t[16];
    for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) e[t * 4 + i] = K::read(*c, ops[t][i], *o);
    auto body = [&](int t) { for (int i = 0; i < no; ++i) { if (i) mc::point(); g[t * 4 + i] = K::read(*c, ops[t][i], *o); } };
    auto b0 = [&] { body(0); }; auto b1 = [&] { body(1); }; auto b2 = [&] { body(2); }; mc::spawn(b0); mc::spawn(b1); if (nt > 2) mc::spawn(b2);
    mc::run(x, { preempt });
    for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) if (g[t * 4 + i] != e[t * 4 + i]) fail("reader %d, operation %d: another result than in a sequential run", t, ops[t][i]);
    if (K::digest(*c) != d0) fail("the contents changed under readers");
    uint64_t h = s; for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) h = mix(h, ops[t][i]); x.state(h); x.step();
    delete[] e; delete[] g; delete c; delete o; mc::end();
}
// every pair of sequences of modifications of two objects (one of them may also be a reader of a third)
template<class K> static void writers(Ctx& x, int no, int preempt) {
    using C = typename K::T; int s[2], ops[2][3], how = x.choose(K::nread ? 3 : 2); // containers made before, made by the threads, or copies of a shared one
    for (int t = 0; t < 2; ++t) { s[t] = x.choose(K::starts); for (int i = 0; i < no; ++i) ops[t][i] = x.choose(K::nwrite); }
    mc::begin(); uint64_t e[2]; uint64_t* g = new uint64_t[2]; C* sh = K::make(K::starts - 1);
    x.log("start %d,%d; how %d; ops %d,%d | %d,%d", s[0], s[1], how, ops[0][0], no > 1 ? ops[0][1] : -1, ops[1][0], no > 1 ? ops[1][1] : -1);
    auto made = [&](int t) -> C* { if (how == 2) { if constexpr (K::nread) return new C(*sh); } return K::make(s[t]); };
    for (int t = 0; t < 2; ++t) { C* c = made(t); for (int i = 0; i < no; ++i) K::write(*c, ops[t][i]); e[t] = K::digest(*c); delete c; }
    C* pre[2] = { how ? nullptr : K::make(s[0]), how ? nullptr : K::make(s[1]) };
    auto body = [&](int t) { C* c = pre[t] ? pre[t] : made(t); for (int i = 0; i < no; ++i) { mc::point(); K::write(*c, ops[t][i]); } g[t] = K::digest(*c); delete c; };
    auto b0 = [&] { body(0); }; auto b1 = [&] { body(1); }; mc::spawn(b0); mc::spawn(b1); mc::run(x, { preempt });
    for (int t = 0; t < 2; ++t) if (g[t] != e[t]) fail("container %d: other contents than in a sequential run", t);
    uint64_t h = how; for (int t = 0; t < 2; ++t) { h = mix(h, s[t]); for (int i = 0; i < no; ++i) h = mix(h, ops[t][i]); } x.state(h); x.step();
    delete[] g; delete sh; mc::end();
}
template<class K> static void both(const char* n) {
    bool T = thorough; std::string b = n; bool locks = b == "par-shared" || b == "par-node-set"; // with locks there are many more schedules
    if constexpr (K::nread > 0) {
        add("read-" + b, 4, 2, [T](Ctx& x) { readers<K>(x, 1, T ? 8 : 3); });
        if (T) { add("read3-" + b, 8, 3, [](Ctx& x) { readers<K>(x, 1, 2, 3); }); add("read2-" + b, 16, 3, [](Ctx& x) { readers<K>(x, 2, 2); }); }
    }
    add("write-" + b, 8, 3, [=](Ctx& x) { writers<K>(x, 1, locks ? (T ? 1 : 0) : T ? 4 : 1); });
    if (T) add("write2-" + b, 32, 4, [=](Ctx& x) { writers<K>(x, 2, locks ? 0 : 1); });
}
template<class K, class V> using A = std::allocator<std::pair<const K, V>>;
template<class T> using DH = typename gtl::flat_hash_set<T>::hasher; template<class T> using DE = typename gtl::flat_hash_set<T>::key_equal;
static void reg() {
#if PART == 1
    both<HashT<gtl::flat_hash_map<int, int>>>("flat-map"); both<HashT<gtl::flat_hash_set<int>>>("flat-set");
    both<HashT<gtl::node_hash_map<int, V1>>>("node-map"); both<HashT<gtl::node_hash_set<int>>>("node-set"); both<HashT<gtl::flat_hash_map<int, V1>>>("flat-map-obj");
#elif PART == 2
    both<HashT<gtl::parallel_flat_hash_map<int, int, DH<int>, DE<int>, A<int, int>, 2, gtl::NullMutex>>>("par-null");
    both<HashT<gtl::parallel_flat_hash_map<int, V1, DH<int>, DE<int>, A<int, V1>, 1, std::shared_mutex>>>("par-shared");
    both<HashT<gtl::parallel_node_hash_set<int, DH<int>, DE<int>, std::allocator<int>, 1, std::mutex>>>("par-node-set");
#elif PART == 3
    both<BtT<gtl::btree_set<int>>>("btree-set"); both<BtT<gtl::btree_map<int, V1>>>("btree-map"); both<BtT<gtl::btree_multiset<int>>>("btree-multiset"); both<BtT<gtl::btree_multimap<int, int>>>("btree-multimap");
#else
    both<VecT<gtl::vector<int>>>("vector-int"); both<VecT<gtl::vector<V1>>>("vector-obj"); both<BvT>("bits"); both<SoaT>("soa"); both<LruT>("lru"); both<MemoT>("memo"); both<MemoLruT>("memo-lru"); both<UtilT>("util");
#endif
}
VX_MAIN(reg)
