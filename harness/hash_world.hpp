// A hash container under test together with its reference, and the alphabet of operations.
// Shared by the checks of the flat, node and parallel containers.
#pragma once
#define _GLIBCXX_USE_TBB_PAR_BACKEND 0 // execution policies run in the calling thread
#include "track.hpp"
#include <execution>
#include <gtl/phmap.hpp>
#include <algorithm>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <stdexcept>
#include <vector>

namespace hw {

// ---- int <-> element types ---------------------------------------------------------------------
template<class T> struct Cv;
template<> struct Cv<int> { static int mk(int i) { return i; } static int get(int i) { return i; } };
template<> struct Cv<uint64_t> { static uint64_t mk(int i) { return (uint64_t)i * 0x100000001ull; } static int get(uint64_t i) { return (int)(i & 0xffffffff); } };
template<> struct Cv<std::string> {
    static std::string mk(int i) { return i % 2 ? std::to_string(i) : "a rather long string which is not stored inline " + std::to_string(i); }
    static int get(const std::string& s) { size_t p = s.rfind(' '); return atoi(s.c_str() + (p == std::string::npos ? 0 : p + 1)); }
};
template<bool A, bool B, bool C, size_t D> struct Cv<tk::Tr<A, B, C, D>> {
    using T = tk::Tr<A, B, C, D>;
    static T   mk(int i) { return T(i); }
    static int get(const T& t) { return t.get(); }
};

// ---- collision profiles ------------------------------------------------------------------------
constexpr int NK = 12000;
inline size_t raw_hash[NK];
struct Pass { size_t operator()(size_t x) const { return x; } };
inline size_t final_hash(size_t raw) { static gtl::flat_hash_set<size_t, Pass> p; return p.hash(raw); }

// raw hash whose final hash has the given position (low 7 bits of H1) and tag (7 bits)
inline size_t solve(unsigned pos, unsigned tag, unsigned nth) {
    static std::vector<std::vector<size_t>> tab;
    constexpr unsigned B = 14, PER = 12;
    if (tab.empty()) {
        tab.resize(1u << B);
        size_t filled = 0;
        for (size_t r = 1; filled < (1u << B) && r < 4000000; ++r) {
            auto& v = tab[final_hash(r) & ((1u << B) - 1)];
            if (v.size() < PER) { v.push_back(r); if (v.size() == PER) ++filled; }
        }
    }
    auto& v = tab[((pos & 127) << 7 | (tag & 127)) & ((1u << B) - 1)];
    if (v.empty()) vx::harness_error("cannot solve for a hash");
    return v[nth % v.size()];
}
enum { P_NATURAL, P_ALLEQUAL, P_SAMEPOS, P_SAMETAG, P_WRAP, P_PAIRS, P_CLUSTER, P_COUNT };
inline const char* prof_name[] = { "natural", "all-equal", "same-position", "same-tag", "wrap-around", "pairs", "cluster" };
inline size_t prof_hash(int prof, int k) {
    switch (prof) {
    default:
    case P_NATURAL:  return (size_t)k;
    case P_ALLEQUAL: return 42;
    case P_SAMEPOS:  return solve(5, (unsigned)k, 0);            // same probe start, different tags
    case P_SAMETAG:  return solve((unsigned)k * 5, 17, 0);       // same tag, different starts
    case P_WRAP:     return solve(127 - (k & 1), (unsigned)k / 2, 0); // probe starts at the end of the table
    case P_PAIRS:    return solve((unsigned)k / 2, (unsigned)k / 2, 0); // full collisions in pairs
    case P_CLUSTER:  return solve((unsigned)k % 3, (unsigned)(k & 1), (unsigned)k / 4); // tight cluster, few tags
    }
}
inline int cur_profile = -1;
inline void profile_dirty() { cur_profile = -1; } // raw_hash was written directly
inline void set_profile(int prof, int nkeys) {
    static int have = 0;
    int& cur = cur_profile;
    if (cur != prof) have = 0;
    cur = prof;
    for (; have < nkeys; ++have) raw_hash[have] = prof_hash(prof, have);
}

// stateful so that loss of the hash function on copy/move/swap is visible; id 0 means "lost"
inline int bad_functor = 0;
template<class K> struct Hs {
    int id;
    Hs(int i = 1) : id(i) {}
    size_t operator()(const K& k) const {
        if (id == 0) bad_functor = 1;
        int i = Cv<K>::get(k);
        if (i < 0 || i >= NK) vx::fail("hash function called with a key that was never inserted (%d)", i);
        return raw_hash[i] + (id > 1 ? (size_t)(id - 1) * 977 : 0);
    }
};
template<class K> struct Eq {
    int id;
    Eq(int i = 1) : id(i) {}
    bool operator()(const K& a, const K& b) const { return Cv<K>::get(a) == Cv<K>::get(b); }
};

// ---- reference ----------------------------------------------------------------------------------
struct Ref {
    std::vector<int>  val;
    std::vector<char> has;
    std::vector<const void*> addr;
    int n = 0;
    explicit Ref(int nk) : val(nk, 0), has(nk, 0), addr(nk, nullptr) {}
    bool in(int k) const { return has[k]; }
    void put(int k, int v) { if (!has[k]) { has[k] = 1; ++n; } val[k] = v; }
    void del(int k) { if (has[k]) { has[k] = 0; --n; addr[k] = nullptr; } }
    void clear() { for (size_t i = 0; i < has.size(); ++i) has[i] = 0, addr[i] = nullptr; n = 0; }
};

template<class C> concept IsMap = requires { typename C::mapped_type; };
template<class C> concept IsPar = requires { C::subcnt(); };

template<class C, bool NODE>
struct World {
    static constexpr bool MAP = IsMap<C>;
    static constexpr bool PAR = IsPar<C>;
    using K  = typename C::key_type;
    using VT = typename C::value_type;
    template<class X> struct MT { using type = int; };
    template<class X> requires IsMap<X> struct MT<X> { using type = typename X::mapped_type; };
    using M = typename MT<C>::type;
    static constexpr bool COPYK = std::is_copy_constructible_v<K>;
    static constexpr bool COPYM = std::is_copy_constructible_v<M>;
    static constexpr bool COPY  = COPYK && COPYM;
    static constexpr bool DEFM  = std::is_default_constructible_v<M>;

    vx::Ctx& x;
    int      nk; // number of keys in the universe
    C        c;
    Ref      r;
    int      tick = 0;
    const char* where = "start";

    World(vx::Ctx& x_, int nk_) : x(x_), nk(nk_), c(), r(nk_) {}

    static K   mk(int k) { return Cv<K>::mk(k); }
    static M   mm(int v) { return Cv<M>::mk(v); }
    static int kof(const VT& e) { if constexpr (MAP) return Cv<K>::get(e.first); else return Cv<K>::get(e); }
    static int vof(const VT& e) { if constexpr (MAP) return Cv<M>::get(e.second); else return 0; }
    int fresh() { return MAP ? 3000 + ++tick : 0; }
    static VT mv(int k, int v) { if constexpr (MAP) return VT(mk(k), mm(v)); else return mk(k); }

    void note(int k) { if constexpr (NODE) { auto it = c.find(mk(k)); if (it != c.end()) r.addr[k] = &*it; } }

    // result of an inserting call that returned (iterator, bool)
    template<class It> void inserted(const char* op, int k, int v, It it, bool ins, bool assign = false) {
        bool was = r.in(k);
        VX_CHECK(ins == !was, "%s(%d): reported %s, key was %s", op, k, ins ? "inserted" : "not inserted", was ? "present" : "absent");
        landed(op, k, v, it, assign);
    }
    template<class It> void landed(const char* op, int k, int v, It it, bool assign = false) {
        bool was = r.in(k);
        if (!was || assign) r.put(k, v);
        if (!was) note(k);
        VX_CHECK(it != c.end(), "%s(%d): returned end()", op, k);
        VX_CHECK(kof(*it) == k, "%s(%d): returned iterator designates key %d", op, k, kof(*it));
        VX_CHECK(vof(*it) == r.val[k], "%s(%d): returned element has value %d, expected %d", op, k, vof(*it), r.val[k]);
        VX_CHECK(it == c.find(mk(k)), "%s(%d): returned iterator differs from find", op, k);
    }

    // ---- full comparison with the reference ----------------------------------------------------
    void check() {
        const C& cc = c;
        VX_CHECK((int)cc.size() == r.n, "after %s: size() is %zu, expected %d", where, cc.size(), r.n);
        VX_CHECK(cc.empty() == (r.n == 0), "after %s: empty() is wrong", where);
        VX_CHECK(cc.size() <= cc.capacity(), "after %s: size above capacity", where);
        static char seen[NK];
        memset(seen, 0, (size_t)nk);
        int n = 0;
        uint64_t h = vx::mix(7, cc.capacity());
        for (const auto& e : cc) {
            int k = kof(e);
            VX_CHECK(k >= 0 && k < nk && r.in(k), "after %s: traversal visits key %d which is not in the container", where, k);
            VX_CHECK(!seen[k]++, "after %s: traversal visits key %d twice", where, k);
            VX_CHECK(vof(e) == r.val[k], "after %s: key %d has value %d, expected %d", where, k, vof(e), r.val[k]);
            VX_CHECK(++n <= r.n, "after %s: traversal visits too many elements", where);
            h = vx::mix(h, (uint64_t)k);
        }
        VX_CHECK(n == r.n, "after %s: traversal visited %d of %d elements", where, n, r.n);
        for (int k = 0; k < nk; ++k) {
            K key = mk(k);
            bool in = r.in(k);
            auto it = cc.find(key);
            VX_CHECK((it != cc.end()) == in, "after %s: find(%d) %s", where, k, in ? "misses a present key" : "finds an absent key");
            VX_CHECK(cc.contains(key) == in, "after %s: contains(%d) is %d", where, k, !in);
            VX_CHECK(cc.count(key) == (in ? 1u : 0u), "after %s: count(%d) is wrong", where, k);
            if (in) {
                VX_CHECK(kof(*it) == k && vof(*it) == r.val[k], "after %s: find(%d) gives (%d,%d), expected value %d", where, k, kof(*it), vof(*it), r.val[k]);
                if constexpr (NODE) VX_CHECK(r.addr[k] == nullptr || (const void*)&*it == r.addr[k], "after %s: the element with key %d moved to another address", where, k);
            }
        }
        VX_CHECK(!bad_functor, "after %s: a default hash function replaced the container's", where);
        x.state(vx::mix(h, (uint64_t)r.n));
    }
    // a cheaper probe for intermediate steps
    void quick() {
        VX_CHECK((int)c.size() == r.n, "after %s: size() is %zu, expected %d", where, c.size(), r.n);
    }

    // ---- operations ------------------------------------------------------------------------------
    struct Op { const char* name; bool keyed; bool core; void (*f)(World&, int); };
    static const std::vector<Op>& ops() {
        static std::vector<Op> v = make_ops();
        return v;
    }
    void apply(const Op& o, int k) {
        where = o.name;
        if (o.keyed) x.log("%s key %d", o.name, k); else x.log("%s", o.name);
        o.f(*this, k);
        x.step();
    }
    int neighbour(int k) const { return k + 1 < nk ? k + 1 : 0; }

    static std::vector<Op> make_ops() {
        std::vector<Op> v;
        auto keyed = [&](const char* n, void (*f)(World&, int), bool core = false) { v.push_back({ n, true, core, f }); };
        auto plain = [&](const char* n, void (*f)(World&, int), bool core = false) { v.push_back({ n, false, core, f }); };
        // --- insertion
        keyed("insert(rvalue)", [](World& w, int k) { int y = w.fresh(); auto p = w.c.insert(mv(k, y)); w.inserted("insert", k, y, p.first, p.second); }, true);
        if constexpr (COPY) keyed("insert(lvalue)", [](World& w, int k) { int y = w.fresh(); const VT e = mv(k, y); auto p = w.c.insert(e); w.inserted("insert", k, y, p.first, p.second); VX_CHECK(kof(e) == k && vof(e) == y, "insert changed its argument"); });
        keyed("insert(hint)", [](World& w, int k) { int y = w.fresh(); auto it = w.c.insert(w.c.begin(), mv(k, y)); w.landed("insert(hint)", k, y, it); });
        keyed("emplace", [](World& w, int k) {
            int y = w.fresh();
            if constexpr (MAP) { auto p = w.c.emplace(mk(k), mm(y)); w.inserted("emplace", k, y, p.first, p.second); }
            else { auto p = w.c.emplace(mk(k)); w.inserted("emplace", k, y, p.first, p.second); }
        });
        keyed("emplace(value)", [](World& w, int k) { int y = w.fresh(); auto p = w.c.emplace(mv(k, y)); w.inserted("emplace(value)", k, y, p.first, p.second); });
        keyed("emplace_hint", [](World& w, int k) {
            int y = w.fresh();
            if constexpr (MAP) { auto it = w.c.emplace_hint(w.c.begin(), mk(k), mm(y)); w.landed("emplace_hint", k, y, it); }
            else { auto it = w.c.emplace_hint(w.c.begin(), mk(k)); w.landed("emplace_hint", k, y, it); }
        });
        keyed("emplace_with_hash", [](World& w, int k) { int y = w.fresh(); auto p = w.c.emplace_with_hash(w.c.hash(mk(k)), mv(k, y)); w.inserted("emplace_with_hash", k, y, p.first, p.second); });
        keyed("emplace_hint_with_hash", [](World& w, int k) { int y = w.fresh(); auto it = w.c.emplace_hint_with_hash(w.c.hash(mk(k)), w.c.begin(), mv(k, y)); w.landed("emplace_hint_with_hash", k, y, it); });
        if constexpr (std::is_constructible_v<K, int> && !std::is_same_v<K, std::string>) keyed("emplace(indirect)", [](World& w, int k) { // arguments from which the key is built
            int y = w.fresh();
            if constexpr (MAP) {
                if constexpr (std::is_constructible_v<M, int>) { auto p = w.c.emplace(std::piecewise_construct, std::forward_as_tuple(mk(k)), std::forward_as_tuple(mm(y))); w.inserted("emplace(piecewise)", k, y, p.first, p.second); }
            } else { auto p = w.c.emplace((short)k); w.inserted("emplace(convertible)", k, y, p.first, p.second); }
        });
        if constexpr (std::is_constructible_v<K, int, int> && !std::is_same_v<K, std::string>) keyed("emplace(key from two arguments)", [](World& w, int k) {
            int y = w.fresh();
            if constexpr (MAP) { auto p = w.c.emplace(std::piecewise_construct, std::forward_as_tuple(k - 1, 1), std::forward_as_tuple(mm(y))); w.inserted("emplace(piecewise, two arguments)", k, y, p.first, p.second); }
            else { auto p = w.c.emplace(k - 1, 1); w.inserted("emplace(two arguments)", k, y, p.first, p.second); }
        });
        if constexpr (std::is_constructible_v<K, int, int> && !std::is_same_v<K, std::string>) keyed("emplace_with_hash(key from two arguments)", [](World& w, int k) {
            int y = w.fresh(); size_t h = w.c.hash(mk(k));
            if constexpr (MAP) { auto p = w.c.emplace_with_hash(h, std::piecewise_construct, std::forward_as_tuple(k - 1, 1), std::forward_as_tuple(mm(y))); w.inserted("emplace_with_hash(piecewise, two arguments)", k, y, p.first, p.second); }
            else { auto p = w.c.emplace_with_hash(h, k - 1, 1); w.inserted("emplace_with_hash(two arguments)", k, y, p.first, p.second); }
        });
        if constexpr (COPY) {
            keyed("insert(range with duplicates)", [](World& w, int k) {
                int y = w.fresh(), z = w.fresh(), u = w.fresh(), k2 = w.neighbour(k);
                std::vector<VT> in; in.reserve(3); in.push_back(mv(k, y)); in.push_back(mv(k2, z)); in.push_back(mv(k, u));
                w.c.insert(in.begin(), in.end());
                if (!w.r.in(k)) w.r.put(k, y), w.note(k);
                if (!w.r.in(k2)) w.r.put(k2, z), w.note(k2);
            });
            keyed("insert(initializer_list)", [](World& w, int k) {
                int y = w.fresh(), z = w.fresh(), u = w.fresh(), k2 = w.neighbour(k);
                w.c.insert({ mv(k, y), mv(k2, z), mv(k, u) });
                if (!w.r.in(k)) w.r.put(k, y), w.note(k);
                if (!w.r.in(k2)) w.r.put(k2, z), w.note(k2);
            });
        }
        keyed("lazy_emplace", [](World& w, int k) {
            int y = w.fresh(); int calls = 0; bool was = w.r.in(k); K key = mk(k);
            auto it = w.c.lazy_emplace(key, [&](const auto& ctor) { ++calls; if constexpr (MAP) ctor(mk(k), mm(y)); else ctor(mk(k)); });
            VX_CHECK(calls == (was ? 0 : 1), "lazy_emplace called its callback %d times", calls);
            w.landed("lazy_emplace", k, y, it);
        });
        keyed("lazy_emplace_with_hash", [](World& w, int k) {
            int y = w.fresh(); int calls = 0; bool was = w.r.in(k); K key = mk(k);
            auto it = w.c.lazy_emplace_with_hash(key, w.c.hash(key), [&](const auto& ctor) { ++calls; if constexpr (MAP) ctor(mk(k), mm(y)); else ctor(mk(k)); });
            VX_CHECK(calls == (was ? 0 : 1), "lazy_emplace_with_hash called its callback %d times", calls);
            w.landed("lazy_emplace_with_hash", k, y, it);
        });
        if constexpr (MAP) {
            keyed("try_emplace(lvalue)", [](World& w, int k) {
                if constexpr (COPYK) { int y = w.fresh(); const K key = mk(k); M m = mm(y); bool was = w.r.in(k); auto p = w.c.try_emplace(key, std::move(m)); w.inserted("try_emplace", k, y, p.first, p.second); if (was) VX_CHECK(Cv<M>::get(m) == y, "try_emplace moved from its argument though the key was present"); }
            });
            keyed("try_emplace(rvalue)", [](World& w, int k) { int y = w.fresh(); K key = mk(k); bool was = w.r.in(k); auto p = w.c.try_emplace(std::move(key), mm(y)); w.inserted("try_emplace(rvalue)", k, y, p.first, p.second); if (was) VX_CHECK(Cv<K>::get(key) == k, "try_emplace moved from its key though it was present"); });
            keyed("try_emplace(hint)", [](World& w, int k) { int y = w.fresh(); auto it = w.c.try_emplace(w.c.begin(), mk(k), mm(y)); w.landed("try_emplace(hint)", k, y, it); });
            keyed("insert_or_assign", [](World& w, int k) { if constexpr (COPYK) { int y = w.fresh(); const K key = mk(k); auto p = w.c.insert_or_assign(key, mm(y)); w.inserted("insert_or_assign", k, y, p.first, p.second, true); } }, true);
            keyed("insert_or_assign(rvalue)", [](World& w, int k) { int y = w.fresh(); auto p = w.c.insert_or_assign(mk(k), mm(y)); w.inserted("insert_or_assign(rvalue)", k, y, p.first, p.second, true); });
            if constexpr (COPYM) keyed("insert_or_assign(hint, lvalue)", [](World& w, int k) { int y = w.fresh(); const M m = mm(y); auto it = w.c.insert_or_assign(w.c.begin(), mk(k), m); w.landed("insert_or_assign(hint)", k, y, it, true); });
            if constexpr (DEFM) {
                keyed("operator[] =", [](World& w, int k) { if constexpr (COPYK) { int y = w.fresh(); const K key = mk(k); bool was = w.r.in(k); w.c[key] = mm(y); w.r.put(k, y); if (!was) w.note(k); } });
                keyed("operator[](rvalue) read", [](World& w, int k) { bool was = w.r.in(k); int g = Cv<M>::get(w.c[mk(k)]); if (!was) { w.r.put(k, 0); w.note(k); } VX_CHECK(g == w.r.val[k], "operator[](%d) gives %d, expected %d", k, g, w.r.val[k]); });
            }
            keyed("at", [](World& w, int k) {
                const C& cc = w.c; int got = -1, thrown = 0;
                try { got = Cv<M>::get(cc.at(mk(k))); } catch (std::out_of_range&) { thrown = 1; }
                VX_CHECK(thrown == !w.r.in(k) && (thrown || got == w.r.val[k]), "at(%d): %s", k, thrown ? "threw" : "wrong value or no exception");
                thrown = 0;
                try { w.c.at(mk(k)) = mm(w.tick + 5000); w.r.val[k] = w.tick + 5000; } catch (std::out_of_range&) { thrown = 1; }
                VX_CHECK(thrown == !w.r.in(k), "non-const at(%d)", k);
            });
            keyed("write through find", [](World& w, int k) { auto it = w.c.find(mk(k)); if (it != w.c.end()) { int y = w.fresh(); it->second = mm(y); w.r.put(k, y); } });
        }
        keyed("equal_range, find with hash", [](World& w, int k) {
            K key = mk(k);
            auto p = w.c.equal_range(key); const C& cc = w.c; auto q = cc.equal_range(key);
            bool in = w.r.in(k);
            VX_CHECK((p.first != p.second) == in && (q.first != q.second) == in, "equal_range(%d)", k);
            if (in) { VX_CHECK(kof(*p.first) == k && kof(*q.first) == k, "equal_range(%d) designates another key", k); ++p.first; VX_CHECK(p.first == p.second, "equal_range(%d) is longer than one", k); }
            size_t h = w.c.hash(key);
            auto it = w.c.find(key, h);
            VX_CHECK((it != w.c.end()) == in && (!in || kof(*it) == k), "find(%d, hash)", k);
            VX_CHECK(w.c.contains(key, h) == in, "contains(%d, hash)", k);
            w.c.prefetch(key);
        });
        // --- erasure
        keyed("erase(key)", [](World& w, int k) { bool was = w.r.in(k); size_t n = w.c.erase(mk(k)); VX_CHECK(n == (was ? 1u : 0u), "erase(%d) returned %zu", k, n); w.r.del(k); }, true);
        keyed("erase(iterator)", [](World& w, int k) {
            auto it = w.c.find(mk(k)); if (it == w.c.end()) return;
            auto nx = it; ++nx; bool last = nx == w.c.end(); int nkey = last ? -1 : kof(*nx);
            auto ret = w.c.erase(it); w.r.del(k);
            VX_CHECK((ret == w.c.end()) == last && (last || kof(*ret) == nkey), "erase(iterator %d) does not return the following element", k);
        });
        keyed("erase(const_iterator)", [](World& w, int k) {
            typename C::const_iterator it = w.c.find(mk(k)); if (it == w.c.cend()) return;
            auto nx = it; ++nx; bool last = nx == w.c.cend(); int nkey = last ? -1 : kof(*nx);
            auto ret = w.c.erase(it); w.r.del(k);
            VX_CHECK((ret == w.c.end()) == last && (last || kof(*ret) == nkey), "erase(const_iterator %d) does not return the following element", k);
        });
        keyed("_erase(iterator)", [](World& w, int k) { auto it = w.c.find(mk(k)); if (it == w.c.end()) return; w.c._erase(it); w.r.del(k); });
        keyed("extract(key), drop", [](World& w, int k) {
            bool was = w.r.in(k);
            auto n = w.c.extract(mk(k));
            VX_CHECK(n.empty() == !was && !!n == was, "extract(%d): wrong emptiness of the node", k);
            if (was) {
                if constexpr (MAP) VX_CHECK(Cv<K>::get(n.key()) == k && Cv<M>::get(n.mapped()) == w.r.val[k], "extract(%d): wrong node", k);
                else VX_CHECK(Cv<K>::get(n.value()) == k, "extract(%d): wrong node", k);
            }
            w.r.del(k);
        });
        keyed("extract(iterator), insert(node)", [](World& w, int k) {
            auto it = w.c.find(mk(k)); if (it == w.c.end()) return;
            const void* a = w.r.addr[k]; int y = w.r.val[k];
            auto n = w.c.extract(it);
            VX_CHECK(!n.empty(), "extract(iterator): empty node");
            w.r.del(k); w.quick();
            if constexpr (MAP) { if constexpr (std::is_assignable_v<M&, M&&>) { y = w.fresh(); n.mapped() = mm(y); } }
            auto res = w.c.insert(std::move(n));
            VX_CHECK(res.inserted && res.node.empty(), "insert(node %d) of an extracted element failed", k);
            w.r.put(k, y); w.r.addr[k] = a;
            VX_CHECK(kof(*res.position) == k && vof(*res.position) == y, "insert(node %d) returns the wrong position", k);
        });
        keyed("extract, insert equal, insert(node) fails", [](World& w, int k) {
            auto n = w.c.extract(mk(k));
            bool was = w.r.in(k); int old = w.r.val[k];
            VX_CHECK(n.empty() == !was, "extract(%d)", k);
            w.r.del(k);
            int y = w.fresh(); auto p = w.c.insert(mv(k, y)); w.inserted("insert", k, y, p.first, p.second);
            auto res = w.c.insert(std::move(n));
            if (was) {
                VX_CHECK(!res.inserted && !res.node.empty(), "insert(node %d) over an equal element must fail and keep the node", k);
                VX_CHECK(kof(*res.position) == k && vof(*res.position) == y, "failed insert(node %d) must point to the present element", k);
                if constexpr (MAP) VX_CHECK(Cv<K>::get(res.node.key()) == k && Cv<M>::get(res.node.mapped()) == old, "failed insert(node %d) damaged the node", k);
                auto it = w.c.insert(w.c.begin(), std::move(res.node));
                VX_CHECK(kof(*it) == k && vof(*it) == y && !res.node.empty(), "failed insert(hint, node %d)", k);
                if constexpr (MAP) VX_CHECK(Cv<K>::get(res.node.key()) == k && Cv<M>::get(res.node.mapped()) == old, "failed insert(hint, node %d) damaged the node", k); else VX_CHECK(Cv<K>::get(res.node.value()) == k, "failed insert(hint, node %d) damaged the node", k);
            } else
                VX_CHECK(!res.inserted && res.node.empty() && res.position == w.c.end(), "insert of an empty node");
        });
        keyed("extract, insert(hint, node)", [](World& w, int k) {
            auto n = w.c.extract(mk(k)); bool was = w.r.in(k); const void* a = w.r.addr[k]; int y = w.r.val[k];
            w.r.del(k);
            auto it = w.c.insert(w.c.begin(), std::move(n));
            if (was) { w.r.put(k, y); w.r.addr[k] = a; VX_CHECK(kof(*it) == k && n.empty(), "insert(hint, node %d)", k); }
            else VX_CHECK(it == w.c.end(), "insert(hint, empty node) must return end()");
        });
        // --- whole container
        plain("clear", [](World& w, int) { w.c.clear(); w.r.clear(); }, true);
        plain("rehash(0)", [](World& w, int) { w.c.rehash(0); }, true);
        plain("rehash(1)", [](World& w, int) { if constexpr (requires { w.c.resize(1); }) { w.c.resize(1); (void)w.c.hash_funct(); } else w.c.rehash(1); }); // the node containers also call it resize
        plain("rehash(size)", [](World& w, int) { w.c.rehash(w.c.size()); });
        plain("rehash(2*capacity+1)", [](World& w, int) { if (w.c.capacity() < 300) w.c.rehash(2 * w.c.capacity() + 1); });
        plain("reserve(0)", [](World& w, int) { w.c.reserve(0); });
        plain("reserve(size+1)", [](World& w, int) { w.c.reserve(w.c.size() + 1); }, true);
        plain("reserve(3*size+9)", [](World& w, int) { if (w.c.capacity() < 300) w.c.reserve(3 * w.c.size() + 9); });
        plain("erase(begin)", [](World& w, int) { auto it = w.c.begin(); if (it == w.c.end()) return; int k = kof(*it); it = w.c.erase(it); w.r.del(k); VX_CHECK(it == w.c.begin(), "erase(begin()) returns begin()"); }, true);
        plain("erase(begin, end)", [](World& w, int) { auto it = w.c.erase(w.c.begin(), w.c.end()); w.r.clear(); VX_CHECK(it == w.c.end(), "erase(range) returns the end of the range"); });
        plain("erase(first half)", [](World& w, int) {
            auto it = w.c.begin(); int n = w.r.n / 2; std::vector<int> gone;
            for (int i = 0; i < n; ++i, ++it) gone.push_back(kof(*it));
            bool at_end = it == w.c.end(); int nx = at_end ? -1 : kof(*it);
            auto ret = w.c.erase(w.c.cbegin(), typename C::const_iterator(it));
            for (int k : gone) w.r.del(k);
            VX_CHECK((ret == w.c.end()) == at_end && (at_end || kof(*ret) == nx), "erase(range) returns the end of the range");
        });
        plain("erase_if(odd keys)", [](World& w, int) {
            int want = 0, calls = 0; for (int k = 1; k < w.nk; k += 2) if (w.r.in(k)) { ++want; w.r.del(k); }
            int before = w.r.n + want;
            size_t n = gtl::erase_if(w.c, [&](const VT& e) { ++calls; return kof(e) % 2 == 1; });
            VX_CHECK((int)n == want && calls == before, "erase_if: erased %zu of %d, %d calls for %d elements", n, want, calls, before);
        });
        if constexpr (COPY) {
            plain("replace by a copy", [](World& w, int) { C t(w.c); VX_CHECK(t == w.c && !(t != w.c), "copy differs from its source"); w.c = t; if constexpr (NODE) for (int k = 0; k < w.nk; ++k) { w.r.addr[k] = nullptr; w.note(k); } });
            plain("self copy-assign", [](World& w, int) { C& o = w.c; w.c = o; if constexpr (NODE) for (int k = 0; k < w.nk; ++k) { w.r.addr[k] = nullptr; w.note(k); } });
        }
        plain("move out and back", [](World& w, int) { C t(std::move(w.c)); VX_CHECK((int)t.size() == w.r.n, "move construction lost elements"); w.c = std::move(t); });
        plain("swap with another and back", [](World& w, int) { C t; t.insert(mv(0, 1)); t.swap(w.c); VX_CHECK(w.c.size() == 1 && (int)t.size() == w.r.n, "swap"); using std::swap; swap(t, w.c); });
        plain("merge from another", [](World& w, int) {
            C t; int y0 = w.fresh(), y1 = w.fresh();
            t.insert(mv(0, y0)); t.insert(mv(w.nk - 1, y1));
            bool h0 = w.r.in(0), h1 = w.r.in(w.nk - 1); 
            w.c.merge(t);
            VX_CHECK((int)t.size() == h0 + h1, "merge left %zu elements in the source", t.size());
            VX_CHECK(t.contains(mk(0)) == h0 && t.contains(mk(w.nk - 1)) == h1, "merge took the wrong elements");
            if (!h0) { w.r.put(0, y0); w.note(0); }
            if (!h1) { w.r.put(w.nk - 1, y1); w.note(w.nk - 1); }
        });
        plain("merge into another and take", [](World& w, int) {
            C t; t.merge(w.c); VX_CHECK(w.c.empty() && (int)t.size() == w.r.n, "merge into an empty container must move everything"); w.c.swap(t);
        });
        if constexpr (MAP) plain("modify all values", [](World& w, int) { int y = w.fresh(); for (auto& e : w.c) e.second = mm(y); for (int k = 0; k < w.nk; ++k) if (w.r.in(k)) w.r.val[k] = y; });
        // --- parallel extensions
        if constexpr (PAR) add_par(v);
        return v;
    }

    static void add_par(std::vector<Op>& v) requires PAR {
        auto keyed = [&](const char* n, void (*f)(World&, int), bool core = false) { v.push_back({ n, true, core, f }); };
        auto plain = [&](const char* n, void (*f)(World&, int), bool core = false) { v.push_back({ n, false, core, f }); };
        keyed("if_contains", [](World& w, int k) {
            const C& cc = w.c; int n = 0, n2 = 0;
            bool b = cc.if_contains(mk(k), [&](const VT& e) { ++n; VX_CHECK(kof(e) == k && vof(e) == w.r.val[k], "if_contains(%d): callback got (%d,%d)", k, kof(e), vof(e)); });
            bool b2 = cc.if_contains_unsafe(mk(k), [&](const VT& e) { ++n2; VX_CHECK(kof(e) == k && vof(e) == w.r.val[k], "if_contains_unsafe(%d): callback got (%d,%d)", k, kof(e), vof(e)); });
            VX_CHECK(b == w.r.in(k) && n == (b ? 1 : 0), "if_contains(%d) returned %d, %d calls", k, b, n);
            VX_CHECK(b2 == w.r.in(k) && n2 == (b2 ? 1 : 0), "if_contains_unsafe(%d) returned %d, %d calls", k, b2, n2);
        });
        keyed("modify_if", [](World& w, int k) {
            int n = 0, y = w.fresh();
            bool b = w.c.modify_if(mk(k), [&](VT& e) { ++n; VX_CHECK(kof(e) == k && vof(e) == w.r.val[k], "modify_if(%d): callback got (%d,%d)", k, kof(e), vof(e)); if constexpr (MAP) e.second = mm(y); });
            VX_CHECK(b == w.r.in(k) && n == (b ? 1 : 0), "modify_if(%d) returned %d, %d calls", k, b, n);
            if (b) w.r.val[k] = y;
        });
        keyed("erase_if(true)", [](World& w, int k) {
            int n = 0; bool was = w.r.in(k);
            bool b = w.c.erase_if(mk(k), [&](VT& e) { ++n; VX_CHECK(kof(e) == k && vof(e) == w.r.val[k], "erase_if(%d): callback got (%d,%d)", k, kof(e), vof(e)); return true; });
            VX_CHECK(b == was && n == (was ? 1 : 0), "erase_if(%d) returned %d, %d calls", k, b, n);
            w.r.del(k);
        });
        keyed("erase_if(false)", [](World& w, int k) {
            int n = 0; bool was = w.r.in(k); int y = w.fresh();
            bool b = w.c.erase_if(mk(k), [&](VT& e) { ++n; if constexpr (MAP) e.second = mm(y); return false; });
            VX_CHECK(!b && n == (was ? 1 : 0), "erase_if(%d) whose callback refuses returned %d, %d calls", k, b, n);
            if (was) w.r.val[k] = y;
        });
        keyed("lazy_emplace_l", [](World& w, int k) {
            int ne = 0, nc = 0, y = w.fresh(), z = w.fresh(); bool was = w.r.in(k); K key = mk(k);
            bool b = w.c.lazy_emplace_l(key, [&](VT& e) { ++ne; VX_CHECK(kof(e) == k && vof(e) == w.r.val[k], "lazy_emplace_l(%d): callback got (%d,%d)", k, kof(e), vof(e)); if constexpr (MAP) e.second = mm(z); },
                                          [&](const auto& ctor) { ++nc; if constexpr (MAP) ctor(mk(k), mm(y)); else ctor(mk(k)); });
            VX_CHECK(b == !was && ne == (was ? 1 : 0) && nc == (was ? 0 : 1), "lazy_emplace_l(%d) returned %d; %d exists-calls, %d emplace-calls", k, b, ne, nc);
            if (was) w.r.val[k] = z; else { w.r.put(k, y); w.note(k); }
        });
        keyed("emplace_single", [](World& w, int k) {
            int nc = 0, y = w.fresh(); bool was = w.r.in(k); K key = mk(k);
            w.c.emplace_single(key, [&](const auto& ctor) { ++nc; if constexpr (MAP) ctor(mk(k), mm(y)); else ctor(mk(k)); });
            VX_CHECK(nc == (was ? 0 : 1), "emplace_single(%d): %d calls", k, nc);
            if (!was) { w.r.put(k, y); w.note(k); } else w.r.del(k); // documented: removes a present element
        });
        if constexpr (MAP) {
            keyed("try_emplace_l", [](World& w, int k) {
                int ne = 0, y = w.fresh(), z = w.fresh(); bool was = w.r.in(k);
                bool b = w.c.try_emplace_l(mk(k), [&](VT& e) { ++ne; VX_CHECK(kof(e) == k && vof(e) == w.r.val[k], "try_emplace_l(%d): callback got (%d,%d)", k, kof(e), vof(e)); e.second = mm(z); }, mm(y));
                VX_CHECK(b == !was && ne == (was ? 1 : 0), "try_emplace_l(%d) returned %d; %d calls", k, b, ne);
                if (was) w.r.val[k] = z; else { w.r.put(k, y); w.note(k); }
            });
            keyed("try_emplace_p", [](World& w, int k) {
                int y = w.fresh(); bool was = w.r.in(k);
                auto p = w.c.try_emplace_p(mk(k), mm(y));
                if (!was) { w.r.put(k, y); w.note(k); }
                VX_CHECK(p.second == !was && kof(*p.first) == k && vof(*p.first) == w.r.val[k], "try_emplace_p(%d)", k);
                auto it = w.c.find(mk(k)); VX_CHECK(&*it == p.first, "try_emplace_p(%d) does not point to the element", k);
            });
            keyed("try_emplace_with_hash", [](World& w, int k) { int y = w.fresh(); auto p = w.c.try_emplace_with_hash(w.c.hash(mk(k)), mk(k), mm(y)); w.inserted("try_emplace_with_hash", k, y, p.first, p.second); });
            if constexpr (COPYK) keyed("try_emplace_with_hash(hint, lvalue)", [](World& w, int k) { int y = w.fresh(); const K key = mk(k); auto it = w.c.try_emplace_with_hash(w.c.hash(key), w.c.begin(), key, mm(y)); w.landed("try_emplace_with_hash(hint)", k, y, it); });
        }
        plain("for_each", [](World& w, int) {
            const C& cc = w.c; std::vector<int> seen(w.nk, 0); int n = 0;
            cc.for_each([&](const VT& e) { ++n; int k = kof(e); VX_CHECK(w.r.in(k) && !seen[k]++ && vof(e) == w.r.val[k], "for_each visits (%d,%d)", k, vof(e)); });
            VX_CHECK(n == w.r.n, "for_each visited %d of %d", n, w.r.n);
        });
        plain("for_each_m", [](World& w, int) {
            std::vector<int> seen(w.nk, 0); int n = 0; int y = w.fresh();
            w.c.for_each_m([&](auto& e) { ++n; int k = kof(e); VX_CHECK(w.r.in(k) && !seen[k]++ && vof(e) == w.r.val[k], "for_each_m visits (%d,%d)", k, vof(e)); if constexpr (MAP) { e.second = mm(y); w.r.val[k] = y; } });
            VX_CHECK(n == w.r.n, "for_each_m visited %d of %d", n, w.r.n);
        });
        plain("for_each(seq) and for_each_m(par)", [](World& w, int) {
            const C& cc = w.c; std::vector<int> seen(w.nk, 0); int n = 0;
            cc.for_each(std::execution::seq, [&](const VT& e) { ++n; int k = kof(e); VX_CHECK(w.r.in(k) && !seen[k]++ && vof(e) == w.r.val[k], "for_each(policy) visits (%d,%d)", k, vof(e)); });
            VX_CHECK(n == w.r.n, "for_each(policy) visited %d of %d", n, w.r.n);
            int y = w.fresh(); n = 0;
            w.c.for_each_m(std::execution::par, [&](auto& e) { ++n; int k = kof(e); VX_CHECK(w.r.in(k) && seen[k]-- == 1 && vof(e) == w.r.val[k], "for_each_m(policy) visits (%d,%d)", k, vof(e)); if constexpr (MAP) { e.second = mm(y); w.r.val[k] = y; } });
            VX_CHECK(n == w.r.n, "for_each_m(policy) visited %d of %d", n, w.r.n);
        });
        plain("with_submap over all", [](World& w, int) {
            const C& cc = w.c; std::vector<int> seen(w.nk, 0); int n = 0;
            for (size_t i = 0; i < C::subcnt(); ++i) {
                int calls = 0;
                cc.with_submap(i, [&](const auto& s) { ++calls; for (const auto& e : s) { ++n; int k = kof(e); VX_CHECK(w.r.in(k) && !seen[k]++ && vof(e) == w.r.val[k], "with_submap shows (%d,%d)", k, vof(e)); VX_CHECK(C::subidx(cc.hash(mk(k))) == i, "key %d is not in its submap", k); } });
                VX_CHECK(calls == 1, "with_submap called its callback %d times", calls);
            }
            VX_CHECK(n == w.r.n, "with_submap shows %d of %d elements", n, w.r.n);
        });
        keyed("with_submap_m: insert in place", [](World& w, int k) {
            int y = w.fresh(); bool was = w.r.in(k); size_t i = C::subidx(w.c.hash(mk(k)));
            w.c.with_submap_m(i, [&](auto& s) { auto p = s.insert(mv(k, y)); VX_CHECK(p.second == !was, "insertion into a submap"); });
            if (!was) { w.r.put(k, y); w.note(k); }
        });
        keyed("clear(submap of key)", [](World& w, int k) {
            size_t i = C::subidx(w.c.hash(mk(k)));
            for (int j = 0; j < w.nk; ++j) if (w.r.in(j) && C::subidx(w.c.hash(mk(j))) == i) w.r.del(j);
            w.c.clear(i);
        });
    }
};

// ---- start states ----------------------------------------------------------------------------------
// fill keys U..U+n-1, then erase by pattern
enum { E_NONE, E_ALL, E_EVEN, E_BUT_LAST, E_HALF, E_COUNT };
inline const char* erase_name[] = { "nothing erased", "all erased", "every second erased", "all but the last erased", "first half erased" };
template<class W> void build(W& w, int U, int n, int pat) {
    w.x.log("start: keys %d..%d inserted, %s", U, U + n - 1, erase_name[pat]);
    for (int i = 0; i < n; ++i) { int y = w.fresh(); w.c.insert(W::mv(U + i, y)); w.r.put(U + i, y); }
    for (int i = 0; i < n; ++i) {
        bool del = pat == E_ALL || (pat == E_EVEN && i % 2 == 0) || (pat == E_BUT_LAST && i != n - 1) || (pat == E_HALF && i < n / 2);
        if (del) { w.c.erase(W::mk(U + i)); w.r.del(U + i); }
    }
    if constexpr (requires { w.r.addr; }) for (int i = 0; i < n; ++i) w.note(U + i);
}

} // namespace hw
