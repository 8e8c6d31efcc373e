// C06: two hash containers; every sequence of copies, moves, assignments, swaps, merges and node
// hand-overs between them.   -DKIND=1..4  -DELEM=1|2  -DTR=bits(PC,PM,PS) -DAE=0|1  -DSTDAL
#include "hash_world.hpp"
#include <optional>
using namespace hw;
#ifndef TR
#define TR 0
#endif
#ifndef AE
#define AE 0
#endif
#ifndef NSUB
#define NSUB 1
#endif
#ifdef STDAL // std::allocator, for which the library has code of its own
#undef AE
#define AE 1
constexpr bool PC = false, PM = true, PS = false;
template<class T> using Al = std::allocator<T>;
#else
constexpr bool PC = TR & 1, PM = TR & 2, PS = TR & 4;
template<class T> using Al = tk::Alloc<T, PC, PM, PS, AE>;
#endif
template<class A> A mkA(int i) { if constexpr (std::is_constructible_v<A, int>) return A(i); else return A(); }
template<class A> int idA(const A& a) { if constexpr (requires { a.id; }) return a.id; else return 0; }
#if ELEM == 1
using K = int; using M = int;
#else
using K = tk::Obj; using M = tk::Obj;
#endif
#if KIND == 1
using Map = gtl::flat_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>>;
using Set = gtl::flat_hash_set<K, Hs<K>, Eq<K>, Al<K>>;
#elif KIND == 2
using Map = gtl::node_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>>;
using Set = gtl::node_hash_set<K, Hs<K>, Eq<K>, Al<K>>;
#elif KIND == 3
using Map = gtl::parallel_flat_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>, NSUB, gtl::NullMutex>;
using Set = gtl::parallel_flat_hash_set<K, Hs<K>, Eq<K>, Al<K>, NSUB, std::mutex>;
using Map2 = gtl::parallel_flat_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>, NSUB, std::shared_mutex>;
using Set2 = gtl::parallel_flat_hash_set<K, Hs<K>, Eq<K>, Al<K>, NSUB, gtl::NullMutex>;
#else
using Map = gtl::parallel_node_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>, NSUB, gtl::NullMutex>;
using Set = gtl::parallel_node_hash_set<K, Hs<K>, Eq<K>, Al<K>, NSUB, std::mutex>;
using Map2 = gtl::parallel_node_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>, NSUB, std::shared_mutex>;
using Set2 = gtl::parallel_node_hash_set<K, Hs<K>, Eq<K>, Al<K>, NSUB, gtl::NullMutex>;
#endif
#if KIND < 3
using Map2 = int; using Set2 = int;
#endif
constexpr bool NODE = KIND == 2 || KIND == 4;
constexpr int  NKEY = 48;

template<class C> struct Two {
    using W = World<C, NODE>;
    static constexpr bool MAP = W::MAP;
    using A = typename C::allocator_type;
    using Other = std::conditional_t<IsMap<C>, Map2, Set2>; // parallel: the same container with another mutex type
    struct Side { std::optional<C> c; int val[NKEY]; bool has[NKEY]; int n = 0, hid = 1, eid = 1, aid = 0;
        void clear() { memset(has, 0, sizeof has); n = 0; }
        void put(int k, int v) { if (!has[k]) { has[k] = true; ++n; } val[k] = v; }
        void del(int k) { if (has[k]) { has[k] = false; --n; } }
        void take(const Side& o) { memcpy(val, o.val, sizeof val); memcpy(has, o.has, sizeof has); n = o.n; hid = o.hid; eid = o.eid; }
        void resync() { // contents of a moved-from container: anything consistent
            clear();
            for (const auto& e : *c) { int k = W::kof(e); VX_CHECK(k >= 0 && k < NKEY && !has[k], "moved-from container traverses to key %d", k); put(k, 7); }
            if constexpr (MAP) for (auto& e : *c) e.second = W::mm(7); // values may be moved-from
            hid = c->hash_function().id; eid = c->key_eq().id; aid = idA(c->get_allocator());
        }
    };
    vx::Ctx& x;
    Side s[2];
    int tick = 0;
    const char* where = "start";
    Two(vx::Ctx& c) : x(c) {}
    int fresh() { return MAP ? 1000 + ++tick : 0; }
    static int al(int i) { return AE ? 0 : i; }
    void make(int i, int hid, int aid) { s[i].c.emplace(0, Hs<K>(hid), Eq<K>(hid), mkA<A>(aid)); s[i].clear(); s[i].hid = hid; s[i].eid = hid; s[i].aid = al(aid); }
    void check() {
        for (int i = 0; i < 2; ++i) {
            const Side& d = s[i]; const C& c = *d.c; const char* nm = i ? "b" : "a";
            VX_CHECK((int)c.size() == d.n, "after %s: %s.size() is %zu, expected %d", where, nm, c.size(), d.n);
            int n = 0; bool seen[NKEY] = {};
            for (const auto& e : c) {
                int k = W::kof(e);
                VX_CHECK(k >= 0 && k < NKEY && d.has[k] && !seen[k], "after %s: %s holds key %d %s", where, nm, k, k >= 0 && k < NKEY && d.has[k] ? "twice" : "unexpectedly");
                seen[k] = true; ++n;
                VX_CHECK(W::vof(e) == d.val[k] || !MAP, "after %s: %s has value %d at key %d, expected %d", where, nm, W::vof(e), k, d.val[k]);
            }
            VX_CHECK(n == d.n, "after %s: traversal of %s visits %d of %d", where, nm, n, d.n);
            for (int k = 0; k < 20; ++k) VX_CHECK(c.contains(W::mk(k)) == d.has[k], "after %s: %s.contains(%d) is wrong", where, nm, k);
            VX_CHECK(c.hash_function().id == d.hid, "after %s: %s has hash function %d, expected %d", where, nm, c.hash_function().id, d.hid);
            VX_CHECK(c.key_eq().id == d.eid, "after %s: %s has equality function %d, expected %d", where, nm, c.key_eq().id, d.eid);
            VX_CHECK(idA(c.get_allocator()) == d.aid, "after %s: %s has allocator %d, expected %d", where, nm, idA(c.get_allocator()), d.aid);
        }
        bool eq = s[0].n == s[1].n;
        for (int k = 0; eq && k < NKEY; ++k) eq = s[0].has[k] == s[1].has[k] && (!MAP || !s[0].has[k] || s[0].val[k] == s[1].val[k]);
        const C &a = *s[0].c, &b = *s[1].c;
        // known finding (KNOWN_FINDINGS.txt): parallel containers compare submap by submap, so equal contents
        // under hash functions of different state compare unequal
        if (W::PAR && eq && s[0].hid != s[1].hid) return;
        VX_CHECK((a == b) == eq && (b == a) == eq && (a != b) == !eq, "after %s: a == b is %d, contents are %s", where, (int)(a == b), eq ? "equal" : "different");
        VX_CHECK(a == a && !(b != b), "after %s: a container differs from itself", where);
        uint64_t h = 3;
        for (int i = 0; i < 2; ++i) { h = vx::mix(h, s[i].c->capacity()); for (const auto& e : *s[i].c) h = vx::mix(h, (uint64_t)W::kof(e)); h = vx::mix(h, (uint64_t)(s[i].hid * 9 + s[i].aid)); }
        x.state(h);
    }
    void moved(Side& from, const char* what) { (void)what; from.resync(); }
    // known finding: merging parallel containers whose hash functions differ in state puts elements in wrong submaps
    bool known_merge() const { return W::PAR && s[0].hid != s[1].hid; }
    bool peers() const { return s[0].aid == s[1].aid; }
    struct Op { const char* name; void (*f)(Two&, Side& d, Side& o); bool core; };
    static std::vector<Op> ops() {
        std::vector<Op> v;
        auto add = [&](const char* n, void (*f)(Two&, Side&, Side&), bool core = true) { v.push_back({ n, f, core }); };
        add("insert 0", [](Two& w, Side& d, Side&) { int y = w.fresh(); auto p = d.c->insert(W::mv(0, y)); VX_CHECK(p.second == !d.has[0], "insert"); if (p.second) d.put(0, y); });
        add("insert 1", [](Two& w, Side& d, Side&) { int y = w.fresh(); auto p = d.c->insert(W::mv(1, y)); VX_CHECK(p.second == !d.has[1], "insert"); if (p.second) d.put(1, y); });
        add("erase 0", [](Two&, Side& d, Side&) { VX_CHECK(d.c->erase(W::mk(0)) == (d.has[0] ? 1u : 0u), "erase"); d.del(0); });
        add("erase 4", [](Two&, Side& d, Side&) { VX_CHECK(d.c->erase(W::mk(4)) == (d.has[4] ? 1u : 0u), "erase"); d.del(4); }, false);
        if constexpr (MAP) add("write value 4", [](Two& w, Side& d, Side&) { auto it = d.c->find(W::mk(4)); if (it != d.c->end()) { int y = w.fresh(); it->second = W::mm(y); d.val[4] = y; } }, false);
        add("clear", [](Two&, Side& d, Side&) { d.c->clear(); d.clear(); });
        add("= copy", [](Two&, Side& d, Side& o) { int a = PC ? o.aid : d.aid; C& r = (*d.c = *o.c); VX_CHECK(&r == &*d.c, "operator= returns *this"); d.take(o); d.aid = a; });
        add("= move", [](Two& w, Side& d, Side& o) { int a = PM ? o.aid : d.aid; *d.c = std::move(*o.c); d.take(o); d.aid = a; w.moved(o, "move assignment"); });
        add("swap", [](Two& w, Side& d, Side& o) { if (!PS && !w.peers()) return; d.c->swap(*o.c); swap_ref(d, o); });
        add("std::swap", [](Two& w, Side& d, Side& o) { if (!PS && !w.peers()) return; using std::swap; swap(*d.c, *o.c); swap_ref(d, o); }, false);
        add("merge(lvalue)", [](Two& w, Side& d, Side& o) { if ((NODE && !w.peers()) || w.known_merge()) return; d.c->merge(*o.c); merge_ref(d, o); });
        add("merge(rvalue)", [](Two& w, Side& d, Side& o) { if ((NODE && !w.peers()) || w.known_merge()) return; d.c->merge(std::move(*o.c)); merge_ref(d, o); }, false);
        add("self copy assign", [](Two&, Side& d, Side&) { C& o = *d.c; *d.c = o; }, false);
        add("self move assign", [](Two& w, Side& d, Side&) { C& o = *d.c; *d.c = std::move(o); w.moved(d, "self move"); }, false);
        add("self swap", [](Two&, Side& d, Side&) { d.c->swap(*d.c); }, false);
        add("copy construct", [](Two&, Side& d, Side& o) { d.c.reset(); d.c.emplace(*o.c); d.take(o); d.aid = o.aid; });
        add("copy construct with allocator 2", [](Two&, Side& d, Side& o) { d.c.reset(); d.c.emplace(*o.c, mkA<A>(2)); d.take(o); d.aid = al(2); }, false);
        add("move construct", [](Two& w, Side& d, Side& o) { d.c.reset(); d.c.emplace(std::move(*o.c)); d.take(o); d.aid = o.aid; w.moved(o, "move construction"); });
        add("move construct with allocator 1", [](Two& w, Side& d, Side& o) { d.c.reset(); d.c.emplace(std::move(*o.c), mkA<A>(1)); d.take(o); d.aid = al(1); w.moved(o, "move construction"); }, false);
        add("range construct", [](Two&, Side& d, Side& o) { d.c.reset(); d.c.emplace(o.c->begin(), o.c->end(), 3, Hs<K>(3), Eq<K>(3), mkA<A>(1)); d.take(o); d.hid = d.eid = 3; d.aid = al(1); }, false);
        add("range construct, hash and allocator only", [](Two&, Side& d, Side& o) { d.c.reset(); d.c.emplace(o.c->begin(), o.c->end(), 3, Hs<K>(3), mkA<A>(1)); d.take(o); d.hid = 3; d.eid = 1; d.aid = al(1); }, false);
        add("list construct", [](Two& w, Side& d, Side&) { d.c.reset(); int y = w.fresh(), z = w.fresh(); std::initializer_list<typename C::value_type> il = { W::mv(1, y), W::mv(5, z), W::mv(1, z) };
            d.c.emplace(il, 0, Hs<K>(2), Eq<K>(2), mkA<A>(2)); d.clear(); d.put(1, y); d.put(5, z); d.hid = d.eid = 2; d.aid = al(2); }, false);
        add("list assign", [](Two& w, Side& d, Side&) { int y = w.fresh(), z = w.fresh(); *d.c = { W::mv(1, y), W::mv(5, z), W::mv(1, z) }; d.clear(); d.put(1, y); d.put(5, z); list_assigned(d); }, false);
        add("new empty, hash 3, allocator 2", [](Two& w, Side& d, Side&) { d.c.reset(); int i = &d == &w.s[1]; w.make(i, 3, 2); }, false);
        add("new empty with allocator only", [](Two&, Side& d, Side&) { d.c.reset(); d.c.emplace(mkA<A>(1)); d.clear(); d.hid = d.eid = 1; d.aid = al(1); }, false);
        add("extract 4 from the other and insert", [](Two& w, Side& d, Side& o) {
            if (NODE && !w.peers()) return;
            auto n = o.c->extract(W::mk(4)); VX_CHECK(n.empty() == !o.has[4], "extract");
            int v = o.val[4]; bool had = o.has[4]; o.del(4);
            auto r = d.c->insert(std::move(n));
            VX_CHECK(r.inserted == (had && !d.has[4]), "insert(node): inserted is %d", (int)r.inserted);
            if (r.inserted) d.put(4, v);
            else if (had) { VX_CHECK(!r.node.empty(), "insert(node) that failed lost the node"); auto q = o.c->insert(std::move(r.node)); VX_CHECK(q.inserted, "node returns to its container"); o.put(4, v); }
        });
        add("extract first, insert into the other", [](Two& w, Side& d, Side& o) {
            if (NODE && !w.peers()) return;
            auto it = o.c->begin(); if (it == o.c->end()) return;
            int k = W::kof(*it); auto n = o.c->extract(it); int v = o.val[k]; o.del(k);
            auto r = d.c->insert(std::move(n)); VX_CHECK(r.inserted == !d.has[k] && r.node.empty() == r.inserted, "insert(node)"); VX_CHECK(W::kof(*r.position) == k, "insert(node) position");
            if (r.inserted) d.put(k, v);
        }, false);
        add("move a node handle", [](Two&, Side& d, Side&) {
            auto n = d.c->extract(W::mk(4)); if (n.empty()) return; int v = d.val[4]; d.del(4);
            typename C::node_type m(std::move(n)); VX_CHECK(n.empty() && !m.empty(), "node handle move construction");
            typename C::node_type z; z = std::move(m); VX_CHECK(m.empty() && !z.empty(), "node handle move assignment");
            if (d.has[1]) { auto q = d.c->extract(W::mk(1)); d.del(1); q = std::move(z); std::swap(z, q); }
            auto r = d.c->insert(std::move(z)); VX_CHECK(r.inserted, "insert of a moved node"); d.put(4, v);
        }, false);
        add("rehash(0)", [](Two&, Side& d, Side&) { d.c->rehash(0); }, false);
        add("reserve(40)", [](Two&, Side& d, Side&) { d.c->reserve(40); }, false);
        return v;
    }
    // operations explored once each, followed by every operation of ops()
    static std::vector<Op> extra() {
        std::vector<Op> v;
        auto add = [&](const char* n, void (*f)(Two&, Side&, Side&)) { v.push_back({ n, f, false }); };
        using VT = typename C::value_type;
#define DST(...) d.c.reset(); d.c.emplace(__VA_ARGS__)
        add("default construct", [](Two&, Side& d, Side&) { DST(); d.clear(); d.hid = d.eid = 1; d.aid = 0; });
        add("construct(n)", [](Two&, Side& d, Side&) { DST(20); d.clear(); VX_CHECK(d.c->bucket_count() >= 20, "bucket count"); d.hid = d.eid = 1; d.aid = 0; });
        add("construct(n, hash)", [](Two&, Side& d, Side&) { DST(20, Hs<K>(3)); d.clear(); d.hid = 3; d.eid = 1; d.aid = 0; });
        add("construct(n, hash, eq)", [](Two&, Side& d, Side&) { DST(20, Hs<K>(3), Eq<K>(2)); d.clear(); d.hid = 3; d.eid = 2; d.aid = 0; });
        add("construct(n, hash, allocator)", [](Two&, Side& d, Side&) { DST(20, Hs<K>(3), mkA<A>(2)); d.clear(); VX_CHECK(d.c->bucket_count() >= 20, "bucket count"); d.hid = 3; d.eid = 1; d.aid = al(2); });
        add("construct(n, allocator)", [](Two&, Side& d, Side&) { DST(20, mkA<A>(2)); d.clear(); VX_CHECK(d.c->bucket_count() >= 20, "bucket count"); d.hid = d.eid = 1; d.aid = al(2); });
        add("construct(range)", [](Two&, Side& d, Side& o) { DST(o.c->begin(), o.c->end()); d.take(o); d.hid = d.eid = 1; d.aid = 0; });
        add("construct(range, n)", [](Two&, Side& d, Side& o) { DST(o.c->begin(), o.c->end(), 60); d.take(o); VX_CHECK(d.c->bucket_count() >= 60, "bucket count"); d.hid = d.eid = 1; d.aid = 0; });
        add("construct(range, n, allocator)", [](Two&, Side& d, Side& o) { DST(o.c->begin(), o.c->end(), 60, mkA<A>(2)); d.take(o); d.hid = d.eid = 1; d.aid = al(2); });
        add("construct(range, allocator)", [](Two&, Side& d, Side& o) { DST(o.c->begin(), o.c->end(), mkA<A>(2)); d.take(o); d.hid = d.eid = 1; d.aid = al(2); });
        add("construct(input iterators)", [](Two& w, Side& d, Side&) {
            struct In { using iterator_category = std::input_iterator_tag; using value_type = VT; using difference_type = ptrdiff_t; using pointer = void; using reference = VT;
                        int k; VT operator*() const { return W::mv(k % 30, 50 + k % 30); } In& operator++() { ++k; return *this; } void operator++(int) { ++k; } bool operator==(const In& o) const { return k == o.k; } bool operator!=(const In& o) const { return k != o.k; } };
            DST(In{ 0 }, In{ 33 }); d.clear(); for (int k = 0; k < 30; ++k) d.put(k, 50 + k); d.hid = d.eid = 1; d.aid = 0; (void)w; });
        add("construct(list)", [](Two&, Side& d, Side&) { std::initializer_list<VT> il = { W::mv(1, 6), W::mv(5, 7), W::mv(1, 8) }; DST(il); d.clear(); d.put(1, 6); d.put(5, 7); d.hid = d.eid = 1; d.aid = 0; });
        add("construct(list, n, hash, allocator)", [](Two&, Side& d, Side&) { std::initializer_list<VT> il = { W::mv(1, 6), W::mv(5, 7), W::mv(1, 8) }; DST(il, 3, Hs<K>(3), mkA<A>(2)); d.clear(); d.put(1, 6); d.put(5, 7); d.hid = 3; d.eid = 1; d.aid = al(2); });
        add("construct(list, n, allocator)", [](Two&, Side& d, Side&) { std::initializer_list<VT> il = { W::mv(1, 6), W::mv(5, 7), W::mv(1, 8) }; DST(il, 3, mkA<A>(2)); d.clear(); d.put(1, 6); d.put(5, 7); d.hid = d.eid = 1; d.aid = al(2); });
        add("construct(list, allocator)", [](Two&, Side& d, Side&) { std::initializer_list<VT> il = { W::mv(1, 6), W::mv(5, 7), W::mv(1, 8) }; DST(il, mkA<A>(2)); d.clear(); d.put(1, 6); d.put(5, 7); d.hid = d.eid = 1; d.aid = al(2); });
        if constexpr (MAP) {
            add("insert_or_assign(hint) and try_emplace(hint), lvalue and rvalue", [](Two& w, Side& d, Side&) {
                K k4 = W::mk(4), k5 = W::mk(5); int a = w.fresh(), b = w.fresh(), e = w.fresh(), f = w.fresh(), g = w.fresh(); const M mb = W::mm(b);
                auto it = d.c->insert_or_assign(d.c->begin(), k4, W::mm(a)); d.put(4, a); VX_CHECK(W::kof(*it) == 4 && W::vof(*it) == a, "insert_or_assign(hint, lvalue key)");
                it = d.c->insert_or_assign(d.c->begin(), k5, mb); d.put(5, b); VX_CHECK(W::kof(*it) == 5 && W::vof(*it) == b, "insert_or_assign(hint, lvalue key, lvalue)");
                it = d.c->insert_or_assign(d.c->end(), W::mk(4), W::mm(e)); d.put(4, e); VX_CHECK(W::kof(*it) == 4 && W::vof(*it) == e, "insert_or_assign(hint, rvalue key)");
                const K k7 = W::mk(7); bool in = d.has[7]; it = d.c->try_emplace(d.c->begin(), k7, W::mm(f)); if (!in) d.put(7, f); VX_CHECK(W::kof(*it) == 7 && W::vof(*it) == d.val[7], "try_emplace(hint, lvalue key)");
                in = d.has[9]; it = d.c->try_emplace(d.c->end(), W::mk(9), W::mm(g)); if (!in) d.put(9, g); VX_CHECK(W::kof(*it) == 9 && W::vof(*it) == d.val[9], "try_emplace(hint, rvalue key)");
            });
        }
        if constexpr (W::PAR) {
            add("swap with a container of another mutex type and back", [](Two&, Side& d, Side&) {
                Other t(0, Hs<K>(d.hid), Eq<K>(d.eid), d.c->get_allocator());
                t.insert(W::mv(3, 5)); d.c->swap(t);
                VX_CHECK((int)t.size() == d.n && d.c->size() == 1 && d.c->contains(W::mk(3)), "swap across mutex types");
                for (int k = 0; k < NKEY; ++k) VX_CHECK(t.contains(W::mk(k)) == d.has[k], "swap across mutex types: contains(%d)", k);
                t.swap(*d.c); VX_CHECK(t.size() == 1, "swap across mutex types, back"); });
        }
        return v;
    }
    static void list_assigned(Side& d) { // either kept or, as the list becomes a temporary container, reset
        int h = d.c->hash_function().id, a = idA(d.c->get_allocator());
        d.hid = h; d.eid = d.c->key_eq().id; d.aid = a;
    }
    static void swap_ref(Side& d, Side& o) {
        std::swap(d.val, o.val); std::swap(d.has, o.has); std::swap(d.n, o.n); std::swap(d.hid, o.hid); std::swap(d.eid, o.eid);
        if (PS) std::swap(d.aid, o.aid);
    }
    static void merge_ref(Side& d, Side& o) { for (int k = 0; k < NKEY; ++k) if (o.has[k] && !d.has[k]) { d.put(k, o.val[k]); o.del(k); } }
};

template<class C> void body(vx::Ctx& x, std::vector<int> sizes, std::vector<int> profs, int depth, bool core, bool ext = false) {
    using T = Two<C>;
    int na = sizes[x.choose((int)sizes.size())], nb = sizes[x.choose((int)sizes.size())];
    int prof = profs[x.choose((int)profs.size())], same = x.choose(2);
    int er = x.choose(2);
    set_profile(prof, NKEY); bad_functor = 0;
    static std::vector<typename T::Op> all = T::ops(), xt = T::extra(), cor = [] { std::vector<typename T::Op> r; for (auto& o : T::ops()) if (o.core) r.push_back(o); return r; }();
    auto& ops = core ? cor : all;
    T w(x);
    x.log("a: %d elements, hash 1, allocator 1; b: %d elements, hash 2, allocator %d; profile %s%s", na, nb, same ? 1 : 2, prof_name[prof], er ? ", with erased slots" : "");
    w.make(0, 1, 1); w.make(1, 2, same ? 1 : 2);
    for (int i = 0; i < na; ++i) { int k = 4 + i, y = w.fresh(); w.s[0].c->insert(T::W::mv(k, y)); w.s[0].put(k, y); }
    for (int i = 0; i < nb; ++i) { int k = 4 + 2 * (i % 20), y = w.fresh(); if (w.s[1].has[k]) continue; w.s[1].c->insert(T::W::mv(k, y)); w.s[1].put(k, y); }
    if (er) for (int i = 0; i < 2; ++i) for (int k = 5; k < NKEY; k += 3) { w.s[i].c->erase(T::W::mk(k)); w.s[i].del(k); }
    if (x.fresh()) w.check();
    for (int d = 0; d < depth; ++d) {
        auto& cur = ext && d == 0 ? xt : ops;
        int a = x.choose((int)cur.size() * 2);
        auto& o = cur[a / 2];
        w.where = o.name;
        x.log("%s: %s", a % 2 ? "b" : "a", o.name);
        o.f(w, w.s[a % 2], w.s[1 - a % 2]);
        x.step();
        if (x.fresh()) w.check();
    }
}

template<class C> void reg_for(std::string nm) {
    bool T = vx::thorough;
    std::vector<int> sz = { 0, 1, 7, 16 };
    if (T) sz = { 0, 1, 3, 7, 8, 16, 30 };
    vx::add(nm + "-all2", 16, 6, [=](vx::Ctx& x) { body<C>(x, sz, { P_NATURAL, P_ALLEQUAL }, 2, false); });
    vx::add(nm + "-extra", 8, 6, [=](vx::Ctx& x) { body<C>(x, T ? std::vector<int>{ 0, 1, 3, 7, 16 } : std::vector<int>{ 0, 3, 16 }, { P_NATURAL }, 2, false, true); });
    vx::add(nm + "-all3", T ? 128 : 16, 6, [=](vx::Ctx& x) { body<C>(x, T ? std::vector<int>{ 0, 1, 3, 8 } : std::vector<int>{ 0, 3 }, { T ? P_WRAP : P_NATURAL }, 3, false); });
    vx::add(nm + "-core", T ? 128 : 16, 6, [=](vx::Ctx& x) { body<C>(x, T ? std::vector<int>{ 0, 2, 9 } : std::vector<int>{ 2 }, { P_NATURAL }, T ? 5 : 4, true); });
}
void reg() {
    tk::install();
    reg_for<Map>("map");
    reg_for<Set>("set");
}
VX_MAIN(reg)
