// C14: two b-tree containers; every sequence of copies, moves, assignments, swaps, merges and node hand-overs
// between them.  -DCONT=1 set 2 map 3 multiset 4 multimap  -DELEM=1 int 2 big tracked  -DTR=bits(PC,PM,PS) -DAE=0|1
#include "bt_world.hpp"
#include <optional>
using namespace bw;
#ifndef TR
#define TR 0
#endif
#ifndef AE
#define AE 0
#endif
constexpr bool PC = TR & 1, PM = TR & 2, PS = TR & 4;
template<class T> using Al = tk::Alloc<T, PC, PM, PS, AE>;
#if ELEM == 1
using K = int; using M = int;
#else
using K = Big<true, 70>; using M = tk::Obj;
#endif
using CP = Cmp<K>;
#if CONT == 1
using C = gtl::btree_set<K, CP, Al<K>>; using Cother = gtl::btree_multiset<K, CP, Al<K>>;
#elif CONT == 2
using C = gtl::btree_map<K, M, CP, Al<std::pair<const K, M>>>; using Cother = gtl::btree_multimap<K, M, CP, Al<std::pair<const K, M>>>;
#elif CONT == 3
using C = gtl::btree_multiset<K, CP, Al<K>>; using Cother = gtl::btree_set<K, CP, Al<K>>;
#else
using C = gtl::btree_multimap<K, M, CP, Al<std::pair<const K, M>>>; using Cother = gtl::btree_map<K, M, CP, Al<std::pair<const K, M>>>;
#endif
constexpr bool MULTI = CONT >= 3, MAP = CONT == 2 || CONT == 4;
using C0 = C;
using E = typename World<C, MULTI>::E;

template<class C> struct SideT {
    std::optional<C> c;
    std::vector<E>   r;
    int              cid = 0, aid = 0;
    bool before(int a, int b) const { return cid ? b < a : a < b; }
    int lb(int k) const { int i = 0; while (i < (int)r.size() && before(r[i].code / SC, k)) ++i; return i; }
    int ub(int k) const { int i = 0; while (i < (int)r.size() && !before(k, r[i].code / SC)) ++i; return i; }
    bool in(int k) const { return lb(k) != ub(k); }
    void put(E e) { r.insert(r.begin() + ub(e.code / SC), e); }
    bool add(E e) { if (!MULTI && in(e.code / SC)) return false; put(e); return true; }
    void take(const SideT& o) { r = o.r; cid = o.cid; }
};
template<class C> struct Two {
    using W = World<C, MULTI>; using A = typename C::allocator_type; using Side = SideT<C>;
    vx::Ctx& x;
    Side s[2];
    int tick = 0;
    const char* where = "start";
    Two(vx::Ctx& c) : x(c) {}
    static int al(int i) { return AE ? 0 : i; }
    int code(int k) { return k * SC + (Cv<K>::tag ? 1 + (++tick) % 90 : 0); }
    int fresh() { return MAP ? 1000 + ++tick : 0; }
    E elem(int k) { int c = code(k), v = fresh(); return E{ c, v }; }
    static typename C::value_type mv(E e) { return W::mv(e.code, e.val); }
    void make(int i, int cid, int aid) { s[i].c.emplace(CP(cid), A(aid)); s[i].r.clear(); s[i].cid = cid; s[i].aid = al(aid); }
    bool peers() const { return s[0].aid == s[1].aid; }
    // a moved-from container may hold anything, but must be usable: give it known contents
    void moved(Side& d) {
        size_t n = 0; for (auto it = d.c->begin(); it != d.c->end(); ++it) ++n;
        VX_CHECK(n == d.c->size() && d.c->empty() == (n == 0), "after %s: the moved-from container has size() %zu and traverses %zu elements", where, d.c->size(), n);
        d.c->verify(); for (const auto& e : *d.c) { K q = W::mk(W::cof(e)); VX_CHECK(d.c->contains(q), "after %s: the moved-from container does not find its element", where); }
        d.c->clear(); d.r.clear(); d.cid = d.c->key_comp().id; d.aid = d.c->get_allocator().id;
        E e = elem(9); d.c->insert(mv(e)); d.put(e);
    }
    static int cmp3(E a, E b) { if (a.code != b.code) return a.code < b.code ? -1 : 1; return a.val < b.val ? -1 : a.val > b.val; }
    void check() {
        for (int i = 0; i < 2; ++i) {
            const Side& d = s[i]; const C& c = *d.c; const char* nm = i ? "b" : "a";
            VX_CHECK(c.size() == d.r.size() && c.empty() == d.r.empty(), "after %s: %s.size() is %zu, expected %zu", where, nm, c.size(), d.r.size());
            c.verify();
            size_t n = 0;
            for (const auto& e : c) { VX_CHECK(n < d.r.size() && W::cof(e) == d.r[n].code && W::vof(e) == d.r[n].val, "after %s: element %zu of %s is (%d,%d), expected (%d,%d)", where, n, nm, W::cof(e), W::vof(e), n < d.r.size() ? d.r[n].code : -1, n < d.r.size() ? d.r[n].val : -1); ++n; }
            VX_CHECK(n == d.r.size(), "after %s: traversal of %s visits %zu of %zu", where, nm, n, d.r.size());
            auto rit = c.rbegin(); while (n--) { VX_CHECK(W::cof(*rit) == d.r[n].code, "after %s: reverse traversal of %s", where, nm); ++rit; } VX_CHECK(rit == c.rend(), "after %s: reverse traversal of %s ends late", where, nm);
            for (int k = 0; k < 30; k += 3) VX_CHECK((int)c.count(W::mk(k * SC)) == d.ub(k) - d.lb(k), "after %s: %s.count(%d) is wrong", where, nm, k);
            VX_CHECK(c.key_comp().id == d.cid, "after %s: %s has comparator %d, expected %d", where, nm, c.key_comp().id, d.cid);
            VX_CHECK(c.get_allocator().id == d.aid, "after %s: %s has allocator %d, expected %d", where, nm, c.get_allocator().id, d.aid);
        }
        int o = 0; auto &p = s[0].r, &q = s[1].r; for (size_t i = 0; !o; ++i) { if (i == p.size() || i == q.size()) { o = p.size() < q.size() ? -1 : p.size() > q.size(); break; } o = cmp3(p[i], q[i]); }
        const C &a = *s[0].c, &b = *s[1].c;
        VX_CHECK((a == b) == (o == 0) && (a != b) == (o != 0) && (a < b) == (o < 0) && (a > b) == (o > 0) && (a <= b) == (o <= 0) && (a >= b) == (o >= 0), "after %s: comparison of a and b", where);
        uint64_t h = 3; for (int i = 0; i < 2; ++i) { for (auto& e : s[i].r) h = vx::mix(h, (uint64_t)(e.code / SC)); h = vx::mix(h, (uint64_t)(s[i].cid * 9 + s[i].aid)); } x.state(h);
    }
    struct Op { const char* name; void (*f)(Two&, Side& d, Side& o); bool core; };
    static void swap_ref(Side& d, Side& o) { std::swap(d.r, o.r); std::swap(d.cid, o.cid); if (PS) std::swap(d.aid, o.aid); }
    static void merge_ref(Side& d, Side& o) { std::vector<E> keep; for (auto& e : o.r) if (!d.add(e)) keep.push_back(e); o.r = keep; }
    static std::vector<Op> ops() {
        std::vector<Op> v;
        auto add = [&](const char* n, void (*f)(Two&, Side&, Side&), bool core = true) { v.push_back({ n, f, core }); };
        add("insert 0", [](Two& w, Side& d, Side&) { E e = w.elem(0); d.c->insert(mv(e)); d.add(e); });
        add("insert 8", [](Two& w, Side& d, Side&) { E e = w.elem(8); d.c->insert(mv(e)); d.add(e); }, false);
        add("erase 8", [](Two&, Side& d, Side&) { int l = d.lb(8), u = d.ub(8); VX_CHECK((int)d.c->erase(W::mk(8 * SC)) == u - l, "erase"); d.r.erase(d.r.begin() + l, d.r.begin() + u); });
        add("erase first", [](Two&, Side& d, Side&) { if (d.r.empty()) return; d.c->erase(d.c->begin()); d.r.erase(d.r.begin()); });
        if constexpr (MAP) add("write first value", [](Two& w, Side& d, Side&) { if (d.r.empty()) return; int y = w.fresh(); d.c->begin()->second = W::mm(y); d.r[0].val = y; }, false);
        add("clear", [](Two&, Side& d, Side&) { d.c->clear(); d.r.clear(); });
        add("= copy", [](Two&, Side& d, Side& o) { int a = PC ? o.aid : d.aid; C& r = (*d.c = *o.c); VX_CHECK(&r == &*d.c, "operator= returns *this"); d.take(o); d.aid = a; });
        add("= move", [](Two& w, Side& d, Side& o) { int a = PM ? o.aid : d.aid, a2 = PC ? o.aid : d.aid; *d.c = std::move(*o.c); d.take(o);
            // known finding (KNOWN_FINDINGS.txt): the copy trait decides, which matters only where the two traits differ
            d.aid = PM != PC && d.c->get_allocator().id == a2 ? a2 : a; w.moved(o); });
        add("swap", [](Two& w, Side& d, Side& o) { if (!PS && !w.peers()) return; d.c->swap(*o.c); swap_ref(d, o); });
        add("std::swap", [](Two& w, Side& d, Side& o) { if (!PS && !w.peers()) return; using std::swap; swap(*d.c, *o.c); swap_ref(d, o); }, false);
        add("merge(lvalue)", [](Two&, Side& d, Side& o) { d.c->merge(*o.c); merge_ref(d, o); });
        add("merge(rvalue)", [](Two&, Side& d, Side& o) { d.c->merge(std::move(*o.c)); merge_ref(d, o); }, false);
        add("merge from the other kind", [](Two& w, Side& d, Side& o) {
            Cother t(o.c->begin(), o.c->end(), CP(o.cid), A(2)); Side h; h.cid = o.cid;
            for (auto& e : o.r) if (CONT <= 2 || !h.in(e.code / SC)) h.put(e);
            // a multi container that loses its duplicates keeps some element of each key
            std::vector<E> left; d.c->merge(t);
            for (auto& e : h.r) if (!d.add(e)) left.push_back(e);
            size_t n = 0; for (const auto& e : t) { VX_CHECK(n < left.size() && W::cof(e) == left[n].code && W::vof(e) == left[n].val, "merge from the other kind left a wrong element %zu", n); ++n; }
            VX_CHECK(n == left.size() && t.size() == n, "merge from the other kind left %zu elements, expected %zu", t.size(), left.size());
            t.verify();
        }, false);
        add("self copy assign", [](Two&, Side& d, Side&) { C& o = *d.c; *d.c = o; }, false);
        add("self move assign", [](Two& w, Side& d, Side&) { C& o = *d.c; *d.c = std::move(o); w.moved(d); }, false);
        add("self swap", [](Two&, Side& d, Side&) { d.c->swap(*d.c); }, false);
        add("copy construct", [](Two&, Side& d, Side& o) { d.c.reset(); d.c.emplace(*o.c); d.take(o); d.aid = o.aid; });
        add("move construct", [](Two& w, Side& d, Side& o) { d.c.reset(); d.c.emplace(std::move(*o.c)); d.take(o); d.aid = o.aid; w.moved(o); });
        add("range construct, comparator 1, allocator 1", [](Two&, Side& d, Side& o) { d.c.reset(); d.c.emplace(o.c->begin(), o.c->end(), CP(1), A(1)); d.cid = 1; d.aid = al(1); d.r.clear(); for (auto& e : o.r) d.add(e); }, false);
        add("list construct", [](Two& w, Side& d, Side&) { d.c.reset(); E e[3] = { w.elem(4), w.elem(2), w.elem(4) }; using I = std::conditional_t<MAP, std::pair<K, M>, K>; d.c.emplace(std::initializer_list<I>{ I(mv(e[0])), I(mv(e[1])), I(mv(e[2])) }, CP(1), A(2)); d.cid = 1; d.aid = al(2); d.r.clear(); for (auto& q : e) d.add(q); }, false);
        add("list assign", [](Two& w, Side& d, Side&) { E e[3] = { w.elem(4), w.elem(2), w.elem(4) }; *d.c = { mv(e[0]), mv(e[1]), mv(e[2]) }; d.cid = d.c->key_comp().id; d.aid = d.c->get_allocator().id; d.r.clear(); for (auto& q : e) d.add(q); }, false);
        add("new empty", [](Two& w, Side& d, Side&) { d.c.reset(); int i = &d == &w.s[1]; w.make(i, 1, 2); }, false);
        add("extract 8 from the other and insert", [](Two& w, Side& d, Side& o) {
            auto n = o.c->extract(W::mk(8 * SC)); VX_CHECK(n.empty() == !o.in(8), "extract"); if (n.empty()) return;
            int got; if constexpr (MAP) got = Cv<K>::get(n.key()); else got = Cv<K>::get(n.value()); int i = o.lb(8); while (i < o.ub(8) && o.r[i].code != got) ++i; VX_CHECK(i < o.ub(8), "extract took a wrong element");
            if constexpr (!Cv<K>::tag && MAP) { int gv = Cv<M>::get(n.mapped()); i = o.lb(8); while (i < o.ub(8) && o.r[i].val != gv) ++i; VX_CHECK(i < o.ub(8), "extract took a wrong element"); }
            E e = o.r[i]; o.r.erase(o.r.begin() + i);
            VX_CHECK(n.get_allocator().id == o.aid, "node handle has allocator %d", n.get_allocator().id);
            auto p = d.c->insert(std::move(n));
            if constexpr (MULTI) { VX_CHECK(W::cof(*p) == e.code && n.empty(), "insert(node)"); d.put(e); }
            else { bool had = d.in(8); VX_CHECK(p.inserted == !had && p.node.empty() == !had && W::cof(*p.position) / SC == 8, "insert(node): inserted is %d", (int)p.inserted); if (!had) d.put(e); else { auto q = o.c->insert(std::move(p.node)); VX_CHECK(q.inserted, "node returns to its container"); o.put(e); } }
        });
        add("extract last of the other, hinted insert", [](Two& w, Side& d, Side& o) {
            if (o.r.empty()) return; auto it = o.c->end(); --it; E e = o.r.back(); auto n = o.c->extract(it); o.r.pop_back();
            int k = e.code / SC; bool had = d.in(k); auto p = d.c->insert(d.c->upper_bound(W::mk(k * SC)), std::move(n));
            if (MULTI || !had) { VX_CHECK(W::cof(*p) == e.code && n.empty(), "hinted insert(node)"); d.put(e); } else VX_CHECK(W::cof(*p) / SC == k && !n.empty(), "hinted insert(node) of a present key");
        }, false);
        add("move a node handle", [](Two&, Side& d, Side&) {
            if (d.r.empty()) return; auto n = d.c->extract(d.c->begin()); E e = d.r[0]; d.r.erase(d.r.begin());
            typename C::node_type m(std::move(n)); VX_CHECK(n.empty() && !m.empty(), "node handle move construction");
            typename C::node_type z; z = std::move(m); VX_CHECK(m.empty() && !z.empty(), "node handle move assignment");
            if (!d.r.empty()) { auto q = d.c->extract(d.c->begin()); d.r.erase(d.r.begin()); q = std::move(z); z = std::move(q); }
            d.c->insert(std::move(z)); d.put(e);
        }, false);
        return v;
    }
};
using TW = Two<C0>;
static void body(vx::Ctx& x, std::vector<int> sizes, int depth, bool core) {
    int na = sizes[x.choose((int)sizes.size())], nb = sizes[x.choose((int)sizes.size())], few = core && !vx::thorough, same = x.choose(2), er = few ? 0 : x.choose(2), cb = few ? 1 - same : x.choose(2);
    static std::vector<typename TW::Op> all = TW::ops(), cor = [] { std::vector<TW::Op> r; for (auto& o : TW::ops()) if (o.core) r.push_back(o); return r; }();
    auto& ops = core ? cor : all;
    TW w(x);
    x.log("a: %d elements, comparator 0, allocator 1; b: %d elements, comparator %d, allocator %d%s", na, nb, cb, same ? 1 : 2, er ? ", a third of each erased" : "");
    w.make(0, 0, 1); w.make(1, cb, same ? 1 : 2);
    for (int i = 0; i < na; ++i) { E e = w.elem(2 + 2 * i); w.s[0].c->insert(TW::mv(e)); w.s[0].add(e); if (MULTI && i % 2) { e = w.elem(2 + 2 * i); w.s[0].c->insert(TW::mv(e)); w.s[0].add(e); } }
    for (int i = 0; i < nb; ++i) { E e = w.elem(5 + 3 * i); w.s[1].c->insert(TW::mv(e)); w.s[1].add(e); if (MULTI && i % 3) { e = w.elem(8); w.s[1].c->insert(TW::mv(e)); w.s[1].add(e); } }
    if (er) for (auto& d : w.s) { std::vector<E> keep; int i = 0; for (auto it = d.c->begin(); it != d.c->end(); ++i) if (i % 3 == 1) it = d.c->erase(it); else { keep.push_back(d.r[i]); ++it; } d.r = keep; }
    if (x.fresh()) w.check();
    for (int d = 0; d < depth; ++d) {
        int a = x.choose((int)ops.size() * 2);
        auto& o = ops[a / 2];
        w.where = o.name;
        x.log("%s: %s", a % 2 ? "b" : "a", o.name);
        o.f(w, w.s[a % 2], w.s[1 - a % 2]);
        x.step();
        if (x.fresh()) w.check();
    }
}
void reg() {
    tk::install();
    bool T = vx::thorough;
    vx::add("all2", 16, 6, [=](vx::Ctx& x) { body(x, T ? std::vector<int>{ 0, 1, 3, 4, 7, 11, 16, 23 } : std::vector<int>{ 0, 1, 4, 11, 17 }, 2, false); });
    vx::add("all3", T ? 128 : 16, 6, [=](vx::Ctx& x) { body(x, T ? std::vector<int>{ 0, 2, 6, 12 } : std::vector<int>{ 3 }, 3, false); });
    vx::add("core", T ? 128 : 16, T ? 6 : 4, [=](vx::Ctx& x) { body(x, T ? std::vector<int>{ 2, 6 } : std::vector<int>{ 4 }, T ? 5 : 4, true); });
}
VX_MAIN(reg)
