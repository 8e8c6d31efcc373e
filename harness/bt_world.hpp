// A b-tree container under test together with its reference (a sorted vector), and the alphabet of operations.
#pragma once
#include "track.hpp"
#include <gtl/btree.hpp>
#include <algorithm>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace bw {
constexpr int SC = 100; // element code = key * SC + tag; the comparators that ignore the tag show which element was kept

// tracked element padded so that a node holds only 3 of them
template<bool Copyable, int PAD> struct Big {
    tk::Tr<Copyable, true, true> t;
    char pad[PAD];
    Big() = default;
    Big(int v) : t(v) { memset(pad, v & 0x7f, PAD); }
    int get() const { for (int i = 0; i < PAD; i += 17) if (pad[i] != (char)(t.get() & 0x7f)) vx::fail("payload of an element was damaged"); return t.get(); }
    bool operator==(const Big& o) const { return get() == o.get(); }
    bool operator<(const Big& o) const { return get() < o.get(); }
};
template<class T> struct Cv;
template<> struct Cv<int> { static int mk(int i) { return i; } static int get(int i) { return i; } static constexpr bool tag = false; };
template<> struct Cv<std::string> {
    static std::string mk(int i) { char b[64]; snprintf(b, sizeof b, i % 3 == 0 ? "k%06d" : "k%06d and a long tail that is not stored inline", i); return b; }
    static int get(const std::string& s) { return s.empty() ? 0 : atoi(s.c_str() + 1); }
    static constexpr bool tag = false;
};
template<bool A, int P> struct Cv<Big<A, P>> { static Big<A, P> mk(int i) { return Big<A, P>(i); } static int get(const Big<A, P>& b) { return b.get(); } static constexpr bool tag = true; };
template<bool A, bool B, bool C, size_t D> struct Cv<tk::Tr<A, B, C, D>> { using T = tk::Tr<A, B, C, D>; static T mk(int i) { return T(i); } static int get(const T& t) { return t.get(); } static constexpr bool tag = true; };

// stateful comparator; id 0 means ascending, 1 descending
template<class K> struct Cmp {
    int id;
    Cmp(int i = 0) : id(i) {}
    bool operator()(const K& a, const K& b) const { int x = Cv<K>::get(a) / SC, y = Cv<K>::get(b) / SC; return id ? y < x : x < y; }
};
// transparent three-way comparator
template<class K> struct Cmp3 {
    using is_transparent = void;
    int id = 0;
    static int key(const K& a) { return Cv<K>::get(a) / SC; }
    static int key(int a) { return a / SC; }
    template<class X, class Y> gtl::weak_ordering operator()(const X& a, const Y& b) const { int x = key(a), y = key(b); return x < y ? gtl::weak_ordering::less : y < x ? gtl::weak_ordering::greater : gtl::weak_ordering::equivalent; }
};

template<class C> concept IsMap = requires { typename C::mapped_type; };

template<class C, bool MULTI, bool DESC = false>
struct World {
    static constexpr bool MAP = IsMap<C>;
    using K  = typename C::key_type;
    using VT = typename C::value_type;
    template<class X> struct MT { using type = int; };
    template<class X> requires IsMap<X> struct MT<X> { using type = typename X::mapped_type; };
    using M = typename MT<C>::type;
    static constexpr bool TAG  = Cv<K>::tag;
    static constexpr bool COPY = std::is_copy_constructible_v<K> && std::is_copy_constructible_v<M>;
    struct E { int code, val; bool operator==(const E& o) const { return code == o.code && val == o.val; } };

    vx::Ctx& x;
    int      nk;
    C        c;
    std::vector<E> r;
    int      tick = 0;
    const char* where = "start";
    World(vx::Ctx& x_, int nk_) : x(x_), nk(nk_) {}

    int fresh() { return MAP ? 1000 + ++tick : 0; }
    int code(int k) { return k * SC + (TAG ? 1 + (++tick) % 90 : 0); } // a new element with key k
    static int key(int code) { return code / SC; }
    static K mk(int code) { return Cv<K>::mk(code); }
    static M mm(int v) { return Cv<M>::mk(v); }
    static VT mv(int code, int v) { if constexpr (MAP) return VT(mk(code), mm(v)); else return mk(code); }
    static int cof(const VT& e) { if constexpr (MAP) return Cv<K>::get(e.first); else return Cv<K>::get(e); }
    static int vof(const VT& e) { if constexpr (MAP) return Cv<M>::get(e.second); else return 0; }
    static bool before(int k1, int k2) { return DESC ? k2 < k1 : k1 < k2; }
    int lb(int k) const { int i = 0; while (i < (int)r.size() && before(key(r[i].code), k)) ++i; return i; }
    int ub(int k) const { int i = 0; while (i < (int)r.size() && !before(k, key(r[i].code))) ++i; return i; }
    bool in(int k) const { return lb(k) != ub(k); }
    void put_at(int i, int code, int v) { r.insert(r.begin() + i, E{ code, v }); }
    void del(int i) { r.erase(r.begin() + i); }

    template<class It> int index(It it) { int i = 0; auto j = c.begin(); while (typename C::const_iterator(j) != typename C::const_iterator(it)) { VX_CHECK(j != c.end(), "after %s: the returned iterator is not in the container", where); ++j; ++i; VX_CHECK(i <= (int)r.size() + 1, "after %s: endless traversal", where); } return i; }
    template<class It> void at(It it, int i) {
        int g = index(it);
        VX_CHECK(g == i, "%s: returned iterator is at position %d, expected %d", where, g, i);
        if (i < (int)r.size()) VX_CHECK(cof(*it) == r[i].code && vof(*it) == r[i].val, "%s: returned element is (%d,%d), expected (%d,%d)", where, cof(*it), vof(*it), r[i].code, r[i].val);
    }
    // after an insertion of (code, v) without hint, result r1 = iterator
    template<class It> void landed(int cd, int v, It it, bool assign = false) {
        int k = key(cd), l = lb(k), u = ub(k);
        if constexpr (MULTI) { put_at(u, cd, v); at(it, u); }
        else { if (l == u) put_at(l, cd, v); else if (assign) r[l].val = v; at(it, l); }
    }
    template<class P> void inserted(int cd, int v, const P& p, bool assign = false) {
        bool was = in(key(cd));
        VX_CHECK(p.second == !was, "%s of key %d: reported %s, key was %s", where, key(cd), p.second ? "inserted" : "not inserted", was ? "present" : "absent");
        landed(cd, v, p.first, assign);
    }
    template<class It> void landed_hint(int cd, int v, int h, It it) { // hint at index h before the insertion
        if constexpr (!MULTI) landed(cd, v, it);
        else {
            int k = key(cd), l = lb(k), u = ub(k);
            // position of the new element: where the returned iterator points
            int g = index(it);
            VX_CHECK(g >= l && g <= u, "%s of key %d: put at position %d, valid are %d..%d", where, k, g, l, u);
            if (h >= l && h <= u) VX_CHECK(g == h, "%s of key %d with a correct hint %d: put at %d", where, k, h, g);
            if (h == l - 1) VX_CHECK(g == l, "%s of key %d with the hint %d directly before the equal elements: put at %d", where, k, h, g); // as std does
            put_at(g, cd, v); at(it, g);
        }
    }
    typename C::iterator nth(int i) { auto it = c.begin(); while (i--) ++it; return it; }

    void check() {
        const C& cc = c;
        VX_CHECK(cc.size() == r.size(), "after %s: size() is %zu, expected %zu", where, cc.size(), r.size());
        VX_CHECK(cc.empty() == r.empty(), "after %s: empty()", where);
        cc.verify();
        size_t i = 0;
        for (const auto& e : cc) { VX_CHECK(i < r.size(), "after %s: traversal is too long", where); VX_CHECK(cof(e) == r[i].code && vof(e) == r[i].val, "after %s: element %zu is (%d,%d), expected (%d,%d)", where, i, cof(e), vof(e), r[i].code, r[i].val); ++i; }
        VX_CHECK(i == r.size(), "after %s: traversal visits %zu of %zu", where, i, r.size());
        for (auto it = cc.rbegin(); it != cc.rend(); ++it) { VX_CHECK(i > 0, "after %s: reverse traversal is too long", where); --i; VX_CHECK(cof(*it) == r[i].code, "after %s: reverse traversal at %zu shows %d, expected %d", where, i, cof(*it), r[i].code); }
        VX_CHECK(i == 0, "after %s: reverse traversal stops %zu early", where, i);
        auto it = cc.end(); for (i = r.size(); i > 0; --i) { --it; VX_CHECK(cof(*it) == r[i - 1].code, "after %s: decrement from end()", where); }
        VX_CHECK(it == cc.begin(), "after %s: decrement from end() does not reach begin()", where);
        {
            C& m = c; i = 0;
            VX_CHECK(cc.cbegin() == cc.begin() && cc.cend() == cc.end() && typename C::const_iterator(m.begin()) == cc.begin() && typename C::const_iterator(m.end()) == cc.end(), "after %s: the forms of begin() and end() disagree", where);
            for (auto f = m.begin(); f != m.end();) { auto g = f++; VX_CHECK(cof(*g) == r[i].code && (f == m.end() || cof(*f) == r[i + 1].code), "after %s: iterator++ at %zu", where, i); ++i; }
            for (auto f = cc.cend(); f != cc.cbegin();) { auto g = f--; --i; VX_CHECK(cof(*f) == r[i].code && (g == cc.cend() || cof(*g) == r[i + 1].code), "after %s: iterator-- at %zu", where, i); }
            i = r.size(); for (auto f = m.rbegin(); f != m.rend(); ++f) { --i; VX_CHECK(cof(*f) == r[i].code, "after %s: reverse traversal", where); }
            i = r.size(); for (auto f = cc.crbegin(); f != cc.crend(); ++f) { --i; VX_CHECK(cof(*f) == r[i].code, "after %s: constant reverse traversal", where); }
            if (r.size() > 1) { auto a = cc.begin(), b = a; ++b; if constexpr (std::is_same_v<decltype(cc.value_comp()(*a, *b)), bool>) { bool lt = before(key(r[0].code), key(r[1].code)); VX_CHECK(cc.value_comp()(*a, *b) == lt && !cc.value_comp()(*b, *a), "after %s: value_comp()", where); } }
        }
        // positions of all bounds in one pass
        int l = 0;
        int p = 0; auto pit = cc.begin();
        for (int j = 0; j < nk; ++j) {
            int k = DESC ? nk - 1 - j : j;
            K q = mk(k * SC);
            while (l < (int)r.size() && before(key(r[l].code), k)) ++l;
            int u = l; while (u < (int)r.size() && key(r[u].code) == k) ++u;
            while (p < l) { ++p; ++pit; }
            auto lo = cc.lower_bound(q); VX_CHECK(lo == pit, "after %s: lower_bound(%d) is wrong", where, k);
            auto uit = pit; for (int z = l; z < u; ++z) ++uit;
            auto up = cc.upper_bound(q); VX_CHECK(up == uit, "after %s: upper_bound(%d) is wrong", where, k);
            auto er = cc.equal_range(q); VX_CHECK(er.first == pit && er.second == uit, "after %s: equal_range(%d) is wrong", where, k);
            VX_CHECK((int)cc.count(q) == u - l, "after %s: count(%d) is %d, expected %d", where, k, (int)cc.count(q), u - l);
            auto f = cc.find(q); VX_CHECK((f != cc.end()) == (u > l) && (u == l || key(cof(*f)) == k), "after %s: find(%d) is wrong", where, k);
            VX_CHECK(cc.contains(q) == (u > l), "after %s: contains(%d)", where, k);
            if constexpr (std::is_same_v<typename C::key_compare, Cmp3<K>>) {
                VX_CHECK((cc.find(k * SC) != cc.end()) == (u > l) && cc.lower_bound(k * SC) == pit && cc.upper_bound(k * SC) == uit && (int)cc.count(k * SC) == u - l, "after %s: heterogeneous lookup of %d", where, k);
            }
            if constexpr (std::is_same_v<K, std::string>) {
                std::string_view v(q);
                VX_CHECK((cc.find(v) != cc.end()) == (u > l) && cc.lower_bound(v) == pit && cc.upper_bound(v) == uit && (int)cc.count(v) == u - l && cc.contains(v) == (u > l), "after %s: lookup of %d by string_view", where, k);
            }
        }
        uint64_t h = 5; for (auto& e : r) h = vx::mix(h, (uint64_t)key(e.code)); x.state(h);
    }
    void quick() { VX_CHECK(c.size() == r.size(), "after %s: size() is %zu, expected %zu", where, c.size(), r.size()); }

    template<class N> static int nodekey(const N& n) { if constexpr (MAP) return Cv<K>::get(n.key()); else return Cv<K>::get(n.value()); }
    struct Op { const char* name; bool keyed; bool core; void (*f)(World&, int); };
    static const std::vector<Op>& ops() { static std::vector<Op> v = make_ops(); return v; }
    void apply(const Op& o, int k) {
        where = o.name;
        if (o.keyed) x.log("%s key %d", o.name, k); else x.log("%s", o.name);
        o.f(*this, k);
        x.step();
    }
    static std::vector<Op> make_ops() {
        std::vector<Op> v;
        auto keyed = [&](const char* n, void (*f)(World&, int), bool core = false) { v.push_back({ n, true, core, f }); };
        auto plain = [&](const char* n, void (*f)(World&, int), bool core = false) { v.push_back({ n, false, core, f }); };
        keyed("insert(rvalue)", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); auto p = w.c.insert(mv(cd, y)); if constexpr (MULTI) w.landed(cd, y, p); else w.inserted(cd, y, p); }, true);
        if constexpr (COPY) keyed("insert(lvalue)", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); const VT e = mv(cd, y); auto p = w.c.insert(e); if constexpr (MULTI) w.landed(cd, y, p); else w.inserted(cd, y, p); });
        keyed("emplace", [](World& w, int k) { int cd = w.code(k), y = w.fresh();
            if constexpr (MAP) { auto p = w.c.emplace(mk(cd), mm(y)); if constexpr (MULTI) w.landed(cd, y, p); else w.inserted(cd, y, p); }
            else { auto p = w.c.emplace(mk(cd)); if constexpr (MULTI) w.landed(cd, y, p); else w.inserted(cd, y, p); } });
        keyed("insert(hint: lower bound)", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); auto h = w.c.lower_bound(mk(cd)); auto it = w.c.insert(h, mv(cd, y)); w.landed_hint(cd, y, w.lb(k), it); }, true);
        keyed("insert(hint: upper bound)", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); auto h = w.c.upper_bound(mk(cd)); auto it = w.c.insert(h, mv(cd, y)); w.landed_hint(cd, y, w.ub(k), it); });
        keyed("emplace_hint(begin)", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); auto it = w.c.emplace_hint(w.c.begin(), mv(cd, y)); w.landed_hint(cd, y, 0, it); });
        keyed("emplace_hint(end)", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); auto it = w.c.emplace_hint(w.c.end(), mv(cd, y)); w.landed_hint(cd, y, (int)w.r.size(), it); });
        if constexpr (COPY) keyed("insert(hint: middle, lvalue)", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); const VT e = mv(cd, y); int h = (int)w.r.size() / 2; auto it = w.c.insert(w.nth(h), e); w.landed_hint(cd, y, h, it); });
        keyed("insert(hint: one before)", [](World& w, int k) { int l = w.lb(k); if (!l) return; int cd = w.code(k), y = w.fresh(); auto it = w.c.insert(w.nth(l - 1), mv(cd, y)); w.landed_hint(cd, y, l - 1, it); });
        if constexpr (COPY) {
            keyed("insert(range, unsorted, duplicates)", [](World& w, int k) { std::vector<VT> in; in.reserve(8); std::vector<E> es; int ks[] = { k, (k + 3) % w.nk, k, (k + 1) % w.nk, w.nk - 1, k };
                for (int q : ks) { int cd = w.code(q), y = w.fresh(); in.push_back(mv(cd, y)); es.push_back(E{ cd, y }); }
                w.c.insert(in.begin(), in.end());
                for (auto& e : es) { int q = key(e.code); if constexpr (MULTI) w.put_range(e, k); else if (!w.in(q)) w.put_at(w.lb(q), e.code, e.val); }
                if constexpr (MULTI) w.resync_equal(); });
            keyed("insert(initializer_list)", [](World& w, int k) { int c1 = w.code(k), y1 = w.fresh(), c2 = w.code((k + 1) % w.nk), y2 = w.fresh(); w.c.insert({ mv(c1, y1), mv(c2, y2) });
                for (E e : { E{ c1, y1 }, E{ c2, y2 } }) { int q = key(e.code); if constexpr (MULTI) w.put_at(w.ub(q), e.code, e.val); else if (!w.in(q)) w.put_at(w.lb(q), e.code, e.val); }
                if constexpr (MULTI) w.resync_equal(); });
        }
        if constexpr (MAP && !MULTI) {
            keyed("try_emplace(lvalue)", [](World& w, int k) { if constexpr (COPY) { int cd = w.code(k), y = w.fresh(); const K q = mk(cd); auto p = w.c.try_emplace(q, mm(y)); w.inserted(cd, y, p); } });
            keyed("try_emplace(rvalue)", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); auto p = w.c.try_emplace(mk(cd), mm(y)); w.inserted(cd, y, p); });
            keyed("try_emplace(hint)", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); auto it = w.c.try_emplace(w.c.upper_bound(mk(cd)), mk(cd), mm(y)); w.landed(cd, y, it); });
            if constexpr (requires(C& c) { c.insert_or_assign(mk(0), mm(0)); }) keyed("insert_or_assign", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); auto p = w.c.insert_or_assign(mk(cd), mm(y)); w.inserted(cd, y, p, true); });
            keyed("operator[] =", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); w.c[mk(cd)] = mm(y); if (w.in(k)) w.r[w.lb(k)].val = y; else w.put_at(w.lb(k), cd, y); });
            keyed("at", [](World& w, int k) { const C& cc = w.c; int got = -1, thrown = 0; try { got = Cv<M>::get(cc.at(mk(k * SC))); } catch (std::out_of_range&) { thrown = 1; }
                VX_CHECK(thrown == !w.in(k) && (thrown || got == w.r[w.lb(k)].val), "at(%d)", k);
                thrown = 0; int y = w.fresh(); try { w.c.at(mk(k * SC)) = mm(y); w.r[w.lb(k)].val = y; } catch (std::out_of_range&) { thrown = 1; } VX_CHECK(thrown == !w.in(k), "non-const at(%d)", k); });
        }
        if constexpr (MAP) keyed("write through lower_bound", [](World& w, int k) { auto it = w.c.lower_bound(mk(k * SC)); if (it != w.c.end()) { int y = w.fresh(); it->second = mm(y); w.r[w.lb(k)].val = y; } });
        // erasure
        keyed("erase(key)", [](World& w, int k) { int l = w.lb(k), u = w.ub(k); size_t n = w.c.erase(mk(k * SC)); VX_CHECK((int)n == u - l, "erase(%d) returned %zu, expected %d", k, n, u - l); w.r.erase(w.r.begin() + l, w.r.begin() + u); }, true);
        keyed("erase(iterator at lower bound)", [](World& w, int k) { int l = w.lb(k); if (l == (int)w.r.size()) return; auto it = w.c.erase(w.c.lower_bound(mk(k * SC))); w.del(l); w.at(it, l); }, true);
        keyed("erase(const_iterator before upper bound)", [](World& w, int k) { int u = w.ub(k); if (!u) return; typename C::const_iterator p = w.c.upper_bound(mk(k * SC)); --p; auto it = w.c.erase(p); w.del(u - 1); w.at(it, u - 1); });
        keyed("erase(equal_range)", [](World& w, int k) { int l = w.lb(k), u = w.ub(k); auto p = w.c.equal_range(mk(k * SC)); auto it = w.c.erase(p.first, p.second); w.r.erase(w.r.begin() + l, w.r.begin() + u); w.at(it, l); });
        keyed("erase(lower bound, end)", [](World& w, int k) { int l = w.lb(k); auto it = w.c.erase(w.c.lower_bound(mk(k * SC)), w.c.end()); w.r.resize(l); w.at(it, l); });
        keyed("erase(begin, lower bound)", [](World& w, int k) { int l = w.lb(k); auto it = w.c.erase(w.c.begin(), w.c.lower_bound(mk(k * SC))); w.r.erase(w.r.begin(), w.r.begin() + l); w.at(it, 0); });
        keyed("erase(3 from lower bound)", [](World& w, int k) { int l = w.lb(k), e = std::min(l + 3, (int)w.r.size()); auto it = w.c.erase(w.nth(l), w.nth(e)); w.r.erase(w.r.begin() + l, w.r.begin() + e); w.at(it, l); });
        keyed("erase(9 from lower bound)", [](World& w, int k) { int l = w.lb(k), e = std::min(l + 9, (int)w.r.size()); auto it = w.c.erase(w.nth(l), w.nth(e)); w.r.erase(w.r.begin() + l, w.r.begin() + e); w.at(it, l); });
        keyed("extract(key), insert(node)", [](World& w, int k) {
            int l = w.lb(k); bool was = w.in(k);
            auto n = w.c.extract(mk(k * SC)); VX_CHECK(n.empty() == !was, "extract(%d)", k);
            if (!was) { auto p = w.c.insert(std::move(n)); if constexpr (MULTI) VX_CHECK(p == w.c.end(), "insert(empty node)"); else VX_CHECK(!p.inserted && p.position == w.c.end(), "insert(empty node)"); return; }
            // which of the equal elements was taken
            int got; if constexpr (MAP) got = Cv<K>::get(n.key()); else got = Cv<K>::get(n.value());
            int gv = 0; if constexpr (MAP) gv = Cv<M>::get(n.mapped());
            int i = l; while (i < w.ub(k) && !(w.r[i] == E{ got, gv })) ++i;
            VX_CHECK(i < w.ub(k), "extract(%d) took an element that is not there", k);
            E e = w.r[i]; w.del(i); w.quick();
            auto p = w.c.insert(std::move(n));
            if constexpr (MULTI) w.landed(e.code, e.val, p); else { VX_CHECK(p.inserted && p.node.empty(), "insert(node)"); w.landed(e.code, e.val, p.position); }
        });
        keyed("extract(iterator), drop", [](World& w, int k) { int l = w.lb(k); if (l == (int)w.r.size()) return; { auto n = w.c.extract(w.c.lower_bound(mk(k * SC))); VX_CHECK(!n.empty(), "extract(iterator)"); } w.del(l); });
        keyed("extract, insert equal, insert(node, hint)", [](World& w, int k) { if constexpr (!MULTI) {
            if (!w.in(k)) return; int l = w.lb(k); auto n = w.c.extract(w.c.find(mk(k * SC))); E e = w.r[l]; w.del(l);
            int cd = w.code(k), y = w.fresh(); w.c.insert(mv(cd, y)); w.put_at(l, cd, y);
            auto p = w.c.insert(std::move(n)); VX_CHECK(!p.inserted && !p.node.empty(), "insert(node) over an equal element"); w.at(p.position, l);
            auto it = w.c.insert(w.c.begin(), std::move(p.node)); w.at(it, l); VX_CHECK(!p.node.empty() && nodekey(p.node) == e.code, "insert(hint, node) over an equal element must leave the node"); it = w.c.insert(w.c.end(), std::move(p.node)); w.at(it, l); VX_CHECK(!p.node.empty() && nodekey(p.node) == e.code, "insert(end hint, node) over an equal element must leave the node"); it = w.c.insert(w.c.find(mk(k * SC)), std::move(p.node)); w.at(it, l); VX_CHECK(!p.node.empty() && nodekey(p.node) == e.code, "insert(own hint, node) over an equal element must leave the node");
        } });
        keyed("extract(const_iterator), insert(hint, node)", [](World& w, int k) {
            int l = w.lb(k); if (l == (int)w.r.size()) return;
            E e = w.r[l]; typename C::const_iterator p = w.c.lower_bound(mk(k * SC)); auto n = w.c.extract(p); VX_CHECK(!n.empty(), "extract(const_iterator)"); w.del(l); w.quick();
            auto it = w.c.insert(w.nth(l), std::move(n)); w.landed_hint(e.code, e.val, l, it); VX_CHECK(n.empty(), "insert(hint, node) leaves the node full");
            typename C::node_type none; auto it2 = w.c.insert(w.c.begin(), std::move(none)); VX_CHECK(it2 == w.c.end(), "insert(hint, empty node)");
        });
        if constexpr (MAP && !MULTI && COPY) {
            keyed("try_emplace(hint, lvalue)", [](World& w, int k) { int cd = w.code(k), y = w.fresh(); const K q = mk(cd); auto it = w.c.try_emplace(w.c.lower_bound(q), q, mm(y)); w.landed(cd, y, it); });
            keyed("operator[](lvalue) read", [](World& w, int k) { if constexpr (std::is_default_constructible_v<M>) { int cd = w.code(k); const K q = mk(cd); int g = Cv<M>::get(w.c[q]); if (!w.in(k)) w.put_at(w.lb(k), cd, Cv<M>::get(M())); VX_CHECK(g == w.r[w.lb(k)].val, "operator[](%d) gives %d", k, g); } });
        }
        // whole
        plain("clear", [](World& w, int) { w.c.clear(); w.r.clear(); });
        plain("erase(begin)", [](World& w, int) { if (w.r.empty()) return; auto it = w.c.erase(w.c.begin()); w.del(0); w.at(it, 0); }, true);
        plain("erase(last)", [](World& w, int) { if (w.r.empty()) return; auto p = w.c.end(); --p; auto it = w.c.erase(p); w.r.pop_back(); w.at(it, (int)w.r.size()); }, true);
        plain("erase(begin, end)", [](World& w, int) { auto it = w.c.erase(w.c.begin(), w.c.end()); w.r.clear(); VX_CHECK(it == w.c.end(), "erase(begin,end)"); });
        plain("erase_if(every second key)", [](World& w, int) {
            size_t n = 0; std::vector<E> keep; for (auto& e : w.r) if (key(e.code) % 4 == 1) ++n; else keep.push_back(e);
            using gtl::erase_if; auto pred = [](const VT& e) { return key(cof(e)) % 4 == 1; };
            if constexpr (std::is_void_v<decltype(erase_if(w.c, pred))>) erase_if(w.c, pred); else { size_t g = (size_t)erase_if(w.c, pred); VX_CHECK(g == n, "erase_if returned %zu, expected %zu", g, n); }
            w.r = keep; });
        if constexpr (COPY) plain("replace by a copy", [](World& w, int) { C t(w.c); VX_CHECK(t == w.c, "copy differs"); w.c = t; });
        plain("move out and back", [](World& w, int) { C t(std::move(w.c)); VX_CHECK(t.size() == w.r.size(), "move"); w.c = std::move(t); });
        plain("erase while traversing", [](World& w, int) { std::vector<E> keep; int i = 0; for (auto it = w.c.begin(); it != w.c.end(); ++i) { VX_CHECK(i < (int)w.r.size() && cof(*it) == w.r[i].code, "erase while traversing: element %d", i); if (i % 3) it = w.c.erase(it); else { keep.push_back(w.r[i]); ++it; } } VX_CHECK(i == (int)w.r.size(), "erase while traversing visits %d", i); w.r = keep; });
        return v;
    }
    // inserting a sorted run of equal elements through ranges: order among the equal ones of the range is the range's
    void put_range(const E& e, int) { put_at(ub(key(e.code)), e.code, e.val); }
    void resync_equal() { // range insertion may use hints, which place equal elements next to each other: accept any order among equal keys of the new ones
        std::vector<E> g; for (const auto& e : c) g.push_back(E{ cof(e), vof(e) });
        if (g.size() != r.size()) return; // reported by check()
        for (size_t i = 0; i < r.size();) { size_t j = i; while (j < r.size() && key(r[j].code) == key(r[i].code)) ++j;
            auto a = std::vector<E>(r.begin() + i, r.begin() + j), b = std::vector<E>(g.begin() + i, g.begin() + j); auto lt = [](const E& p, const E& q) { return p.code != q.code ? p.code < q.code : p.val < q.val; };
            std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt); if (a == b) for (size_t z = i; z < j; ++z) r[z] = g[z]; i = j; }
    }
};

// start states: n elements inserted in an order, then erased by a pattern. keys are odd, absent ones even
enum { O_ASC, O_DESC, O_ALT, O_MID, O_COUNT };
inline const char* order_name[] = { "ascending", "descending", "alternating ends", "inside out" };
enum { X_NONE, X_EVEN, X_FIRST, X_LAST, X_KEEP3, X_MIDDLE, X_COUNT };
inline const char* pat_name[] = { "nothing erased", "every second erased", "first half erased", "last half erased", "two of three erased", "middle third erased" };
inline int key_of(int i, int dup) { return 1 + 2 * (dup == 0 ? i : dup == 1 ? i / 2 : dup == 2 ? i / 7 : 0); }
template<class W> void build(W& w, int n, int order, int pat, int dup) {
    w.x.log("start: %d elements inserted %s, %s%s", n, order_name[order], pat_name[pat], dup == 0 ? "" : dup == 1 ? ", keys in pairs" : dup == 2 ? ", keys in runs of 7" : ", all keys equal");
    for (int j = 0; j < n; ++j) {
        int i = order == O_ASC ? j : order == O_DESC ? n - 1 - j : order == O_ALT ? (j % 2 ? n - 1 - j / 2 : j / 2) : (n / 2 + (j % 2 ? -(j + 1) / 2 : (j + 1) / 2));
        if (i < 0) i = n - 1;
        if (i >= n) i = 0;
        int k = key_of(i, dup), cd = w.code(k), y = w.fresh();
        auto u = w.ub(k); if (dup == 0 && w.in(k)) continue;
        w.c.insert(W::mv(cd, y)); w.put_at(u, cd, y);
    }
    int m = (int)w.r.size(); std::vector<typename W::E> keep; int i = 0;
    for (auto it = w.c.begin(); it != w.c.end(); ++i) {
        bool d = pat == X_EVEN ? i % 2 : pat == X_FIRST ? i < m / 2 : pat == X_LAST ? i >= m / 2 : pat == X_KEEP3 ? i % 3 != 0 : pat == X_MIDDLE ? i >= m / 3 && i < 2 * m / 3 : false;
        if (d) it = w.c.erase(it); else { keep.push_back(w.r[i]); ++it; }
    }
    w.r = keep;
}
} // namespace bw
