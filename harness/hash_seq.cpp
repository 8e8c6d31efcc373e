// C01/C02/C03: hash containers vs reference, all operation sequences from many start states.
//   -DKIND=1 flat, 2 node, 3 parallel flat, 4 parallel node   -DELEM=1 int, 2 tracked, 3 move-only mapped
#include "hash_world.hpp"
using namespace hw;

#ifndef NSUB
#define NSUB 2
#endif
#ifndef MTX
#define MTX gtl::NullMutex
#endif
#if ELEM == 1
using K = int; using M = int;
#elif ELEM == 2
using K = tk::Obj; using M = tk::Obj;
#elif ELEM == 3
using K = int; using M = tk::MoveOnly;
#elif ELEM == 4
using K = std::string; using M = std::string;
#elif ELEM == 5
using K = tk::MoveOnly; using M = int;
#elif ELEM == 6
using K = tk::Over; using M = tk::NoDef;
#elif ELEM == 7
using K = tk::NoDef; using M = tk::ObjTM;
#endif
#ifdef CHKALLOC
template<class T> using Al = tk::Alloc<T, false, ELEM == 5, false, false>; // sets of move-only keys need a propagating allocator to be move-assignable
#else
template<class T> using Al = std::allocator<T>;
#endif
#if KIND == 1
using Map = gtl::flat_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>>;
using Set = gtl::flat_hash_set<K, Hs<K>, Eq<K>, Al<K>>;
constexpr bool NODE = false;
#elif KIND == 2
using Map = gtl::node_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>>;
using Set = gtl::node_hash_set<K, Hs<K>, Eq<K>, Al<K>>;
constexpr bool NODE = true;
#elif KIND == 3
using Map = gtl::parallel_flat_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>, NSUB, MTX>;
using Set = gtl::parallel_flat_hash_set<K, Hs<K>, Eq<K>, Al<K>, NSUB, MTX>;
constexpr bool NODE = false;
#elif KIND == 4
using Map = gtl::parallel_node_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>, NSUB, MTX>;
using Set = gtl::parallel_node_hash_set<K, Hs<K>, Eq<K>, Al<K>, NSUB, MTX>;
constexpr bool NODE = true;
#endif

constexpr int U = 4;
struct Start { int n, pat; };

template<class C>
void body_wide(vx::Ctx& x, const std::vector<int>& sizes, const std::vector<int>& pats, const std::vector<int>& profs, int depth, bool core) {
    using W = World<C, NODE>;
    int n = sizes[x.choose((int)sizes.size())], pat = pats[x.choose((int)pats.size())], prof = profs[x.choose((int)profs.size())];
    if (n == 0 && pat != pats[0]) throw vx::Prune{};
    bad_functor = 0;
    int nk = U + n + 2;
    set_profile(prof, nk);
    x.log("hash profile: %s", prof_name[prof]);
    W w(x, nk);
    build(w, U, n, pat);
    // alphabet: every operation x {2 fresh keys, first and last filler}
    std::vector<int> keys = { 0, 1 };
    if (core) keys.push_back(2);
    if (n > 0) keys.push_back(U);
    if (n > 1) keys.push_back(U + n - 1);
    static std::vector<const typename W::Op*> ko, po;
    if (ko.empty() && po.empty())
        for (auto& o : W::ops()) if (!core || o.core) (o.keyed ? ko : po).push_back(&o);
    int nko = (int)(ko.size() * keys.size()), tot = nko + (int)po.size();
    if (x.fresh()) w.check();
    for (int d = 0; d < depth; ++d) {
        int a = x.choose(tot);
        if (a < nko) w.apply(*ko[a / keys.size()], keys[a % keys.size()]);
        else w.apply(*po[a - nko], 0);
        if (x.fresh()) w.check(); else w.quick();
    }
}

// size families: fill n, erase a residue class, refill, for every n
template<class C>
void body_family(vx::Ctx& x, int maxn, int nchunks) {
    using W = World<C, NODE>;
    int prof = x.choose(3) ; prof = prof == 0 ? P_NATURAL : prof == 1 ? P_SAMETAG : P_CLUSTER;
    int mod = 1 + x.choose(4), chunk = x.choose(nchunks);
    int reserve = x.choose(2);
    if (prof != P_NATURAL) maxn = std::min(maxn, 130);
    bad_functor = 0;
    for (int n = chunk; n <= maxn; n += nchunks) {
        int nk = 2 * n + 3;
        set_profile(prof, nk);
        x.log("n=%d erase residue of %d, reserve=%d, profile %s", n, mod, reserve, prof_name[prof]);
        W w(x, nk);
        w.where = "family fill";
        if (reserve) w.c.reserve(n);
        size_t cap0 = w.c.capacity();
        for (int i = 0; i < n; ++i) { auto p = w.c.insert(W::mv(i, i)); w.inserted("insert", i, W::MAP ? i : 0, p.first, p.second); x.step(); }
        if (reserve && !W::PAR) VX_CHECK(w.c.capacity() == cap0, "capacity changed from %zu to %zu while inserting the %d reserved elements", cap0, w.c.capacity(), n);
        w.check();
        w.where = "family erase";
        for (int i = 0; i < n; ++i) if (mod == 1 || i % mod) { size_t e = w.c.erase(W::mk(i)); VX_CHECK(e == 1, "erase(%d) returned %zu", i, e); w.r.del(i); x.step(); }
        w.check();
        w.where = "family refill";
        for (int i = n; i < 2 * n; ++i) { auto p = w.c.insert(W::mv(i, i)); w.inserted("insert", i, W::MAP ? i : 0, p.first, p.second); x.step(); }
        w.check();
        w.where = "family shrink";
        for (int i = n; i < 2 * n; ++i) { if (mod == 2 && i % 2) continue; size_t e = w.c.erase(W::mk(i)); VX_CHECK(e == 1, "erase(%d) returned %zu", i, e); w.r.del(i); x.step(); }
        w.c.rehash(0);
        w.check();
        w.where = "family after rehash(0)";
        for (int i = 0; i < n; ++i) { bool was = w.r.in(i); auto p = w.c.insert(W::mv(i, i + 1)); w.inserted("insert", i, W::MAP ? i + 1 : 0, p.first, p.second); (void)was; x.step(); }
        w.check();
    }
}

// churn: a sliding window of w live keys, long enough for several in-place cleanups
template<class C>
void body_churn(vx::Ctx& x, int maxw, int rounds) {
    using W = World<C, NODE>;
    int prof = (int[]){ P_NATURAL, P_SAMEPOS, P_WRAP, P_CLUSTER }[x.choose(4)];
    int win = 1 + x.choose(maxw), lag = x.choose(2);
    bad_functor = 0;
    if ((prof == P_SAMEPOS || prof == P_WRAP) && win > 60) throw vx::Prune{};
    int total = rounds * (win + 8), nk = total + win + 2;
    if (prof != P_NATURAL) { nk = std::min(nk, 128 * 3); }
    set_profile(prof, nk);
    x.log("window %d, %d steps, order %d, profile %s", win, total, lag, prof_name[prof]);
    W w(x, nk);
    w.where = "churn";
    for (int i = 0; i < total; ++i) {
        int k = i % nk, old = (i - win + 10 * nk) % nk;
        auto ins = [&] { auto p = w.c.insert(W::mv(k, i)); w.inserted("insert", k, W::MAP ? i : 0, p.first, p.second); };
        auto del = [&] { if (i >= win) { size_t e = w.c.erase(W::mk(old)); VX_CHECK(e == (w.r.in(old) ? 1u : 0u), "erase(%d) returned %zu", old, e); w.r.del(old); } };
        if (lag) { ins(); del(); } else { del(); ins(); }
        x.step();
        VX_CHECK(!w.c.contains(W::mk((k + 1) % nk)) == !w.r.in((k + 1) % nk), "lookup of a neighbour key");
        if (i % 7 == 0) w.check();
        if constexpr (!W::PAR) {
            size_t bound = 2 * (size_t)(win + 1) + 2; // next power of two above 8/7*(win+1), doubled once
            size_t cap = 1; while (cap - cap / 8 < bound) cap = 2 * cap + 1;
            VX_CHECK(w.c.capacity() <= cap, "capacity grew to %zu with never more than %d elements", w.c.capacity(), win + 1);
        }
    }
    w.check();
}

// in-place cleanup: two groups of keys with chosen probe starts overflow into each other's probe groups, most of them are
// erased so that only erased marks keep the table from being refilled, then fresh keys arrive until the table cleans up in
// place (moving the displaced survivors towards their probe start), and further
template<class C>
void body_squash(vx::Ctx& x, bool big) {
    using W = World<C, NODE>;
    static const int P[] = { 0, 17, 30, 9 }, QO[] = { 0, 1, 8, 16, 31, 20 }, FO[] = { 18, 0, 9, 27 };
    int geo = x.choose(big ? 2 : 1), p = P[x.choose(big ? 4 : 3)], q = p + QO[x.choose(big ? 6 : 5)], order = x.choose(3);
    int a = x.choose(21), b = (big ? 1 : 4) * x.choose(big ? 21 : 6), ea = x.choose(4), eb = x.choose(3), f = FO[x.choose(big ? 4 : 3)];
    int cap = geo ? 63 : 31, growth = cap - cap / 8;
    if (a + b > growth || a + b < 8) throw vx::Prune{};
    bad_functor = 0;
    int fill = growth + 6, nk = a + b + fill;
    for (int k = 0; k < a; ++k) raw_hash[k] = solve((unsigned)(p + cap + 1), (unsigned)k, 0);
    for (int k = 0; k < b; ++k) raw_hash[a + k] = solve((unsigned)(q + cap + 1), (unsigned)(k % 3 ? k : 5), (unsigned)(k / 3));
    for (int k = 0; k < fill; ++k) raw_hash[a + b + k] = solve((unsigned)(p + f + k), (unsigned)k, 1);
    profile_dirty();
    x.log("capacity %d: %d keys probing from %d, %d from %d, order %d, erase patterns %d %d, then fresh keys from %d", cap, a, p & cap, b, q & cap, order, ea, eb, (p + f) & cap);
    W w(x, nk);
    w.where = "squash: fill";
    w.c.reserve(growth);
    auto ins = [&](int k) { auto r = w.c.insert(W::mv(k, k)); w.inserted("insert", k, W::MAP ? k : 0, r.first, r.second); x.step(); };
    auto del = [&](int k) { size_t e = w.c.erase(W::mk(k)); VX_CHECK(e == (w.r.in(k) ? 1u : 0u), "erase(%d) returned %zu", k, e); w.r.del(k); x.step(); };
    if (order == 0) { for (int k = 0; k < a + b; ++k) ins(k); }
    else if (order == 1) { for (int k = 0; k < b; ++k) ins(a + k); for (int k = 0; k < a; ++k) ins(k); }
    else for (int k = 0; k < std::max(a, b); ++k) { if (k < a) ins(k); if (k < b) ins(a + k); }
    w.where = "squash: erase";
    auto gone = [](int pat, int i, int n) { return pat == 0 ? i < n - 3 : pat == 1 ? i % 3 != 2 : pat == 2 ? i < n - 1 : i > 1; };
    for (int k = 0; k < a; ++k) if (gone(ea, k, a)) del(k);
    for (int k = 0; k < b; ++k) if (gone(eb, k, b)) del(a + k);
    w.check();
    w.where = "squash: refill";
    for (int k = 0; k < fill; ++k) {
        ins(a + b + k);
        for (int j = 0; j < a + b; ++j) if (w.r.in(j)) VX_CHECK(w.c.contains(W::mk(j)), "key %d lost after inserting key %d", j, a + b + k);
        if (k % 4 == 3) del(a + b + k - 2);
    }
    w.check();
    w.where = "squash: reinsert and erase everything";
    for (int k = 0; k < nk; ++k) ins(k);
    w.check();
    for (int k = 0; k < nk; ++k) del(k);
    w.check();
}

template<class C> void reg_for(std::string nm) {
    bool T = vx::thorough;
    std::vector<int> all = { P_NATURAL, P_ALLEQUAL, P_SAMEPOS, P_SAMETAG, P_WRAP, P_PAIRS, P_CLUSTER };
#ifdef LIGHT
    constexpr bool light = true;
#else
    constexpr bool light = false;
#endif
    // 1. whole alphabet, depth 2 (3), from every start state
    {
        std::vector<int> sz = { 0, 1, 2, 3, 6, 7, 13, 14, 15, 28 }, pt = { E_NONE, E_ALL, E_EVEN, E_BUT_LAST };
        std::vector<int> pf = all;
        if (light) { sz = { 0, 1, 6, 14 }; pt = { E_NONE, E_EVEN }; pf = { P_NATURAL, P_ALLEQUAL, P_WRAP }; }
        if (T) { sz.push_back(27); sz.push_back(56); sz.push_back(57); pt.push_back(E_HALF); }
        vx::add(nm + "-wide2", T ? 64 : 24, 4, [=](vx::Ctx& x) { body_wide<C>(x, sz, pt, pf, 2, false); });
        std::vector<int> sz3 = T ? std::vector<int>{ 0, 1, 3, 7, 14 } : std::vector<int>{ 0 };
        std::vector<int> pf3 = T ? all : std::vector<int>{ P_ALLEQUAL };
        if (!light || T) vx::add(nm + "-wide3", T ? 256 : 16, 5, [=](vx::Ctx& x) { body_wide<C>(x, sz3, { E_NONE, E_EVEN }, pf3, 3, false); });
    }
    // 2. core alphabet, deeper
    {
        std::vector<int> sz = { 0, 5, 6, 12, 13, 14 }, pt = { E_NONE, E_ALL, E_BUT_LAST };
        std::vector<int> pf = { P_NATURAL, P_ALLEQUAL, P_SAMEPOS, P_SAMETAG, P_WRAP };
        if (T) { sz.push_back(27); sz.push_back(28); sz.push_back(55); pf = all; }
        if (light) { sz = { 0, 6, 14 }; pt = { E_NONE, E_ALL }; pf = { P_NATURAL, P_WRAP }; }
        int d = T ? 5 : 4;
        vx::add(nm + "-core", T ? 256 : 32, 5, [=](vx::Ctx& x) { body_wide<C>(x, sz, pt, pf, d, true); });
    }
    // 3. sizes and churn
    int fam = T ? 2300 : light ? 150 : 300;
    vx::add(nm + "-sizes", 16, 4, [=](vx::Ctx& x) { body_family<C>(x, fam, 40); });
#if KIND <= 2
    vx::add(nm + "-squash", T ? 128 : 16, T ? 7 : 5, [=](vx::Ctx& x) { body_squash<C>(x, T); });
#endif
    int cw = T ? 130 : light ? 20 : 60;
    vx::add(nm + "-churn", 16, 3, [=](vx::Ctx& x) { body_churn<C>(x, cw, T ? 12 : 5); });
}

void reg() {
    tk::install();
#if ELEM != 5
    reg_for<Map>("map");
#endif
#if ELEM != 3
    reg_for<Set>("set");
#endif
}
VX_MAIN(reg)
