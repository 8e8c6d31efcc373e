// C19 (units lru-*) and C21 (units memo-*).
#include "vx.hpp"
#include <algorithm>
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <deque>
#include <map>
#include <memory>
#include <shared_mutex>
#include <string>

// ------------------------------------------------------------------ keys
template<class K> K mkk(int i);
template<> int mkk<int>(int i) { return i * 7 + 1; }
template<> std::string mkk<std::string>(int i) { return std::string(3 + i * 9, char('a' + i % 26)) + std::to_string(i); }
struct HConst { size_t operator()(int) const { return 42; } };
struct HId { size_t operator()(int i) const { return (size_t)i; } };

// exact model of an lru cache split in shards
struct Model {
    std::map<int, std::string> val;
    std::vector<std::deque<int>> order; // front: most recent
    size_t cap;
    std::function<size_t(int)> shard;
    void use(int k) { auto& o = order[shard(k)]; o.erase(std::find(o.begin(), o.end(), k)); o.push_front(k); }
};

// ------------------------------------------------------------------ C19
template<class C, class K, class HK>
struct Lru {
    static constexpr int S = (int)C::num_submaps;
    vx::Ctx& x; size_t cap; std::unique_ptr<C> c; Model m; int nk, seq = 0;
    typename C::map_type probe; // only to know which shard a key belongs to
    bool loose = false;         // the maximum was lowered: how fast the cache shrinks is not promised
    Lru(vx::Ctx& x, size_t per, int nk) : x(x), cap(per), nk(nk) {
        c = std::make_unique<C>(per * S); m.order.resize(S); m.cap = per;
        m.shard = [this](int k) { K kk = mkk<K>(k); return probe.subidx(probe.hash(kk)); };
    }
    std::string fresh() { return "value number " + std::to_string(++seq); }
    void ins(int k, int how) {
        std::string v = fresh(); K kk = mkk<K>(k);
        if (how == 0) c->insert(kk, v); else if (how == 1) c->insert(kk, std::string(v)); else c->insert(kk, v.c_str());
        if (m.val.count(k)) { m.val[k] = v; m.use(k); return; }
        m.val[k] = v; auto& o = m.order[m.shard(k)]; o.push_front(k);
        if (loose) { // which ones went: must be least recently used ones
            VX_CHECK(c->exists(kk), "the key just inserted is not in the cache");
            size_t keep = 0; while (keep < o.size() && c->exists(mkk<K>(o[keep]))) ++keep;
            VX_CHECK(keep + 1 <= o.size() || o.size() <= m.cap, "the cache grew above its maximum");
            VX_CHECK(keep >= std::min(m.cap, o.size()), "more entries dropped than needed");
            while (o.size() > keep) { m.val.erase(o.back()); o.pop_back(); }
        } else if (o.size() > m.cap) { m.val.erase(o.back()); o.pop_back(); }
    }
    bool op(int o) {
        switch (o) {
        case 0: { int k = x.choose(nk); x.log("insert %d", k); ins(k, 0); return true; }
        case 1: { int k = x.choose(nk); x.log("get %d", k); auto g = c->get(mkk<K>(k)); VX_CHECK(g.has_value() == (m.val.count(k) > 0), "get(%d) %s", k, g ? "finds a key that is not there" : "does not find a key that is there"); if (g) { VX_CHECK(*g == m.val[k], "get(%d) gives '%s', expected '%s'", k, g->c_str(), m.val[k].c_str()); m.use(k); } return true; }
        case 2: { int k = x.choose(nk); x.log("exists %d", k); bool g = c->exists(mkk<K>(k)); VX_CHECK(g == (m.val.count(k) > 0), "exists(%d) is %d", k, g); return true; }
        case 3: x.log("clear"); c->clear(); m.val.clear(); for (auto& d : m.order) d.clear(); return true;
        case 4: { int n = x.choose(2) * 300; x.log("reserve %d", n); c->reserve(n); return true; }
        case 5: { int g = x.choose(2) + 1; x.log("set_cache_size +%d per shard", g); m.cap += g; c->set_cache_size(m.cap * S); return true; }
        case 6: { if (m.cap < 4) return false; x.log("set_cache_size -1 per shard"); m.cap -= 1; c->set_cache_size(m.cap * S); loose = true; return true; }
        case 7: { x.log("move construction"); auto d = std::make_unique<C>(std::move(*c)); c = std::move(d); return true; }
        case 8: { x.log("move assignment"); auto d = std::make_unique<C>((m.cap + 2) * S); d->insert(mkk<K>(0), "old"); *d = std::move(*c); c = std::move(d); return true; }
        case 9: { int k = x.choose(nk); x.log("insert %d with a temporary", k); ins(k, 1); return true; }
        case 10: { int k = x.choose(nk); x.log("insert %d from char*", k); ins(k, 2); return true; }
        }
        return false;
    }
    void check() {
        VX_EQ((long long)c->size(), (long long)m.val.size(), "size");
        for (int k = 0; k < nk; ++k) VX_CHECK(c->exists(mkk<K>(k)) == (m.val.count(k) > 0), "exists(%d) is %d, expected %d", k, c->exists(mkk<K>(k)), (int)m.val.count(k));
        uint64_t h = 7; for (auto& o : m.order) { h = vx::mix(h, o.size()); for (int k : o) h = vx::mix(h, k); } x.state(vx::mix(h, m.cap));
    }
    // the end of every history: all values, then the order in which entries are evicted
    void finish(int extra) {
        for (size_t s = 0; s < m.order.size(); ++s) { auto o = m.order[s]; for (auto it = o.rbegin(); it != o.rend(); ++it) { auto g = c->get(mkk<K>(*it)); VX_CHECK(g && *g == m.val[*it], "at the end get(%d) gives '%s', expected '%s'", *it, g ? g->c_str() : "(nothing)", m.val[*it].c_str()); } }
        for (int i = 0; i < extra; ++i) { ins(100 + i, 0); VX_EQ((long long)c->size(), (long long)m.val.size(), "size while filling"); for (int k = 0; k < nk; ++k) VX_CHECK(c->exists(mkk<K>(k)) == (m.val.count(k) > 0), "filling up with new keys: key %d is %s", k, m.val.count(k) ? "gone too early" : "still there"); }
    }
    void drain_order(int extra) { // as finish, but the order as it is
        for (int i = 0; i < extra; ++i) { ins(100 + i, 0); for (int k = 0; k < nk; ++k) VX_CHECK(c->exists(mkk<K>(k)) == (m.val.count(k) > 0), "filling up with new keys: key %d is %s", k, m.val.count(k) ? "gone too early" : "still there"); }
        for (auto& kv : m.val) { auto g = c->get(mkk<K>(kv.first)); VX_CHECK(g && *g == kv.second, "at the end get(%d) gives '%s', expected '%s'", kv.first, g ? g->c_str() : "(nothing)", kv.second.c_str()); }
        for (int k = 0; k < nk; ++k) if (!m.val.count(k)) VX_CHECK(!c->get(mkk<K>(k)), "get(%d) finds an evicted key", k);
    }
};
template<class C, class K, class HK>
static void lru(vx::Ctx& x, int per, int nk, int start, int depth, int nops) {
    Lru<C, K, HK> l(x, per, nk);
    int st = x.choose(start); // number of keys already there
    for (int i = 0; i < st; ++i) l.ins(i, 0);
    int d = depth;
    for (int i = 0; i < d; ++i) { int o = x.choose(nops); if (!l.op(o)) throw vx::Prune{}; x.step(); if (x.fresh()) l.check(); }
    int extra = (per + 2) * Lru<C, K, HK>::S * (Lru<C, K, HK>::S > 1 ? 2 : 1);
    if (x.choose(2)) l.drain_order(extra); else l.finish(extra);
}

// ------------------------------------------------------------------ C21
static std::map<std::string, int> calls;
static bool throwing = false; struct Boom {};
static std::string key1(int a) { return std::to_string(a); }
static long f1(int a) { ++calls[key1(a)]; if (throwing) throw Boom{}; return 1000 + a * 3L; }
static std::string f2(int a, const std::string& s) { ++calls[s + "/" + key1(a)]; if (throwing) throw Boom{}; return s + ":" + std::to_string(a); }
// one argument index -> call through the memoized function, expected result and key
template<int F> struct Fn;
template<> struct Fn<1> {
    using type = long (*)(int); static type get() { return &f1; } using res = long;
    template<class M> static res call(M& m, int i) { return m(i * 5); } template<class M> static auto contains(M& m, int i) { return m.contains(i * 5); }
    static res expect(int i) { return 1000 + i * 15L; } static std::string key(int i) { return key1(i * 5); } static std::tuple<int> tup(int i) { return { i * 5 }; }
};
template<> struct Fn<2> {
    using type = std::string (*)(int, const std::string&); static type get() { return &f2; } using res = std::string;
    static std::string s(int i) { return std::string(10 + 8 * (i / 2), 's'); }
    template<class M> static res call(M& m, int i) { std::string t = s(i); res r = m(i % 2, t); t.assign(t.size(), '#'); return r; } template<class M> static auto contains(M& m, int i) { return m.contains(i % 2, s(i)); }
    static res expect(int i) { return s(i) + ":" + std::to_string(i % 2); } static std::string key(int i) { return s(i) + "/" + key1(i % 2); } static std::tuple<int, std::string> tup(int i) { return { i % 2, s(i) }; }
};
struct L3 { std::string operator()(std::string a, int b, char c) const { ++calls[a + c + key1(b)]; if (throwing) throw Boom{}; return a + "," + std::to_string(b) + c; } };
template<> struct Fn<3> {
    using type = L3; static type get() { return {}; } using res = std::string;
    static std::string a(int i) { return i & 1 ? "left argument, long enough for the heap" : "r"; }
    template<class M> static res call(M& m, int i) { return m(a(i), i / 4, i & 2 ? 'x' : 'y'); } template<class M> static auto contains(M& m, int i) { return m.contains(a(i), i / 4, i & 2 ? 'x' : 'y'); }
    static res expect(int i) { return a(i) + "," + std::to_string(i / 4) + (i & 2 ? 'x' : 'y'); } static std::string key(int i) { return a(i) + (i & 2 ? 'x' : 'y') + key1(i / 4); } static std::tuple<std::string, int, char> tup(int i) { return { a(i), i / 4, i & 2 ? 'x' : 'y' }; }
};
static std::string str(long v) { return std::to_string(v); } static std::string str(const std::string& s) { return s; }

// LIM: per-shard limit of an lru form (0: unlimited)
template<class M, int F, bool LRU>
struct Memo {
    using X = Fn<F>; vx::Ctx& x; std::unique_ptr<M> m; int na; size_t per = 0, S = 1;
    std::vector<std::deque<int>> held; std::map<std::string, int> expected_calls; typename M::map_type probe; size_t maxcap = 0;
    Memo(vx::Ctx& x, int na, size_t p) : x(x), na(na) {
        calls.clear(); throwing = false; auto f = X::get();
        if constexpr (LRU) { S = M::num_submaps; per = p; m = x.choose(2) ? std::make_unique<M>(f, per * S) : std::make_unique<M>(X::get(), per * S); } else m = x.choose(2) ? std::make_unique<M>(f) : std::make_unique<M>(X::get());
        held.resize(LRU ? S : 1); maxcap = per;
    }
    size_t shard(int i) { if constexpr (LRU) { auto t = X::tup(i); return probe.subidx(probe.hash(t)); } else return 0; }
    bool cached(int i) { auto& h = held[shard(i)]; return std::find(h.begin(), h.end(), i) != h.end(); }
    void call(int i) {
        bool was = cached(i); auto r = X::call(*m, i); auto& h = held[shard(i)];
        VX_CHECK(r == X::expect(i), "call %d returns '%s', expected '%s'", i, str(r).c_str(), str(X::expect(i)).c_str());
        if (was) { if (LRU) { h.erase(std::find(h.begin(), h.end(), i)); h.push_front(i); } }
        else {
            ++expected_calls[X::key(i)]; h.push_front(i);
            if constexpr (LRU) { // what was dropped must be least recently used results, only when full
                VX_CHECK((bool)X::contains(*m, i), "the result just computed is not cached");
                size_t keep = 0; while (keep < h.size() && X::contains(*m, h[keep])) ++keep;
                if (keep < h.size()) { VX_CHECK(h.size() >= per, "a result was dropped with %zu of %zu held", h.size(), per); VX_CHECK(keep + 1 >= std::min(per, h.size()), "%zu results dropped at once", h.size() - keep); h.resize(keep); }
                VX_CHECK(h.size() <= maxcap, "%zu results held, limit %zu", h.size(), maxcap);
            }
        }
    }
    bool op(int o) {
        switch (o) {
        case 0: { int i = x.choose(na); x.log("call %d", i); call(i); return true; }
        case 1: { int i = x.choose(na); x.log("contains %d", i); probe1(i); return true; }
        case 2: x.log("clear"); m->clear(); for (auto& h : held) h.clear(); return true;
        case 3: { x.log("reserve"); m->reserve(200); return true; }
        case 4: { int i = x.choose(na); x.log("call %d of a throwing function", i); bool c = cached(i); throwing = true; bool thrown = false; try { auto r = X::call(*m, i); VX_CHECK(r == X::expect(i), "wrong result"); } catch (Boom&) { thrown = true; } throwing = false;
            VX_CHECK(thrown == !c, "the function %s", thrown ? "was called for a cached argument" : "did not throw"); if (thrown) ++expected_calls[X::key(i)]; else if (LRU) { auto& h = held[shard(i)]; h.erase(std::find(h.begin(), h.end(), i)); h.push_front(i); } return true; }
        case 5: { x.log("move construction"); auto n = std::make_unique<M>(std::move(*m)); m = std::move(n); return true; }
        case 6: if constexpr (LRU) { x.log("set_cache_size +2"); per += 2; maxcap = per; m->set_cache_size(per * S); return true; } else { x.log("copy"); auto n = std::make_unique<M>((const M&)*m); m = std::move(n); return true; }
        }
        return false;
    }
    void probe1(int i) { auto r = X::contains(*m, i); VX_CHECK(r.has_value() == cached(i), "contains(%d) is %d, expected %d", i, r.has_value(), cached(i)); if (r) VX_CHECK(*r == X::expect(i), "contains(%d) gives '%s'", i, str(*r).c_str()); }
    void check() {
        size_t n = 0; for (auto& h : held) n += h.size();
        VX_EQ((long long)m->size(), (long long)n, "size");
        for (int i = 0; i < na; ++i) probe1(i);
        VX_CHECK(calls == expected_calls, "the wrapped function was called for other arguments, or another number of times, than needed");
        uint64_t h = 3; for (auto& d : held) { h = vx::mix(h, d.size()); for (int k : d) h = vx::mix(h, k); } x.state(vx::mix(h, per + F * 100));
    }
};
template<class M, int F, bool LRU>
static void memo(vx::Ctx& x, int na, int per, int depth) {
    Memo<M, F, LRU> w(x, na, per);
    for (int i = 0; i < depth; ++i) { int o = x.choose(7); if (!w.op(o)) throw vx::Prune{}; x.step(); if (x.fresh()) w.check(); }
    for (int i = 0; i < na; ++i) w.call(i); // every result once more
    w.check();
}
// growth: many arguments, each computed once, in several orders
template<class M, int F, bool LRU>
static void grow(vx::Ctx& x, int n, int per) {
    int ord = x.choose(3), rep = x.choose(2) + 1; Memo<M, F, LRU> w(x, n, per);
    x.log("%d arguments, order %d, %d times", n, ord, rep);
    for (int t = 0; t < rep; ++t) for (int i = 0; i < n; ++i) { w.call(ord == 0 ? i : ord == 1 ? n - 1 - i : (i * 37) % n); x.step(); }
    if (n % 37) w.check();
}
// recursive functions
static long fib_calls; using Rec = long (*)(int);
template<template<class> class Mk> struct Fib { static long f(int n) { ++fib_calls; using M = typename Mk<Rec>::type; return n < 2 ? n : (*(M*)self)(n - 1) + (*(M*)self)(n - 2); } static void* self; };
template<template<class> class Mk> void* Fib<Mk>::self;
template<class F> struct MkA { using type = gtl::memoize<F, 0>; };
template<class F> struct MkB { using type = gtl::memoize<F>; };
template<class F> struct MkC { using type = gtl::mt_memoize<F, true, 0, std::mutex>; };
template<class F> struct MkD { using type = gtl::mt_memoize<F, true, 6, std::shared_mutex>; };
template<template<class> class Mk> static void fib(vx::Ctx& x) {
    int n = x.choose(70); typename Mk<Rec>::type m(&Fib<Mk>::f); Fib<Mk>::self = &m; fib_calls = 0;
    long a = 0, b = 1; for (int i = 0; i < n; ++i) { long c = a + b; a = b; b = c; }
    x.log("fib(%d)", n); VX_CHECK(m(n) == a, "fib(%d) is wrong", n); VX_CHECK(fib_calls == (n < 2 ? 1 : n + 1), "fib(%d) took %ld calls", n, fib_calls);
    long before = fib_calls; for (int i = 0; i <= n; ++i) m(i); VX_CHECK(fib_calls == n + 1, "cached results were computed again"); x.step();
}
void reg() {
    bool T = vx::thorough;
#if PART == 1
    using A = gtl::lru_cache<int, std::string>; using B = gtl::lru_cache<std::string, std::string>; using C = gtl::lru_cache<int, std::string, HConst>; using D = gtl::lru_cache_impl<int, std::string, 1, HId, std::equal_to<int>, std::mutex>; using E = gtl::mt_lru_cache<int, std::string>; using G = gtl::lru_cache_impl<std::string, std::string, 2, gtl::Hash<std::string>, std::equal_to<std::string>, std::shared_mutex>;
    int d = T ? 6 : 5;
    vx::add("lru-int", 32, 3, [=](vx::Ctx& x) { lru<A, int, void>(x, 3, 4, 2, d, 4); });
    vx::add("lru-all", 32, 3, [=](vx::Ctx& x) { lru<A, int, void>(x, 3, 5, 6, T ? 4 : 3, 11); });
    vx::add("lru-four", 32, 3, [=](vx::Ctx& x) { lru<A, int, void>(x, 4, 6, 7, T ? 4 : 3, 11); });
    vx::add("lru-str", 32, 3, [=](vx::Ctx& x) { lru<B, std::string, void>(x, 3, 4, 5, T ? 4 : 3, 11); });
    vx::add("lru-collide", 32, 3, [=](vx::Ctx& x) { lru<C, int, void>(x, 3, 4, 5, T ? 4 : 3, 11); });
    vx::add("lru-two", 32, 3, [=](vx::Ctx& x) { lru<D, int, void>(x, 3, 8, 9, T ? 3 : 2, 11); });
    vx::add("lru-sh4", 32, 3, [=](vx::Ctx& x) { lru<G, std::string, void>(x, 3, 8, 9, T ? 3 : 2, 11); });
    vx::add("lru-mt", 8, 3, [=](vx::Ctx& x) { lru<E, int, void>(x, 3, 6, 5, T ? 2 : 1, 11); });
#else
    auto g = [&](const char* nm, auto f) { vx::add(nm, 32, 3, f); };
    int md = T ? 5 : 4;
    using P1 = Fn<1>::type; using P2 = Fn<2>::type;
#if PART == 2
    g("memo-plain", [=](vx::Ctx& x) { memo<gtl::memoize<P1, 0>, 1, false>(x, 3, 0, md); });
    g("memo-16", [=](vx::Ctx& x) { memo<gtl::memoize<P2>, 2, false>(x, 4, 0, T ? 4 : 3); });
    g("memo-lambda", [=](vx::Ctx& x) { memo<gtl::memoize<L3>, 3, false>(x, 4, 0, T ? 4 : 3); });
    g("memo-mt", [=](vx::Ctx& x) { memo<gtl::mt_memoize<P1>, 1, false>(x, 3, 0, T ? 4 : 3); });
    g("memo-mtnr", [=](vx::Ctx& x) { memo<gtl::mt_memoize<P2, false, 1>, 2, false>(x, 4, 0, md - 1); });
    g("memo-mtnr3", [=](vx::Ctx& x) { memo<gtl::mt_memoize<L3, false, 0, std::shared_mutex>, 3, false>(x, 3, 0, md); });
#elif PART == 3
    g("memo-lru0", [=](vx::Ctx& x) { memo<gtl::memoize_lru<P1, 0>, 1, true>(x, 4, 3, md); });
    g("memo-lru4", [=](vx::Ctx& x) { memo<gtl::mt_memoize_lru<P2, 0>, 2, true>(x, 5, 4, T ? 4 : 3); });
    g("memo-lru1", [=](vx::Ctx& x) { memo<gtl::mt_memoize_lru<L3, 1>, 3, true>(x, 8, 3, T ? 4 : 3); });
    g("memo-lru16", [=](vx::Ctx& x) { memo<gtl::memoize_lru<P2>, 2, true>(x, 4, 3, 2); });
#else
    int N = T ? 2000 : 400;
    vx::add("memo-grow", 4, 2, [=](vx::Ctx& x) { grow<gtl::memoize<P2, 0>, 2, false>(x, N, 0); });
    vx::add("memo-grow2", 4, 2, [=](vx::Ctx& x) { grow<gtl::mt_memoize<P1, false>, 1, false>(x, N, 0); });
    vx::add("memo-growl", 4, 2, [=](vx::Ctx& x) { grow<gtl::mt_memoize_lru<P1, 2>, 1, true>(x, T ? 500 : 150, 10); });
    vx::add("memo-growl0", 4, 2, [=](vx::Ctx& x) { grow<gtl::memoize_lru<P2, 0>, 2, true>(x, T ? 500 : 150, 7); });
    vx::add("memo-fib0", 1, 1, fib<MkA>); vx::add("memo-fib4", 1, 1, fib<MkB>); vx::add("memo-fibm", 1, 1, fib<MkC>); vx::add("memo-fibs", 1, 1, fib<MkD>);
#endif
#endif
}
VX_MAIN(reg)
