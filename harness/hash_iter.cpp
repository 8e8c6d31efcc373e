// C07 (units iter-*): traversal, erase while traversing, validity of iterators and references.
// C08 (units cap-*): reserve, rehash, bounded capacity.      -DKIND=1..4
#include "hash_world.hpp"
using namespace hw;
#ifndef NSUB
#define NSUB 2
#endif
using K = tk::Obj; using M = tk::Obj;
#ifdef STDAL // std::allocator, for which the library has code of its own
template<class T> using Al = std::allocator<T>;
#else
template<class T> using Al = tk::PlainAlloc<T>;
#endif
#if KIND == 1
using Map = gtl::flat_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>>;
using Set = gtl::flat_hash_set<K, Hs<K>, Eq<K>, Al<K>>;
#elif KIND == 2
using Map = gtl::node_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>>;
using Set = gtl::node_hash_set<K, Hs<K>, Eq<K>, Al<K>>;
#elif KIND == 3
using Map = gtl::parallel_flat_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>, NSUB, gtl::NullMutex>;
using Set = gtl::parallel_flat_hash_set<K, Hs<K>, Eq<K>, Al<K>, NSUB, std::mutex>;
#else
using Map = gtl::parallel_node_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>, NSUB, gtl::NullMutex>;
using Set = gtl::parallel_node_hash_set<K, Hs<K>, Eq<K>, Al<K>, NSUB, std::mutex>;
#endif
constexpr bool NODE = KIND == 2 || KIND == 4;
constexpr int  U = 3;

template<class C> using W = World<C, NODE>;
template<class C> using Rf = const typename C::value_type*;

static void pick_start(vx::Ctx& x, const std::vector<int>& sizes, const std::vector<int>& pats, const std::vector<int>& profs, int& n, int& pat) {
    n = sizes[x.choose((int)sizes.size())]; pat = pats[x.choose((int)pats.size())];
    int prof = profs[x.choose((int)profs.size())];
    if (n == 0 && pat != pats[0]) throw vx::Prune{};
    bad_functor = 0;
    set_profile(prof, U + n + 2 * n + 64);
    x.log("hash profile: %s", prof_name[prof]);
}

// one traversal; at each element a choice: keep it or erase it, in one of several ways
template<class C> void erase_walk(vx::Ctx& x, W<C>& w, int how, int decide /* -1: choose per element; else keep iff key % decide */, int reps) {
    int want = w.r.n, visited = 0;
    std::vector<char> seen(w.nk, 0);
    w.where = "erase while traversing";
    auto visit = [&](int k) { VX_CHECK(k >= 0 && k < w.nk && w.r.in(k), "traversal reaches key %d, which is not present", k); VX_CHECK(!seen[k]++, "traversal reaches key %d twice", k); ++visited; };
    auto drop = [&](int k) { x.step(); return decide < 0 ? x.choose(2) == 1 : decide == 0 ? true : k % decide != 0; };
    if (how == 0) {
        for (auto it = w.c.begin(); it != w.c.end();) { int k = W<C>::kof(*it); visit(k); if (drop(k)) { it = w.c.erase(it); w.r.del(k); } else ++it; }
    } else if (how == 1) {
        for (auto it = w.c.begin(), e = w.c.end(); it != e;) { int k = W<C>::kof(*it); visit(k); auto cur = it++; if (drop(k)) { w.c._erase(cur); w.r.del(k); } }
    } else if (how == 2) {
        for (auto it = w.c.cbegin(); it != w.c.cend();) { int k = W<C>::kof(*it); visit(k); if (drop(k)) { it = w.c.erase(it); w.r.del(k); } else ++it; }
    } else if (how == 3) {
        for (auto it = w.c.begin(); it != w.c.end();) { int k = W<C>::kof(*it); visit(k); auto nx = it; ++nx; if (drop(k)) { auto n = w.c.extract(it); VX_CHECK(!n.empty(), "extract while traversing"); w.r.del(k); } it = nx; }
    } else if (how == 4) {
        for (auto it = w.c.begin(); it != w.c.end();) { int k = W<C>::kof(*it); visit(k); auto cur = it++; if (drop(k)) { size_t q = w.c.erase(W<C>::mk(k)); VX_CHECK(q == 1, "erase(%d) by key while traversing returned %zu", k, q); w.r.del(k); } (void)cur; }
    } else { // range [cur, next)
        for (auto it = w.c.cbegin(); it != w.c.cend();) { int k = W<C>::kof(*it); visit(k); auto nx = it; ++nx; if (drop(k)) { bool atend = nx == w.c.cend(); int nk = atend ? -1 : W<C>::kof(*nx); auto r = w.c.erase(it, nx); w.r.del(k); VX_CHECK((r == w.c.end()) == atend && (atend || W<C>::kof(*r) == nk), "erase(range) returns the wrong position"); } it = nx; }
    }
    VX_CHECK(visited == want, "traversal with erasures visited %d of %d elements", visited, want);
    w.check();
    (void)reps;
}
template<class C> void body_walk(vx::Ctx& x, std::vector<int> sizes, std::vector<int> pats, std::vector<int> profs, bool all) {
    int n, pat; pick_start(x, sizes, pats, profs, n, pat);
    int how = x.choose(6);
    W<C> w(x, U + n + 2);
    build(w, U, n, pat);
    static const char* hn[] = { "it = erase(it)", "_erase(it++)", "erase(const_iterator)", "extract(it)", "erase by key", "erase(it, next)" };
    x.log("walk: %s", hn[how]);
    if (all) erase_walk<C>(x, w, how, -1, 1);
    else { static const int ms[] = { 0, 1, 2, 3, 7 }; erase_walk<C>(x, w, how, ms[x.choose(5)], 1); }
    // the container keeps working
    for (int k = 0; k < 3; ++k) { auto p = w.c.insert(W<C>::mv(k, k + 1)); w.inserted("insert", k, W<C>::MAP ? k + 1 : 0, p.first, p.second); }
    w.check();
}

// holds iterators, pointers and references to all elements across one operation
template<class C> struct Held {
    std::vector<typename C::iterator> it; std::vector<typename C::const_iterator> ci; std::vector<const void*> ad; std::vector<int> key, val;
    Held(W<C>& w) { for (auto i = w.c.begin(); i != w.c.end(); ++i) { it.push_back(i); ci.push_back(i); ad.push_back(&*i); key.push_back(W<C>::kof(*i)); val.push_back(W<C>::vof(*i)); } }
    void check(W<C>& w, const char* what) {
        for (size_t j = 0; j < it.size(); ++j) {
            if (!w.r.in(key[j])) continue;
            VX_CHECK(W<C>::kof(*it[j]) == key[j] && W<C>::kof(*ci[j]) == key[j], "after %s: an iterator to key %d now designates %d", what, key[j], W<C>::kof(*it[j]));
            VX_CHECK((const void*)&*it[j] == ad[j] && (const void*)&*ci[j] == ad[j], "after %s: an iterator designates another address", what);
            VX_CHECK(W<C>::vof(*it[j]) == w.r.val[key[j]], "after %s: the element behind an iterator has value %d, expected %d", what, W<C>::vof(*it[j]), w.r.val[key[j]]);
            VX_CHECK(it[j] == w.c.find(W<C>::mk(key[j])), "after %s: an iterator differs from find(%d)", what, key[j]);
            const typename C::value_type& ref = *(const typename C::value_type*)ad[j];
            VX_CHECK(W<C>::kof(ref) == key[j], "after %s: a reference to key %d is no longer valid", what, key[j]);
            // and it continues to the end over present elements only, in finite time
            int steps = 0; for (auto k = it[j]; k != w.c.end(); ++k) { VX_CHECK(++steps <= w.r.n, "after %s: traversal from an iterator does not end", what); VX_CHECK(w.r.in(W<C>::kof(*k)), "after %s: traversal reaches an absent key", what); }
        }
        // every held pair stays in one traversal order
        w.check();
    }
};
template<class C> void body_valid(vx::Ctx& x, std::vector<int> sizes, std::vector<int> pats, std::vector<int> profs) {
    int n, pat; pick_start(x, sizes, pats, profs, n, pat);
    int room = (int[]){ 0, 1, 2, 5, 12, 30 }[x.choose(6)];
    W<C> w(x, U + n + room + 3);
    build(w, U, n, pat);
    int mode = x.choose(3);
    if (W<C>::PAR) { if (mode == 0) mode = 1; } // reserve on a parallel container gives no promise per submap
    if (mode == 0) {
        x.log("reserve(size + %d), insert them: nothing moves", room);
        w.c.reserve(w.c.size() + room);
        size_t cap = w.c.capacity();
        Held<C> h(w);
        w.where = "insert into reserved room";
        int done = 0;
        for (int k = 0; done < room && k < w.nk; ++k) if (!w.r.in(k)) { auto p = w.c.insert(W<C>::mv(k, k)); w.inserted("insert", k, W<C>::MAP ? k : 0, p.first, p.second); ++done; x.step(); h.check(w, "an insertion without growth"); }
        VX_CHECK(w.c.capacity() == cap, "capacity changed while inserting reserved elements");
    } else if (mode == 1) {
        x.log("insert a present key, look up, assign: nothing moves");
        Held<C> h(w);
        for (int k = 0; k < w.nk; ++k) if (w.r.in(k)) {
            w.where = "insert of a present key";
            w.c.insert(W<C>::mv(k, 9)); w.c.emplace(W<C>::mv(k, 9)); w.c.insert(w.c.begin(), W<C>::mv(k, 9));
            if constexpr (W<C>::MAP) { w.c.try_emplace(W<C>::mk(k), W<C>::mm(8)); w.c.insert_or_assign(W<C>::mk(k), W<C>::mm(k + 50)); w.r.val[k] = k + 50; (void)w.c[W<C>::mk(k)]; }
            w.c.lazy_emplace(W<C>::mk(k), [](const auto&) { vx::fail("lazy_emplace callback for a present key"); });
            x.step();
        }
        h.check(w, "insertions of present keys");
    } else {
        x.log("erase some: the others stay valid");
        Held<C> h(w);
        int mod = 1 + x.choose(3), left = room; w.where = "erase";
        for (int k = w.nk - 1; k >= 0 && left >= 0; --k) if (w.r.in(k) && k % mod == 0) { w.c.erase(W<C>::mk(k)); w.r.del(k); --left; x.step(); h.check(w, "an erase"); }
    }
}
// begin/end, const, post-increment, conversions
template<class C> void body_forms(vx::Ctx& x, std::vector<int> sizes, std::vector<int> pats, std::vector<int> profs) {
    int n, pat; pick_start(x, sizes, pats, profs, n, pat);
    W<C> w(x, U + n + 2);
    build(w, U, n, pat);
    const C& cc = w.c;
    std::vector<int> o1, o2, o3, o4, o5;
    for (auto it = w.c.begin(); it != w.c.end(); ++it) o1.push_back(W<C>::kof(*it));
    for (auto it = cc.begin(); it != cc.end(); it++) o2.push_back(W<C>::kof(*it));
    for (auto it = w.c.cbegin(); it != w.c.cend();) o3.push_back(W<C>::kof(*it++));
    for (auto& e : w.c) o4.push_back(W<C>::kof(e));
    for (typename C::const_iterator it = w.c.begin(); !(it == w.c.cend()); ++it) o5.push_back(W<C>::kof(*it.operator->()));
    VX_CHECK(o1 == o2 && o1 == o3 && o1 == o4 && o1 == o5, "the forms of traversal disagree");
    VX_CHECK((int)o1.size() == w.r.n, "traversal visits %zu of %d", o1.size(), w.r.n);
    VX_CHECK((w.c.begin() == w.c.end()) == (w.r.n == 0), "begin() == end()");
    typename C::iterator di; typename C::const_iterator dc; VX_CHECK(di == typename C::iterator() && dc == typename C::const_iterator(), "default constructed iterators compare equal");
    for (int k = 0; k < w.nk; ++k) {
        auto it = cc.find(W<C>::mk(k)); VX_CHECK((it == cc.end()) == !w.r.in(k), "find(%d) against end()", k);
        if (!w.r.in(k)) continue;
        // the tail starting at find(k) is the tail of the traversal
        size_t pos = std::find(o1.begin(), o1.end(), k) - o1.begin();
        for (; it != cc.end(); ++it, ++pos) VX_CHECK(pos < o1.size() && W<C>::kof(*it) == o1[pos], "traversal from find(%d) leaves the order of the traversal from begin()", k);
        VX_CHECK(pos == o1.size(), "traversal from find(%d) ends early", k);
    }
    if constexpr (W<C>::MAP) { for (auto it = w.c.begin(); it != w.c.end(); ++it) { int k = W<C>::kof(*it); it->second = M(k + 700); w.r.val[k] = k + 700; x.step(); } }
    auto it = w.c.begin(); auto jt = it; if (it != w.c.end()) { auto old = it++; VX_CHECK(old == jt, "post-increment returns the old position"); jt = it; VX_CHECK(jt == it, "iterator assignment"); }
    w.check();
    VX_CHECK((int)std::distance(w.c.begin(), w.c.end()) == w.r.n, "distance(begin, end)");
}

// ---- C08 ---------------------------------------------------------------------------------------
template<class C> void ins_upto(vx::Ctx& x, W<C>& w, int target, size_t cap, long calls0, const char* what) {
    int done = 0;
    for (int k = 0; w.r.n < target; ++k) {
        if (k >= w.nk) vx::harness_error("key universe too small");
        if (w.r.in(k)) continue;
        auto p = w.c.insert(W<C>::mv(k, k)); w.inserted("insert", k, W<C>::MAP ? k : 0, p.first, p.second); ++done; x.step();
        VX_CHECK(w.c.capacity() == cap, "%s: capacity changed from %zu to %zu at element %d of %d", what, cap, w.c.capacity(), w.r.n, target);
        long exp = NODE ? done : 0;
        if constexpr (std::is_same_v<Al<K>, tk::PlainAlloc<K>>) VX_CHECK(tk::alloc_calls - calls0 == exp, "%s: %ld allocations while inserting %d reserved elements", what, tk::alloc_calls - calls0, done);
    }
}
template<class C> void cap_ok(W<C>& w, const char* what) {
    size_t cap = w.c.capacity();
    VX_CHECK(w.c.size() <= cap, "%s: size %zu exceeds capacity %zu", what, w.c.size(), cap);
    VX_CHECK(w.c.load_factor() <= w.c.max_load_factor(), "%s: load factor %f above the maximum", what, w.c.load_factor());
    VX_CHECK(w.c.bucket_count() == cap, "%s: bucket_count() is not capacity()", what);
    for (int k = 0; k < w.nk; ++k) VX_CHECK(w.c.contains(W<C>::mk(k)) == w.r.in(k), "%s: contains(%d)", what, k); // terminates
}
// smallest capacity of the form 2^i-1 that holds n within 7/8
inline size_t need(size_t n) { size_t c = 1; if (!n) return 0; while (c - c / 8 < n || (c == 7 && n > 6)) c = 2 * c + 1; return c; }
template<class C> void body_reserve(vx::Ctx& x, std::vector<int> sizes, std::vector<int> pats, std::vector<int> profs, int maxm) {
    int n, pat; pick_start(x, sizes, pats, profs, n, pat);
    int mode = x.choose(4);
    W<C> w(x, U + n + maxm + 3);
    build(w, U, n, pat);
    if (mode == 0) {
        int m = x.choose(maxm + 1), target = w.r.n + m;
        x.log("reserve(%d) with %d elements, then fill", target, w.r.n);
        w.c.reserve(target); cap_ok<C>(w, "reserve");
        ins_upto<C>(x, w, target, w.c.capacity(), tk::alloc_calls, "after reserve");
        w.check();
    } else if (mode == 1) {
        int m = x.choose(2 * maxm + 1);
        size_t before = w.c.capacity();
        x.log("rehash(%d) with %d elements", m, w.r.n);
        w.c.rehash(m); w.where = "rehash"; cap_ok<C>(w, "rehash");
        VX_CHECK(m == 0 || (int)w.c.capacity() >= m, "rehash(%d) gives %zu buckets", m, w.c.capacity());
        if (m) VX_CHECK(w.c.capacity() >= before, "rehash(%d) shrank a table of %zu to %zu", m, before, w.c.capacity());
        if (m == 0) VX_CHECK(w.c.capacity() <= 2 * need(w.r.n) + 1, "rehash(0) keeps %zu buckets for %d elements", w.c.capacity(), w.r.n);
        w.check();
        int k = 0; while (w.r.in(k)) ++k; auto p = w.c.insert(W<C>::mv(k, k)); w.inserted("insert", k, W<C>::MAP ? k : 0, p.first, p.second); cap_ok<C>(w, "insert after rehash"); w.check();
    } else if (mode == 2) {
        int m = x.choose(maxm + 1), use_range = x.choose(2);
        x.log("container constructed for %d buckets", m);
        C t(m, Hs<K>(1), Eq<K>(1)); VX_CHECK((int)t.capacity() >= m, "constructed for %d buckets, has %zu", m, t.capacity());
        w.c.swap(t); w.r.clear(); w.check();
        if (use_range) { w.c.reserve(m); ins_upto<C>(x, w, m, w.c.capacity(), tk::alloc_calls, "after construction and reserve"); w.check(); }
    } else {
        x.log("clear, refill to the previous size");
        size_t before = w.c.capacity(); int sz = w.r.n;
        w.c.clear(); w.r.clear(); w.where = "clear"; cap_ok<C>(w, "clear"); w.check();
        VX_CHECK(w.c.capacity() <= before, "clear grew the table");
        int m = x.choose(3) * (sz + 3);
        w.c.reserve(m); ins_upto<C>(x, w, m, w.c.capacity(), tk::alloc_calls, "after clear and reserve"); w.check();
        w.c.clear(); w.r.clear(); w.c.rehash(0); VX_CHECK(w.c.capacity() == 0, "rehash(0) of an empty container keeps %zu buckets", w.c.capacity()); w.check();
    }
}
// random-free long histories: patterns of insert/erase with at most `win` live elements
template<class C> void body_bound(vx::Ctx& x, int maxw, int rounds) {
    enum { MOVING = P_COUNT, SPREAD }; // clusters of 24 or win keys with one probe start each, at 8 places of the table
    int prof = (int[]){ P_NATURAL, P_ALLEQUAL, P_SAMEPOS, P_WRAP, MOVING, SPREAD }[x.choose(6)];
    int win = 1 + x.choose(maxw), pattern = x.choose(4);
    if (prof == P_ALLEQUAL && win > 40) throw vx::Prune{};
    int nk = prof == P_NATURAL ? 3 * win + 5 : std::min(3 * win + 5, 380);
    bad_functor = 0;
    if (prof < P_COUNT) set_profile(prof, nk + 1);
    else {
        int g = prof == MOVING ? 24 : std::max(win, 8);
        nk = std::min(8 * g, NK - 2); profile_dirty();
        for (int k = 0; k <= nk; ++k) raw_hash[k] = solve((unsigned)(k / g * 45) % 128, (unsigned)k, 0);
    }
    x.log("at most %d live elements, pattern %d, profile %s", win, pattern, prof < P_COUNT ? prof_name[prof] : prof == MOVING ? "clusters of 24" : "clusters of the window");
    W<C> w(x, nk); w.where = "long history";
    size_t bound = 2 * need(win) + 1;
    int next = 0; std::vector<int> live; size_t head = 0;
    auto ins = [&] { while (w.r.in(next)) next = (next + 1) % nk; auto p = w.c.insert(W<C>::mv(next, 1)); w.inserted("insert", next, W<C>::MAP ? 1 : 0, p.first, p.second); live.push_back(next); next = (next + 1) % nk; };
    auto del = [&](bool oldest) { if (head >= live.size()) return; int k; if (oldest) k = live[head++]; else { k = live.back(); live.pop_back(); } size_t e = w.c.erase(W<C>::mk(k)); VX_CHECK(e == 1, "erase(%d) returned %zu", k, e); w.r.del(k); };
    for (int i = 0; i < rounds * (win + 6); ++i) {
        if (pattern == 0) { if (w.r.n == win) del(true); ins(); }            // FIFO
        else if (pattern == 1) { if (w.r.n == win) del(false); ins(); }      // LIFO
        else if (pattern == 2) { if (w.r.n == win) for (int j = 0; j < win / 2 + 1; ++j) del(true); ins(); } // bursts
        else { if (w.r.n == win) while (w.r.n) del(i & 1); ins(); }          // drain completely
        x.step();
        if constexpr (!W<C>::PAR) VX_CHECK(w.c.capacity() <= bound, "capacity %zu with at most %d elements ever present (bound %zu)", w.c.capacity(), win, bound);
        else VX_CHECK(w.c.capacity() <= C::subcnt() * bound, "capacity %zu with at most %d elements ever present", w.c.capacity(), win);
        if (i % 11 == 0) cap_ok<C>(w, "long history");
    }
    w.check();
}

template<class C> void reg_for(std::string nm) {
    bool T = vx::thorough;
    std::vector<int> pf = { P_NATURAL, P_ALLEQUAL, P_SAMEPOS, P_WRAP };
    std::vector<int> pats = { E_NONE, E_EVEN, E_BUT_LAST };
    vx::add("iter-" + nm + "-walk", 16, 4, [=](vx::Ctx& x) { body_walk<C>(x, T ? std::vector<int>{ 0, 1, 2, 3, 5, 7, 8, 10, 12, 14 } : std::vector<int>{ 0, 1, 2, 3, 6, 8, 10 }, { E_NONE, E_EVEN }, pf, true); });
    std::vector<int> big; for (int i = 11; i < (T ? 140 : 70); i += T ? 1 : 3) big.push_back(i);
    vx::add("iter-" + nm + "-walkbig", 16, 4, [=](vx::Ctx& x) { body_walk<C>(x, big, pats, pf, false); });
    std::vector<int> vs; for (int i = 0; i < (T ? 60 : 30); ++i) vs.push_back(i);
    vx::add("iter-" + nm + "-valid", 16, 4, [=](vx::Ctx& x) { body_valid<C>(x, vs, { E_NONE, E_EVEN, E_BUT_LAST, E_ALL }, pf); });
    std::vector<int> fs; for (int i = 0; i < (T ? 300 : 66); ++i) fs.push_back(i);
    vx::add("iter-" + nm + "-forms", 16, 3, [=](vx::Ctx& x) { body_forms<C>(x, fs, { E_NONE, E_EVEN, E_BUT_LAST, E_ALL }, T ? std::vector<int>{ P_NATURAL } : pf); });
    if constexpr (!W<C>::PAR) {
        std::vector<int> cs; for (int i = 0; i < (T ? 66 : 34); ++i) cs.push_back(i);
        vx::add("cap-" + nm + "-reserve", 32, 4, [=](vx::Ctx& x) { body_reserve<C>(x, cs, { E_NONE, E_ALL, E_EVEN, E_BUT_LAST, E_HALF }, { P_NATURAL, P_ALLEQUAL, P_SAMEPOS }, T ? 66 : 34); });
    }
    vx::add("cap-" + nm + "-bound", 16, 3, [=](vx::Ctx& x) { body_bound<C>(x, T ? 120 : 60, T ? 40 : 12); });
}
void reg() {
    tk::install();
    reg_for<Map>("map");
    reg_for<Set>("set");
}
VX_MAIN(reg)
