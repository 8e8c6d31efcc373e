// C12, C13: b-tree containers vs a sorted vector.  -DCONT=1 set 2 map 3 multiset 4 multimap
//   -DELEM=1 int/std::less  2 big tracked, 3 per node  3 std::string  4 int/std::greater  5 tracked, three-way transparent comparator  6 big move-only
#include "bt_world.hpp"
using namespace bw;
#if ELEM == 1
using K = int; using M = int; using CP = std::less<int>; constexpr bool DESC = false; constexpr int NV = 61;
#elif ELEM == 2
using K = Big<true, 70>; using M = int; using CP = Cmp<K>; constexpr bool DESC = false; constexpr int NV = 3;
#elif ELEM == 3
using K = std::string; using M = std::string; using CP = std::less<std::string>; constexpr bool DESC = false; constexpr int NV = 7;
namespace bw { }
#elif ELEM == 4
using K = int; using M = double; using CP = std::greater<int>; constexpr bool DESC = true; constexpr int NV = 15;
namespace bw { template<> struct Cv<double> { static double mk(int i) { return i + 0.25; } static int get(double d) { return (int)d; } static constexpr bool tag = false; }; }
#elif ELEM == 5
using K = tk::Obj; using M = tk::Obj; using CP = Cmp3<K>; constexpr bool DESC = false; constexpr int NV = 7;
#elif ELEM == 6
using K = Big<false, 70>; using M = tk::MoveOnlyT; using CP = Cmp<K>; constexpr bool DESC = false; constexpr int NV = 3;
#endif
#ifdef CHKALLOC
template<class T> using Al = tk::PlainAlloc<T>;
#else
template<class T> using Al = std::allocator<T>;
#endif
#if CONT == 1
using C = gtl::btree_set<K, CP, Al<K>>; constexpr bool MULTI = false;
#elif CONT == 2
using C = gtl::btree_map<K, M, CP, Al<std::pair<const K, M>>>; constexpr bool MULTI = false;
#elif CONT == 3
using C = gtl::btree_multiset<K, CP, Al<K>>; constexpr bool MULTI = true;
#else
using C = gtl::btree_multimap<K, M, CP, Al<std::pair<const K, M>>>; constexpr bool MULTI = true;
#endif
using W = World<C, MULTI, DESC>;

struct Starts { std::vector<int> n, order, pat, dup; };
static void body(vx::Ctx& x, const Starts& s, int depth, bool core, int stride) {
    int n = s.n[x.choose((int)s.n.size())], o = s.order[x.choose((int)s.order.size())], p = s.pat[x.choose((int)s.pat.size())], d = MULTI ? s.dup[x.choose((int)s.dup.size())] : 0;
    if (n < 2 && (o || p)) throw vx::Prune{};
    int top = key_of(n ? n - 1 : 0, d) + 2;
    W w(x, top + 1);
    build(w, n, o, p, d);
    static std::vector<const W::Op*> ko[2], po[2];
    auto &kk = ko[core], &pp = po[core];
    if (kk.empty()) for (auto& q : W::ops()) if (!core || q.core) (q.keyed ? kk : pp).push_back(&q);
    std::vector<int> keys; for (int k = 0; k <= top; k += stride) keys.push_back(k);
    if (keys.back() != top) keys.push_back(top);
    int nko = (int)(kk.size() * keys.size()), tot = nko + (int)pp.size();
    if (x.fresh()) w.check();
    for (int i = 0; i < depth; ++i) {
        int a = x.choose(tot);
        if (a < nko) w.apply(*kk[a / keys.size()], keys[a % keys.size()]); else w.apply(*pp[a - nko], 0);
        if (x.fresh()) w.check();
    }
}
// every sequence of insertions and erasures by rank from the empty container
static void body_ranks(vx::Ctx& x, int depth) {
    W w(x, 1); w.nk = 1;
    std::vector<int> pos; // keys are assigned by bisection so that any rank can be inserted between
    int hi = 1 << 16;
    w.nk = 0;
    struct G { int key; };
    std::vector<int> ks;
    for (int i = 0; i < depth; ++i) {
        int n = (int)ks.size();
        int a = x.choose(2 * n + 1); // n+1 gaps, n elements
        if (a <= n) {
            int lo = a ? ks[a - 1] : 0, up = a < n ? ks[a] : hi; int k = (lo + up) / 2;
            ks.insert(ks.begin() + a, k);
            int cd = w.code(k), y = w.fresh(); w.where = "insert"; x.log("insert at rank %d (key %d)", a, k);
            auto p = w.c.insert(W::mv(cd, y)); if constexpr (MULTI) w.landed(cd, y, p); else w.inserted(cd, y, p);
        } else {
            int e = a - n - 1; int k = ks[e]; ks.erase(ks.begin() + e); w.where = "erase"; x.log("erase rank %d (key %d)", e, k);
            int l = w.lb(k); auto it = w.c.erase(w.c.find(W::mk(k * SC))); w.del(l); w.at(it, l);
        }
        x.step();
        if (x.fresh()) w.check();
    }
}
// fill in an order, empty in another, for every n
static void body_family(vx::Ctx& x, int maxn, int chunks) {
    int o = x.choose(O_COUNT), e = x.choose(4), chunk = x.choose(chunks), d = MULTI ? x.choose(3) : 0;
    for (int n = chunk; n <= maxn; n += chunks) {
        W w(x, key_of(n ? n - 1 : 0, d) + 3);
        build(w, n, o, X_NONE, d); w.where = "fill"; w.check();
        static const char* en[] = { "from the front", "from the back", "by key, bit reversed", "in ranges of 5" };
        x.log("erased %s", en[e]);
        w.where = "drain";
        int step = 0;
        while (!w.r.empty()) {
            int m = (int)w.r.size();
            if (e == 0) { auto it = w.c.erase(w.c.begin()); w.del(0); VX_CHECK(it == w.c.begin(), "erase(begin)"); }
            else if (e == 1) { auto p = w.c.end(); --p; auto it = w.c.erase(p); w.r.pop_back(); VX_CHECK(it == w.c.end(), "erase(last)"); }
            else if (e == 2) { int i = (step * 7919 + 13) % m, k = W::key(w.r[i].code), l = w.lb(k), u = w.ub(k); size_t g = w.c.erase(W::mk(k * SC)); VX_CHECK((int)g == u - l, "erase(%d) returned %zu", k, g); w.r.erase(w.r.begin() + l, w.r.begin() + u); }
            else { int i = (step * 31) % m, j = std::min(m, i + 5); auto it = w.c.erase(w.nth(i), w.nth(j)); w.r.erase(w.r.begin() + i, w.r.begin() + j); w.at(it, i); }
            x.step();
            if (++step % (1 + n / 8) == 0) w.check();
        }
        w.check();
    }
}
void reg() {
    tk::install();
    const int SD = MULTI ? 4 : 3;
    bool T = vx::thorough;
    std::vector<int> dups = { 0, 1, 2, 3 }, ords = { O_ASC, O_DESC, O_ALT, O_MID }, pats = { X_NONE, X_EVEN, X_FIRST, X_LAST, X_KEEP3, X_MIDDLE };
    if (NV == 3) {
        Starts a; for (int i = 0; i <= (T ? 70 : 30); i += (T || i < 18 ? 1 : 3)) a.n.push_back(i);
        a.order = ords; a.pat = pats; a.dup = dups;
        vx::add("all1", 16, SD, [=](vx::Ctx& x) { body(x, a, 1, false, 1); });
        Starts b{ T ? std::vector<int>{ 0, 1, 3, 4, 7, 10, 13, 16, 20, 26 } : std::vector<int>{ 0, 1, 4, 8, 13 }, T ? ords : std::vector<int>{ O_ASC, O_MID }, T ? pats : std::vector<int>{ X_NONE, X_KEEP3 }, T ? dups : std::vector<int>{ 0, 2 } };
        vx::add("all2", T ? 64 : 24, SD + 1, [=](vx::Ctx& x) { body(x, b, 2, false, T ? 1 : 2); });
        Starts c{ T ? std::vector<int>{ 5, 12, 18, 24 } : std::vector<int>{ 5, 12 }, { O_ASC, O_ALT }, { X_NONE, X_EVEN }, { 0, 1 } };
        vx::add("core3", T ? 64 : 24, SD + 1, [=](vx::Ctx& x) { body(x, c, 3, true, T ? 1 : 3); });
        if (ELEM == 2) vx::add("ranks", T ? 64 : 16, 4, [=](vx::Ctx& x) { body_ranks(x, T ? 8 : 7); });
        vx::add("family", 16, 3, [=](vx::Ctx& x) { body_family(x, T ? 260 : 90, 10); });
    } else {
        Starts a; for (int q : { 0, 1, NV - 1, NV, NV + 1, 2 * NV + 1, 3 * NV }) a.n.push_back(q);
        if (T) for (int q : { NV / 2, 2 * NV, 5 * NV, NV * 8 + 3 }) a.n.push_back(q);
        a.order = { O_ASC, O_DESC, O_MID }; a.pat = { X_NONE, X_EVEN, X_FIRST, X_KEEP3 }; a.dup = dups;
        int st = NV > 20 ? (T ? 7 : 29) : (T ? 1 : 5);
        vx::add("all1", 16, SD, [=](vx::Ctx& x) { body(x, a, 1, false, st); });
        Starts b{ { 0, 1, NV, NV + 1 }, { O_ASC, O_MID }, { X_NONE, X_EVEN }, { 0, 2 } };
        vx::add("all2", T ? 64 : 16, SD + 1, [=](vx::Ctx& x) { body(x, b, 2, false, std::max(T ? NV / 3 : NV, 1)); });
        vx::add("family", 16, 3, [=](vx::Ctx& x) { body_family(x, T ? (NV > 20 ? 2500 : 700) : NV > 20 ? 260 : 120, T ? 100 : 13); });
    }
}
VX_MAIN(reg)
