// C20 (PART=1), C22 (PART=2), C24 (PART=3) under every schedule.
#include "mc.hpp"
#include <algorithm>
#include <list>
#include <mutex>
#include <shared_mutex>
#include <gtl/lru_cache.hpp>
#include <gtl/memoize.hpp>
#include <gtl/intrusive.hpp>
using namespace vx;
// the list primitives of libstdc++ live in the shared library: instrumented copies
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
} }

// ---- a model LRU list: front = most recent
struct Lru {
    int k[8], v[8], n = 0; int cap;
    int pos(int key) const { for (int i = 0; i < n; ++i) if (k[i] == key) return i; return -1; }
    void touch(int i) { int a = k[i], b = v[i]; for (; i; --i) { k[i] = k[i - 1]; v[i] = v[i - 1]; } k[0] = a; v[0] = b; }
    void put(int key, int val, int keep) { int i = pos(key); if (i >= 0) { v[i] = val; touch(i); return; } if (n < 8) ++n; k[n - 1] = key; v[n - 1] = val; touch(n - 1); if (n > keep) --n; }
};
struct Rec { int op, k, v, res; uint64_t inv, ret; };
static Rec rec[8]; static int nrec;
template<class S, class Model, class Final> static bool lin(unsigned done, const S& s, Model&& model, Final&& final) {
    if (done == (1u << nrec) - 1) return final(s);
    uint64_t fr = ~0ull; for (int i = 0; i < nrec; ++i) if (!(done >> i & 1)) fr = std::min(fr, rec[i].ret);
    for (int i = 0; i < nrec; ++i) if (!(done >> i & 1) && rec[i].inv < fr) { S t = s; if (model(rec[i], t) && lin(done | 1u << i, t, model, final)) return true; }
    return false;
}
template<class B> static void threads(Ctx& x, int nt, const mc::Opts& o, B& body) {
    auto b0 = [&] { body(0); }; auto b1 = [&] { body(1); }; auto b2 = [&] { body(2); }; auto b3 = [&] { body(3); };
    mc::spawn(b0); mc::spawn(b1); if (nt > 2) mc::spawn(b2); if (nt > 3) mc::spawn(b3); mc::run(x, o);
}
[[noreturn]] static void explain(const char* what, const char* const* names, int no) {
    char b[1500]; int n = snprintf(b, sizeof b, "%s", what);
    for (int i = 0; i < nrec; ++i) n += snprintf(b + n, sizeof b - n, "; T%d %s(%d,%d)=%d [%d,%d]", i / no, names[rec[i].op], rec[i].k, rec[i].v, rec[i].res, (int)rec[i].inv, (int)rec[i].ret);
    fail("%s", b);
}
struct H { size_t operator()(int k) const { return (size_t)k; } };

#if PART == 1
// ============================================================ C20
enum { INS, GET, EX, CLR, INSL, RES, NOP };
static const char* nm[] = { "insert", "get", "exists", "clear", "insert(lvalue)", "reserve" };
constexpr int NKEY = 5;
template<int N, class Mtx, class HH = H> struct L {
    using C = gtl::lru_cache_impl<int, int, N, HH, std::equal_to<int>, Mtx>;
    static inline int key[NKEY + 8]; // keys of one shard
    static void setup() { int n = 0; typename C::map_type m; for (int k = 1; n < NKEY + 8; ++k) if (m.subidx(m.hash(k)) == m.subidx(m.hash(1))) key[n++] = k; }
    static void run(Ctx& x, int nt, int no, const int* ops, int nops, const int* starts, int nst, const int* ks, int nk, int preempt) {
        int st = starts[x.choose(nst)], obs = x.choose(2); Rec prog[4][4];
        for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) { int op = ops[x.choose(nops)]; int k = op == CLR || op == RES ? x.choose(1) : ks[x.choose(nk)]; prog[t][i] = { op, k, 20 + 10 * t + i }; }
        mc::begin(); C* c = new C(3 << N); Lru m; m.cap = 3; for (int i = 0; i < st; ++i) { c->insert(key[i], 10 + i); m.put(i, 10 + i, 3); }
        x.log("start: %d keys, observe %s", st, obs ? "order" : "values"); for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) x.log("  thread %d: %s(%d) value %d", t, nm[prog[t][i].op], prog[t][i].k, prog[t][i].v);
        nrec = nt * no;
        auto body = [&](int t) { for (int i = 0; i < no; ++i) {
            if (i) mc::point(); Rec& r = rec[t * no + i]; r = prog[t][i]; r.inv = mc::tick(); r.res = 0; int k = key[r.k];
            switch (r.op) {
            case INS: c->insert(k, int(r.v)); break; case INSL: { const int v = r.v; c->insert(k, v); break; }
            case GET: { auto o = c->get(k); r.res = o ? *o : -1; break; }
            case EX: r.res = c->exists(k); break; case CLR: c->clear(); break; case RES: c->reserve(40); break;
            } r.ret = mc::tick(); } };
        threads(x, nt, { preempt }, body);
        // what is in the cache now, from its oldest to its newest entry, or with which values
        int present[NKEY], val[NKEY], gone[NKEY], ng = 0, np = 0;
        for (int i = 0; i < NKEY; ++i) { present[i] = c->exists(key[i]); val[i] = -1; np += present[i]; }
        if (np > 3) fail("%d entries in a cache of 3", np); if ((int)c->size() != np) fail("size() is %d, %d keys are present", (int)c->size(), np);
        if (!obs) { for (int i = 0; i < NKEY; ++i) { auto o = c->get(key[i]); if ((bool)o != (bool)present[i]) fail("get and exists disagree on key %d", i); if (o) val[i] = *o; } }
        bool still[NKEY]; std::copy(present, present + NKEY, still);
        for (int f = 0; f < 3; ++f) { c->insert(key[NKEY + f], 99); for (int i = 0; i < NKEY; ++i) if (still[i] && !c->exists(key[i])) { still[i] = false; gone[ng++] = i; } if ((int)c->size() > 3) fail("cache over its limit after more insertions"); }
        for (int i = 0; i < NKEY; ++i) if (still[i]) fail("an entry cannot be evicted");
        if (ng != np) fail("entries evicted %d, present %d", ng, np);
        for (int f = 0; f < 3; ++f) { auto o = c->get(key[NKEY + f]); if (!o || *o != 99) fail("an entry inserted afterwards is missing"); }
        if (!obs) for (int i = 1; i < ng; ++i) if (gone[i - 1] > gone[i]) fail("eviction does not follow the order of the last uses");
        auto model = [](const Rec& r, Lru& s) {
            switch (r.op) { case INS: case INSL: s.put(r.k, r.v, 3); return true; case GET: { int i = s.pos(r.k); if (r.res != (i < 0 ? -1 : s.v[i])) return false; if (i >= 0) s.touch(i); return true; }
            case EX: return r.res == (s.pos(r.k) >= 0); case CLR: s.n = 0; return true; } return true; };
        auto fin = [&](const Lru& s) {
            if (s.n != np) return false; for (int i = 0; i < NKEY; ++i) if (present[i] != (s.pos(i) >= 0)) return false;
            if (!obs) { for (int i = 0; i < s.n; ++i) if (val[s.k[i]] != s.v[i]) return false; } else for (int i = 0; i < s.n; ++i) if (gone[i] != s.k[s.n - 1 - i]) return false;
            return true; };
        if (!lin(0u, m, model, fin)) explain("no order of the calls explains the results and the cache left behind", nm, no);
        uint64_t h = st; for (int i = 0; i < nrec; ++i) h = mix(mix(h, rec[i].op * 8 + rec[i].k), (uint64_t)rec[i].res); for (int i = 0; i < NKEY; ++i) h = mix(h, present[i] * 1000 + val[i]); for (int i = 0; i < ng; ++i) h = mix(h, gone[i]); x.state(h);
        delete c; mc::end();
    }
    static void units(const char* n, bool full) {
        setup(); bool T = thorough; auto N_ = [n](const char* u) { return std::string(u) + "-" + n; };
        static const int all[] = { INS, GET, EX, CLR, INSL, RES }, core[] = { INS, GET, EX, CLR }, st4[] = { 0, 1, 2, 3 }, st1[] = { 3, 2 }, k5[] = { 0, 1, 2, 3, 4 }, k3[] = { 0, 1, 3 };
        add(N_("2x1"), 4, 4, [](Ctx& x) { run(x, 2, 1, all, 6, st4, 4, k5, 5, 1000); });
        add(N_("2x2"), 32, 6, [T, full](Ctx& x) { run(x, 2, 2, core, T || full ? 4 : 2, st1, 2, k3, 3, T ? 1000 : 3); });
        add(N_("3x1"), 16, 5, [T](Ctx& x) { run(x, 3, 1, all, 4, st1, 2, T ? k5 : k3, T ? 5 : 3, T ? 1000 : 4); });
        if (T || full) add(N_("2x3"), 32, 6, [T](Ctx& x) { run(x, 2, 3, core, 2, st1, 1, k3, T ? 3 : 2, T ? 3 : 2); });
        if (T) add(N_("3x2"), 64, 6, [](Ctx& x) { run(x, 3, 2, core, 2, st1, 1, k3, 2, 3); });
    }
};
struct H0 { size_t operator()(int k) const { return 7; } };
static void reg() {
    L<0, std::mutex>::units("mutex", true); L<0, std::shared_mutex>::units("shared", true); L<1, std::mutex>::units("2sub", false); L<0, std::mutex, H0>::units("collide", false);
}
#elif PART == 2
// ============================================================ C22
enum { CALL, HAS, CLR, RES };
static const char* nm[] = { "call", "contains", "clear", "reserve" };
static int calls[4]; // evaluations made by the current operation of each thread
static bool throws_ = false;
static int fn_(int a) { if (mc::self() >= 0) { ++calls[mc::self()]; mc::point(); } if (a == 4 && throws_) throw 5; return a * 10 + 7; }
static int fn2_(int a, const int& b) { return fn_(a + b); }
// MODE 0: one lock around lookup, evaluation and insertion; 1: evaluation outside the lock; 2: lru
template<class C, int MODE, class Call, class Has> static void run(Ctx& x, Call&& mkc, Has&& has, int cap, int nt, int no, const int* ops, int nops, const int* starts, int nst, const int* ks, int nk, int preempt) {
    int st = starts[x.choose(nst)]; Rec prog[4][4];
    for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) { int op = ops[x.choose(nops)]; int k = op == CLR || op == RES ? x.choose(1) : ks[x.choose(nk)]; prog[t][i] = { op, k, 0 }; }
    mc::begin(); throws_ = false; C* c = mkc.make(); Lru m; m.cap = cap; int keep = MODE == 2 ? cap - 1 : 100;
    for (int i = 0; i < st; ++i) { mkc.call(*c, i); m.put(i, 0, keep); } throws_ = mkc.thr;
    x.log("start: %d keys", st); for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) x.log("  thread %d: %s(%d)", t, nm[prog[t][i].op], prog[t][i].k);
    nrec = nt * no;
    auto body = [&](int t) { for (int i = 0; i < no; ++i) {
        if (i) mc::point(); Rec& r = rec[t * no + i]; r = prog[t][i]; r.inv = mc::tick(); r.res = 0; calls[t] = 0;
        switch (r.op) {
        case CALL: { bool thrown = false; int v = 0; try { v = mkc.call(*c, r.k); } catch (int) { thrown = true; }
            if (thrown) { if (!(throws_ && r.k == 4)) fail("an exception the function did not throw"); r.res = -5; break; }
            if (throws_ && r.k == 4) fail("the exception of the function is lost"); if (v != r.k * 10 + 7) fail("call(%d) returned %d", r.k, v); if (calls[t] > 1) fail("one call evaluated the function %d times", calls[t]); r.res = calls[t]; break; }
        case HAS: { auto o = has(*c, r.k); if (o && *o != r.k * 10 + 7) fail("contains(%d) returned %d", r.k, *o); r.res = (bool)o; break; }
        case CLR: c->clear(); break; case RES: c->reserve(30); break;
        } r.ret = mc::tick(); } };
    threads(x, nt, { preempt }, body);
    int present[6], np = 0, gone[6], ng = 0; for (int i = 0; i < 6; ++i) { auto o = has(*c, i); present[i] = (bool)o; np += present[i]; if (o && *o != i * 10 + 7) fail("wrong cached result for %d", i); }
    if ((int)c->size() != np) fail("size() is %d but %d results are present", (int)c->size(), np); if (MODE == 2 && np > cap) fail("more results than the limit");
    if (MODE == 2) { throws_ = false; bool still[6]; std::copy(present, present + 6, still); for (int f = 0; f < cap; ++f) { mkc.call(*c, 20 + f); for (int i = 0; i < 6; ++i) if (still[i] && !has(*c, i)) { still[i] = false; gone[ng++] = i; } if ((int)c->size() > cap) fail("more results than the limit"); } for (bool b : still) if (b) fail("a result cannot be evicted"); }
    auto model = [&](const Rec& r, Lru& s) {
        int i = s.pos(r.k);
        switch (r.op) {
        case CALL: if (r.res == -5) return i < 0; if (MODE == 1 ? (r.res == 0 && i < 0) : r.res != (i < 0)) return false; s.put(r.k, 0, keep); return true;
        case HAS: return r.res == (i >= 0); case CLR: s.n = 0; return true; } return true; };
    auto fin = [&](const Lru& s) { if (s.n != np) return false; for (int i = 0; i < 6; ++i) if (present[i] != (s.pos(i) >= 0)) return false; if (MODE == 2) for (int i = 0; i < s.n; ++i) if (gone[i] != s.k[s.n - 1 - i]) return false; return true; };
    // with several submaps clear() works submap by submap, so the history is judged key by key
    if (mkc.per_key) { for (int key = 0; key < 6; ++key) {
        auto model1 = [&](const Rec& r, Lru& s) { return r.op == CALL || r.op == HAS ? r.k != key || model(r, s) : model(r, s); };
        auto fin1 = [&](const Lru& s) { return present[key] == (s.pos(key) >= 0); };
        Lru m1; m1.cap = cap; if (key < st) m1.put(key, 0, keep);
        if (!lin(0u, m1, model1, fin1)) explain("no order of the calls explains the results and the cache left behind", nm, no);
    } }
    else if (!lin(0u, m, model, fin)) explain("no order of the calls explains the results and the cache left behind", nm, no);
    uint64_t h = st + MODE * 100; for (int i = 0; i < nrec; ++i) h = mix(mix(h, rec[i].op * 8 + rec[i].k), (uint64_t)rec[i].res); for (int i = 0; i < 6; ++i) h = mix(h, present[i]); x.state(h);
    delete c; mc::end();
}
template<class C, bool LRU> struct One { bool thr = false, per_key = false, no_clear = false; C* make() const { if constexpr (LRU) return new C(&fn_, 4 * C::num_submaps); else return new C(&fn_); } int call(C& c, int k) const { return c(k); } };
template<class C> struct Two { bool thr = false, per_key = true, no_clear = true; C* make() const { return new C(&fn2_); } int call(C& c, int k) const { int b = k; return c(0, b); } };
template<class C, int MODE, class MK, class Has> static void munits(const char* n, MK mk, Has has, bool full) {
    bool T = thorough; auto N_ = [n](const char* u) { return std::string(u) + "-" + n; };
    static const int all[] = { CALL, HAS, CLR, RES }, core[] = { CALL, HAS, CLR }, st3[] = { 0, 1, 3 }, st1[] = { 0, 3 }, k4[] = { 0, 1, 3, 4, 5 }, k2[] = { 0, 3, 4, 5 };
    add(N_("2x1"), 2, 4, [=](Ctx& x) { run<C, MODE>(x, mk, has, 4, 2, 1, all, mk.no_clear ? 2 : 4, st3, 3, k4, 5, 1000); });
    add(N_("2x2"), 16, 6, [=](Ctx& x) { run<C, MODE>(x, mk, has, 4, 2, 2, all, mk.no_clear ? 2 : 3, st1, 2, k2, T ? 4 : 2, T ? 1000 : full ? 4 : 2); });
    add(N_("3x1"), 8, 5, [=](Ctx& x) { run<C, MODE>(x, mk, has, 4, 3, 1, all, mk.no_clear ? 2 : 3, st1, 2, k2, T ? 4 : 3, T ? 1000 : 3); });
    if (T) add(N_("3x2"), 32, 6, [=](Ctx& x) { run<C, MODE>(x, mk, has, 4, 3, 2, core, 2, st1, 1, k2, 2, 3); });
    if ((T && !mk.no_clear) || full) add(N_("2x3"), 32, 6, [=](Ctx& x) { run<C, MODE>(x, mk, has, 4, 2, 3, core, T ? 3 : 2, st1, T ? 2 : 1, k2, 2, 2); });
}
// a recursive function that calls its own memoized form
struct Fib; using FibM = gtl::mt_memoize<int (*)(int), true, 1, std::mutex>; static FibM* fibm; static int fibdepth;
static int fib(int n) { if (n < 2) return n; int a = (*fibm)(n - 1); int b = (*fibm)(n - 2); return a + b; }
static void run_fib(Ctx& x) {
    int a = 1 + x.choose(4), b = 1 + x.choose(4), clr = x.choose(2); static const int F[] = { 0, 1, 1, 2, 3, 5 };
    mc::begin(); fibm = new FibM(&fib); x.log("fib(%d) and fib(%d)%s", a, b, clr ? " with a concurrent clear" : "");
    auto f = [&] { int r = (*fibm)(a); if (r != F[a]) fail("fib(%d)=%d", a, r); }; auto g = [&] { if (clr) fibm->clear(); int r = (*fibm)(b); if (r != F[b]) fail("fib(%d)=%d", b, r); };
    mc::spawn(f); mc::spawn(g); mc::run(x, { thorough ? 4 : 2 });
    for (int i = 0; i <= 5; ++i) { auto o = fibm->contains(i); if (o && *o != F[i]) fail("cached fib(%d)=%d", i, *o); if (!clr && i && i <= std::max(a, b) && !o) fail("fib(%d) is not cached", i); }
    delete fibm; mc::end();
}
static void reg() {
    auto has1 = [](auto& c, int k) { return c.contains(k); }; auto has2 = [](auto& c, int k) { int b = k; return c.contains(0, b); };
    using F1 = int (*)(int); using F2 = int (*)(int, const int&);
    using A = gtl::mt_memoize<F1, false, 0, std::mutex>; munits<A, 0>("single", One<A, false>{}, has1, true); munits<A, 0>("single-throw", One<A, false>{ true }, has1, false);
    using B = gtl::mt_memoize<F1, true, 0, std::mutex>; munits<B, 1>("rec", One<B, false>{}, has1, true); munits<B, 1>("rec-throw", One<B, false>{ true }, has1, false);
    using C = gtl::mt_memoize<F1, true, 1, std::shared_mutex>; munits<C, 1>("rec-shared", One<C, false>{ false, true }, has1, false);
    using D = gtl::mt_memoize<F1, false, 1, std::shared_mutex>; munits<D, 0>("single-shared", One<D, false>{ false, true }, has1, false);
    using E = gtl::mt_memoize_lru<F1, 0, std::mutex>; munits<E, 2>("lru", One<E, true>{}, has1, true); munits<E, 2>("lru-throw", One<E, true>{ true }, has1, false);
    using G = gtl::mt_memoize_lru<F1, 0, std::shared_mutex>; munits<G, 2>("lru-shared", One<G, true>{}, has1, false);
    using I = gtl::mt_memoize<F2>; munits<I, 1>("default", Two<I>{}, has2, false);
    add("fib", 8, 2, run_fib);
}
#else
// ============================================================ C24
static int dtors[8]; // by thread
static int destroyed() { int n = 0; for (int d : dtors) n += d; return n; }
struct Obj : gtl::intrusive_ref_counter<Obj, gtl::thread_safe_counter> {
    int shared = 5; int own[4] = {};
    virtual ~Obj() { if (shared != 5) fail("the object was damaged before its destruction"); shared = 0; for (int& o : own) o = -1; ++dtors[mc::self() + 1]; }
};
struct Der : Obj { int extra = 3; ~Der() override { extra = 0; } };
using P = gtl::intrusive_ptr<Obj>; using PD = gtl::intrusive_ptr<Der>; using PC = gtl::intrusive_ptr<const Obj>;
enum { COPY, RESET, MOVE, BACK, USE, SWAP, TEMP, DETACH, CONV, RAW, COUNT, CASTMOVE, NOPS };
static const char* nm[] = { "b = a", "a.reset()", "b = move(a)", "a = b", "use", "swap(a, b)", "temporary copy", "detach and adopt", "converting copy", "b = a.get()", "use_count", "b = static_pointer_cast(move(a))" };
static void touch(P& p, int t) { if (p) { if (p->shared != 5) fail("a live object has a destroyed value"); p->own[t] = p->own[t] + 1; } }
static void step(int op, P& a, P& b, int t) {
    switch (op) {
    case COPY: b = a; break; case RESET: a.reset(); break; case MOVE: b = std::move(a); break; case BACK: a = b; break;
    case USE: touch(a, t); touch(b, t); break; case SWAP: swap(a, b); break;
    case TEMP: { P c(a); touch(c, t); P d(std::move(c)); touch(d, t); break; }
    case DETACH: { Obj* o = a.detach(); if (o) { P c(o, false); touch(c, t); a = std::move(c); } break; }
    case CONV: { PC c(a); if (c && c->shared != 5) fail("a live object has a destroyed value"); break; }
    case RAW: b = a.get(); break;
    case COUNT: if (a && a->use_count() < 1u + (a == b)) fail("use_count below the number of pointers held"); break;
    case CASTMOVE: b = gtl::static_pointer_cast<Obj>(std::move(a)); break;
    }
}
static void run(Ctx& x, int nt, int no, const int* ops, int nops, int preempt) {
    int prog[4][6]; int nobj = 1 + x.choose(2); for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) prog[t][i] = ops[x.choose(nops)];
    mc::begin(); for (int& d : dtors) d = 0; P* own = new P[8]; P o1(new Obj), o2; if (nobj == 2) o2 = P(new Der);
    for (int t = 0; t < nt; ++t) { own[t * 2] = o1; own[t * 2 + 1] = o2; } o1.reset(); o2.reset();
    x.log("%d object(s)", nobj); for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) x.log("  thread %d: %s", t, nm[prog[t][i]]);
    auto body = [&](int t) { P a(std::move(own[t * 2])), b(std::move(own[t * 2 + 1])); for (int i = 0; i < no; ++i) step(prog[t][i], a, b, t); };
    threads(x, nt, { preempt }, body);
    if (destroyed() != nobj) fail("%d destructions of %d objects", destroyed(), nobj);
    uint64_t h = nt * 10 + nobj; for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) h = mix(h, prog[t][i]); x.state(h);
    delete[] own; mc::end();
}
// one thread passes a pointer to another one through a lock; the object is used on both sides
static void run_pass(Ctx& x) {
    int a = x.choose(4), b = x.choose(4); mc::begin(); for (int& d : dtors) d = 0; struct Box { std::mutex m; P p; }; Box* box = new Box; P* mine = new P(new Der);
    auto f = [&] { P q(std::move(*mine)); touch(q, 0); { std::lock_guard l(box->m); if (a & 1) box->p = q; else box->p = std::move(q); } if (a & 2) touch(q, 0); };
    auto g = [&] { P q; { std::lock_guard l(box->m); if (b & 1) q = box->p; else q = std::move(box->p); } touch(q, 1); if (b & 2) { std::lock_guard l(box->m); box->p.reset(); } };
    auto h = [&] { P q; { std::lock_guard l(box->m); q = box->p; } touch(q, 2); };
    mc::spawn(f); mc::spawn(g); mc::spawn(h); mc::run(x, { thorough ? 6 : 3 });
    delete box; delete mine; if (destroyed() != 1) fail("%d destructions", destroyed()); mc::end();
}
static void reg() {
    static int all[NOPS]; for (int i = 0; i < NOPS; ++i) all[i] = i; static const int core[] = { COPY, RESET, USE, MOVE, TEMP, BACK }; bool T = thorough;
    add("2x1", 4, 3, [](Ctx& x) { run(x, 2, 1, all, NOPS, 1000); });
    add("2x2", 16, 4, [T](Ctx& x) { run(x, 2, 2, all, NOPS, T ? 1000 : 4); });
    add("2x3", 32, 5, [T](Ctx& x) { run(x, 2, 3, core, T ? 6 : 5, T ? 6 : 3); });
    add("3x1", 16, 3, [T](Ctx& x) { run(x, 3, 1, all, T ? NOPS : NOPS, T ? 6 : 3); });
    add("3x2", 32, 4, [T](Ctx& x) { run(x, 3, 2, core, T ? 6 : 3, T ? 4 : 2); });
    add("4x1", 16, 4, [T](Ctx& x) { run(x, 4, 1, core, T ? 5 : 3, T ? 5 : 3); });
    if (T) add("2x4", 64, 5, [](Ctx& x) { run(x, 2, 4, core, 5, 3); });
    add("pass", 4, 2, run_pass);
}
#endif
VX_MAIN(reg)
