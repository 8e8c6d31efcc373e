// C10: an exception at every point of every operation, from every start state.  -DKIND=1..4
#include "hash_world.hpp"
using namespace hw;
#ifndef NSUB
#define NSUB 1
#endif
// a mutex that knows whether it is held: relocking by the only thread is a deadlock
struct ChkMutex {
    int held = 0;
    void lock() { if (held) vx::fail("deadlock: a lock is still held (or taken twice)"); held = 1; }
    bool try_lock() { if (held) return false; held = 1; return true; }
    void unlock() { if (!held) vx::fail("unlock of a mutex that is not held"); held = 0; }
    ChkMutex() {}
    ChkMutex(const ChkMutex&) = delete;
    ~ChkMutex() { if (held) vx::fail("mutex destroyed while held"); }
};
using K = tk::Obj; using M = tk::Obj;
#ifdef STDAL // std::allocator, for which the library has code of its own
template<class T> using Al = std::allocator<T>;
#else
template<class T> using Al = tk::PlainAlloc<T>;
#endif
template<class A> A mkA(int i) { if constexpr (std::is_constructible_v<A, int>) return A(i); else return A(); }
#if KIND == 1
using Map = gtl::flat_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>>;
using Set = gtl::flat_hash_set<K, Hs<K>, Eq<K>, Al<K>>;
#elif KIND == 2
using Map = gtl::node_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>>;
using Set = gtl::node_hash_set<K, Hs<K>, Eq<K>, Al<K>>;
#elif KIND == 3
using Map = gtl::parallel_flat_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>, NSUB, ChkMutex>;
using Set = gtl::parallel_flat_hash_set<K, Hs<K>, Eq<K>, Al<K>, NSUB, ChkMutex>;
#else
using Map = gtl::parallel_node_hash_map<K, M, Hs<K>, Eq<K>, Al<std::pair<const K, M>>, NSUB, ChkMutex>;
using Set = gtl::parallel_node_hash_set<K, Hs<K>, Eq<K>, Al<K>, NSUB, ChkMutex>;
#endif
constexpr bool NODE = KIND == 2 || KIND == 4;
constexpr int  U = 4;
template<class C> using W = World<C, NODE>;

// the injector is armed only around the call under test
struct Run { long k; bool fired = false;
    template<class F> void operator()(F&& f) { tk::Arm a(k, tk::F_CTOR | tk::F_COPY | tk::F_ASSIGN | tk::F_ALLOC | tk::F_CALL); try { f(); } catch (...) { fired = tk::fault_fired; throw; } fired = tk::fault_fired; } };

template<class C> void usable(C& t);
enum { STRONG, PERKEY };
template<class C> struct FOp { const char* name; int kind; bool keyed; void (*f)(W<C>&, Ref& alt, int k, Run& run); };

template<class C> std::vector<FOp<C>> fops() {
    using T = W<C>; using VT = typename C::value_type;
    std::vector<FOp<C>> v;
    auto one = [&](const char* n, void (*f)(T&, Ref&, int, Run&)) { v.push_back({ n, STRONG, true, f }); };
    auto many = [&](const char* n, void (*f)(T&, Ref&, int, Run&), bool keyed = true) { v.push_back({ n, PERKEY, keyed, f }); };
    one("insert(lvalue)", [](T& w, Ref& a, int k, Run& run) { const VT e = T::mv(k, 7); if (!a.in(k)) a.put(k, T::MAP ? 7 : 0); run([&] { w.c.insert(e); }); });
    one("insert(rvalue)", [](T& w, Ref& a, int k, Run& run) { VT e = T::mv(k, 7); if (!a.in(k)) a.put(k, T::MAP ? 7 : 0); run([&] { w.c.insert(std::move(e)); }); });
    one("insert(hint)", [](T& w, Ref& a, int k, Run& run) { const VT e = T::mv(k, 7); if (!a.in(k)) a.put(k, T::MAP ? 7 : 0); run([&] { w.c.insert(w.c.begin(), e); }); });
    one("emplace(key,value)", [](T& w, Ref& a, int k, Run& run) { if (!a.in(k)) a.put(k, T::MAP ? 7 : 0); if constexpr (T::MAP) { const K kk(k); const M m(7); run([&] { w.c.emplace(kk, m); }); } else { const K kk(k); run([&] { w.c.emplace(kk); }); } });
    one("emplace(convertible)", [](T& w, Ref& a, int k, Run& run) { if (!a.in(k)) a.put(k, T::MAP ? 7 : 0); if constexpr (T::MAP) run([&] { w.c.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(7)); }); else run([&] { w.c.emplace(k); }); });
    one("emplace(key from two arguments)", [](T& w, Ref& a, int k, Run& run) { if (!a.in(k)) a.put(k, T::MAP ? 7 : 0); if constexpr (T::MAP) run([&] { w.c.emplace(std::piecewise_construct, std::forward_as_tuple(k - 1, 1), std::forward_as_tuple(3, 4)); }); else run([&] { w.c.emplace(k - 1, 1); }); });
    one("emplace_hint(key from two arguments)", [](T& w, Ref& a, int k, Run& run) { if (!a.in(k)) a.put(k, T::MAP ? 7 : 0); if constexpr (T::MAP) run([&] { w.c.emplace_hint(w.c.begin(), std::piecewise_construct, std::forward_as_tuple(k - 1, 1), std::forward_as_tuple(3, 4)); }); else run([&] { w.c.emplace_hint(w.c.begin(), k - 1, 1); }); });
    one("emplace_hint", [](T& w, Ref& a, int k, Run& run) { const VT e = T::mv(k, 7); if (!a.in(k)) a.put(k, T::MAP ? 7 : 0); run([&] { w.c.emplace_hint(w.c.begin(), e); }); });
    one("lazy_emplace", [](T& w, Ref& a, int k, Run& run) { K key(k); if (!a.in(k)) a.put(k, T::MAP ? 7 : 0); run([&] { w.c.lazy_emplace(key, [&](const auto& ctor) { tk::point(tk::F_CALL); if constexpr (T::MAP) ctor(k, 7); else ctor(k); }); }); });
    if constexpr (T::MAP) {
        one("try_emplace(lvalue)", [](T& w, Ref& a, int k, Run& run) { const K key(k); if (!a.in(k)) a.put(k, 7); run([&] { w.c.try_emplace(key, 7); }); });
        one("try_emplace(rvalue)", [](T& w, Ref& a, int k, Run& run) { K key(k); if (!a.in(k)) a.put(k, 7); run([&] { w.c.try_emplace(std::move(key), 7); }); });
        one("insert_or_assign", [](T& w, Ref& a, int k, Run& run) { const K key(k); const M m(7); a.put(k, 7); run([&] { w.c.insert_or_assign(key, m); }); });
        one("operator[]", [](T& w, Ref& a, int k, Run& run) { const K key(k); if (!a.in(k)) a.put(k, 0); run([&] { w.c[key]; }); });
        one("operator[] =", [](T& w, Ref& a, int k, Run& run) { const K key(k); const M m(7); int old = a.in(k) ? a.val[k] : 0; a.put(k, 7);
            try { run([&] { w.c[key] = m; }); } catch (...) { if (!w.r.in(k) && w.c.contains(K(k))) w.r.put(k, 0); (void)old; throw; } });
        one("at(missing or present)", [](T& w, Ref& a, int k, Run& run) { (void)a; run([&] { try { (void)w.c.at(K(k)); } catch (std::out_of_range&) {} }); });
    }
    one("extract and re-insert", [](T& w, Ref& a, int k, Run& run) { auto n = w.c.extract(T::mk(k)); int y = a.val[k]; bool was = a.in(k); w.r.del(k); if (!was) return; w.r.del(k); a.put(k, y);
        try { run([&] { auto r = w.c.insert(std::move(n)); VX_CHECK(r.inserted, "node insertion"); }); } catch (...) { throw; } });
    one("reserve", [](T& w, Ref&, int, Run& run) { size_t n = w.c.size() * 3 + 9; run([&] { w.c.reserve(n); }); });
    one("rehash(0)", [](T& w, Ref&, int, Run& run) { run([&] { w.c.rehash(0); }); });
    many("insert(range)", [](T& w, Ref& a, int k, Run& run) { std::vector<VT> in; for (int i = 0; i < 4; ++i) { int q = (k + i) % w.nk; in.push_back(T::mv(q, 20 + i)); if (!a.in(q)) a.put(q, T::MAP ? 20 + i : 0); } run([&] { w.c.insert(in.begin(), in.end()); }); });
    many("insert(initializer_list)", [](T& w, Ref& a, int k, Run& run) { int q = (k + 1) % w.nk; if (!a.in(k)) a.put(k, T::MAP ? 20 : 0); if (!a.in(q)) a.put(q, T::MAP ? 21 : 0); run([&] { w.c.insert({ T::mv(k, 20), T::mv(q, 21) }); }); });
    many("copy construct", [](T& w, Ref&, int, Run& run) { run([&] { C t(w.c); VX_CHECK(t.size() == w.c.size(), "copy"); }); }, false);
    many("copy construct with allocator", [](T& w, Ref&, int, Run& run) { run([&] { C t(w.c, mkA<typename C::allocator_type>(3)); VX_CHECK(t.size() == w.c.size(), "copy"); }); }, false);
    many("range construct", [](T& w, Ref&, int, Run& run) { run([&] { C t(w.c.begin(), w.c.end()); VX_CHECK(t.size() == w.c.size(), "range construction"); }); }, false);
    many("construct with buckets", [](T&, Ref&, int, Run& run) { run([&] { C t(40); VX_CHECK(t.capacity() >= 40, "buckets"); }); }, false);
    many("copy assign to it", [](T& w, Ref& a, int k, Run& run) { C t; a.clear(); for (int i = 0; i < 3; ++i) { int q = (k + i) % w.nk; t.insert(T::mv(q, 30 + i)); a.put(q, T::MAP ? 30 + i : 0); } run([&] { w.c = t; }); });
    many("copy assign from it", [](T& w, Ref&, int, Run& run) { C t; t.insert(T::mv(0, 1)); try { run([&] { t = w.c; }); } catch (...) { usable(t); throw; } VX_CHECK(t == w.c, "copy assignment"); }, false);
    many("move assign to it, other allocator", [](T& w, Ref& a, int k, Run& run) { C t(0, Hs<K>(1), Eq<K>(1), mkA<typename C::allocator_type>(4)); a.clear(); for (int i = 0; i < 3; ++i) { int q = (k + i) % w.nk; t.insert(T::mv(q, 30 + i)); a.put(q, T::MAP ? 30 + i : 0); } run([&] { w.c = std::move(t); }); });
    many("list assign", [](T& w, Ref& a, int k, Run& run) { a.clear(); int q = (k + 1) % w.nk; a.put(k, T::MAP ? 20 : 0); a.put(q, T::MAP ? 21 : 0); run([&] { w.c = { T::mv(k, 20), T::mv(q, 21) }; }); });
    many("merge", [](T& w, Ref& a, int k, Run& run) {
        C t; std::vector<int> ks; for (int i = 0; i < 5; ++i) { int q = (k + 2 * i) % w.nk; ks.push_back(q); t.insert(T::mv(q, 40 + i)); if (!a.in(q)) a.put(q, T::MAP ? 40 + i : 0); }
        auto verify = [&](bool thrown) { for (int q : ks) { int n = (int)w.c.count(T::mk(q)) + (int)t.count(T::mk(q)); VX_CHECK(n == (w.r.in(q) ? 2 : 1), "merge%s: key %d is now held %d times", thrown ? " that threw" : "", q, n); } };
        try { run([&] { w.c.merge(t); }); } catch (...) { verify(true); usable(t); throw; }
        verify(false);
    });
    if constexpr (T::PAR) {
        if constexpr (T::MAP) {
            one("try_emplace_l", [](T& w, Ref& a, int k, Run& run) { const K key(k); bool was = a.in(k); if (!was) a.put(k, 7); run([&] { w.c.try_emplace_l(key, [](auto&) { tk::point(tk::F_CALL); }, 7); }); });
            one("try_emplace_p", [](T& w, Ref& a, int k, Run& run) { const K key(k); if (!a.in(k)) a.put(k, 7); run([&] { w.c.try_emplace_p(key, 7); }); });
        }
        one("lazy_emplace_l", [](T& w, Ref& a, int k, Run& run) { K key(k); if (!a.in(k)) a.put(k, T::MAP ? 7 : 0); run([&] { w.c.lazy_emplace_l(key, [](auto&) { tk::point(tk::F_CALL); }, [&](const auto& ctor) { tk::point(tk::F_CALL); if constexpr (T::MAP) ctor(k, 7); else ctor(k); }); }); });
        one("if_contains", [](T& w, Ref&, int k, Run& run) { K key(k); run([&] { w.c.if_contains(key, [](const auto&) { tk::point(tk::F_CALL); }); }); });
        one("modify_if", [](T& w, Ref&, int k, Run& run) { K key(k); run([&] { w.c.modify_if(key, [](auto&) { tk::point(tk::F_CALL); }); }); });
        one("erase_if", [](T& w, Ref& a, int k, Run& run) { K key(k); a.del(k); run([&] { w.c.erase_if(key, [](auto&) { tk::point(tk::F_CALL); return true; }); }); });
        one("for_each", [](T& w, Ref&, int, Run& run) { run([&] { w.c.for_each([](const auto&) { tk::point(tk::F_CALL); }); w.c.for_each_m([](auto&) { tk::point(tk::F_CALL); }); }); });
        one("with_submap", [](T& w, Ref&, int k, Run& run) { size_t i = k % C::subcnt(); run([&] { w.c.with_submap(i, [](const auto&) { tk::point(tk::F_CALL); }); w.c.with_submap_m(i, [](auto&) { tk::point(tk::F_CALL); }); }); });
    }
    return v;
}
template<class C> void usable(C& t) { // any consistent contents; then it must keep working
    size_t n = 0; std::vector<int> ks;
    for (const auto& e : t) { ks.push_back(W<C>::kof(e)); ++n; }
    VX_CHECK(n == t.size(), "after an exception: traversal visits %zu, size() is %zu", n, t.size());
    for (int k : ks) VX_CHECK(t.contains(W<C>::mk(k)), "after an exception: key %d traversed but not found", k);
    bool fresh = !t.contains(W<C>::mk(2));
    auto p = t.insert(W<C>::mv(2, 5)); VX_CHECK(p.second == fresh, "insertion after an exception");
    t.rehash(0);
    for (int k : ks) VX_CHECK(t.erase(W<C>::mk(k)) == 1, "erase after an exception");
}

template<class C> void body(vx::Ctx& x, std::vector<int> sizes, std::vector<int> pats, std::vector<int> profs) {
    static std::vector<FOp<C>> ops = fops<C>();
    int n = sizes[x.choose((int)sizes.size())], pat = pats[x.choose((int)pats.size())], prof = profs[x.choose((int)profs.size())];
    if (n == 0 && pat != pats[0]) throw vx::Prune{};
    bad_functor = 0; int nk = U + n + 2; set_profile(prof, nk + 4);
    auto& o = ops[x.choose((int)ops.size())];
    int key = 0;
    if (o.keyed) { std::vector<int> ks = { 0 }; if (n > 0) ks.push_back(U); if (n > 1) ks.push_back(U + n - 1); key = ks[x.choose((int)ks.size())]; }
    // every k-th fault until the operation completes without one
    for (long k = 0;; ++k) {
        W<C> w(x, nk);
        build(w, U, n, pat);
        w.where = o.name;
        Ref alt = w.r;
        Run run{ k };
        bool thrown = false; std::string what;
        x.log("%s key %d, fault at point %ld", o.name, key, k);
        try { o.f(w, alt, key, run); }
        catch (tk::Fault&) { thrown = true; }
        catch (std::bad_alloc&) { thrown = true; }
        x.step();
        VX_CHECK(thrown == run.fired, "%s: the exception at point %ld did not reach the caller", o.name, k);
        if (thrown) {
            // resolve the reference: strong = unchanged, else each key old or new
            if (o.kind == PERKEY) {
                for (int q = 0; q < nk; ++q) {
                    auto it = w.c.find(W<C>::mk(q)); bool in = it != w.c.end(); int v = in ? W<C>::vof(*it) : 0;
                    bool as_old = in == w.r.in(q) && (!in || v == w.r.val[q]), as_new = in == alt.in(q) && (!in || v == alt.val[q]);
                    VX_CHECK(as_old || as_new, "%s that threw at point %ld: key %d is %s with value %d, neither the old nor the new state", o.name, k, q, in ? "present" : "absent", v);
                    if (!as_old) { if (in) w.r.put(q, v); else w.r.del(q); }
                }
            }
            for (auto& a : w.r.addr) a = nullptr;
            w.where = "an exception in the operation";
        } else { w.r = alt; for (auto& a : w.r.addr) a = nullptr; }
        w.check();
        // still usable
        for (int q = 0; q < 3; ++q) { auto p = w.c.insert(W<C>::mv(q, 60 + q)); w.inserted("insert after the exception", q, W<C>::MAP ? 60 + q : 0, p.first, p.second); }
        size_t e = w.c.erase(W<C>::mk(key)); VX_CHECK(e == (w.r.in(key) ? 1u : 0u), "erase after the exception"); w.r.del(key);
        w.c.rehash(0); w.where = "rehash(0) after the exception";
        w.check();
        if (!run.fired) break;
        if (k > 3000) vx::harness_error("fault points do not end");
    }
}
template<class C> void reg_for(std::string nm) {
    bool T = vx::thorough;
    std::vector<int> sz; for (int i = 0; i < (T ? 62 : 31); ++i) sz.push_back(i);
    vx::add(nm, 32, 4, [=](vx::Ctx& x) { body<C>(x, sz, { E_NONE, E_ALL, E_EVEN, E_BUT_LAST, E_HALF }, { P_NATURAL, P_ALLEQUAL, P_SAMEPOS, P_WRAP }); });
}
void reg() {
    tk::install();
    reg_for<Map>("map");
    reg_for<Set>("set");
}
VX_MAIN(reg)
