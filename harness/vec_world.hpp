// gtl::vector under test with a vector<int> reference. Operations draw their parameters from the explorer.
#pragma once
#include "track.hpp"
#include <gtl/vector.hpp>
#include <algorithm>
#include <iterator>
#include <stdexcept>
#include <string>
#include <vector>

namespace vw {
struct Pod { int a, b, c, d, e; bool operator==(const Pod& o) const { return a == o.a; } bool operator<(const Pod& o) const { return a < o.a; } };   // trivially copyable, passed by reference
struct Pod2 { int a, b; Pod2(int x = 0) : a(x), b(~x) {} bool operator==(const Pod2& o) const { return a == o.a; } bool operator<(const Pod2& o) const { return a < o.a; } }; // trivially copyable, passed by value
template<class T> struct Cv { static T mk(int i) { return T(i); } static int get(const T& t) { return t.get(); } };
template<> struct Cv<int> { static int mk(int i) { return i; } static int get(int i) { return i; } };
template<> struct Cv<Pod> { static Pod mk(int i) { return Pod{ i, i + 1, i + 2, i + 3, i + 4 }; } static int get(const Pod& p) { if (p.a && (p.e != p.a + 4 || p.c != p.a + 2)) vx::fail("damaged element"); return p.a; } };
template<> struct Cv<Pod2> { static Pod2 mk(int i) { return Pod2(i); } static int get(const Pod2& p) { if (p.b != ~p.a) vx::fail("damaged element"); return p.a; } };
template<> struct Cv<std::string> { static std::string mk(int i) { return i ? std::string(i % 2 ? 3 : 40, 'a') + std::to_string(i) : std::string(); } static int get(const std::string& s) { size_t p = s.find_first_not_of('a'); return p == s.npos ? 0 : atoi(s.c_str() + p); } };

// single-pass iterator over ints giving elements
template<class T> struct InIt {
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = T;
    const int* p;
    T operator*() const { return Cv<T>::mk(*p); }
    InIt& operator++() { ++p; return *this; }
    void operator++(int) { ++p; }
    bool operator==(const InIt& o) const { return p == o.p; }
    bool operator!=(const InIt& o) const { return p != o.p; }
};

template<class V> struct World {
    using T = typename V::value_type; using A = typename V::allocator_type;
    static constexpr bool COPY = std::is_copy_constructible_v<T>;
    static constexpr bool DEF  = std::is_default_constructible_v<T>;
    static constexpr bool CMP  = true;
    static constexpr bool STDA = std::is_same_v<A, std::allocator<T>>;
    vx::Ctx& x;
    V        v;
    std::vector<int> r;
    int      tick = 0;
    std::string where = "start";
    bool     faulty = false, thrown = false, stable = false; // stable: the operation gives the strong guarantee
    long     fault_at = -1;
    World(vx::Ctx& c) : x(c), v(alloc(1)) {}
    static A alloc(int i) { if constexpr (STDA) return A(); else return A(i); }
    static int aid(const V& w) { if constexpr (STDA) return 0; else return w.get_allocator().id; }
    int fresh() { return 100 + ++tick; }
    static T mk(int i) { return Cv<T>::mk(i); }
    static int get(const T& t) { return Cv<T>::get(t); }
    int n() const { return (int)r.size(); }
    const T* data() const { return v.data(); }
    // runs the call on the real vector, with the fault armed in fault mode
    template<class F> bool go(F f) {
        if (!faulty) { f(); return true; }
        try { tk::Arm a(fault_at, tk::F_CTOR | tk::F_COPY | tk::F_MOVE | tk::F_ASSIGN | tk::F_ALLOC); f(); return true; }
        catch (tk::Fault&) { thrown = true; } catch (std::bad_alloc&) { thrown = true; }
        return false;
    }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) { char b[200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); where = b; x.log("%s", b); }
    void ret(const T* it, int i) { VX_CHECK(it == v.data() + i, "%s: returned iterator is at %ld, expected %d", where.c_str(), (long)(it - v.data()), i); }
    void build(int sz, int spare) {
        x.log("start: size %d, spare capacity %d", sz, spare);
        if (sz + spare) v.reserve((size_t)(sz + spare));
        for (int i = 0; i < sz; ++i) { int y = fresh(); v.push_back(mk(y)); r.push_back(y); }
    }
    void check() {
        const V& c = v; const char* w = where.c_str();
        VX_CHECK(c.size() == r.size() && c.empty() == r.empty(), "after %s: size() is %zu, expected %zu", w, c.size(), r.size());
        VX_CHECK(c.capacity() >= c.size(), "after %s: capacity() %zu is below size() %zu", w, c.capacity(), c.size());
        VX_CHECK(c.end() - c.begin() == (long)r.size() && c.data() == &*c.begin(), "after %s: iterators", w);
        size_t i = 0;
        for (const T& e : c) { VX_CHECK(get(e) == r[i], "after %s: element %zu is %d, expected %d", w, i, get(e), r[i]); ++i; }
        for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; VX_CHECK(get(*it) == r[i], "after %s: reverse traversal", w); }
        VX_CHECK(c.cbegin() == c.begin() && c.cend() == c.end() && v.begin() == c.begin() && v.end() == c.end() && c.crbegin().base() == c.end() && c.crend().base() == c.begin() && v.rbegin().base() == v.end() && v.rend().base() == v.begin() && v.data() == c.data() && c.max_size() >= c.capacity(), "after %s: the forms of begin() and end() disagree", w);
        for (i = 0; i < r.size() + 2; ++i) {
            int t1 = 0, t2 = 0; try { VX_CHECK(get(c.at(i)) == r[i] && &c[i] == &c.at(i), "after %s: at(%zu)", w, i); } catch (std::out_of_range&) { t1 = 1; } try { v.at(i); } catch (std::out_of_range&) { t2 = 1; }
            VX_CHECK(t1 == (i >= r.size()) && t2 == t1, "after %s: at(%zu) %s", w, i, t1 ? "throws" : "does not throw");
        }
        if (!r.empty()) VX_CHECK(get(c.front()) == r.front() && get(c.back()) == r.back() && &v.front() == c.data() && &v.back() == c.data() + n() - 1, "after %s: front() / back()", w);
        uint64_t h = 7; h = vx::mix(h, c.capacity()); h = vx::mix(h, c.size()); h = vx::mix(h, std::hash<std::string>()(where)); x.state(h);
    }
    // a vector of m elements for two-vector operations; spare capacity s, allocator a
    void other(V& o, std::vector<int>& q, int m, int s) { o.reserve((size_t)(m + s)); for (int i = 0; i < m; ++i) { int y = fresh(); o.push_back(mk(y)); q.push_back(y); } }
    void same(const V& o, const std::vector<int>& q, const char* nm) { VX_CHECK(o.size() == q.size(), "%s: %s has size %zu, expected %zu", where.c_str(), nm, o.size(), q.size()); for (size_t i = 0; i < q.size(); ++i) VX_CHECK(get(o[i]) == q[i], "%s: element %zu of %s is %d, expected %d", where.c_str(), i, nm, get(o[i]), q[i]); }
    void usable(V& o) { o.clear(); for (int i = 0; i < 3; ++i) o.push_back(mk(i + 1)); VX_CHECK(o.size() == 3 && get(o[2]) == 3, "%s: source is not usable afterwards", where.c_str()); }

    // parameters of operations: drawn from the explorer, or fed again when the operation is repeated with another fault
    std::vector<int> rec, feed; size_t fi = 0;
    int pick(int m) { if (fi < feed.size()) return feed[fi++]; int c = x.choose(m); rec.push_back(c); return c; }
    int pos() { return pick(n() + 1); }
    // source of an inserted value: fresh, or one of the elements
    int src() { return n() ? pick(1 + std::min(n(), 4)) : 0; }
    int srcidx(int s) const { int m = std::min(n(), 4); return s == 0 ? -1 : s == 1 ? 0 : s == m ? n() - 1 : (s - 1) * n() / m; }
    int cnt() { static const int c[] = { 0, 1, 2, 3, 5 }; return c[pick(5)]; }
    // no reallocation may happen when the result fits
    struct Hold { World& w; const T* d; size_t cap; Hold(World& q) : w(q), d(q.v.data()), cap(q.v.capacity()) {} void fits() { if (w.v.size() <= cap) VX_CHECK(w.v.data() == d && w.v.capacity() == cap, "%s: reallocated although the capacity %zu was enough", w.where.c_str(), cap); } };

    enum { N_OPS = 36 };
    // performs operation o; returns false if not applicable
    bool op(int o) {
        stable = false;
        switch (o) {
        case 0: if constexpr (COPY) { int s = src(), i = srcidx(s); note("push_back(const&%s)", s ? " to own element" : ""); stable = true; Hold h(*this); int y = s ? r[i] : fresh(); bool ok; if (s) ok = go([&] { v.push_back(v[(size_t)i]); }); else { const T t = mk(y); ok = go([&] { v.push_back(t); }); } if (ok) { r.push_back(y); h.fits(); } return true; } return false;
        case 1: { int s = src(), i = srcidx(s); note("push_back(&&%s)", s ? " of own element" : ""); stable = !s; Hold h(*this); int y = s ? r[i] : fresh(); bool ok; if (s) ok = go([&] { v.push_back(std::move(v[(size_t)i])); }); else { T t = mk(y); ok = go([&] { v.push_back(std::move(t)); }); } if (ok) { r.push_back(y); h.fits(); } if (s && ok) settle(i); return true; }
        case 2: { int s = COPY ? src() : 0, i = srcidx(s); note("emplace_back(%s)", s ? "own element" : "value"); stable = true; Hold h(*this); int y = s ? r[i] : fresh(); bool ok = false;
            if (s) { if constexpr (COPY) ok = go([&] { auto& e = v.emplace_back(v[(size_t)i]); VX_CHECK(&e == &v.back(), "emplace_back returns a wrong reference"); }); } else ok = go([&] { auto& e = eb(y); VX_CHECK(&e == &v.back(), "emplace_back returns a wrong reference"); });
            if (ok) { r.push_back(y); h.fits(); } return true; }
        case 3: if constexpr (COPY) { int p = pos(), s = src(), i = srcidx(s); note("insert(%d, const&%s)", p, s ? " to own element" : ""); stable = p == n(); int y = s ? r[i] : fresh(); const T* it = nullptr; bool ok; if (s) ok = go([&] { it = v.insert(v.begin() + p, v[(size_t)i]); }); else { const T t = mk(y); ok = go([&] { it = v.insert(v.begin() + p, t); }); } if (ok) { r.insert(r.begin() + p, y); ret(it, p); } return true; } return false;
        case 4: { int p = pos(), s = src(), i = srcidx(s); note("insert(%d, &&%s)", p, s ? " own element" : ""); stable = p == n() && !s; int y = s ? r[i] : fresh(); const T* it = nullptr; bool ok; if (s) ok = go([&] { it = v.insert(v.begin() + p, std::move(v[(size_t)i])); }); else { T t = mk(y); ok = go([&] { it = v.insert(v.begin() + p, std::move(t)); }); } if (ok) { r.insert(r.begin() + p, y); ret(it, p); if (s) settle(i >= p ? i + 1 : i); } return true; }
        case 5: { int p = pos(), s = COPY ? src() : 0, i = srcidx(s); note("emplace(%d, %s)", p, s ? "own element" : "value"); stable = p == n(); int y = s ? r[i] : fresh(); const T* it = nullptr; bool ok = false; if (s) { if constexpr (COPY) ok = go([&] { it = v.emplace(v.begin() + p, v[(size_t)i]); }); } else ok = go([&] { it = em(p, y); }); if (ok) { r.insert(r.begin() + p, y); ret(it, p); } return true; }
        case 6: if constexpr (COPY) { int p = pos(), c = cnt(), s = src(), i = srcidx(s); note("insert(%d, %d copies%s)", p, c, s ? " of own element" : ""); stable = p == n(); int y = s ? r[i] : fresh(); const T* it = nullptr; bool ok; if (s) ok = go([&] { it = v.insert(v.begin() + p, (size_t)c, v[(size_t)i]); }); else { const T t = mk(y); ok = go([&] { it = v.insert(v.begin() + p, (size_t)c, t); }); } if (ok) { r.insert(r.begin() + p, (size_t)c, y); ret(it, p); } return true; } return false;
        case 7: if constexpr (COPY) { int p = pos(), c = cnt(); note("insert(%d, range of %d)", p, c); stable = p == n(); std::vector<T> t; std::vector<int> q; t.reserve(8); for (int k = 0; k < c; ++k) { q.push_back(fresh()); t.push_back(mk(q.back())); } const T* it = nullptr; if (go([&] { it = v.insert(v.begin() + p, t.begin(), t.end()); })) { r.insert(r.begin() + p, q.begin(), q.end()); ret(it, p); } return true; } return false;
        case 8: { int p = pos(), c = cnt(); note("insert(%d, input range of %d)", p, c); std::vector<int> q; for (int k = 0; k < c; ++k) q.push_back(fresh()); const T* it = nullptr; if (go([&] { it = v.insert(v.begin() + p, InIt<T>{ q.data() }, InIt<T>{ q.data() + c }); })) { r.insert(r.begin() + p, q.begin(), q.end()); ret(it, p); } return true; }
        case 9: if constexpr (COPY) { int p = pos(); note("insert(%d, list)", p); stable = p == n(); int a = fresh(), b = fresh(); std::initializer_list<T> il = { mk(a), mk(b) }; const T* it = nullptr; if (go([&] { it = v.insert(v.begin() + p, il); })) { r.insert(r.begin() + p, { a, b }); ret(it, p); } return true; } return false;
        case 10: { int p = pos(), c = cnt(); note("insert(%d, moved range of %d)", p, c); std::vector<T> t; std::vector<int> q; t.reserve(8); for (int k = 0; k < c; ++k) { q.push_back(fresh()); t.push_back(mk(q.back())); } const T* it = nullptr; if (go([&] { it = v.insert(v.begin() + p, std::make_move_iterator(t.begin()), std::make_move_iterator(t.end())); })) { r.insert(r.begin() + p, q.begin(), q.end()); ret(it, p); } return true; }
        case 11: { if (!n()) return false; int p = pick(n()); note("erase(%d)", p); Hold h(*this); const T* it = nullptr; if (go([&] { it = v.erase(v.begin() + p); })) { r.erase(r.begin() + p); ret(it, p); h.fits(); } return true; }
        case 12: { int p = pos(), l = pick(n() - p + 1); note("erase(%d, %d)", p, p + l); Hold h(*this); const T* it = nullptr; if (go([&] { it = v.erase(v.begin() + p, v.begin() + p + l); })) { r.erase(r.begin() + p, r.begin() + p + l); ret(it, p); h.fits(); } return true; }
        case 13: if constexpr (DEF) { int c = pick(n() + (int)(v.capacity() - v.size()) + 3); note("resize(%d)", c); Hold h(*this); if (go([&] { v.resize((size_t)c); })) { for (int k = n(); k < c; ++k) VX_CHECK(get(v[(size_t)k]) == 0, "resize(%d): new element %d is not value-initialized", c, k); r.resize((size_t)c, 0); h.fits(); } return true; } return false;
        case 14: if constexpr (COPY) { int c = pick(n() + (int)(v.capacity() - v.size()) + 3), s = src(), i = srcidx(s); note("resize(%d, %s)", c, s ? "own element" : "value"); Hold h(*this); int y = s ? r[i] : fresh(); bool ok; if (s) ok = go([&] { v.resize((size_t)c, v[(size_t)i]); }); else { const T t = mk(y); ok = go([&] { v.resize((size_t)c, t); }); } if (ok) { r.resize((size_t)c, y); h.fits(); } return true; } return false;
        case 15: if constexpr (COPY) { int c = pick(n() + (int)(v.capacity() - v.size()) + 3), s = src(), i = srcidx(s); note("assign(%d, %s)", c, s ? "own element" : "value"); int y = s ? r[i] : fresh(); bool ok; if (s) ok = go([&] { v.assign((size_t)c, v[(size_t)i]); }); else { const T t = mk(y); ok = go([&] { v.assign((size_t)c, t); }); } if (ok) r.assign((size_t)c, y); return true; } return false;
        case 16: if constexpr (COPY) { int c = pick(n() + (int)(v.capacity() - v.size()) + 3); note("assign(range of %d)", c); std::vector<T> t; std::vector<int> q; t.reserve((size_t)c + 1); for (int k = 0; k < c; ++k) { q.push_back(fresh()); t.push_back(mk(q.back())); } if (go([&] { v.assign(t.begin(), t.end()); })) r = q; return true; } return false;
        case 17: { int c = pick(n() + (int)(v.capacity() - v.size()) + 3); note("assign(input range of %d)", c); std::vector<int> q; q.reserve((size_t)c + 1); for (int k = 0; k < c; ++k) q.push_back(fresh()); if (go([&] { v.assign(InIt<T>{ q.data() }, InIt<T>{ q.data() + c }); })) r = q; return true; }
        case 18: if constexpr (COPY) { int w = pick(2); note(w ? "= list" : "assign(list)"); int a = fresh(), b = fresh(); std::initializer_list<T> il = { mk(a), mk(b) }; if (go([&] { if (w) v = il; else v.assign(il); })) r = { a, b }; return true; } return false;
        case 19: { int c = pick(n() + (int)(v.capacity() - v.size()) + 4); note("reserve(%d)", c); stable = true; Hold h(*this); if (go([&] { v.reserve((size_t)c); })) { VX_CHECK((int)v.capacity() >= c, "reserve(%d) gives capacity %zu", c, v.capacity()); if (c <= (int)h.cap) h.fits(); } return true; }
        case 20: { note("reserve, then fill up"); int c = n() + 3; if (faulty) return false; v.reserve((size_t)c); const T* d = v.data(); while (n() < c) { int y = fresh(); v.push_back(mk(y)); r.push_back(y); } VX_CHECK(v.data() == d, "reallocation within reserved capacity"); return true; }
        case 21: { note("shrink_to_fit"); stable = true; size_t c0 = v.capacity(); bool ok = go([&] { v.shrink_to_fit(); }); VX_CHECK(ok, "shrink_to_fit throws"); VX_CHECK(v.capacity() <= c0, "shrink_to_fit enlarged the capacity"); if (faulty && tk::fault_fired) thrown = true; return true; }
        case 22: { note("clear"); Hold h(*this); v.clear(); r.clear(); h.fits(); return true; }
        case 23: { if (!n()) return false; note("pop_back"); Hold h(*this); v.pop_back(); r.pop_back(); h.fits(); return true; }
        case 24: { int m = mo(), s = pick(2) * 2, f = pick(2); note("swap with %d elements", m); V o(alloc(swap_alloc())); std::vector<int> q; other(o, q, m, s); int a = aid(v), b = aid(o); const T *d1 = v.data(), *d2 = o.data(); if (f) v.swap(o); else { using std::swap; swap(v, o); } std::swap(r, q); same(o, q, "the other"); VX_CHECK(v.data() == d2 && o.data() == d1, "swap moves elements"); if (ps()) std::swap(a, b); VX_CHECK(aid(v) == a && aid(o) == b, "swap: allocators are %d and %d, expected %d and %d", aid(v), aid(o), a, b); return true; }
        case 25: if constexpr (COPY) { int m = mo(), s = pick(2) * 2; note("= copy of %d elements", m); V o(alloc(2)); std::vector<int> q; other(o, q, m, s); int a = pc() ? aid(o) : aid(v); if (go([&] { V& g = (v = o); VX_CHECK(&g == &v, "operator= returns *this"); })) { r = q; VX_CHECK(aid(v) == a, "copy assignment: allocator is %d, expected %d", aid(v), a); } same(o, q, "the source"); return true; } return false;
        case 26: { int m = mo(), s = pick(2) * 2, e = pick(2); note("= move of %d elements, %s allocator", m, e ? "equal" : "different"); V o(alloc(e ? aid(v) : 2)); std::vector<int> q; other(o, q, m, s); int a = pm() ? aid(o) : aid(v); bool eq = aid(o) == aid(v); const T* d = o.data();
            if (go([&] { move_assign(o); })) { r = q; VX_CHECK(aid(v) == a, "move assignment: allocator is %d, expected %d", aid(v), a); if (eq || pm()) VX_CHECK(v.data() == d, "move assignment copied the elements"); usable(o); } return true; }
        case 27: if constexpr (COPY) { int w = pick(2); note(w ? "replace by a copy with another allocator" : "replace by a copy"); if (w) { go([&] { V t(v, alloc(2)); same(t, r, "the copy"); VX_CHECK(aid(t) == aid_of(2), "copy with allocator"); }); } else go([&] { V t(v); same(t, r, "the copy"); VX_CHECK(aid(t) == aid(v), "copy has another allocator"); if (!faulty) { v.clear(); same(t, r, "the copy"); v = t; } }); return true; } return false;
        case 28: { int w = pick(3); note(w == 0 ? "move construct" : w == 1 ? "move construct with equal allocator" : "move construct with another allocator"); const T* d = v.data(); std::vector<int> q = r; int a = aid(v);
            go([&] { if (w == 0) { V t(std::move(v)); same(t, q, "the new vector"); VX_CHECK(t.data() == d && aid(t) == a, "move construction"); VX_CHECK(v.empty(), "moved-from vector is not empty"); r.clear(); }
                else { V t(std::move(v), alloc(w == 1 ? a : 2)); same(t, q, "the new vector"); if (w == 1 || STDA) VX_CHECK(t.data() == d, "move construction with equal allocator copied"); VX_CHECK(aid(t) == aid_of(w == 1 ? a : 2), "move construction with allocator"); usable(v); r = { 1, 2, 3 }; } }); return true; }
        case 29: { int m = cnt(); note("compare with others"); V o(alloc(2)); std::vector<int> q; for (int k = 0; k < m && k < n(); ++k) q.push_back(r[(size_t)k]); int w = pick(3); if (w == 1) q.push_back(1); if (w == 2) q.push_back(1000000); for (int z : q) o.push_back(mk(z));
            const V &a = v, &b = o; if (std::is_same_v<T, std::string>) { VX_CHECK((a == b) == (r == q) && (a != b) == (r != q), "comparison"); return true; }
            VX_CHECK((a == b) == (r == q) && (a != b) == (r != q) && (a < b) == (r < q) && (a > b) == (r > q) && (a <= b) == (r <= q) && (a >= b) == (r >= q) && a == a && !(a < a), "comparison"); return true; }
        case 30: { note("construct"); int c = cnt(), w = pick(4); if (faulty && w == 3) return false; 
            go([&] { if (w == 0) { if constexpr (DEF) { V t((size_t)c, alloc(2)); VX_CHECK((int)t.size() == c && aid(t) == aid_of(2), "vector(n)"); for (auto& e : t) VX_CHECK(get(e) == 0, "vector(n) element"); } }
            else if (w == 1) { if constexpr (COPY) { T z = mk(5); V t((size_t)c, z, alloc(2)); same(t, std::vector<int>((size_t)c, 5), "vector(n, value)"); } }
            else if (w == 2) { std::vector<int> q((size_t)c, 6); V t(InIt<T>{ q.data() }, InIt<T>{ q.data() + c }, alloc(2)); same(t, q, "vector(input range)"); }
            else { if constexpr (COPY) { V t({ mk(1), mk(2) }, alloc(2)); same(t, { 1, 2 }, "vector(list)"); V u(v.begin(), v.end(), alloc(2)); same(u, r, "vector(range)"); } } }); return true; }
        case 31: { note("erase / erase_if"); int w = pick(2); if (faulty) return false; if (w) { using gtl::erase_if; erase_if(v, [](const T& t) { return get(t) % 2 == 0; }); r.erase(std::remove_if(r.begin(), r.end(), [](int q) { return q % 2 == 0; }), r.end()); } else if constexpr (COPY) { if (!n()) return true; using gtl::erase; int y = r[(size_t)n() / 2]; erase(v, mk(y)); r.erase(std::remove(r.begin(), r.end(), y), r.end()); } return true; }
        case 32: { note("self assignment and self swap"); if (faulty) return false; V& o = v; if constexpr (COPY) v = o; v.swap(o); int w = pick(2); if (w) { v = std::move(o); } return true; }
        case 33: if constexpr (DEF) { int c = pick(n() + 3); note("compactResize(%d)", c); if (faulty) return false; gtl::compactResize(&v, (size_t)c); r.resize((size_t)c, 0); return true; } return false;
        case 34: { note("relinquish and attach"); if (faulty) return false; size_t s = v.size(), c = v.capacity(); T* d = gtl::relinquish(v); VX_CHECK(v.empty() && v.capacity() == 0, "relinquish"); gtl::attach(v, d, s, c); return true; }
        case 35: { note("steal_data and take over"); if (faulty) return false; size_t s = v.size(), c = v.capacity(); const T* d = v.data(); auto p = v.steal_data(); VX_CHECK(p.get() == d && v.empty() && v.capacity() == 0, "steal_data"); V t(std::move(p), s, c, alloc(aid(v))); v = std::move(t); return true; }
        }
        return false;
    }
    static int aid_of(int i) { return STDA ? 0 : i; }
    int mo() { static const int c[] = { 0, 1, 3, 7 }; return c[pick(4)]; }
    static constexpr bool ps() { if constexpr (STDA) return false; else return std::allocator_traits<A>::propagate_on_container_swap::value; }
    static constexpr bool pc() { if constexpr (STDA) return false; else return std::allocator_traits<A>::propagate_on_container_copy_assignment::value; }
    static constexpr bool pm() { if constexpr (STDA) return true; else return std::allocator_traits<A>::propagate_on_container_move_assignment::value; }
    int swap_alloc() { return ps() ? 2 : aid(v); }
    // operator=(vector&&) is noexcept: faults cannot be injected where it has to move single elements
    void move_assign(V& o) { if (faulty) { long k = tk::fault_countdown; tk::fault_countdown = -1; v = std::move(o); tk::fault_countdown = k; } else v = std::move(o); }
    T& eb(int y) { if constexpr (std::is_same_v<T, Pod>) return v.emplace_back(mk(y)); else if constexpr (std::is_same_v<T, std::string>) return v.emplace_back(mk(y)); else if constexpr (std::is_constructible_v<T, int, int>) return v.emplace_back(y - 50, 50); else return v.emplace_back(y); }
    T* em(int p, int y) { if constexpr (std::is_same_v<T, Pod>) return v.emplace(v.begin() + p, mk(y)); else if constexpr (std::is_same_v<T, std::string>) return v.emplace(v.begin() + p, mk(y)); else if constexpr (std::is_constructible_v<T, int, int>) return v.emplace(v.begin() + p, y - 50, 50); else return v.emplace(v.begin() + p, y); }
    void settle(int i) { int y = fresh(); v[(size_t)i] = mk(y); r[(size_t)i] = y; } // a moved-from element gets a value again
};
} // namespace vw
