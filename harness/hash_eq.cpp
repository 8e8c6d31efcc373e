// C26: coherence of the default hash and equality, interchangeable key types, precomputed hashes.
// FAMG selects a group of key types. For every container kind, content and pair (present, asked
// for) every form of the key goes through every operation; the reference is the value denoted.
#include "track.hpp"
#include <gtl/bit_vector.hpp>
#include <gtl/btree.hpp>
#include <gtl/intrusive.hpp>
#include <gtl/phmap.hpp>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <shared_mutex>
#include <string>
#include <string_view>
#ifndef FAMG
#define FAMG 1
#endif
using std::string; using std::string_view; using std::vector;

// ---- key families. value(i): the key; cls(i): equal keys have equal classes (written down independently
// of the library); form(i, f, fn): calls fn with an object of the f-th form denoting value i
static vector<string> strs() {
    static vector<string> v = [] {
        vector<string> r{ "" };
        const char al[] = { 'a', 'b', '\0', '\xff' };
        for (size_t b = 0, len = 1; len <= 3; ++len) { size_t e = r.size(); for (size_t i = b; i < e; ++i) if (r[i].size() == len - 1) for (char c : al) r.push_back(r[i] + c); b = e; }
        for (int n : { 7, 8, 9, 15, 16, 17, 31, 32, 33, 64 }) { r.push_back(string(n, 'a')); r.push_back(string(n - 1, 'a') + 'b'); if (n % 8) continue; r.push_back("b" + string(n - 1, 'a')); r.push_back(string(n, '\0')); }
        return r;
    }();
    return v;
}
template<class C> static std::basic_string<C> widen(const string& s) { std::basic_string<C> r; for (unsigned char c : s) r.push_back(c == 0xff ? (C)~(C)0 : (C)(c * (sizeof(C) > 1 ? 0x101 : 1))); return r; }

template<class C, bool VIEW> struct StrFam { // keys basic_string<C> or basic_string_view<C>
    using S = std::basic_string<C>; using V = std::basic_string_view<C>;
    using K = std::conditional_t<VIEW, V, S>;
    static constexpr int nforms = 6; static constexpr bool insertable = true; static constexpr bool stable = true;
    static const vector<S>& all() { static vector<S> v = [] { vector<S> r; for (auto& s : strs()) r.push_back(widen<C>(s)); return r; }(); return v; }
    static int n() { return (int)all().size(); }
    static K value(int i) { return K(all()[i]); }
    static int cls(int i) { return i; }
    static bool valid(int i, int f) { return f == 1 ? true : f == 2 || f == 5 ? all()[i].find(C(0)) == S::npos : true; }
    template<class F> static void form(int i, int f, F fn) {
        S s = all()[i];
        switch (f) {
        case 0: { const K k(all()[i]); fn(k); return; }
        case 1: { V v = all()[i]; fn(v); return; }
        case 2: { const C* p = all()[i].c_str(); fn(p); return; }
        case 3: { const S& t = all()[i]; fn(t); return; }
        case 4: { S big = S(3, C('z')) + s + S(2, C('y')); static S keep; keep = big; // a view into the middle of something else
                  if constexpr (VIEW) { V v(all()[i]); fn(v); } else { V v = V(keep).substr(3, s.size()); fn(v); } return; }
        case 5: { C* p = const_cast<C*>(all()[i].c_str()); fn(p); return; }
        }
    }
};
template<class T> struct IntFam { // every value of a small type, boundaries of a large one; forms: every integer type that holds the value
    using K = T;
    static constexpr int nforms = 5; static constexpr bool insertable = true; static constexpr bool stable = true;
    static const vector<T>& all() {
        static vector<T> v = [] {
            vector<T> r; std::set<T> seen; auto add = [&](T t) { if (seen.insert(t).second) r.push_back(t); };
            using L = std::numeric_limits<T>;
            if constexpr (sizeof(T) <= 1) { for (int i = L::min(); i <= (int)L::max(); ++i) add((T)i); }
            else { for (int i = -40; i <= 40; ++i) { add((T)i); add((T)(L::max() - (T)(i & 31))); add((T)(L::min() + (T)(i & 31))); }
                   for (size_t b = 0; b < sizeof(T) * 8; ++b) for (int d = -1; d <= 1; ++d) add((T)(((unsigned long long)1 << b) + (unsigned long long)(long long)d)); }
            return r; }();
        return v;
    }
    static int n() { return (int)all().size(); }
    static T value(int i) { return all()[i]; }
    static int cls(int i) { return i; }
    template<class U> static bool fits(T t) { if constexpr (std::is_same_v<T, bool>) return true; else return std::in_range<U>(t); }
    static bool valid(int i, int f) { T t = all()[i];
        if constexpr (std::is_same_v<T, bool> || std::is_same_v<T, char> || std::is_same_v<T, wchar_t>) return f == 0;
        else return f == 0 ? true : f == 1 ? fits<int>(t) : f == 2 ? fits<long long>(t) : f == 3 ? fits<signed char>(t) : fits<unsigned short>(t); }
    template<class F> static void form(int i, int f, F fn) {
        T t = all()[i];
        switch (f) { case 0: { const T k = t; fn(k); return; } case 1: { int k = (int)t; fn(k); return; } case 2: { long long k = (long long)t; fn(k); return; } case 3: { signed char k = (signed char)t; fn(k); return; } default: { unsigned short k = (unsigned short)t; fn(k); return; } }
    }
};
template<class T> struct FltFam { // both zeros are equal
    using K = T;
    static constexpr int nforms = 2; static constexpr bool insertable = true; static constexpr bool stable = true;
    static const vector<T>& all() { static vector<T> v = [] { using L = std::numeric_limits<T>; vector<T> r{ T(0), -T(0) };
        for (T t : { T(1), T(0.5), T(1.5), L::min(), L::max(), L::denorm_min(), L::infinity(), L::epsilon(), T(3e9), T(1) + L::epsilon() }) { r.push_back(t); r.push_back(-t); } for (int i = 2; i < 20; ++i) { r.push_back(T(i)); r.push_back(T(-i)); } return r; }(); return v; }
    static int n() { return (int)all().size(); }
    static T value(int i) { return all()[i]; }
    static int cls(int i) { return i == 1 ? 0 : i; }
    static bool valid(int i, int f) { return f == 0 || (T)(float)all()[i] == all()[i]; }
    template<class F> static void form(int i, int f, F fn) { T t = all()[i]; if (f == 0) { const T k = t; fn(k); } else { float k = (float)t; fn(k); } }
};
enum E1 { e_a, e_b, e_c = 1000, e_d = -7 }; enum class E2 : unsigned char { x, y, z = 255 };
struct Usr { int a; string b; double c; friend bool operator==(const Usr& p, const Usr& q) { return p.a == q.a && p.b == q.b && p.c == q.c; }
    friend size_t hash_value(const Usr& u) { return gtl::HashState().combine(0, u.a, u.b, u.c); } };
struct Usr2 { int a; bool operator==(const Usr2&) const = default; };   // hashed through std::hash
struct Usr3 { int a, tag; friend bool operator==(const Usr3& p, const Usr3& q) { return p.a == q.a; } friend size_t hash_value(const Usr3& u) { return (size_t)u.a; } }; // equal values may differ
namespace std { template<> struct hash<Usr2> { size_t operator()(const Usr2& u) const noexcept { return (size_t)u.a * 77; } }; }
template<class T> struct ListFam; // explicit list of values with classes
#define LIST(T, NAME, ...) struct NAME { using K = T; static constexpr int nforms = 2; static constexpr bool insertable = true; static constexpr bool stable = true; \
    static const vector<std::pair<T, int>>& all() { static vector<std::pair<T, int>> v = [] { vector<std::pair<T, int>> r; __VA_ARGS__; return r; }(); return v; } \
    static int n() { return (int)all().size(); } static T value(int i) { return all()[i].first; } static int cls(int i) { return all()[i].second; } \
    static bool valid(int, int) { return true; } template<class F> static void form(int i, int f, F fn) { if (f == 0) { const T k = all()[i].first; fn(k); } else { T k = all()[i].first; fn(k); } } }
static const double zz[] = { 0.0, -0.0, 1.0, -1.0, 1.5 }; static int zc(int i) { return i == 1 ? 0 : i; }
using PII = std::pair<int, int>; using PDF = std::pair<double, float>; using PSI = std::pair<string, int>; using TDS = std::tuple<double, string, signed char>; using NEST = std::pair<std::tuple<float, int>, std::pair<double, bool>>; using T0 = std::tuple<>; using T1d = std::tuple<double>;
using PTR = std::tuple<int, std::pair<float, float>, double>; using OPT = std::optional<int>;
LIST(PII, FPii, for (int a = -3; a < 4; ++a) for (int b = -3; b < 4; ++b) r.push_back({ { a, b }, a * 100 + b }); r.push_back({ { INT_MAX, INT_MIN }, 9000 }); r.push_back({ { INT_MIN, INT_MAX }, 9001 }));
LIST(PDF, FPdf, for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) r.push_back({ { zz[a], (float)zz[b] }, zc(a) * 10 + zc(b) }));
LIST(PSI, FPsi, for (int a = 0; a < 12; ++a) for (int b = 0; b < 4; ++b) r.push_back({ { strs()[a * 7 % strs().size()], b }, a * 10 + b }));
LIST(TDS, FTds, for (int a = 0; a < 5; ++a) for (int b = 0; b < 3; ++b) for (int c = -1; c < 2; ++c) r.push_back({ { zz[a], strs()[b], (signed char)c }, zc(a) * 100 + b * 10 + c }));
LIST(NEST, FNest, for (int a = 0; a < 4; ++a) for (int b = 0; b < 2; ++b) for (int c = 0; c < 3; ++c) for (int d = 0; d < 2; ++d) r.push_back({ { { (float)zz[a], b }, { zz[c], d == 1 } }, zc(a) * 1000 + b * 100 + zc(c) * 10 + d }));
LIST(T0, FT0, r.push_back({ {}, 0 }));
LIST(T1d, FT1, for (int a = 0; a < 5; ++a) r.push_back({ { zz[a] }, zc(a) }));
LIST(PTR, FPtr, for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < 3; ++c) for (int d = 0; d < 3; ++d) r.push_back({ { a, { (float)zz[b], (float)zz[c] }, zz[d] }, a * 1000 + zc(b) * 100 + zc(c) * 10 + zc(d) }));
LIST(OPT, FOpt, r.push_back({ OPT{}, -1 }); for (int a = 0; a < 9; ++a) r.push_back({ a * a, a }));
LIST(E1, FE1, r.push_back({ e_a, 0 }); r.push_back({ e_b, 1 }); r.push_back({ e_c, 2 }); r.push_back({ e_d, 3 }));
LIST(E2, FE2, r.push_back({ E2::x, 0 }); r.push_back({ E2::y, 1 }); r.push_back({ E2::z, 2 }));
LIST(Usr, FUsr, for (int a = 0; a < 3; ++a) for (int b = 0; b < 6; ++b) for (int c = 0; c < 4; ++c) r.push_back({ { a, strs()[b * 5], zz[c] }, a * 1000 + b * 10 + zc(c) }));
LIST(Usr2, FUsr2, for (int a = -5; a < 15; ++a) r.push_back({ { a * a * a }, a }));
LIST(Usr3, FUsr3, for (int a = -5; a < 15; ++a) for (int t = 0; t < 2; ++t) r.push_back({ { a, t }, a }));
using BV = gtl::bit_vector;
static BV bvh(const vector<int>& bits, int n, int hist) { // the same value by different histories
    BV v;
    if (hist == 0) v.resize(n);
    else if (hist == 1) { v.resize(n + 70, true); v.resize(n); v.reset(); }
    else if (hist == 2) { v.resize(n); v.flip(); v.flip(); }
    else { v.resize(n, true); for (int i = 0; i < n; ++i) v.reset(i); v.resize(n + 3, true); v.resize(n); }
    for (int b : bits) v.set(b);
    return v; }
LIST(BV, FBv, int c = 0; for (int n : { 0, 1, 2, 63, 64, 65, 130 }) { vector<vector<int>> cs{ {} }; for (int b = 0; b < n; b += (n > 60 ? 31 : 1)) cs.push_back({ b }); if (n > 1) cs.push_back({ 0, n - 1 }); for (auto& s : cs) { ++c; for (int h = 0; h < 4; ++h) r.push_back({ bvh(s, n, h), c }); } });

struct Base { virtual ~Base() = default; int x = 0; }; struct Other { virtual ~Other() = default; int o = 0; }; struct Der : Other, Base { };
static Base* objs(int i) { static vector<std::unique_ptr<Base>> v; if (v.empty()) for (int k = 0; k < 24; ++k) v.emplace_back(k & 1 ? new Der : new Base); return i ? v[i - 1].get() : nullptr; }
template<int W> struct PtrFam { // W: 0 raw pointer keys, 1 shared_ptr, 2 pointer to const
    using SP = std::shared_ptr<Base>;
    using K = std::conditional_t<W == 1, SP, std::conditional_t<W == 2, const Base*, Base*>>;
    static constexpr int nforms = 6; static constexpr bool insertable = false; static constexpr bool stable = false;
    static SP sp(int i) { return SP(SP(), objs(i)); }
    static int n() { return 20; }
    static K value(int i) { if constexpr (W == 1) return sp(i); else return objs(i); }
    static int cls(int i) { return i; }
    static bool valid(int i, int f) { return f != 4 || (i && i % 2 == 0); }
    template<class F> static void form(int i, int f, F fn) {
        auto nodel = [](auto*) {};
        switch (f) {
        case 0: { const K k = value(i); fn(k); return; }
        case 1: { Base* p = objs(i); fn(p); return; }
        case 2: { const Base* p = objs(i); fn(p); return; }
        case 3: { std::unique_ptr<Base, decltype(nodel)> p(objs(i), nodel); fn(p); return; }
        case 4: { std::shared_ptr<Der> d(std::shared_ptr<Der>(), static_cast<Der*>(objs(i))); fn(d); return; } // derived object: another address
        case 5: { SP p = sp(i); fn(p); return; }
        }
    }
};
struct UniqFam { // unique_ptr keys: move only
    struct D { void operator()(Base*) const {} };
    using K = std::unique_ptr<Base, D>;
    static constexpr int nforms = 4; static constexpr bool insertable = false; static constexpr bool stable = false;
    static int n() { return 20; } static K value(int i) { return K(objs(i)); } static int cls(int i) { return i; } static bool valid(int, int) { return true; }
    template<class F> static void form(int i, int f, F fn) {
        switch (f) { case 0: { const K k(objs(i)); fn(k); return; } case 1: { Base* p = objs(i); fn(p); return; } case 2: { std::shared_ptr<Base> p(std::shared_ptr<Base>(), objs(i)); fn(p); return; } default: { const Base* p = objs(i); fn(p); return; } }
    }
};
struct IObj : gtl::intrusive_ref_counter<IObj, gtl::thread_unsafe_counter> { int v = 0; };
struct IFam { // intrusive_ptr: hash_value and std::hash
    using K = gtl::intrusive_ptr<IObj>;
    static constexpr int nforms = 2; static constexpr bool insertable = true; static constexpr bool stable = false;
    static K value(int i) { static vector<K> v; if (v.empty()) for (int k = 0; k < 20; ++k) v.emplace_back(k ? new IObj : nullptr); return v[i]; }
    static int n() { return 20; } static int cls(int i) { return i; } static bool valid(int, int) { return true; }
    template<class F> static void form(int i, int f, F fn) {
        if (f == 0) { const K k = value(i); VX_CHECK(hash_value(k) == std::hash<K>()(k) && gtl::Hash<K>()(k) == hash_value(k), "hashes of an intrusive_ptr disagree"); fn(k); }
        else { K k = value(i); K m = k; fn(m); } }
};

// ---- containers
template<class C> constexpr bool is_par = requires(C& c) { c.subcnt(); };
template<class C> constexpr bool is_map = requires { typename C::mapped_type; };
template<class C> static const auto& key_of(const typename C::value_type& v) { if constexpr (is_map<C>) return v.first; else return v; }
template<class C, class Fam> static void put(C& c, int i) {
    if constexpr (is_map<C>) c.emplace(Fam::value(i), i); else c.emplace(Fam::value(i)); }

template<class C, class Fam> static void one(vx::Ctx& x) {
    using K = typename Fam::K;
    int n = Fam::n(), j = x.choose(n), f = x.choose(Fam::nforms);
    if (!Fam::valid(j, f)) throw vx::Prune{};
    // content: nothing, everything, everything else, only the one, one other
    int content = x.choose(5), other = content == 4 ? (n > 24 ? (j + 1 + x.choose(23) * (n / 24)) % n : x.choose(n)) : 0;
    C c; std::map<int, int> ref; // class -> value index stored
    auto in = [&](int i) { put<C, Fam>(c, i); ref.emplace(Fam::cls(i), i); };
    int J = Fam::cls(j);
    switch (content) {
    case 0: break;
    case 1: for (int i = 0; i < n; ++i) if (vx::thorough || n < 24 || i % 4 == j % 4 || Fam::cls(i) == J) in(i); break;
    case 2: for (int i = 0; i < n; ++i) if ((vx::thorough || n < 24 || i % 4 == (j + 1) % 4) && Fam::cls(i) != J) in(i); break;
    case 3: { int k = j; for (int i = 0; i < n; ++i) if (Fam::cls(i) == J && i != j) { k = i; break; } in(k); break; } // an equal key, another object if there is one
    case 4: in(other); break;
    }
    auto sync = [&](const char* w) {
        VX_CHECK(c.size() == ref.size(), "%s: size is %zu, expected %zu", w, (size_t)c.size(), ref.size());
        size_t cnt = 0; for (auto& e : c) { ++cnt; (void)e; } VX_CHECK(cnt == ref.size(), "%s: traversal yields %zu, expected %zu", w, cnt, ref.size());
        if constexpr (is_map<C>) for (auto& [k, v] : c) { auto it = ref.find(Fam::cls(v < 100000 ? v : v - 100000)); VX_CHECK(it != ref.end() && it->second == v, "%s: element with value %d is not expected", w, v); }
    };
    sync("after filling");
    bool has = ref.count(J); int val = has ? ref[J] : -1;
    auto ok = [&](const typename C::value_type& e) { // is e the element of class J
        if constexpr (is_map<C>) return e.second == val; else return key_of<C>(e) == Fam::value(j); };
    const C& cc = c;
    Fam::form(j, f, [&](auto& k) {
        size_t h0; { const K kk = Fam::value(j); h0 = cc.hash(kk); }
        x.log("value %d form %d content %d", j, f, content);
        VX_CHECK(cc.hash(k) == h0, "value %d: hash of form %d is %zx, of the key type %zx", j, f, cc.hash(k), h0);
        for (int i = 0; i < n; ++i) if (Fam::cls(i) == J) { const K kk = Fam::value(i); VX_CHECK(cc.hash(kk) == h0, "values %d and %d are equal and hash differently", i, j); VX_CHECK(c.key_eq()(kk, k) && c.key_eq()(k, kk), "values %d and %d are equal but do not compare equal", i, j); }
            else if (i % 7 == j % 7) { const K kk = Fam::value(i); VX_CHECK(!c.key_eq()(kk, k), "values %d and %d differ but compare equal", i, j); }
        VX_EQ(c.contains(k), has, "contains"); VX_EQ(cc.count(k), has ? 1u : 0u, "count");
        { auto it = c.find(k); VX_EQ(it != c.end(), has, "find"); if (has) VX_CHECK(ok(*it), "find gives another element"); }
        { auto it = cc.find(k); VX_EQ(it != cc.end(), has, "const find"); if (has) VX_CHECK(ok(*it), "const find gives another element"); }
        { auto it = c.find(k, h0); VX_EQ(it != c.end(), has, "find with hash"); if (has) VX_CHECK(ok(*it), "find with hash gives another element"); }
        { auto it = cc.find(k, h0); VX_EQ(it != cc.end(), has, "const find with hash"); }
        VX_EQ(cc.contains(k, h0), has, "contains with hash");
        { auto p = c.equal_range(k); VX_EQ(std::distance(p.first, p.second), has ? 1 : 0, "equal_range"); }
        { auto p = cc.equal_range(k); VX_EQ(std::distance(p.first, p.second), has ? 1 : 0, "const equal_range"); }
        c.prefetch(k);
        if constexpr (is_map<C>) {
            bool thrown = false; int got = -1; try { got = c.at(k); } catch (std::out_of_range&) { thrown = true; } VX_CHECK(thrown == !has && (thrown || got == val), "at");
            thrown = false; try { got = cc.at(k); } catch (std::out_of_range&) { thrown = true; } VX_CHECK(thrown == !has && (thrown || got == val), "const at");
        }
        if constexpr (is_par<C>) {
            int seen = 0; bool r = c.if_contains(k, [&](const typename C::value_type& e) { ++seen; VX_CHECK(ok(e), "if_contains gives another element"); }); VX_CHECK(r == has && seen == has, "if_contains");
            { seen = 0; r = c.modify_if(k, [&](typename C::value_type& e) { ++seen; VX_CHECK(ok(e), "modify_if gives another element"); }); VX_CHECK(r == has && seen == has, "modify_if"); }
            VX_CHECK(c.subidx(h0) < c.subcnt(), "subidx"); if (has) { size_t s = c.subidx(h0); bool in_sub = false; c.with_submap(s, [&](const auto& sm) { in_sub = sm.contains(k); }); VX_CHECK(in_sub, "the element is not in the submap its hash selects"); }
        }
        x.step();
        if (content == 4 && !vx::thorough) return; // one mutation
        int m = x.choose(16);
        auto gone = [&] { ref.erase(J); };
        int nv = 100000 + j;
        auto key = [&]() -> K { return Fam::value(j); };
        auto added = [&](bool r, int v) { VX_EQ(r, !has, "inserted"); if (!has) ref[J] = v; };
        auto skip = [] { throw vx::Prune{}; };
        switch (m) {
        case 0: { x.log("erase"); VX_EQ(c.erase(k), has ? 1u : 0u, "erase"); gone(); break; }
        case 1: { x.log("extract"); if constexpr (requires { c.extract(k); }) { auto nh = c.extract(k); VX_EQ(!nh.empty(), has, "extract"); gone(); if (nh && x.choose(2)) { auto r = c.insert(std::move(nh)); VX_CHECK(r.inserted, "node refused"); ref[J] = val; } } else skip(); break; }
        case 2: if constexpr (is_map<C> && Fam::insertable) { x.log("[]"); int& r = c[k]; VX_CHECK(r == (has ? val : 0), "[] gives %d", r); if (!has) { r = nv; ref[J] = nv; } } else skip(); break;
        case 3: if constexpr (is_map<C> && Fam::insertable) { x.log("try_emplace"); auto r = c.try_emplace(k, nv); VX_EQ(r.first->second, has ? val : nv, "try_emplace refers to"); added(r.second, nv); } else skip(); break;
        case 4: if constexpr (is_map<C> && Fam::insertable) { x.log("insert_or_assign"); auto r = c.insert_or_assign(k, nv); VX_EQ(r.second, !has, "insert_or_assign"); VX_EQ(r.first->second, nv, "insert_or_assign"); ref[J] = nv; } else skip(); break;
        case 5: { x.log("lazy_emplace"); bool called = false; auto it = c.lazy_emplace(k, [&](const auto& ctor) { called = true; if constexpr (is_map<C>) ctor(key(), nv); else ctor(key()); }); added(called, nv); if constexpr (is_map<C>) VX_EQ(it->second, has ? val : nv, "lazy_emplace refers to"); break; }
        case 6: { x.log("lazy_emplace_with_hash"); bool called = false; c.lazy_emplace_with_hash(k, h0, [&](const auto& ctor) { called = true; if constexpr (is_map<C>) ctor(key(), nv); else ctor(key()); }); added(called, nv); break; }
        case 7: { x.log("emplace_with_hash"); bool r; if constexpr (is_map<C>) r = c.emplace_with_hash(h0, key(), nv).second; else r = c.emplace_with_hash(h0, key()).second; added(r, nv); break; }
        case 8: { x.log("emplace_hint_with_hash"); if constexpr (is_map<C>) { auto it = c.emplace_hint_with_hash(h0, c.begin(), key(), nv); VX_EQ(it->second, has ? val : nv, "emplace_hint_with_hash refers to"); } else c.emplace_hint_with_hash(h0, c.begin(), key()); added(!has, nv); break; }
        case 9: if constexpr (is_par<C> && is_map<C>) { x.log("try_emplace_with_hash"); auto r = c.try_emplace_with_hash(h0, key(), nv); VX_EQ(r.first->second, has ? val : nv, "try_emplace_with_hash refers to"); added(r.second, nv); } else skip(); break;
        case 10: { x.log("emplace_single_with_hash"); if constexpr (requires { c.emplace_single_with_hash(k, h0, [](const auto&) {}); }) { if (has) skip(); c.emplace_single_with_hash(k, h0, [&](const auto& ctor) { if constexpr (is_map<C>) ctor(key(), nv); else ctor(key()); }); added(true, nv); } else skip(); break; }
        case 11: if constexpr (is_par<C>) { x.log("erase_if"); bool r = c.erase_if(k, [&](auto& e) { VX_CHECK(ok(e), "erase_if gives another element"); return true; }); VX_EQ(r, has, "erase_if"); gone(); } else skip(); break;
        case 12: if constexpr (is_par<C>) { x.log("lazy_emplace_l"); bool called = false; bool r = c.lazy_emplace_l(k, [&](auto& e) { VX_CHECK(ok(e), "lazy_emplace_l gives another element"); }, [&](const auto& ctor) { called = true; if constexpr (is_map<C>) ctor(key(), nv); else ctor(key()); }); VX_EQ(r, !has, "lazy_emplace_l"); added(called, nv); } else skip(); break;
        case 13: if constexpr (is_par<C> && is_map<C> && Fam::insertable) { x.log("try_emplace_l"); bool r = c.try_emplace_l(k, [&](auto& e) { VX_CHECK(ok(e), "try_emplace_l gives another element"); }, nv); added(r, nv); } else skip(); break;
        case 14: { x.log("insert"); bool r; if constexpr (is_map<C>) r = c.insert({ key(), nv }).second; else r = c.insert(key()).second; added(r, nv); break; }
        case 15: { x.log("node handle into another container, with its hash"); C d; if constexpr (requires { c.insert(d.extract(d.begin()), h0); }) { if constexpr (is_map<C>) d.emplace(key(), nv); else d.emplace(key()); auto nh = d.extract(d.begin()); auto r = c.insert(std::move(nh), h0); added(r.inserted, nv); } else skip(); break; }
        }
        sync("after the operation");
        bool now = ref.count(J); VX_EQ(c.contains(k), now, "contains after the operation"); { const K kk = Fam::value(j); VX_EQ(cc.contains(kk), now, "contains by the key type after the operation"); auto it = cc.find(kk, h0); VX_EQ(it != cc.end(), now, "find with hash after the operation"); }
        uint64_t hh = vx::mix(j, ref.size()); x.state(vx::mix(hh, m * 8 + f + content * 128));
    });
    x.step();
}
// key objects equal across families and histories hash the same in every process of this build
static uint64_t digest() {
    uint64_t d = 7;
    auto fam = [&]<class Fam>(Fam*) { if constexpr (Fam::stable) { gtl::flat_hash_set<typename Fam::K> s; for (int i = 0; i < Fam::n(); ++i) { const auto k = Fam::value(i); d = vx::mix(d, s.hash(k)); } } };
    fam((StrFam<char, false>*)0); fam((StrFam<char, true>*)0); fam((StrFam<char16_t, false>*)0); fam((StrFam<wchar_t, true>*)0);
    fam((IntFam<signed char>*)0); fam((IntFam<int>*)0); fam((IntFam<long>*)0); fam((IntFam<unsigned long long>*)0); fam((FltFam<float>*)0); fam((FltFam<double>*)0); fam((FltFam<long double>*)0);
    fam((FPii*)0); fam((FPdf*)0); fam((FPsi*)0); fam((FTds*)0); fam((FNest*)0); fam((FT0*)0); fam((FT1*)0); fam((FPtr*)0); fam((FE1*)0); fam((FE2*)0); fam((FUsr*)0); fam((FUsr2*)0); fam((FUsr3*)0); fam((FBv*)0); fam((FOpt*)0);
    return d;
}
static void runs(vx::Ctx& x) {
    static const uint64_t mine = digest();
    VX_CHECK(digest() == mine, "hashes changed within one process"); x.choose(2); x.step();
    char cmd[4096]; ssize_t l = readlink("/proc/self/exe", cmd, sizeof cmd - 40); if (l < 0) vx::harness_error("readlink"); cmd[l] = 0; strcat(cmd, " digest x");
    FILE* p = popen(cmd, "r"); unsigned long long o = 0; if (!p || fscanf(p, "%llx", &o) != 1) vx::harness_error("cannot run the digest"); pclose(p);
    VX_CHECK(o == mine, "the same keys hash to %llx in one process and to %llx in another", (unsigned long long)mine, o); x.state(mine); x.step();
}
// btree containers with string keys: the default orders are transparent
template<class C, bool GREATER> static void bt(vx::Ctx& x) {
    using Fam = StrFam<char, std::is_same_v<typename C::key_type, string_view>>; constexpr bool mp = is_map<C>;
    int n = 40, j = x.choose(Fam::n()), f = x.choose(Fam::nforms); if (!Fam::valid(j, f)) throw vx::Prune{};
    int content = x.choose(3); C c; std::multiset<string> ref; bool multi = requires { C().insert(Fam::value(0)).operator->(); };
    auto in = [&](int i) { if constexpr (mp) c.insert({ Fam::value(i), i }); else c.insert(Fam::value(i)); ref.insert(string(Fam::value(i))); };
    for (int i = 0; i < Fam::n(); ++i) if (content == 0 ? i % 2 == j % 2 : content == 1 ? i % 2 != j % 2 : i % 5 == 0) in(i);
    const C& cc = c; string s(Fam::value(j)); bool has = ref.count(s);
    size_t lo = 0, hi = 0; for (auto& r : ref) { bool before = GREATER ? string_view(r) > s : string_view(r) < s; bool after = GREATER ? string_view(r) < s : string_view(r) > s; lo += before; hi += !after; }
    Fam::form(j, f, [&](auto& k) {
        VX_EQ(cc.contains(k), has, "contains"); VX_EQ(cc.count(k), ref.count(s), "count");
        auto at = [&](auto it) { return (size_t)std::distance(c.begin(), it); };
        { auto it = c.find(k); VX_EQ(it != c.end(), has, "find"); if (has) VX_CHECK(string(key_of<C>(*it)) == s, "find gives another element"); }
        { auto it = cc.find(k); VX_EQ(it != cc.end(), has, "const find"); }
        VX_EQ(at(c.lower_bound(k)), lo, "lower_bound"); VX_EQ(at(c.upper_bound(k)), hi, "upper_bound");
        VX_EQ((size_t)std::distance(cc.begin(), cc.lower_bound(k)), lo, "const lower_bound"); VX_EQ((size_t)std::distance(cc.begin(), cc.upper_bound(k)), hi, "const upper_bound");
        auto p = c.equal_range(k); VX_EQ(at(p.first), lo, "equal_range"); VX_EQ(at(p.second), hi, "equal_range");
        x.step();
        if (x.choose(2)) { VX_EQ(c.erase(k), ref.count(s), "erase"); ref.erase(s); VX_CHECK(!c.contains(k) && !c.contains(Fam::value(j)) && c.size() == ref.size(), "after erase"); }
        size_t i = 0; string last; for (auto& e : c) { string t(key_of<C>(e)); VX_CHECK(ref.count(t), "unexpected element"); if (i) VX_CHECK(GREATER ? last > t : last < t, "order"); last = t; ++i; } VX_EQ(i, ref.size(), "elements");
    });
    x.step(); x.state(vx::mix(j, content * 8 + f));
}
#ifdef MORE
constexpr bool more = true;
#else
constexpr bool more = false;
#endif
template<class Fam, bool ALL = more> static void all(const char* name, int sh = 8) {
    using K = typename Fam::K; string b = name;
    constexpr bool fm = !std::is_same_v<Fam, UniqFam>; // flat maps of this key type do not compile
    if constexpr (fm) vx::add("eq-" + b + "-flat-map", sh, 2, [](vx::Ctx& x) { one<gtl::flat_hash_map<K, int>, Fam>(x); });
    else vx::add("eq-" + b + "-flat-set", sh, 2, [](vx::Ctx& x) { one<gtl::flat_hash_set<K>, Fam>(x); });
    vx::add("eq-" + b + "-par-node-map", sh, 2, [](vx::Ctx& x) { one<gtl::parallel_node_hash_map<K, int>, Fam>(x); });
    if constexpr (ALL) {
        if constexpr (fm) vx::add("eq-" + b + "-flat-set", sh, 2, [](vx::Ctx& x) { one<gtl::flat_hash_set<K>, Fam>(x); });
        vx::add("eq-" + b + "-node-map", sh, 2, [](vx::Ctx& x) { one<gtl::node_hash_map<K, int>, Fam>(x); });
        vx::add("eq-" + b + "-node-set", sh, 2, [](vx::Ctx& x) { one<gtl::node_hash_set<K>, Fam>(x); });
        if constexpr (fm) vx::add("eq-" + b + "-par-flat-map", sh, 2, [](vx::Ctx& x) { one<gtl::parallel_flat_hash_map<K, int>, Fam>(x); });
        vx::add("eq-" + b + "-par-flat-set", sh, 2, [](vx::Ctx& x) { one<gtl::parallel_flat_hash_set<K>, Fam>(x); });
        vx::add("eq-" + b + "-par-node-set", sh, 2, [](vx::Ctx& x) { one<gtl::parallel_node_hash_set<K>, Fam>(x); });
    }
}
static void reg() {
#if FAMG == 1
    all<StrFam<char, false>, true>("string");
    vx::add("runs", 1, 1, runs, false);
#elif FAMG == 2
    all<StrFam<char, true>>("string_view"); all<StrFam<char16_t, false>>("u16string"); if constexpr (more) all<StrFam<wchar_t, false>>("wstring");
#elif FAMG == 3
    all<IntFam<signed char>>("int8"); all<IntFam<unsigned short>>("uint16"); all<IntFam<int>>("int");
#elif FAMG == 4
    all<IntFam<long>>("long"); if constexpr (more) all<IntFam<unsigned long long>>("ulonglong"); all<FltFam<float>>("float", 2); all<FltFam<double>>("double", 2); all<IFam>("intrusive_ptr", 2);
#elif FAMG == 5
    all<FPii>("pair-int"); all<FPdf>("pair-fp", 2); all<FPsi>("pair-string", 2); all<FTds>("tuple", 2); all<FNest>("nested", 2);
#elif FAMG == 6
    all<FT0>("tuple0", 1); if constexpr (more) all<FT1>("tuple1", 1); all<FPtr>("tuple3"); all<FE1>("enum", 1); all<FE2>("enum-class", 1);
#elif FAMG == 7
    all<FUsr>("user", 4); if constexpr (more) all<FUsr2>("user-std", 2); all<FUsr3>("user-tag", 2); all<FBv>("bits", 8); if constexpr (more) all<FOpt>("optional", 1); if constexpr (more) all<FltFam<long double>>("longdouble", 2);
#elif FAMG == 8
    all<PtrFam<0>>("pointer", 2); all<PtrFam<1>>("shared_ptr", 2); all<PtrFam<2>>("pointer-const", 2); all<UniqFam>("unique_ptr", 2);
#elif FAMG == 9
    vx::add("bt-set", 4, 2, [](vx::Ctx& x) { bt<gtl::btree_set<string>, false>(x); });
    vx::add("bt-set-view", 4, 2, [](vx::Ctx& x) { bt<gtl::btree_set<string_view>, false>(x); });
    vx::add("bt-set-greater", 4, 2, [](vx::Ctx& x) { bt<gtl::btree_set<string, std::greater<string>>, true>(x); });
    vx::add("bt-map", 4, 2, [](vx::Ctx& x) { bt<gtl::btree_map<string, int>, false>(x); });
    vx::add("bt-map-less", 4, 2, [](vx::Ctx& x) { bt<gtl::btree_map<string, int, std::less<string>>, false>(x); });
    vx::add("bt-map-view-greater", 4, 2, [](vx::Ctx& x) { bt<gtl::btree_map<string_view, int, std::greater<string_view>>, true>(x); });
    vx::add("bt-multiset", 4, 2, [](vx::Ctx& x) { bt<gtl::btree_multiset<string>, false>(x); });
    vx::add("bt-multimap", 4, 2, [](vx::Ctx& x) { bt<gtl::btree_multimap<string, int>, false>(x); });
#endif
}
int main(int argc, char** argv) {
    if (argc > 1 && !strcmp(argv[1], "digest")) { printf("%llx\n", (unsigned long long)digest()); return 0; }
    return vx::vx_main(argc, argv, reg);
}
