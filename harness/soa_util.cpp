// C25 (units soa-*) and C27 (units util-*).
#include "track.hpp"
#include <gtl/adv_utils.hpp>
#include <gtl/soa.hpp>
#include <gtl/utils.hpp>
#include <gtl/vec_utils.hpp>
#include <gtl/vector.hpp>
#include <climits>
#include <cmath>
#include <limits>
#include <memory>
#include <sstream>

// ------------------------------------------------------------------ C25
struct Row { int a; std::string b; double c; int id; bool operator==(const Row&) const = default; };
using Soa = gtl::soa<int, std::string, double, int>;
static void row_in(Soa& s, const Row& r) { s.insert(r.a, r.b, r.c, r.id); }
static void same(const Soa& s, const std::vector<Row>& r, const char* when) {
    VX_CHECK(s.size() == r.size() && s.empty() == r.empty(), "%s: size is %zu, expected %zu", when, s.size(), r.size());
    Soa& m = const_cast<Soa&>(s);
    VX_CHECK(s.get_column<0>().size() == r.size() && s.get_column<1>().size() == r.size() && s.get_column<2>().size() == r.size() && s.get_column<3>().size() == r.size(), "%s: columns have different lengths", when);
    for (size_t i = 0; i < r.size(); ++i) {
        auto [a, b, c, d] = s[i];
        VX_CHECK((Row{ a, b, c, d } == r[i]), "%s: row %zu is (%d, %s, %g, %d), expected (%d, %s, %g, %d)", when, i, a, b.c_str(), c, d, r[i].a, r[i].b.c_str(), r[i].c, r[i].id);
        VX_CHECK(m.get_column<0>()[i] == r[i].a && m.get_column<1>()[i] == r[i].b && m.get_column<2>()[i] == r[i].c && s.get_column<3>()[i] == r[i].id, "%s: columns disagree with row %zu", when, i);
        auto v = s.view<3, 1>(i); VX_CHECK(std::get<0>(v) == r[i].id && std::get<1>(v) == r[i].b, "%s: view<3,1>(%zu) is wrong", when, i);
        auto w = m.view<2>(i); VX_CHECK(std::get<0>(w) == r[i].c, "%s: view<2>(%zu) is wrong", when, i);
        auto t = m[i]; VX_CHECK(&std::get<0>(t) == &m.get_column<0>()[i] && &std::get<3>(t) == &m.get_column<3>()[i], "%s: row %zu does not refer to the columns", when, i);
        VX_CHECK(&std::get<1>(v) == &m.get_column<1>()[i], "%s: view does not refer to the column", when);
    }
}
static Row mk(int a, int b, int id) { return Row{ a, std::string(b * 9 + 1, char('a' + b)), (a * 7 + b * 3) % 5 * 0.5, id }; }
static uint64_t hsh(const std::vector<Row>& r) { uint64_t h = r.size(); for (auto& x : r) h = vx::mix(vx::mix(h, x.a * 31 + x.b.size()), x.id); return h; }
// sorts by a column in one of several ways and checks whole rows and stability
static bool soa_sort(vx::Ctx& x, Soa& s, std::vector<Row>& r, int how) {
    auto st = [&](auto f) { std::stable_sort(r.begin(), r.end(), f); };
    switch (how) {
    case 0: x.log("sort by column 0"); s.sort_by_field<0>(); st([](const Row& p, const Row& q) { return p.a < q.a; }); return true;
    case 1: x.log("sort by column 1"); s.sort_by_field<1>(); st([](const Row& p, const Row& q) { return p.b < q.b; }); return true;
    case 2: x.log("sort by column 2"); s.sort_by_field<2>(); st([](const Row& p, const Row& q) { return p.c < q.c; }); return true;
    case 3: x.log("sort by column 0 descending"); s.sort_by_field<0>([](int a, int b) { return a > b; }); st([](const Row& p, const Row& q) { return p.a > q.a; }); return true;
    case 4: x.log("sort by column 1 by length"); s.sort_by_field<1>([](const std::string& a, const std::string& b) { return a.size() > b.size(); }); st([](const Row& p, const Row& q) { return p.b.size() > q.b.size(); }); return true;
    case 5: x.log("sort by column 3, all equivalent"); s.sort_by_field<3>([](int, int) { return false; }); return true;
    case 6: x.log("sort by column 3"); s.sort_by_field<3>(); st([](const Row& p, const Row& q) { return p.id < q.id; }); return true;
    }
    return false;
}
static void soa_values(vx::Ctx& x, int maxn, int vals) { // every assignment of keys to rows
    int n = x.choose(maxn + 1); Soa s; std::vector<Row> r;
    for (int i = 0; i < n; ++i) { int a = x.choose(vals); r.push_back(mk(a, (a + i) % 3, i)); row_in(s, r.back()); }
    int how = x.choose(7), how2 = x.choose(3);
    soa_sort(x, s, r, how); same(s, r, "after sorting"); x.step(); soa_sort(x, s, r, how2); same(s, r, "after sorting twice"); x.step(); x.state(hsh(r));
}
static void soa_perms(vx::Ctx& x, int n) { // every permutation
    std::vector<int> left; for (int i = 0; i < n; ++i) left.push_back(i);
    Soa s; std::vector<Row> r;
    while (!left.empty()) { int k = x.choose((int)left.size()); r.push_back(mk(left[k], left[k] % 3, (int)r.size())); row_in(s, r.back()); left.erase(left.begin() + k); }
    soa_sort(x, s, r, 0); same(s, r, "after sorting"); x.step(); soa_sort(x, s, r, 6); same(s, r, "after sorting back"); x.step(); x.state(hsh(r));
}
static void soa_sizes(vx::Ctx& x, int maxn) { // larger tables, one after another (the sort keeps scratch data between calls)
    int n = x.choose(maxn + 1), p = x.choose(4), m = std::vector<int>{ 0, 1, 3, 64, 65, 130 }[x.choose(6)];
    for (int k : { n, m, n }) {
        Soa s; std::vector<Row> r;
        for (int i = 0; i < k; ++i) { int a = p == 0 ? i : p == 1 ? k - i : p == 2 ? (i * 37) % (k + 1) : (i * 5) % 3; r.push_back(mk(a, i % 7, i)); row_in(s, r.back()); }
        for (int how : { 0, 3, 1, 6 }) { soa_sort(x, s, r, how); same(s, r, "after sorting"); x.step(); }
    }
}
static void soa_ops(vx::Ctx& x, int maxstart, int depth) {
    int n = x.choose(maxstart); Soa s; std::vector<Row> r; int id = 0;
    for (int i = 0; i < n; ++i) { r.push_back(mk((i * 5) % 3, i % 2, id++)); row_in(s, r.back()); }
    for (int i = 0; i < depth; ++i) {
        int o = x.choose(18), z = (int)r.size();
        switch (o) {
        case 0: case 1: { Row w = mk(o, id % 3, id); ++id; x.log("insert"); row_in(s, w); r.push_back(w); break; }
        case 2: { if (!z) throw vx::Prune{}; x.log("insert of a row of the table itself"); int k = x.choose(z); s.insert(std::get<0>(s[k]), std::get<1>(s[k]), std::get<2>(s[k]), std::get<3>(s[k])); r.push_back(Row(r[k])); break; }
        case 3: { int k = x.choose(z + 3); x.log("resize %d", k); s.resize(k); r.resize(k, Row{ 0, "", 0, 0 }); break; }
        case 4: x.log("clear"); s.clear(); r.clear(); break;
        case 5: { int k = x.choose(3) * 20; x.log("reserve %d", k); s.reserve(k); VX_CHECK(s.get_column<0>().capacity() >= (size_t)k && s.get_column<1>().capacity() >= (size_t)k && s.get_column<2>().capacity() >= (size_t)k && s.get_column<3>().capacity() >= (size_t)k, "reserve(%d) leaves a column with less room", k); break; }
        case 6: { if (!z) throw vx::Prune{}; int k = x.choose(z); x.log("assign row %d", k); Row w = mk(4, 1, id++); s[k] = std::make_tuple(w.a, w.b, w.c, w.id); r[k] = w; break; }
        case 7: { if (z < 2) throw vx::Prune{}; x.log("assign row 0 from the last"); const Soa& cs = s; s[0] = cs[z - 1]; r[0] = r[z - 1]; break; }
        case 8: { if (!z) throw vx::Prune{}; x.log("write through a column"); s.get_column<1>()[z - 1] = "changed"; r[z - 1].b = "changed"; break; }
        case 9: { if (!z) throw vx::Prune{}; x.log("write through a view"); std::get<0>(s.view<0>(0)) = 77; r[0].a = 77; break; }
        case 10: { x.log("print"); std::ostringstream a, b; a << s; b << "soa {\n"; for (auto& w : r) b << "\t" << w.a << ", " << w.b << ", " << w.c << ", " << w.id << '\n'; b << "}\n"; VX_CHECK(a.str() == b.str(), "prints '%s', expected '%s'", a.str().c_str(), b.str().c_str()); break; }
        case 11: { x.log("copy"); Soa t = s; row_in(t, mk(1, 1, 1)); same(s, r, "source of a copy"); auto q = r; q.push_back(mk(1, 1, 1)); same(t, q, "copy"); s = std::move(t); r = q; break; }
        case 12: { x.log("sort with a throwing comparison"); struct Boom {}; int cnt = 0; try { s.sort_by_field<0>([&](int a, int b) { if (++cnt == 2) throw Boom{}; return a < b; }); std::stable_sort(r.begin(), r.end(), [](const Row& p, const Row& q) { return p.a < q.a; }); } catch (Boom&) {} break; }
        default: soa_sort(x, s, r, o - 13); break;
        }
        x.step();
        if (x.fresh()) { same(s, r, "after the operation"); x.state(hsh(r)); }
    }
}
// lifetimes of column elements while rows are permuted
static void soa_track(vx::Ctx& x, int n) {
    long before = tk::live;
    { gtl::soa<int, tk::Obj, tk::Obj> s; std::vector<int> k; for (int i = 0; i < n; ++i) { k.push_back(x.choose(3)); s.insert(k.back(), tk::Obj(i), tk::Obj(i * 2)); }
      int how = x.choose(3); if (how == 0) s.sort_by_field<0>(); else if (how == 1) s.sort_by_field<1>([](const tk::Obj& a, const tk::Obj& b) { return a.get() > b.get(); }); else { s.sort_by_field<0>([](int a, int b) { return a > b; }); s.sort_by_field<2>([](const tk::Obj& a, const tk::Obj& b) { return a.get() < b.get(); }); }
      for (int i = 0; i < n; ++i) { int v = s.get_column<1>()[i].get(); VX_CHECK(v >= 0 && v < n && s.get_column<0>()[i] == k[v] && s.get_column<2>()[i].get() == 2 * v, "row %d is torn", i); if (how == 1) VX_CHECK(v == n - 1 - i, "wrong order"); if (how == 2) VX_CHECK(v == i, "wrong order"); } x.step(); }
    VX_CHECK(tk::live == before, "%ld elements leaked", tk::live - before);
}

// ------------------------------------------------------------------ C27
struct Boom {};
static void util_guard(vx::Ctx& x) {
    int exit = x.choose(4), doit = x.choose(2), dis = x.choose(3), kind = x.choose(3), setthrows = kind == 1 ? x.choose(2) : 0;
    int sets = 0, unsets = 0; bool in_scope_ok = true; std::string var = "old value, long enough for the heap";
    x.log("exit %d doit %d dismiss %d kind %d set throws %d", exit, doit, dis, kind, setthrows);
    auto leave = [&](auto body) { // leaves the scope in each way
        if (exit == 0) { body(); }
        else if (exit == 1) { try { body(); throw 1; } catch (int) {} }
        else if (exit == 2) { for (int i = 0; i < 1; ++i) { body(); continue; } }
        else { [&]() -> int { body(); return 7; }(); }
    };
    auto scope = [&]() {
        if (kind == 0) { gtl::scoped_guard g([&] { ++unsets; }, doit); if (unsets) in_scope_ok = false; if (dis == 1) g.dismiss(); if (dis == 2) { g.dismiss(); g.dismiss(); } if (exit == 1) throw Boom{}; if (exit == 3) return; if (unsets) in_scope_ok = false; }
        else if (kind == 1) { gtl::scoped_set_unset g([&] { ++sets; if (setthrows) throw Boom{}; }, [&] { ++unsets; }, doit); if (unsets || sets != doit) in_scope_ok = false; if (dis == 1) g.dismiss(); if (dis == 2) { g.dismiss(); g.dismiss(); } if (exit == 1) throw Boom{}; if (exit == 3) return; if (unsets) in_scope_ok = false; }
        else { gtl::scoped_set_value g(var, "new value, long enough for the heap too", doit); if (var != (doit ? "new value, long enough for the heap too" : "old value, long enough for the heap")) in_scope_ok = false; if (dis == 1) g.dismiss(); if (exit == 2) var = "changed in scope"; if (exit == 1) throw Boom{}; }
    };
    try { scope(); } catch (Boom&) {}
    (void)leave;
    x.step();
    VX_CHECK(in_scope_ok, "the action ran before the end of the scope, or the value was not set");
    if (kind == 0) VX_CHECK(unsets == (doit && !dis), "action ran %d times", unsets);
    if (kind == 1) { VX_CHECK(sets == doit, "set ran %d times", sets); int e = doit && !dis && !setthrows; VX_CHECK(unsets == e, "unset ran %d times, expected %d", unsets, e); }
    if (kind == 2) { std::string e = (doit && dis != 1) ? "old value, long enough for the heap" : exit == 2 ? "changed in scope" : doit ? "new value, long enough for the heap too" : "old value, long enough for the heap"; VX_CHECK(var == e, "after the scope the value is '%s', expected '%s'", var.c_str(), e.c_str()); }
}
template<class T> static void guard_values(vx::Ctx& x, std::vector<T> vs) { // nesting, every pair of values
    T a = vs[x.choose((int)vs.size())], b = vs[x.choose((int)vs.size())], c = vs[x.choose((int)vs.size())]; T v = a; bool d1 = x.choose(2), d2 = x.choose(2);
    { gtl::scoped_set_value<T> g1(v, b, d1); T in = d1 ? b : a; VX_CHECK(v == in, "value not set"); { gtl::scoped_set_value<T> g2(v, c, d2); VX_CHECK(v == (d2 ? c : in), "nested value not set"); } VX_CHECK(v == in, "nested value not restored"); }
    VX_CHECK(v == a, "value not restored"); x.step();
    { gtl::scoped_set_value<T> g1(v, b); VX_CHECK(v == b, "value not set by default"); gtl::scoped_set_value g2(v, c); VX_CHECK(v == c, "nested value not set by default"); } VX_CHECK(v == a, "value not restored by default");
    int runs = 0, ss = 0; { gtl::scoped_guard g([&] { ++runs; }); gtl::scoped_set_unset h([&] { ss += 1; }, [&] { ss += 10; }); VX_CHECK(ss == 1 && !runs, "guards made with default arguments"); } VX_CHECK(runs == 1 && ss == 11, "guards made with default arguments ran %d and %d times", runs, ss);
    T w = a; bool ch = gtl::change(w, b); VX_CHECK(ch == !(a == b) && w == b, "change reports %d", ch); T w2 = a; const T cb = b; T cc = b; ch = gtl::change(w2, cb); VX_CHECK(ch == !(a == b) && w2 == b && cb == b, "change from a const value"); T w4 = a; gtl::change(w4, cc); VX_CHECK(cc == b && w4 == b, "change modified its argument"); VX_CHECK(!gtl::change(w2, b), "change to the same value reports a change");
    T w3 = a; T old = gtl::replace(w3, b); VX_CHECK(old == a && w3 == b, "replace"); T b2 = b; old = gtl::replace(w3, std::move(b2)); VX_CHECK(old == b && w3 == b, "replace with a temporary"); T b3 = c; old = gtl::replace(w3, b3); VX_CHECK(b3 == c && w3 == c && old == b, "replace modified its argument"); x.step();
}
// timestamps: all sequences of operations on three stamps vs a model of a growing clock
struct Prov : gtl::provides_timestamp<Prov> { gtl::timestamp t; gtl::timestamp get_timestamp() const { return t; } };
static void util_ts(vx::Ctx& x, int depth) {
    gtl::timestamp t[3]; uint64_t m[3] = { 1, 2, 3 }, clock = 3; int val = 0;
    std::vector<uint64_t> real{ 0, t[0].get(), t[1].get(), t[2].get() }; // model value -> real value
    auto grow = [&](uint64_t r) { ++clock; VX_CHECK(r > real.back(), "a new stamp (%llu) is not newer than all previous ones (%llu)", (unsigned long long)r, (unsigned long long)real.back()); real.push_back(r); return clock; };
    VX_CHECK(real[1] < real[2] && real[2] < real[3], "stamps of new objects do not grow"); VX_CHECK(real[1] > 0, "a new stamp is not set");
    for (int i = 0; i < depth; ++i) {
        int o = x.choose(9), a = x.choose(3), b = x.choose(3);
        switch (o) {
        case 0: if (b) throw vx::Prune{}; x.log("touch %d", a); t[a].touch(); m[a] = grow(t[a].get()); break;
        case 1: x.log("touch %d as %d", a, b); t[a].touch(t[b]); m[a] = m[b]; break;
        case 2: if (b) throw vx::Prune{}; x.log("reset %d", a); t[a].reset(); m[a] = 0; break;
        case 3: x.log("%d |= %d", a, b); VX_CHECK(&(t[a] |= t[b]) == &t[a], "|= returns another object"); m[a] = std::max(m[a], m[b]); break;
        case 4: x.log("%d = %d | third", a, b); { int c = 3 - a - b; if (c < 0 || c > 2 || a == b) c = 0; t[a] = t[b] | t[c]; m[a] = std::max(m[b], m[c]); } break;
        case 5: x.log("%d = new", a); if (b) throw vx::Prune{}; t[a] = gtl::timestamp(); m[a] = grow(t[a].get()); break;
        case 6: x.log("set_with_ts %d to %d", a, b); { bool ch = t[a].set_with_ts(val, b); static int prev; VX_CHECK(val == b, "value not set"); if (ch) m[a] = grow(t[a].get()); (void)prev; } break;
        case 7: if (b) throw vx::Prune{}; x.log("set_with_ts %d to the same value", a); { bool ch = t[a].set_with_ts(val, int(val)); VX_CHECK(!ch, "setting the same value reports a change"); } break;
        case 8: if (b) throw vx::Prune{}; x.log("set_with_ts %d to another value", a); { int nv = val + 10; bool ch = t[a].set_with_ts(val, nv); VX_CHECK(ch && val == nv, "setting another value reports no change"); m[a] = grow(t[a].get()); } break;
        }
        x.step();
        if (x.fresh()) for (int p = 0; p < 3; ++p) {
            VX_CHECK(t[p].get() == real[m[p]] && t[p].is_set() == (m[p] != 0), "stamp %d is %llu, expected %llu", p, (unsigned long long)t[p].get(), (unsigned long long)real[m[p]]);
            for (int q = 0; q < 3; ++q) {
                VX_CHECK(t[p].is_newer_than(t[q]) == (m[p] > m[q]) && t[p].is_older_than(t[q]) == (m[p] < m[q]) && (t[p] == t[q]) == (m[p] == m[q]) && (t[p] < t[q]) == (m[p] < m[q]) && (t[p] > t[q]) == (m[p] > m[q]), "stamps %d and %d compare wrongly", p, q);
                VX_CHECK((t[p] | t[q]).get() == real[std::max(m[p], m[q])], "combining %d and %d does not give the latest", p, q);
                Prov P, Q; P.t = t[p]; Q.t = t[q]; clock = real.size() - 1; // the two new stamps advance the clock
                VX_CHECK(P.is_newer_than(Q) == (m[p] > m[q]) && P.is_older_than(Q) == (m[p] < m[q]) && (P | Q).get() == real[std::max(m[p], m[q])], "provides_timestamp compares wrongly"); VX_CHECK(P.is_newer_than(t[q]) == (m[p] > m[q]), "provides_timestamp vs timestamp");
            }
            VX_CHECK(t[p].get_timestamp() == t[p], "get_timestamp differs"); x.state(vx::mix(vx::mix(m[0] + 1, m[1]), m[2] * 16 + clock));
        }
    }
}
// generalized binary search: every range and every threshold
template<class T> static void bs_range(vx::Ctx& x, T lo, T hi) {
    int span = (int)(hi - lo); int l = x.choose(span), r = l + 1 + x.choose(span - l), th = l + 1 + x.choose(r - l); int calls = 0;
    T L = T(lo + l), R = T(lo + r), TH = T(lo + th);
    auto p = gtl::binary_search<T>(gtl::middle<T>(), [&](T v) { ++calls; VX_CHECK(v >= L && v <= R, "predicate asked outside the interval"); VX_CHECK(calls < 10000, "too many steps"); return v >= TH; }, L, R);
    VX_CHECK(p.first == T(TH - 1) && p.second == TH, "binary search in [%lld, %lld] for %lld gives (%lld, %lld)", (long long)L, (long long)R, (long long)TH, (long long)p.first, (long long)p.second); x.step();
}
template<class T> static void bs_wide(vx::Ctx& x) {
    std::vector<T> v{ std::numeric_limits<T>::min(), T(std::numeric_limits<T>::min() + 1), T(std::numeric_limits<T>::min() / 2), T(std::numeric_limits<T>::min() / 2 + 1), T(0), T(1), T(2), T(5), T(std::numeric_limits<T>::max() / 2), T(std::numeric_limits<T>::max() / 2 + 1), T(std::numeric_limits<T>::max() - 1), std::numeric_limits<T>::max() };
    if (std::is_signed_v<T>) { v.push_back(T(-1)); v.push_back(T(-2)); v.push_back(T(-100)); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    int n = (int)v.size(); int a = x.choose(n), b = x.choose(n), c = x.choose(n); if (!(a < b && a < c && c <= b)) throw vx::Prune{}; T L = v[a], R = v[b], TH = v[c]; int calls = 0;
    x.log("[%lld, %lld] threshold %lld", (long long)L, (long long)R, (long long)TH);
    auto p = gtl::binary_search<T>(gtl::middle<T>(), [&](T y) { VX_CHECK(++calls < 2000, "too many steps"); return y >= TH; }, L, R);
    VX_CHECK(p.first == T(TH - 1) && p.second == TH, "binary search in [%lld, %lld] for %lld gives (%lld, %lld)", (long long)L, (long long)R, (long long)TH, (long long)p.first, (long long)p.second); x.step();
}
static void bs_double(vx::Ctx& x) {
    std::vector<double> v{ -1e308, -3.5, -1.0, -0.5, -1e-300, -std::numeric_limits<double>::denorm_min(), 0.0, std::numeric_limits<double>::denorm_min(), 1e-300, 0.1, 0.5, 1.0, 1.5, 3.0, 1e10, 1e308, std::numeric_limits<double>::infinity() };
    int n = (int)v.size(), a = x.choose(n), b = x.choose(n), c = x.choose(n); if (!(a < b && a < c && c <= b)) throw vx::Prune{}; double L = v[a], R = v[b], TH = v[c]; int calls = 0;
    x.log("[%g, %g] threshold %g", L, R, TH); x.state(vx::mix(a * 100 + b, c + 5000));
    auto p = gtl::binary_search<double>(gtl::middle<double>(), [&](double y) { VX_CHECK(++calls < 2000, "too many steps"); VX_CHECK(y >= L && y <= R, "predicate asked outside the interval"); return y >= TH; }, L, R);
    VX_CHECK(p.first < TH && p.second >= TH && p.second <= R && p.first >= L, "binary search in [%g, %g] for %g gives (%g, %g)", L, R, TH, p.first, p.second);
    double nx = std::nextafter(p.first, INFINITY); VX_CHECK(nx == p.second || (p.first == 0 && p.second == 0) || (nx == 0 && p.second == 0), "result (%g, %g) for %g is not tight", p.first, p.second, TH); x.step();
}
// a middle function of the caller
static void bs_custom(vx::Ctx& x) {
    int n = x.choose(40) + 2, th = x.choose(n - 1) + 1; std::vector<int> seen;
    auto mid = [&](int l, int r) -> std::optional<int> { if (r - l > 1) return l + 1; return {}; };
    auto p = gtl::binary_search<int>(mid, [&](int v) { seen.push_back(v); return v >= th; }, 0, n - 1 + 1);
    VX_CHECK(p.first == th - 1 && p.second == th, "gives (%d, %d) for %d", p.first, p.second, th); x.step();
}
// vector helpers
template<class V> static void slices(vx::Ctx& x, int maxn) {
    int n = x.choose(maxn + 1), f = x.choose(2 * n + 2) - (n + 1), l = x.choose(2 * n + 2) - (n + 1), st = x.choose(maxn + 2) + 1; V v; for (int i = 0; i < n; ++i) v.push_back(typename V::value_type(i * 3 + 1)); V v0 = v;
    int b = f >= 0 ? f : n + f + 1, e = l >= 0 ? l : n + l + 1; x.log("slice of %d: %d %d %d", n, f, l, st); x.state(vx::mix(vx::mix(n + 70000, f + 100), vx::mix(l + 100, st)));
    auto chk = [&](const V& r, int b, int e, int st) { size_t k = 0; for (int i = b; i < e; i += st, ++k) VX_CHECK(k < r.size() && r[k] == v0[i], "slice(%d, %d, %d) of %d elements: wrong element %zu", f, l, st, n, k); VX_CHECK(r.size() == k, "slice(%d, %d, %d) of %d elements has %zu elements, expected %zu", f, l, st, n, r.size(), k); VX_CHECK(v == v0, "the source changed"); };
    chk(gtl::slice(v, f, l, st), b, e, st); chk(gtl::slice((const V&)v, f, l, st), b, e, st); chk(gtl::slice(V(v), f, l, st), b, e, st);
    if (st == 1) { chk(gtl::slice(v, f, l), b, e, 1); if (l == -1) { chk(gtl::slice(v, f), b, n, 1); if (f == 0) chk(gtl::slice(v), 0, n, 1); } } x.step();
}
static void cats(vx::Ctx& x) {
    int a = x.choose(5), b = x.choose(5), c = x.choose(5); std::vector<std::string> A, B, C, E; for (int i = 0; i < a; ++i) A.push_back("a string that needs the heap " + std::to_string(i)); for (int i = 0; i < b; ++i) B.push_back("b" + std::to_string(i)); for (int i = 0; i < c; ++i) C.push_back("c another string that needs the heap" + std::to_string(i));
    const auto A0 = A, B0 = B; E = A; E.insert(E.end(), B.begin(), B.end()); auto E2 = E; E.insert(E.end(), C.begin(), C.end());
    VX_CHECK(gtl::cat(A, B) == E2, "cat of two"); VX_CHECK(gtl::cat(A, B, C) == E, "cat of three"); VX_CHECK(gtl::cat((const std::vector<std::string>&)A, std::vector<std::string>(B), C) == E, "cat of const, temporary and plain"); VX_CHECK(gtl::cat(A) == A0, "cat of one"); VX_CHECK(gtl::cat(A, A).size() == 2 * A.size(), "cat with itself"); VX_CHECK(A == A0 && B == B0, "cat changed its arguments");
    auto g = gtl::map([](const std::string& s) { return s.size(); }, E); VX_CHECK(g.size() == E.size(), "map: wrong size"); for (size_t i = 0; i < E.size(); ++i) VX_CHECK(g[i] == E[i].size(), "map: element %zu", i);
    int calls = 0; auto h = gtl::map([&](const std::string& s) { ++calls; return s + "!"; }, A); VX_CHECK(calls == a, "map called the function %d times", calls); for (int i = 0; i < a; ++i) VX_CHECK(h[i] == A[i] + "!", "map: element %d", i);
    gtl::vector<int> G, H, K; for (int i = 0; i < a; ++i) { G.push_back(i); K.push_back(i); } for (int i = 0; i < b; ++i) { H.push_back(-i); K.push_back(-i); } VX_CHECK(gtl::cat(G, H) == K, "cat of gtl::vector"); auto M = gtl::map([](int i) { return i * 2.5; }, K); for (size_t i = 0; i < K.size(); ++i) VX_CHECK(M[i] == K[i] * 2.5, "map of gtl::vector"); x.step();
}
void reg() {
    tk::install(); tk::strict_copy = false; bool T = vx::thorough;
    vx::add("soa-values", 16, 3, [=](vx::Ctx& x) { soa_values(x, T ? 8 : 6, 3); });
    vx::add("soa-perms", 16, 3, [=](vx::Ctx& x) { soa_perms(x, T ? 9 : 7); });
    vx::add("soa-sizes", 8, 2, [=](vx::Ctx& x) { soa_sizes(x, T ? 400 : 140); });
    vx::add("soa-ops", 16, 3, [=](vx::Ctx& x) { soa_ops(x, T ? 6 : 5, T ? 4 : 3); });
    vx::add("soa-track", 8, 3, [=](vx::Ctx& x) { soa_track(x, T ? 9 : 7); });
    vx::add("util-guard", 1, 1, util_guard);
    vx::add("util-values", 1, 1, [](vx::Ctx& x) { guard_values<int>(x, { 0, 1, -5, INT_MAX }); });
    vx::add("util-values2", 1, 1, [](vx::Ctx& x) { guard_values<std::string>(x, { "", "short", "a string that is long enough to need the heap", "another string long enough to need the heap" }); });
    vx::add("util-values3", 1, 1, [](vx::Ctx& x) { guard_values<std::vector<int>>(x, { {}, { 1 }, { 1, 2, 3 } }); });
    vx::add("util-ts", 8, 3, [=](vx::Ctx& x) { util_ts(x, T ? 4 : 3); });
    vx::add("util-bs1", 2, 1, [=](vx::Ctx& x) { bs_range<int>(x, -20, T ? 100 : 40); });
    vx::add("util-bs2", 2, 1, [=](vx::Ctx& x) { bs_range<unsigned char>(x, 0, T ? 255 : 80); });
    vx::add("util-bs3", 2, 1, [=](vx::Ctx& x) { bs_range<signed char>(x, -128, T ? 127 : -60); });
    vx::add("util-bs4", 2, 1, [=](vx::Ctx& x) { bs_range<uint64_t>(x, UINT64_MAX - 60, UINT64_MAX); });
    vx::add("util-bs5", 2, 1, [=](vx::Ctx& x) { bs_range<int64_t>(x, INT64_MIN, INT64_MIN + 60); });
    vx::add("util-wide1", 1, 1, bs_wide<int>); vx::add("util-wide2", 1, 1, bs_wide<unsigned>); vx::add("util-wide3", 1, 1, bs_wide<int64_t>); vx::add("util-wide4", 1, 1, bs_wide<uint64_t>); vx::add("util-wide5", 1, 1, bs_wide<short>); vx::add("util-wide6", 1, 1, bs_wide<signed char>);
    vx::add("util-bsd", 1, 1, bs_double); vx::add("util-bsc", 1, 1, bs_custom);
    vx::add("util-slice", 4, 2, [=](vx::Ctx& x) { slices<std::vector<int>>(x, T ? 12 : 8); }); vx::add("util-slice2", 4, 2, [=](vx::Ctx& x) { slices<gtl::vector<double>>(x, T ? 9 : 6); });
    vx::add("util-cat", 1, 1, cats);
}
VX_MAIN(reg)
