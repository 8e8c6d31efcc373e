// C04 / C05: parallel hash containers under every schedule.
//   -DKIND=1 flat map, 2 node map, 3 flat set, 4 node set   -DMTX=std::mutex|std::shared_mutex  -DNSUB=log2(submaps)
#define _GLIBCXX_USE_TBB_PAR_BACKEND 0
#include "mc.hpp"
#include <execution>
#include <algorithm>
#include <map>
#include <mutex>
#include <shared_mutex>
#include <gtl/phmap.hpp>
using namespace vx;
#ifndef NSUB
#define NSUB 1
#endif
#ifndef MTX
#define MTX std::mutex
#endif
struct H { size_t operator()(int k) const { return (size_t)k; } };
struct El { // element of the sets: k is the key, v may be changed in place
    int k; mutable int v; El(int k = 0, int v = 0) : k(k), v(v) {} bool operator==(const El& o) const { return k == o.k && v == o.v; }
};
struct HE { using is_transparent = void; size_t operator()(const El& e) const { return (size_t)e.k; } size_t operator()(int k) const { return (size_t)k; } };
struct EqE { using is_transparent = void; static int g(const El& e) { return e.k; } static int g(int k) { return k; } template<class A, class B> bool operator()(const A& a, const B& b) const { return g(a) == g(b); } };
#if KIND == 1
constexpr bool MAP = true; using M = gtl::parallel_flat_hash_map<int, int, H, std::equal_to<int>, std::allocator<std::pair<const int, int>>, NSUB, MTX>;
#elif KIND == 2
constexpr bool MAP = true; using M = gtl::parallel_node_hash_map<int, int, H, std::equal_to<int>, std::allocator<std::pair<const int, int>>, NSUB, MTX>;
#elif KIND == 3
constexpr bool MAP = false; using M = gtl::parallel_flat_hash_set<El, HE, EqE, std::allocator<El>, NSUB, MTX>;
#else
constexpr bool MAP = false; using M = gtl::parallel_node_hash_set<El, HE, EqE, std::allocator<El>, NSUB, MTX>;
#endif
#if KIND <= 2
static int& val(M::value_type& e) { return e.second; }
static int val(const M::value_type& e) { return e.second; }
static int key(const M::value_type& e) { return e.first; }
#else
static int& val(M::value_type& e) { return e.v; }
static int val(const M::value_type& e) { return e.v; }
static int key(const M::value_type& e) { return e.k; }
#endif
#if KIND <= 2
static int nkey(const M::node_type& n) { return n.key(); }
static int nval(const M::node_type& n) { return n.mapped(); }
#else
static int nkey(const M::node_type& n) { return n.value().k; }
static int nval(const M::node_type& n) { return n.value().v; }
#endif
static M::value_type mk(int k, int v) { return M::value_type(k, v); }

// ---- keys: K[0], K[1] in one submap, K[2] in another; fill: more keys of the first submap
constexpr int NK = 3; constexpr int NS = 1 << NSUB;
static int K[NK], fill[64], sub_of_idx[NK]; static int nfill;
static int sub_of(int k) {
    M m; m.insert(mk(k, 0)); int r = -1;
    for (int i = 0; i < NS; ++i) m.with_submap(i, [&](const auto& s) { if (s.size()) r = i; });
    return r;
}
static void setup_keys() {
    K[0] = 1; int s0 = sub_of(1); bool h1 = false, h2 = NS == 1; if (h2) K[2] = 2;
    for (int k = NS == 1 ? 3 : 2; nfill < 64; ++k) { int s = sub_of(k); if (s == s0) { if (!h1) { K[1] = k; h1 = true; } else fill[nfill++] = k; } else if (!h2) { K[2] = k; h2 = true; } }
    for (int i = 0; i < NK; ++i) sub_of_idx[i] = sub_of(K[i]);
}
static int idx_of(int k) { for (int i = 0; i < NK; ++i) if (K[i] == k) return i; return -1; }

// ---- single-key operations
enum { INSERT, INSERT_LV, EMPLACE, CONTAINS, COUNT, FIND, IF_CONTAINS, MODIFY_IF, ERASE, ERASE_IF, LAZY_L, LAZY, EMPLACE_H, CONTAINS_H, FIND_H, LAZY_H, HINT, NODE, SINGLE, SINGLE_H, EXTRACT, NSETOP,
       TRY_EMPLACE = NSETOP, IOA, TRY_L, SUBSCRIPT, TRY_EMPLACE_H, TRY_P, IOA_HINT, NMAPOP };
static const char* nm[] = { "insert", "insert(lvalue)", "emplace", "contains", "count", "find", "if_contains", "modify_if", "erase", "erase_if", "lazy_emplace_l", "lazy_emplace", "emplace_with_hash", "contains(hash)", "find(hash)", "lazy_emplace_with_hash", "emplace_hint", "insert(node)", "emplace_single", "emplace_single_with_hash", "extract(key)",
                            "try_emplace", "insert_or_assign", "try_emplace_l", "operator[]", "try_emplace_with_hash", "try_emplace_p", "insert_or_assign(hint)" };
struct Op { int op, k, v; };
struct Rec { Op o; int res; uint64_t inv, ret; };
// what the operation does to the value st (-1: absent); returns its result
static int model(const Op& o, int& st) {
    switch (o.op) {
    case INSERT: case INSERT_LV: case EMPLACE: case EMPLACE_H: case TRY_EMPLACE: case TRY_EMPLACE_H: case TRY_P: case NODE: if (st < 0) { st = o.v; return 1; } return 0;
    case HINT: case LAZY: case LAZY_H: if (st < 0) st = o.v; return 0;
    case CONTAINS: case COUNT: case CONTAINS_H: case FIND: case FIND_H: return st >= 0;
    case IF_CONTAINS: return st;
    case MODIFY_IF: if (st < 0) return -1; st += 100; return st;
    case ERASE: if (st < 0) return 0; st = -1; return 1;
    case SINGLE: case SINGLE_H: if (st < 0) { st = o.v; return -1; } st = -1; return 1;
    case EXTRACT: { int r = st; st = -1; return r; }
    case ERASE_IF: if (st < 0) return -1; if (st & 1) { int r = st * 2 + 1; st = -1; return r; } return st * 2;
    case LAZY_L: case TRY_L: if (st < 0) { st = o.v; return -1; } st += 100; return st;
    case IOA: if (st < 0) { st = o.v; return 1; } st = o.v; return 0;
    case IOA_HINT: st = o.v; return 0;
    case SUBSCRIPT: if (st < 0) st = 0; return 0;
    }
    return 0;
}
static int exec(M& m, const Op& o) {
    int k = K[o.k], v = o.v;
    switch (o.op) {
    case INSERT: return m.insert(mk(k, v)).second;
    case INSERT_LV: { const auto e = mk(k, v); return m.insert(e).second; }
    case EMPLACE: return m.emplace(k, v).second;
    case CONTAINS: return m.contains(k);
    case COUNT: return (int)m.count(k);
    case FIND: return m.find(k) != m.end();
    case IF_CONTAINS: { int r = -1; bool b = m.if_contains(k, [&](const M::value_type& e) { mc::point(); r = val(e); mc::point(); }); if (b != (r >= 0)) fail("if_contains returned %d but the callback %s", b, r >= 0 ? "ran" : "did not run"); return r; }
    case MODIFY_IF: { int r = -1; bool b = m.modify_if(k, [&](M::value_type& e) { int t = val(e); mc::point(); val(e) = t + 100; r = t + 100; mc::point(); }); if (b != (r >= 0)) fail("modify_if returned %d but the callback %s", b, r >= 0 ? "ran" : "did not run"); return r; }
    case ERASE: return (int)m.erase(k);
    case ERASE_IF: { int r = -1; bool b = m.erase_if(k, [&](M::value_type& e) { int t = val(e); mc::point(); if (val(e) != t) fail("a value changed under the callback of erase_if"); r = (t & 1) ? t * 2 + 1 : t * 2; return (t & 1) != 0; }); if (b != (r >= 0 && (r & 1))) fail("erase_if returned %d, callback %d", b, r); return r; }
    case LAZY_L: { int r = -1; bool b = m.lazy_emplace_l(k, [&](M::value_type& e) { int t = val(e); mc::point(); val(e) = t + 100; r = t + 100; }, [&](const auto& c) { mc::point(); c(k, v); }); if (b != (r < 0)) fail("lazy_emplace_l result"); return r; }
    case LAZY: m.lazy_emplace(k, [&](const auto& c) { c(k, v); }); return 0;
    case EMPLACE_H: return m.emplace_with_hash(m.hash(k), k, v).second;
    case CONTAINS_H: return m.contains(k, m.hash(k));
    case FIND_H: return m.find(k, m.hash(k)) != m.end();
    case LAZY_H: m.lazy_emplace_with_hash(k, m.hash(k), [&](const auto& c) { c(k, v); }); return 0;
    case HINT: m.emplace_hint(M::const_iterator(), k, v); return 0;
    case NODE: { M t; t.insert(mk(k, v)); auto n = t.extract(t.begin()); return m.insert(std::move(n)).inserted; }
    case SINGLE: { int r = 1; m.emplace_single(k, [&](const auto& c) { mc::point(); c(k, v); r = -1; }); return r; }
    case SINGLE_H: { int r = 1; m.emplace_single_with_hash(k, m.hash(k), [&](const auto& c) { c(k, v); r = -1; }); return r; }
    case EXTRACT: { auto n = m.extract(k); if (n.empty()) return -1; if (nkey(n) != k) fail("extract(key) took another element"); return nval(n); }
    }
#if KIND <= 2
    switch (o.op) {
    case TRY_EMPLACE: return m.try_emplace(k, v).second;
    case IOA: return m.insert_or_assign(k, v).second;
    case TRY_L: { int r = -1; bool b = m.try_emplace_l(k, [&](M::value_type& e) { int t = val(e); mc::point(); val(e) = t + 100; r = t + 100; }, v); if (b != (r < 0)) fail("try_emplace_l result"); return r; }
    case SUBSCRIPT: (void)m[k]; return 0;
    case TRY_EMPLACE_H: return m.try_emplace_with_hash(m.hash(k), k, v).second;
    case TRY_P: return m.try_emplace_p(k, v).second;
    case IOA_HINT: m.insert_or_assign(M::const_iterator(), k, v); return 0;
    }
#endif
    return 0;
}

// ---- linearizability of single-key operations
static Rec rec[12]; static int nrec;
struct St { int v[NK]; };
static bool lin(unsigned done, St s, const St& fin) {
    if (done == (1u << nrec) - 1) return !memcmp(s.v, fin.v, sizeof s.v);
    uint64_t first_ret = ~0ull; for (int i = 0; i < nrec; ++i) if (!(done >> i & 1)) first_ret = std::min(first_ret, rec[i].ret);
    for (int i = 0; i < nrec; ++i) if (!(done >> i & 1) && rec[i].inv < first_ret) {
        St t = s; if (model(rec[i].o, t.v[rec[i].o.k]) == rec[i].res && lin(done | 1u << i, t, fin)) return true;
    }
    return false;
}
static void start_state(M& m, int st, St& s) { // 0 empty, 1 {0}, 2 {0,1,2}, 3: the first submap full up to its growth limit, 4: the same with key 0 present, 5: many erased slots
    for (int& v : s.v) v = -1;
    auto put = [&](int i, int v) { m.insert(mk(K[i], v)); s.v[i] = v; };
    if (st == 1) put(0, 11);
    if (st == 2) { put(0, 12); put(1, 13); put(2, 14); }
    if (st == 3 || st == 4) { int f = 0; if (st == 4) put(0, 15); size_t c; int i = sub_of_idx[0]; auto cap = [&] { size_t r = 0; m.with_submap(i, [&](const auto& q) { r = q.capacity(); }); return r; };
        do { m.insert(mk(fill[f], 1000 + f)); ++f; c = cap(); } while (f < 3 || [&] { M t(m); t.insert(mk(fill[f], 0)); size_t r = 0; t.with_submap(i, [&](const auto& q) { r = q.capacity(); }); return r == c; }()); }
    if (st == 5) { for (int f = 0; f < 13; ++f) m.insert(mk(fill[f], 1000 + f)); for (int f = 0; f < 12; ++f) m.erase(fill[f]); put(1, 16); }
}
static void read_back(M& m, St& f) {
    for (int i = 0; i < NK; ++i) { f.v[i] = -1; m.if_contains(K[i], [&](const M::value_type& e) { f.v[i] = val(e); }); }
    size_t n = 0; m.for_each([&](const M::value_type& e) { ++n; int i = idx_of(key(e)); if (i >= 0 && f.v[i] != val(e)) fail("traversal and lookup disagree on key %d", key(e)); });
    if (n != m.size()) fail("size() %zu but %zu elements in a traversal", m.size(), n);
}
static int total(M& m) { return (int)m.size(); }

// nt threads with no operations each
static void run_keys(Ctx& x, int nt, int no, const int* ops, int nops, const int* starts, int nstarts, int preempt, int nkeys) {
    Op prog[4][4]; int st = starts[x.choose(nstarts)];
    for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) { int c = x.choose(nops); int k = (t || i) ? x.choose(nkeys) : 0; prog[t][i] = { ops[c], k, 20 + 10 * t + 2 * i + (t & 1) }; }
    mc::begin(); M* m = new M; St s, f; start_state(*m, st, s); int extra = total(*m); for (int v : s.v) extra -= v >= 0; nrec = 0;
    x.log("start state %d", st);
    for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) x.log("  thread %d: %s(key%d) value %d", t, nm[prog[t][i].op], prog[t][i].k, prog[t][i].v);
    auto body = [&](int t) { for (int i = 0; i < no; ++i) { if (i) mc::point(); Rec& r = rec[t * no + i]; r.o = prog[t][i]; r.inv = mc::tick(); r.res = exec(*m, prog[t][i]); r.ret = mc::tick(); } };
    auto b0 = [&] { body(0); }; auto b1 = [&] { body(1); }; auto b2 = [&] { body(2); };
    mc::spawn(b0); mc::spawn(b1); if (nt > 2) mc::spawn(b2);
    nrec = nt * no; mc::run(x, { preempt });
    read_back(*m, f); int e2 = total(*m); for (int v : f.v) e2 -= v >= 0;
    if (e2 != extra) fail("other keys were lost or created: %d before, %d after", extra, e2);
    if (!lin(0, s, f)) {
        char b[1200]; int n = snprintf(b, sizeof b, "history is not linearizable: start {%d,%d,%d}", s.v[0], s.v[1], s.v[2]);
        for (int i = 0; i < nrec; ++i) n += snprintf(b + n, sizeof b - n, "; T%d %s(key%d,%d)=%d [%d,%d]", i / no, nm[rec[i].o.op], rec[i].o.k, rec[i].o.v, rec[i].res, (int)rec[i].inv, (int)rec[i].ret);
        snprintf(b + n, sizeof b - n, "; final {%d,%d,%d}", f.v[0], f.v[1], f.v[2]); fail("%s", b);
    }
    uint64_t h = 1; for (int i = 0; i < nrec; ++i) h = mix(mix(mix(h, rec[i].o.op * 8 + rec[i].o.k), (uint64_t)rec[i].res), rec[i].inv * 100 + rec[i].ret); for (int v : f.v) h = mix(h, (uint64_t)v); x.state(h);
    delete m; mc::end();
}

// ---- C05: whole-container operations on A and B
enum { W_SWAP, W_FSWAP, W_MERGE, W_MERGE_RV, W_CLEAR, W_CLEAR1, W_EQ, W_NE, W_REHASH0, W_REHASH, W_RESERVE, W_FOR_EACH, W_FOR_EACH_M, W_SUB, W_SUB_M, W_BUCKETS, W_FOR_EACH_P, W_FOR_EACH_MP, W_SELF_EQ, W_SELF_SWAP, W_INS, W_ERA, W_CON, W_MOD, NW };
static const char* wn[] = { "swap", "free swap", "merge", "merge(&&)", "clear", "clear(submap)", "==", "!=", "rehash(0)", "rehash(64)", "reserve(40)", "for_each", "for_each_m(+100)", "with_submap", "with_submap_m(+100)", "bucket_count", "for_each(policy)", "for_each_m(policy, +100)", "self ==", "self swap", "insert", "erase", "contains", "modify_if" };
struct WOp { int op, c, k, v; };         // c: which container the call is made on
struct Part { int st[2][NK]; };          // contents of both containers
struct WRec { WOp o; int res; int seen[NK], nseen; uint64_t inv, ret; };
static WRec wrec[8]; static int nw;
constexpr int SKIP = -99;
// applies the part of op that concerns keys of submap s; expect: result for that part. seen[]: value seen per key (-1 not seen), only compared for keys of s
static bool wmodel(const WRec& r, int s, Part& p, int eqres) {
    const WOp& o = r.o; int (&a)[NK] = p.st[o.c]; int (&b)[NK] = p.st[1 - o.c];
    auto each = [&](auto&& f) { for (int i = 0; i < NK; ++i) if (sub_of_idx[i] == s && !f(i)) return false; return true; };
    switch (o.op) {
    case W_SWAP: case W_FSWAP: return each([&](int i) { std::swap(a[i], b[i]); return true; });
    case W_MERGE: case W_MERGE_RV: return each([&](int i) { if (a[i] < 0) std::swap(a[i], b[i]); return true; });
    case W_CLEAR: return each([&](int i) { a[i] = -1; return true; });
    case W_CLEAR1: return o.k == s ? each([&](int i) { a[i] = -1; return true; }) : true;
    case W_EQ: case W_NE: { if (eqres == SKIP) return true; bool q = each([&](int i) { return a[i] == b[i]; }); return q == (eqres == 1); }
    case W_FOR_EACH: case W_FOR_EACH_P: return each([&](int i) { return r.seen[i] == a[i]; });
    case W_FOR_EACH_M: case W_FOR_EACH_MP: return each([&](int i) { if (r.seen[i] != a[i]) return false; if (a[i] >= 0) a[i] += 100; return true; });
    case W_SUB: return o.k == s ? each([&](int i) { return r.seen[i] == a[i]; }) : true;
    case W_SUB_M: return o.k == s ? each([&](int i) { if (r.seen[i] != a[i]) return false; if (a[i] >= 0) a[i] += 100; return true; }) : true;
    case W_INS: if (sub_of_idx[o.k] == s) { bool ins = a[o.k] < 0; if (ins) a[o.k] = o.v; return r.res == ins; } return true;
    case W_ERA: if (sub_of_idx[o.k] == s) { bool had = a[o.k] >= 0; a[o.k] = -1; return r.res == had; } return true;
    case W_CON: return sub_of_idx[o.k] != s || r.res == (a[o.k] >= 0);
    case W_MOD: if (sub_of_idx[o.k] == s) { bool had = a[o.k] >= 0; if (had) a[o.k] += 100; return r.res == had; } return true;
    }
    return true;
}
static int eqpart[8]; // per operation: what its comparison says about the submap under consideration
static bool wlin(unsigned done, Part p, const Part& fin, int s) {
    if (done == (1u << nw) - 1) { for (int c = 0; c < 2; ++c) for (int i = 0; i < NK; ++i) if (sub_of_idx[i] == s && p.st[c][i] != fin.st[c][i]) return false; return true; }
    uint64_t fr = ~0ull; for (int i = 0; i < nw; ++i) if (!(done >> i & 1)) fr = std::min(fr, wrec[i].ret);
    for (int i = 0; i < nw; ++i) if (!(done >> i & 1) && wrec[i].inv < fr) { Part q = p; if (wmodel(wrec[i], s, q, eqpart[i]) && wlin(done | 1u << i, q, fin, s)) return true; }
    return false;
}
// a comparison that says "different" found one submap different; try every choice of which
static bool wlin_all(int from, int (*which)[8], const Part& p, const Part& fin) {
    for (int i = from; i < nw; ++i) if ((wrec[i].o.op == W_EQ || wrec[i].o.op == W_NE) && wrec[i].res == 0) {
        for (int d = 0; d < NS; ++d) { (*which)[i] = d; if (wlin_all(i + 1, which, p, fin)) return true; }
        return false;
    }
    for (int s = 0; s < NS; ++s) {
        for (int i = 0; i < nw; ++i) eqpart[i] = (wrec[i].o.op == W_EQ || wrec[i].o.op == W_NE) ? (wrec[i].res ? 1 : (*which)[i] == s ? 0 : SKIP) : 0;
        if (!wlin(0, p, fin, s)) return false;
    }
    return true;
}
static void see(WRec& r, const M::value_type& e) { int i = idx_of(key(e)); if (i < 0) return; if (r.seen[i] >= 0) fail("%s: key %d is visited twice", wn[r.o.op], i); r.seen[i] = val(e); ++r.nseen; }
static void wexec(M& A, M& B, WRec& r) {
    const WOp& o = r.o; M& a = o.c ? B : A; M& b = o.c ? A : B; r.res = 0; r.nseen = 0; for (int& i : r.seen) i = -1;
    switch (o.op) {
    case W_SWAP: a.swap(b); break;
    case W_FSWAP: swap(a, b); break;
    case W_MERGE: a.merge(b); break;
    case W_MERGE_RV: a.merge(std::move(b)); break;
    case W_CLEAR: a.clear(); break;
    case W_CLEAR1: a.clear((size_t)o.k); break;
    case W_EQ: r.res = a == b; break;
    case W_NE: r.res = !(a != b); break;
    case W_REHASH0: a.rehash(0); break;
    case W_REHASH: a.rehash(64); break;
    case W_RESERVE: a.reserve(40); break;
    case W_FOR_EACH: std::as_const(a).for_each([&](const M::value_type& e) { mc::point(); see(r, e); }); break;
    case W_FOR_EACH_M: a.for_each_m([&](auto& e) { see(r, e); mc::point(); auto& q = const_cast<M::value_type&>(e); val(q) = val(q) + 100; }); break;
    case W_FOR_EACH_P: std::as_const(a).for_each(std::execution::seq, [&](const M::value_type& e) { mc::point(); see(r, e); }); break;
    case W_FOR_EACH_MP: a.for_each_m(std::execution::seq, [&](auto& e) { see(r, e); mc::point(); auto& q = const_cast<M::value_type&>(e); val(q) = val(q) + 100; }); break;
    case W_SUB: std::as_const(a).with_submap((size_t)o.k, [&](const auto& s) { for (auto& e : s) { mc::point(); see(r, e); } }); break;
    case W_SUB_M: a.with_submap_m((size_t)o.k, [&](auto& s) { for (auto& e : s) { see(r, e); mc::point(); auto& q = const_cast<M::value_type&>(e); val(q) = val(q) + 100; } }); break;
    case W_BUCKETS: if (a.bucket_count() > 4096) fail("bucket_count"); break;
    case W_SELF_EQ: if (!(a == a)) fail("a container compares unequal to itself"); break;
    case W_SELF_SWAP: a.swap(a); break;
    case W_INS: r.res = a.insert(mk(K[o.k], o.v)).second; break;
    case W_ERA: r.res = a.erase(K[o.k]) == 1; break;
    case W_CON: r.res = a.contains(K[o.k]); break;
    case W_MOD: r.res = a.modify_if(K[o.k], [&](M::value_type& e) { int t = val(e); mc::point(); val(e) = t + 100; }); break;
    }
}
static void wstart(M& A, M& B, int st, Part& p) {
    for (auto& c : p.st) for (int& v : c) v = -1;
    auto put = [&](int c, int i, int v) { (c ? B : A).insert(mk(K[i], v)); p.st[c][i] = v; };
    if (st == 1) { put(0, 0, 1); put(0, 2, 2); put(1, 1, 3); put(1, 2, 4); }
    if (st == 2) { put(0, 0, 1); put(0, 1, 2); put(0, 2, 3); put(1, 0, 1); put(1, 1, 2); put(1, 2, 3); }
    if (st == 3) { put(0, 0, 1); put(0, 1, 2); put(1, 2, 3); for (int f = 0; f < 12; ++f) { A.insert(mk(fill[f], 500)); } for (int f = 20; f < 25; ++f) B.insert(mk(fill[f], 500)); }
}
static void run_whole(Ctx& x, int nt, int no, const int* ops, int nops, const int* starts, int nstarts, int preempt, bool pw) {
    WOp prog[4][3]; int st = starts[x.choose(nstarts)];
    for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) {
        int c = x.choose(nops), d = (t || i) ? x.choose(2) : 0; int op = ops[c]; int k = 0;
        if (op == W_CLEAR1 || op == W_SUB || op == W_SUB_M) k = sub_of_idx[x.choose(2) ? 2 : 0]; else if (op >= W_INS) k = x.choose(2) * 2; else x.choose(1);
        prog[t][i] = { op, d, k, 30 + 10 * t + i };
    }
    mc::begin(); M* A = new M; M* B = new M; Part p, f; wstart(*A, *B, st, p); nw = nt * no; size_t total0 = A->size() + B->size();
    x.log("start state %d", st);
    for (int t = 0; t < nt; ++t) for (int i = 0; i < no; ++i) { auto& o = prog[t][i]; x.log("  thread %d: %s on %c, key/submap %d", t, wn[o.op], 'A' + o.c, o.k); }
    auto body = [&](int t) { for (int i = 0; i < no; ++i) { if (i) mc::point(); WRec& r = wrec[t * no + i]; r.o = prog[t][i]; r.inv = mc::tick(); wexec(*A, *B, r); r.ret = mc::tick(); } };
    auto b0 = [&] { body(0); }; auto b1 = [&] { body(1); }; auto b2 = [&] { body(2); }; auto b3 = [&] { body(3); };
    mc::spawn(b0); mc::spawn(b1); if (nt > 2) mc::spawn(b2); if (nt > 3) mc::spawn(b3);
    mc::run(x, { preempt, true, pw });
    for (int c = 0; c < 2; ++c) { St s; read_back(c ? *B : *A, s); for (int i = 0; i < NK; ++i) f.st[c][i] = s.v[i]; }
    bool cl = false; for (int i = 0; i < nw; ++i) cl = cl || wrec[i].o.op == W_CLEAR || wrec[i].o.op == W_CLEAR1;
    if (!cl) { // fillers are moved around by swap and merge, never lost or duplicated
        size_t n0 = 0, n1 = 0; for (auto& c : p.st) for (int v : c) n0 += v >= 0; for (auto& c : f.st) for (int v : c) n1 += v >= 0;
        if (A->size() + B->size() - n1 != total0 - n0) fail("elements lost or duplicated: %zu others before, %zu after", total0 - n0, A->size() + B->size() - n1);
    }
    int which[8]; 
    if (!wlin_all(0, &which, p, f)) {
        char b[1600]; int n = snprintf(b, sizeof b, "no order of the operations explains the outcome: start A{%d,%d,%d} B{%d,%d,%d}", p.st[0][0], p.st[0][1], p.st[0][2], p.st[1][0], p.st[1][1], p.st[1][2]);
        for (int i = 0; i < nw; ++i) n += snprintf(b + n, sizeof b - n, "; T%d %s on %c key %d: result %d, seen {%d,%d,%d} [%d,%d]", i / no, wn[wrec[i].o.op], 'A' + wrec[i].o.c, wrec[i].o.k, wrec[i].res, wrec[i].seen[0], wrec[i].seen[1], wrec[i].seen[2], (int)wrec[i].inv, (int)wrec[i].ret);
        snprintf(b + n, sizeof b - n, "; final A{%d,%d,%d} B{%d,%d,%d}", f.st[0][0], f.st[0][1], f.st[0][2], f.st[1][0], f.st[1][1], f.st[1][2]); fail("%s", b);
    }
    uint64_t h = 7; for (int i = 0; i < nw; ++i) { h = mix(mix(h, wrec[i].o.op * 16 + wrec[i].o.c * 8 + wrec[i].o.k), (uint64_t)wrec[i].res); for (int v : wrec[i].seen) h = mix(h, (uint64_t)v); } for (auto& c : f.st) for (int v : c) h = mix(h, (uint64_t)v); x.state(h);
    delete A; delete B; mc::end();
}

static int all_ops[NMAPOP], nall;
static void reg() {
    setup_keys(); nall = MAP ? (int)NMAPOP : (int)NSETOP; for (int i = 0; i < nall; ++i) all_ops[i] = i;
    static const int core[] = { INSERT, ERASE, MODIFY_IF, IF_CONTAINS, ERASE_IF, LAZY_L, CONTAINS, MAP ? (int)IOA : (int)EMPLACE }; static const int core3[] = { INSERT, ERASE_IF, MODIFY_IF, IF_CONTAINS, LAZY_L };
    static const int st6[] = { 0, 1, 2, 3, 4, 5 }, st2[] = { 0, 1 }, st3[] = { 0, 2, 4 };
    bool T = thorough;
#ifdef LIGHT
    const bool Q = !T;
#else
    const bool Q = false;
#endif
    add("key-2x1", 16, 4, [](Ctx& x) { run_keys(x, 2, 1, all_ops, nall, st6, 6, 1000, 3); });
    add("key-2x2", 48, 5, [T, Q](Ctx& x) { run_keys(x, 2, 2, core, 8, st3, T ? 3 : Q ? 1 : 2, T ? 1000 : 2, 2); });
    add("key-3x1", 32, 4, [T, Q](Ctx& x) { run_keys(x, 3, 1, core, 8, st3, Q ? 1 : 3, T ? 1000 : 4, T ? 3 : 2); });
    if (!Q) add("key-3x2", 64, 6, [T](Ctx& x) { run_keys(x, 3, 2, core3, T ? 5 : 3, st2, T ? 2 : 1, 2, 1); });
    if (T) add("key-2x2+", 64, 5, [](Ctx& x) { run_keys(x, 2, 2, all_ops, nall, st2, 2, 2, 1); });
    if (T) add("key-2x3", 64, 6, [](Ctx& x) { run_keys(x, 2, 3, core3, 5, st2, 2, 3, 1); });
    static int wall[NW]; for (int i = 0; i < NW; ++i) wall[i] = i;
    static const int wcore[] = { W_SWAP, W_MERGE, W_EQ, W_INS, W_FOR_EACH, W_ERA, W_CLEAR, W_REHASH, W_FOR_EACH_M, W_SUB_M }; static const int wcore4[] = { W_SWAP, W_EQ, W_INS, W_MERGE };
    static const int ws[] = { 0, 1, 2, 3 }, ws1[] = { 1, 2 };
    add("whole-2x1", 32, 5, [T, Q](Ctx& x) { run_whole(x, 2, 1, wall, NW, ws, 4, T ? 100 : Q ? 2 : 4, false); });
    add("whole-3x1", 64, 6, [T, Q](Ctx& x) { run_whole(x, 3, 1, wcore, T ? 10 : 7, ws1, T ? 2 : 1, T ? 4 : Q ? 1 : 2, false); });
    add("whole-2x2", 64, 6, [T, Q](Ctx& x) { run_whole(x, 2, 2, wcore, T ? 10 : Q ? 4 : 5, ws1, T ? 2 : 1, T ? 3 : Q ? 1 : 2, false); });
    add("whole-2x1-pw", 16, 4, [T](Ctx& x) { run_whole(x, 2, 1, wall, NW, ws1, 2, T ? 5 : 2, true); });
    if (!Q) add("whole-4x1-pw", 64, 9, [T](Ctx& x) { run_whole(x, 4, 1, wcore4, T ? 4 : 3, ws1, 1, T ? 3 : 1, true); });
}
VX_MAIN(reg)
