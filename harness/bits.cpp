// C17 (units v-*) and C18 (units w-*): bit_vector and bit_view vs a plain array of booleans.
#include "vx.hpp"
#include <gtl/bit_vector.hpp>
#include <sstream>
using BV = gtl::bit_vector;
using R  = std::vector<unsigned char>; // one byte per bit
static constexpr size_t NP = BV::npos;

static bool pat(int p, size_t i, size_t n) {
    switch (p) {
    case 0: return false;
    case 1: return true;
    case 2: return i & 1;
    case 3: return (i * 2654435761u >> 13) & 1;
    case 4: return !((i * 40503u + 77 >> 5) & 1);
    case 5: return (i / 64) & 1;
    case 6: return !((i / 64) & 1);
    case 7: return i % 64 == 0 || i % 64 == 63;
    case 8: return i + 1 == n;
    case 9: return i + 1 != n;
    case 10: return i == 0;
    case 11: return i != 0;
    case 12: return i >= n / 2;
    }
    p -= 13; // single bits and single holes
    return (p & 1) ? i != (size_t)p / 2 : i == (size_t)p / 2;
}
static R  ref(int p, size_t n) { R r(n); for (size_t i = 0; i < n; ++i) r[i] = pat(p, i, n); return r; }
static BV mk(const R& r) { BV v(r.size()); for (size_t i = 0; i < r.size(); ++i) if (r[i]) v.set(i); return v; }
static std::string bits(const R& r) { std::string s; for (auto c : r) s += char('0' + c); return s; }

static std::string what;
#define B_CHECK(c, ...) do { if (!(c)) { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); vx::fail("%s: %s", what.c_str(), b_); } } while (0)

static std::string hex(const R& r, size_t f, size_t l) {
    if (f == l) return "<empty>";
    std::string s;
    size_t nb = (l - f + 7) / 8;
    for (size_t b = 0; b < nb; ++b) {
        unsigned v = 0;
        for (size_t k = 0; k < 8; ++k) if (f + b * 8 + k < l && r[f + b * 8 + k]) v |= 1u << k;
        const char* d = "0123456789abcdef";
        s = std::string(1, d[v >> 4]) + d[v & 15] + s;
    }
    return "0x" + s;
}
static uint64_t word(const R& r, size_t at) { uint64_t w = 0; for (size_t k = 0; k < 64 && at + k < r.size(); ++k) if (r[at + k]) w |= 1ull << k; return w; }
// contents only, cheap: used after every change
static void same(const BV& v, const R& r, const char* who = "the vector") {
    size_t n = r.size();
    if (v.size() != n) vx::fail("%s: %s has size %zu, expected %zu", what.c_str(), who, v.size(), n);
    for (size_t i = 0, k = 0; i < n; i += 64, ++k) {
        uint64_t w = word(r, i), g = v.block(k);
        if (w != g) vx::fail("%s: block %zu of %s is %016llx, expected %016llx", what.c_str(), k, who, (unsigned long long)g, (unsigned long long)w);
    }
}
static void full(const BV& v, const R& r) {
    size_t n = r.size(), cnt = 0, first = NP;
    same(v, r);
    for (size_t i = 0; i < n; ++i) { B_CHECK(v.test(i) == (bool)r[i] && v[i] == (bool)r[i], "bit %zu is %d", i, v.test(i)); if (r[i]) { ++cnt; if (first == NP) first = i; } }
    B_CHECK(v.empty() == (n == 0), "empty() is %d", v.empty());
    B_CHECK(v.num_blocks() == (n + 63) / 64, "num_blocks() is %zu", v.num_blocks());
    B_CHECK(v.count() == cnt, "count() is %zu, expected %zu", v.count(), cnt);
    B_CHECK(v.any() == (cnt > 0) && v.none() == (cnt == 0) && v.every() == (cnt == n), "any/none/every are %d %d %d with %zu of %zu bits set", v.any(), v.none(), v.every(), cnt, n);
    B_CHECK(v.find_first() == first, "find_first() is %zd, expected %zd", (ssize_t)v.find_first(), (ssize_t)first);
    for (size_t i = n + 3, nx = NP; i-- > 0;) { if (i < n && r[i]) nx = i; size_t g = v.find_next(i); B_CHECK(g == nx, "find_next(%zu) is %zd, expected %zd", i, (ssize_t)g, (ssize_t)nx); }
    std::string s(n, '0'), t(n, 'a'); for (size_t i = 0; i < n; ++i) { s[n - 1 - i] = '0' + r[i]; t[n - 1 - i] = r[i] ? 'b' : 'a'; }
    B_CHECK(v.to_string() == s, "to_string() is %s", v.to_string().c_str());
    B_CHECK(v.to_string('a', 'b') == t, "to_string('a','b') is %s", v.to_string('a', 'b').c_str());
    if (n <= 64) B_CHECK(v.to_ullong() == word(r, 0) && v.to_ulong() == word(r, 0), "to_ullong() is %llx", v.to_ullong());
    std::string h = hex(r, 0, n);
    std::string c = v; B_CHECK(c == h, "conversion to string gives %s, expected %s", c.c_str(), h.c_str());
    std::ostringstream os; os << v; B_CHECK(os.str() == h, "printing gives %s, expected %s", os.str().c_str(), h.c_str());
    if (n) { std::string a = "xy"; v.append_to_string(a); B_CHECK(a == "xy" + h.substr(2), "append_to_string gives %s", a.c_str()); }
    BV f = mk(r);
    B_CHECK(v == f && f == v && !(v != f) && v == v, "does not equal a fresh vector of the same bits");
    B_CHECK(std::hash<BV>()(v) == std::hash<BV>()(f), "hash differs from the hash of an equal vector");
    if (n) {
        BV g = f; g.flip(n - 1); B_CHECK(!(v == g) && v != g, "equals a vector whose last bit differs");
        g = f; g.flip(0); B_CHECK(!(v == g) && v != g, "equals a vector whose first bit differs");
        g = f; g.flip(n / 2); B_CHECK(!(v == g) && v != g, "equals a vector whose middle bit differs");
    }
    BV g = f; g.resize(n + 1); B_CHECK(!(v == g) && v != g, "equals a longer vector");
}

// ------------------------------------------------------------------ C17: one operation of the alphabet
static const int NV = 34;
// returns false when the operation does not apply
static bool vop(vx::Ctx& x, BV& v, R& r, int o, int plevel) {
    size_t n = r.size();
    auto pos = [&](size_t m) -> size_t { // a position in 0..m-1
        if (plevel == 0) return x.choose((int)m);
        std::vector<size_t> p; for (size_t q : { (size_t)0, (size_t)1, (size_t)62, (size_t)63, (size_t)64, (size_t)65, m / 2, m - 2, m - 1 }) if (q < m) { bool d = false; for (auto e : p) d |= e == q; if (!d) p.push_back(q); }
        return p[x.choose((int)p.size())];
    };
    auto other = [&](size_t m) { return ref(plevel == 0 ? x.choose(13) : std::vector<int>{ 0, 1, 3, 7 }[x.choose(4)], m); };
    char b[200]; auto note = [&](const char* f, auto... a) { snprintf(b, sizeof b, f, a...); what = b; x.log("%s", b); };
    auto comb = [&](int k, const R& p, const R& q) { R z(p.size()); for (size_t i = 0; i < p.size(); ++i) z[i] = k == 0 ? p[i] | q[i] : k == 1 ? p[i] & q[i] : k == 2 ? p[i] ^ q[i] : k == 3 ? p[i] & !q[i] : p[i] | !q[i]; return z; };
    auto shl = [&](const R& p, size_t c) { R z(p.size()); for (size_t i = 0; i < z.size(); ++i) z[i] = c < p.size() && i + c < p.size() ? p[i + c] : 0; return z; };
    auto shr = [&](const R& p, size_t c) { R z(p.size()); for (size_t i = 0; i < z.size(); ++i) z[i] = i >= c ? p[i - c] : 0; return z; };
    switch (o) {
    case 0: if (!n) return false; { size_t i = pos(n); note("set(%zu)", i); B_CHECK(&v.set(i) == &v, "returns another object"); r[i] = 1; return true; }
    case 1: if (!n) return false; { size_t i = pos(n); note("reset(%zu)", i); B_CHECK(&v.reset(i) == &v, "returns another object"); r[i] = 0; return true; }
    case 2: if (!n) return false; { size_t i = pos(n); note("flip(%zu)", i); B_CHECK(&v.flip(i) == &v, "returns another object"); r[i] ^= 1; return true; }
    case 3: if (!n) return false; { size_t i = pos(n); int s = x.choose(2); note("set(%zu, %d)", i, s); B_CHECK(&v.set(i, s) == &v, "returns another object"); r[i] = s; return true; }
    case 4: note("set()"); v.set(); for (auto& c : r) c = 1; return true;
    case 5: note("reset()"); v.reset(); for (auto& c : r) c = 0; return true;
    case 6: note("flip()"); v.flip(); for (auto& c : r) c ^= 1; return true;
    case 7: case 8: case 9: case 10: case 11: { R q = other(n); BV w = mk(q); int k = o - 7; note("compound operator %d", k); if (k == 0) v |= w; else if (k == 1) v &= w; else if (k == 2) v ^= w; else if (k == 3) v -= w; else v.or_not(w); r = comb(k, r, q); same(w, q, "the operand"); return true; }
    case 12: case 13: case 14: case 15: { R q = other(n), r0 = r; BV w = mk(q); int k = o - 12; note("binary operator %d", k); BV z = k == 0 ? v | w : k == 1 ? v & w : k == 2 ? v ^ w : v - w; R e = comb(k, r, q); same(z, e, "the result"); same(w, q, "the operand"); same(v, r0, "the left operand"); v = z; r = e; return true; }
    case 16: { note("~"); BV z = ~v; R e = r; for (auto& c : e) c ^= 1; same(v, r, "the operand"); v = z; r = e; return true; }
    case 17: case 18: { size_t c = pos(n + 70); note("%s %zu", o == 17 ? "<<=" : ">>=", c); if (o == 17) v <<= c; else v >>= c; r = o == 17 ? shl(r, c) : shr(r, c); return true; }
    case 19: case 20: { size_t c = pos(n + 2); note("%s %zu", o == 19 ? "<<" : ">>", c); BV z = o == 19 ? v << c : v >> c; same(v, r, "the operand"); v = z; r = o == 19 ? shl(r, c) : shr(r, c); return true; }
    case 21: { size_t m; if (plevel == 0) m = x.choose((int)n + 131); else { std::vector<size_t> c{ 0, n / 2, n ? n - 1 : 0, n, n + 1, n + 63, n + 64, n + 65 }; m = c[x.choose((int)c.size())]; } int val = x.choose(2); note("resize(%zu, %d)", m, val); v.resize(m, val); r.resize(m, val); return true; }
    case 22: { note("resize(n + 1) without value"); v.resize(n + 1); r.resize(n + 1); return true; }
    case 23: { note("copy"); BV z = v; if (n) z.flip(0); same(v, r); v = z; if (n) r[0] ^= 1; return true; }
    case 24: { note("move constructor"); BV z = std::move(v); same(z, r, "the new vector"); same(v, R{}, "the moved-from vector"); v = BV(z); return true; }
    case 25: { R q = other(pos(n + 3)); BV w = mk(q); note("move assignment"); w = std::move(v); same(w, r, "the target"); same(v, R{}, "the moved-from vector"); v = w; return true; }
    case 26: { R q = other(pos(n + 3)); BV w = mk(q); note("swap"); v.swap(w); same(w, r, "the other"); r = q; return true; }
    case 27: { R q = other(n / 2 + x.choose(3) <= n ? n / 2 : n); if (n && x.choose(2)) { q = r; for (size_t i = 0; i < n; i += 3) q[i] = 0; } if (n && x.choose(2)) q.resize(q.size() > 64 ? 64 : q.size()); BV w = mk(q); note("contains/disjoint/intersects with %zu bits", q.size());
        bool c = true, d = true; for (size_t i = 0; i < q.size(); ++i) { if (q[i] && !r[i]) c = false; if (q[i] && r[i]) d = false; }
        B_CHECK(v.contains(w) == c, "contains is %d", v.contains(w)); B_CHECK(v.disjoint(w) == d && v.intersects(w) == !d, "disjoint is %d, intersects %d", v.disjoint(w), v.intersects(w)); B_CHECK(w.disjoint(v) == d && w.intersects(v) == !d, "reversed: disjoint is %d", w.disjoint(v)); return true; }
    case 28: { note("self operands"); B_CHECK(v == v && v.contains(v), "v.contains(v) or v == v is false"); v |= v; v &= v; same(v, r); BV z = v; z ^= z; same(z, R(n), "v ^= v"); z = v; z -= z; same(z, R(n), "v -= v"); z = v; z.or_not(z); same(z, R(n, 1), "v.or_not(v)"); z = v; z = z; same(z, r, "v = v"); return true; }
    case 29: { if (!n) return false; R q = r; size_t i = pos(n); q[i] ^= 1; BV w = mk(q); note("comparison, different at %zu", i); B_CHECK(!(v == w) && v != w, "equal although bit %zu differs", i); bool c = !q[i], c2 = q[i]; B_CHECK(v.contains(w) == c && w.contains(v) == c2, "contains is %d and %d", v.contains(w), w.contains(v)); return true; }
    case 30: { // list of words
        int k = x.choose(4); uint64_t a = 0x8000000000000001ull, b2 = 0x0123456789abcdefull, c = ~0ull; if ((size_t)k > (n + 63) / 64) return false; note("assignment of a list of %d words", k);
        if (k == 0) v = std::initializer_list<uint64_t>{}; else if (k == 1) v = { a }; else if (k == 2) v = { a, b2 }; else v = { a, b2, c };
        for (int i = 0; i < k; ++i) { uint64_t w = i == 0 ? a : i == 1 ? b2 : c; for (size_t j = 0; j < 64 && i * 64 + j < n; ++j) r[i * 64 + j] = w >> j & 1; } return true; }
    case 31: { note("construction from a list"); uint64_t a = 0x8000000000000001ull, b2 = 0xfedcba9876543210ull; BV z({ a, b2 }); r.assign(128, 0); for (int i = 0; i < 64; ++i) { r[i] = a >> i & 1; r[64 + i] = b2 >> i & 1; } v = z; return true; }
    case 32: { size_t m = pos(n + 3); int s = x.choose(2); note("construction of %zu x %d", m, s); v = BV(m, s); r.assign(m, s); same(BV(m), R(m), "BV(n)"); return true; }
    case 33: { note("whole view"); auto w = v.view(); B_CHECK(w.size() == n && w.empty() == (n == 0), "view size %zu", w.size()); if (n) { w.flip(n - 1); r[n - 1] ^= 1; } return true; }
    }
    return false;
}
static void vbody(vx::Ctx& x, const std::vector<int>& sizes, const std::vector<int>& pats, int depth, int plevel) {
    size_t n = sizes[x.choose((int)sizes.size())]; int p = pats[x.choose((int)pats.size())];
    R r = ref(p, n); BV v = mk(r);
    what = "start"; x.log("size %zu pattern %d", n, p);
    if (x.fresh()) full(v, r);
    for (int i = 0; i < depth; ++i) {
        int o = x.choose(NV);
        if (!vop(x, v, r, o, plevel)) throw vx::Prune{};
        x.step();
        if (x.fresh()) { full(v, r); x.state(vx::hash_bytes(r.data(), r.size(), r.size() + 99)); }
    }
}
// every content of every small size, every operation with every parameter
static void vsmall(vx::Ctx& x, int maxn) {
    size_t n = x.choose(maxn + 1); int c = x.choose(1 << n);
    R r(n); for (size_t i = 0; i < n; ++i) r[i] = c >> i & 1;
    BV v = mk(r); what = "start"; x.log("size %zu contents %x", n, c); full(v, r);
    for (int c2 = 0; c2 < 1 << n; ++c2) {
        R q(n); for (size_t i = 0; i < n; ++i) q[i] = c2 >> i & 1;
        BV w = mk(q); auto un = [&](int bitsv) { R z(n); for (size_t i = 0; i < n; ++i) z[i] = bitsv >> i & 1; return z; };
        int M = (1 << n) - 1; char b[80]; snprintf(b, sizeof b, "operands %x and %x", c, c2); what = b;
        same(v | w, un(c | c2), "|"); same(v & w, un(c & c2), "&"); same(v ^ w, un(c ^ c2), "^"); same(v - w, un(c & ~c2 & M), "-"); BV z = v; z.or_not(w); same(z, un((c | ~c2) & M), "or_not");
        B_CHECK((v == w) == (c == c2) && (v != w) == (c != c2), "== is %d", v == w); B_CHECK(v.contains(w) == ((c | c2) == c), "contains is %d", v.contains(w)); B_CHECK(v.disjoint(w) == !(c & c2) && v.intersects(w) == !!(c & c2), "disjoint is %d", v.disjoint(w));
        if (c == c2) B_CHECK(std::hash<BV>()(v) == std::hash<BV>()(w), "hashes of equal vectors differ");
        x.step();
    }
}
// single bits: every size, every set bit and every hole
static void vsingle(vx::Ctx& x, int maxn) {
    size_t n = x.choose(maxn) + 1;
    for (size_t i = 0; i < n; ++i) for (int inv = 0; inv < 2; ++inv) {
        R r(n, inv); r[i] = !inv; BV v(n, inv); inv ? v.reset(i) : v.set(i);
        char b[80]; snprintf(b, sizeof b, "size %zu, only bit %zu %s", n, i, inv ? "clear" : "set"); what = b;
        same(v, r); size_t cnt = inv ? n - 1 : 1; size_t first = inv ? (i == 0 ? (n > 1 ? 1 : NP) : 0) : i;
        B_CHECK(v.count() == cnt && v.any() == (cnt > 0) && v.every() == (cnt == n) && v.none() == (cnt == 0), "count %zu any %d every %d none %d", v.count(), v.any(), v.every(), v.none());
        B_CHECK(v.find_first() == first, "find_first() is %zd, expected %zd", (ssize_t)v.find_first(), (ssize_t)first);
        size_t nx = inv ? (i + 1 < n ? i + 1 : NP) : NP; B_CHECK(v.find_next(i + 1) == nx, "find_next(%zu) is %zd", i + 1, (ssize_t)v.find_next(i + 1)); B_CHECK(v.find_next(i) == (inv ? nx : i), "find_next(%zu) is %zd", i, (ssize_t)v.find_next(i));
        x.step();
    }
}

// ------------------------------------------------------------------ C18
using VW = gtl::bit_view;
static void put(BV& v, const R& r) { for (size_t i = 0; i < r.size(); ++i) v.set(i, r[i]); }
// all single-view operations on the range [f, l)
static void wone(vx::Ctx& x, size_t n, size_t f, size_t l, int p) {
    const R r0 = ref(p, n); BV v0 = mk(r0); size_t m = l - f;
    x.log("size %zu pattern %d view [%zu, %zu)", n, p, f, l);
    char pre[100]; snprintf(pre, sizeof pre, "view [%zu, %zu) of %zu bits, pattern %d", f, l, n, p); std::string P = pre; what = P;
    { // reading
        BV v = v0; auto w = v.view(f, l);
        size_t cnt = 0, first = NP; for (size_t i = 0; i < m; ++i) { B_CHECK(w[i] == (bool)r0[f + i], "[%zu] is %d", i, w[i]); if (r0[f + i]) { ++cnt; if (first == NP) first = i; } }
        B_CHECK(w.size() == m && w.empty() == (m == 0), "size() is %zu", w.size());
        B_CHECK(w.count() == cnt, "count() is %zu, expected %zu", w.count(), cnt);
        B_CHECK(w.any() == (cnt > 0) && w.none() == (cnt == 0) && w.every() == (cnt == m), "any/none/every are %d %d %d with %zu of %zu bits set", w.any(), w.none(), w.every(), cnt, m);
        B_CHECK(w.find_first() == first, "find_first() is %zd, expected %zd", (ssize_t)w.find_first(), (ssize_t)first);
        for (size_t i = m + 2, nx = NP; i-- > 0;) { if (i < m && r0[f + i]) nx = i; size_t g = w.find_next(i); B_CHECK(g == nx, "find_next(%zu) is %zd, expected %zd", i, (ssize_t)g, (ssize_t)nx); }
        std::string h = hex(r0, f, l), c = w; B_CHECK(c == h, "conversion to string gives %s, expected %s", c.c_str(), h.c_str());
        std::ostringstream os; os << w; B_CHECK(os.str() == h, "printing gives %s, expected %s", os.str().c_str(), h.c_str());
        same(v, r0);
        const BV& cv = v; const auto cw = cv.view(f, l); B_CHECK(cw.count() == cnt && cw == w, "const view differs");
        if (l == n) { auto w2 = v.view(f); B_CHECK(w2.size() == m && w2.count() == cnt, "view(first) differs from view(first, size)"); }
        x.step();
    }
    BV v = v0; R e;
#define CHANGE(name, code, expect) { what = P + ": " name; e = r0; v = v0; auto w = v.view(f, l); code; expect; same(v, e); x.step(); }
    CHANGE("set()", B_CHECK(&w.set() == &w, "returns another object"), for (size_t i = f; i < l; ++i) e[i] = 1)
    CHANGE("reset()", B_CHECK(&w.reset() == &w, "returns another object"), for (size_t i = f; i < l; ++i) e[i] = 0)
    CHANGE("flip()", B_CHECK(&w.flip() == &w, "returns another object"), for (size_t i = f; i < l; ++i) e[i] ^= 1)
    for (size_t i : { (size_t)0, (size_t)1, m / 2, m - 1 }) if (i < m) {
        CHANGE("set(i)", w.set(i), e[f + i] = 1) CHANGE("reset(i)", w.reset(i), e[f + i] = 0) CHANGE("flip(i)", w.flip(i), e[f + i] ^= 1)
        CHANGE("set(i, 0)", w.set(i, false), e[f + i] = 0) CHANGE("set(i, 1)", w.set(i, true), e[f + i] = 1)
    }
    if (m <= 64) for (uint64_t val : { 0ull, ~0ull, 0x8000000000000001ull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0x5555555555555555ull })
        CHANGE("= integer", B_CHECK(&(w = val) == &w, "returns another object"), for (size_t i = 0; i < m; ++i) e[f + i] = val >> i & 1)
    {
        uint64_t L[4] = { 0xfedcba9876543210ull, 0x8000000000000001ull, 0x0123456789abcdefull, ~0ull };
        auto assign = [&](VW w, int k) { if (k == 0) w = std::initializer_list<uint64_t>{}; else if (k == 1) w = { L[0] }; else if (k == 2) w = { L[0], L[1] }; else if (k == 3) w = { L[0], L[1], L[2] }; else w = { L[0], L[1], L[2], L[3] }; };
        for (int k = 0; k <= 4; ++k) CHANGE("= list", assign(v.view(f, l), k), for (size_t i = 0; i < m && i < (size_t)k * 64; ++i) e[f + i] = L[i / 64] >> (i % 64) & 1)
    }
    // shifts
    auto shifts = [&](size_t c) {
        what = P + ": <<= " + std::to_string(c); e = r0; v = v0; v.view(f, l) <<= c; for (size_t i = 0; i < m; ++i) e[f + i] = c < m && i + c < m ? r0[f + i + c] : 0; same(v, e);
        what = P + ": >>= " + std::to_string(c); e = r0; v = v0; v.view(f, l) >>= c; for (size_t i = 0; i < m; ++i) e[f + i] = i >= c ? r0[f + i - c] : 0; same(v, e);
        x.step();
    };
    if (n <= 150 || vx::thorough) { for (size_t c = 0; c <= m + 1; ++c) shifts(c); }
    else { for (size_t c : { (size_t)0, (size_t)1, (size_t)7, (size_t)31, (size_t)62, (size_t)63, (size_t)64, (size_t)65, (size_t)66, (size_t)100, (size_t)127, (size_t)128, (size_t)129, m / 2, m ? m - 1 : 0, m, m + 1 }) if (c <= m + 1) shifts(c); }
    for (size_t c : { m + 64, m + 1000 }) shifts(c);
}
// all two-view operations; same vector (ranges may overlap) or different ones
static void wtwo(vx::Ctx& x, size_t n, size_t f, size_t l, int p, int p2, bool same_vec) {
    const R a0 = ref(p, n), b0 = same_vec ? a0 : ref(p2, n); BV va = mk(a0), vb0 = mk(b0); size_t m = l - f;
    x.log("size %zu patterns %d %d view [%zu, %zu) against every other position, %s", n, p, p2, f, l, same_vec ? "same vector" : "another vector");
    bool sparse = !vx::thorough && n > 150;
    for (size_t g = 0; g + m <= n; ++g) {
        if (sparse) { size_t d = g > f ? g - f : f - g; bool near = d <= 2 || (d >= 62 && d <= 66) || d >= 126 || g % 64 <= 1 || g % 64 >= 63 || (g + m) % 64 <= 1 || (g + m) % 64 >= 63 || g % 11 == 5; if (!near) continue; }
        char pre[140]; snprintf(pre, sizeof pre, "view [%zu, %zu) and view [%zu, %zu) of %s %zu bits, patterns %d %d", f, l, g, g + m, same_vec ? "the same" : "another vector,", n, p, p2);
        BV v = va, vb = vb0; R e; BV& o = same_vec ? v : vb; std::string P = pre;
        bool overlap = same_vec && f < g + m && g < l && f != g;
#define TWO(name, code, expr) { what = P + name; v = va; e = a0; { auto w = v.view(f, l); auto u = o.view(g, g + m); code; } for (size_t i = 0; i < m; ++i) { bool A = a0[f + i], B = b0[g + i]; (void)A; (void)B; e[f + i] = expr; } same(v, e); if (!same_vec) same(vb, b0, "the source"); x.step(); }
        TWO(": =", w = u, B)
        TWO(": copy_slow", w.copy_slow(u), B)
        if (!overlap) {
            TWO(": |=", w |= u, A || B) TWO(": &=", w &= u, A && B) TWO(": ^=", w ^= u, A != B) TWO(": -=", w -= u, A && !B) TWO(": or_not", w.or_not(u), A || !B)
        }
        { // predicates, also with shorter and longer operands
            what = P; v = va; bool eq = true, ct = true, dj = true; for (size_t i = 0; i < m; ++i) { bool A = a0[f + i], B = b0[g + i]; eq &= A == B; ct &= A || !B; dj &= !(A && B); }
            auto w = v.view(f, l); auto u = o.view(g, g + m);
            B_CHECK((w == u) == eq, "== is %d", w == u); B_CHECK(w.contains(u) == ct, "contains is %d", w.contains(u)); B_CHECK(w.disjoint(u) == dj && w.intersect(u) == !dj, "disjoint is %d", w.disjoint(u));
            for (size_t k : { (size_t)0, (size_t)1, m / 2, m > 1 ? m - 1 : 0, m > 64 ? (size_t)64 : m / 3 }) if (k <= m) {
                bool c = true, d = true; for (size_t i = 0; i < k; ++i) { bool A = a0[f + i], B = b0[g + i]; c &= A || !B; d &= !(A && B); }
                auto s = o.view(g, g + k); B_CHECK(w.contains(s) == c, "contains of the first %zu bits is %d", k, w.contains(s)); B_CHECK(w.disjoint(s) == d && w.intersect(s) == !d, "disjoint from the first %zu bits is %d", k, w.disjoint(s)); B_CHECK(s.disjoint(w) == d && s.intersect(w) == !d, "first %zu bits: disjoint is %d", k, s.disjoint(w));
                if (k != m) B_CHECK(!(w == s) && !(s == w), "equals a view of another size");
            }
            same(v, a0); x.step();
        }
    }
}
// predicates and assignment must see every bit: two equal views with exactly one differing bit
static void wdiff(vx::Ctx& x, size_t n, size_t f, size_t l) {
    size_t m = l - f; x.log("size %zu view [%zu, %zu) one differing bit", n, f, l);
    for (size_t g : { (size_t)0, (size_t)1, (size_t)5, (size_t)63, (size_t)64, (size_t)65, n - m }) if (g + m <= n) for (size_t i = 0; i < m; ++i) {
        BV v(n), u(n, true); u.view(g, g + m).reset(); u.set(g + i); // outside the view all ones: must not matter
        char pre[120]; snprintf(pre, sizeof pre, "view [%zu, %zu) of %zu zeros and view [%zu, %zu) with only bit %zu set", f, l, n, g, g + m, i); what = pre;
        auto w = v.view(f, l); auto s = u.view(g, g + m);
        B_CHECK(s.count() == 1 && s.find_first() == i && s.any() && !s.none() && s.every() == (m == 1), "count %zu find_first %zd", s.count(), (ssize_t)s.find_first());
        B_CHECK(!(w == s), "are equal"); B_CHECK(!w.contains(s) && s.contains(w), "contains"); B_CHECK(w.disjoint(s), "not disjoint");
        w |= s; R e(n); e[f + i] = 1; same(v, e); B_CHECK(w == s && w.contains(s) && !w.disjoint(s), "after |=");
        w = s; same(v, e); w ^= s; e[f + i] = 0; same(v, e); w.or_not(s); for (size_t k = 0; k < m; ++k) e[f + k] = k != i; same(v, e); w.flip(); w -= s; R z(n); same(v, z);
        x.step();
    }
}
// sequences of views operations on one vector
static void wseq(vx::Ctx& x, int depth) {
    size_t n = std::vector<size_t>{ 70, 130 }[x.choose(2)]; R r = ref(3, n); BV v = mk(r);
    std::vector<std::pair<size_t, size_t>> rg{ { 0, n }, { 1, 64 }, { 3, 67 }, { 60, 70 }, { 64, n } };
    for (int i = 0; i < depth; ++i) {
        auto [f, l] = rg[x.choose((int)rg.size())]; int o = x.choose(8); auto w = v.view(f, l); size_t m = l - f; R q = r; char b[80]; snprintf(b, sizeof b, "op %d on [%zu,%zu) of %zu", o, f, l, n); what = b; x.log("%s", b);
        switch (o) {
        case 0: w.flip(); for (size_t k = f; k < l; ++k) r[k] ^= 1; break;
        case 1: w <<= 5; for (size_t k = 0; k < m; ++k) r[f + k] = k + 5 < m ? q[f + k + 5] : 0; break;
        case 2: w >>= 64; for (size_t k = 0; k < m; ++k) r[f + k] = k >= 64 ? q[f + k - 64] : 0; break;
        case 3: w >>= 3; for (size_t k = 0; k < m; ++k) r[f + k] = k >= 3 ? q[f + k - 3] : 0; break;
        case 4: if (m > 1) v.view(f, l - 1) = v.view(f + 1, l); for (size_t k = 0; k + 1 < m; ++k) r[f + k] = q[f + k + 1]; break;
        case 5: if (m > 1) v.view(f + 1, l) = v.view(f, l - 1); for (size_t k = 1; k < m; ++k) r[f + k] = q[f + k - 1]; break;
        case 6: { size_t h = m / 2; v.view(f, f + h) ^= v.view(f + h, f + 2 * h); for (size_t k = 0; k < h; ++k) r[f + k] = q[f + k] ^ q[f + h + k]; break; }
        case 7: w <<= 64; for (size_t k = 0; k < m; ++k) r[f + k] = k + 64 < m ? q[f + k + 64] : 0; break;
        }
        x.step();
        if (x.fresh()) { full(v, r); x.state(vx::hash_bytes(r.data(), r.size(), r.size())); }
    }
}
void reg() {
    bool Th = vx::thorough;
    std::vector<int> all, some{ 0, 1, 2, 63, 64, 65, 100, 127, 128, 129, 192, 200 };
    for (int i = 0; i <= (Th ? 200 : 140); ++i) all.push_back(i);
    vx::add("v-op1", 16, 2, [=](vx::Ctx& x) { vbody(x, Th ? all : std::vector<int>{ 0, 1, 2, 3, 8, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 192, 193 }, { 0, 1, 3, 5, 7, 8, 9, 12 }, 1, 0); });
    vx::add("v-op1s", 8, 2, [=](vx::Ctx& x) { vbody(x, all, { 1, 4 }, 1, 1); });
    vx::add("v-op2", 32, 3, [=](vx::Ctx& x) { vbody(x, Th ? some : std::vector<int>{ 0, 1, 63, 64, 65, 130 }, Th ? std::vector<int>{ 1, 3, 8 } : std::vector<int>{ 1, 3 }, 2, 1); });
    if (Th) vx::add("v-op3", 64, 3, [=](vx::Ctx& x) { vbody(x, { 63, 65, 128 }, { 3 }, 3, 1); });
    vx::add("v-small", 8, 2, [=](vx::Ctx& x) { vsmall(x, Th ? 11 : 9); });
    vx::add("v-single", 8, 1, [=](vx::Ctx& x) { vsingle(x, Th ? 700 : 300); });
    auto range = [=](vx::Ctx& x, const std::vector<int>& sizes, size_t& n, size_t& f, size_t& l) { n = sizes[x.choose((int)sizes.size())]; f = x.choose((int)n + 1); l = f + x.choose((int)(n - f) + 1); };
    std::vector<int> big = Th ? std::vector<int>{ 64, 65, 100, 128, 129, 200, 260 } : std::vector<int>{ 1, 3, 64, 70, 130, 192 };
    vx::add("w-one", 64, 2, [=](vx::Ctx& x) { size_t n, f, l; range(x, big, n, f, l); std::vector<int> ps = Th ? std::vector<int>{ 0, 1, 3, 4, 5, 7 } : std::vector<int>{ 1, 3, 5 }; for (int p : ps) wone(x, n, f, l, p); });
    std::vector<int> mid = Th ? std::vector<int>{ 5, 64, 70, 129, 200 } : std::vector<int>{ 5, 70, 134 };
    vx::add("w-two", 64, 2, [=](vx::Ctx& x) { size_t n, f, l; range(x, mid, n, f, l); if (!Th && n > 150) { size_t m = l - f; bool keep = f % 64 <= 1 || f % 64 >= 62 || f % 9 == 4; bool keep2 = l % 64 <= 1 || l % 64 >= 62 || m <= 2 || (m >= 63 && m <= 65) || l % 7 == 3; if (!(keep && keep2)) throw vx::Prune{}; } int k = x.choose(2); wtwo(x, n, f, l, 3, 4, k); if (Th) wtwo(x, n, f, l, 4, 7, k); });
    vx::add("w-diff", 32, 2, [=](vx::Ctx& x) { size_t n, f, l; range(x, Th ? std::vector<int>{ 64, 70, 130, 200 } : std::vector<int>{ 66, 130 }, n, f, l); if (l == f) throw vx::Prune{}; wdiff(x, n, f, l); });
    vx::add("w-seq", 16, 3, [=](vx::Ctx& x) { wseq(x, Th ? 4 : 3); });
}
VX_MAIN(reg)
