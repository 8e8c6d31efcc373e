// C11: dump and load.  -DKIND=1 flat | 3 parallel flat
#include <gtl/phmap_dump.hpp>
#include "hash_world.hpp"
#include <sys/mman.h>
using namespace hw;
#ifndef NSUB
#define NSUB 1
#endif
struct PK { int a; short b; char c; friend bool operator==(const PK& x, const PK& y) { return x.a == y.a && x.b == y.b && x.c == y.c; } };
namespace hw { template<> struct Cv<PK> { static PK mk(int i) { return PK{ i, (short)(i * 3), (char)i }; } static int get(const PK& p) { if (p.b != (short)(p.a * 3) || p.c != (char)p.a) vx::fail("a key was damaged"); return p.a; } };
template<> struct Cv<unsigned char> { static unsigned char mk(int i) { return (unsigned char)i; } static int get(unsigned char c) { return c; } };
template<> struct Cv<double> { static double mk(int i) { return i + 0.5; } static int get(double d) { return (int)d; } }; }
#if KIND == 1
using MapI = gtl::flat_hash_map<int, int, Hs<int>, Eq<int>>;
using MapP = gtl::flat_hash_map<PK, double, Hs<PK>, Eq<PK>>;
using SetI = gtl::flat_hash_set<int, Hs<int>, Eq<int>>;
using SetP = gtl::flat_hash_set<PK, Hs<PK>, Eq<PK>, tk::PlainAlloc<PK>>;
#else
using MapI = gtl::parallel_flat_hash_map<int, int, Hs<int>, Eq<int>, std::allocator<std::pair<const int, int>>, NSUB, gtl::NullMutex>;
using MapP = gtl::parallel_flat_hash_map<PK, double, Hs<PK>, Eq<PK>, std::allocator<std::pair<const PK, double>>, 2, std::mutex>;
using SetI = gtl::parallel_flat_hash_set<int, Hs<int>, Eq<int>, std::allocator<int>, 0, std::mutex>;
using SetP = gtl::parallel_flat_hash_set<PK, Hs<PK>, Eq<PK>, tk::PlainAlloc<PK>, NSUB, std::shared_mutex>;
#endif
constexpr int U = 4;
template<class C> using W = World<C, false>;

struct MemOut { // fails at byte `limit`
    std::vector<char> b; size_t limit = (size_t)-1; bool failed = false;
    bool saveBinary(const void* p, size_t n) { if (failed || n > limit - b.size()) { failed = true; return false; } b.insert(b.end(), (const char*)p, (const char*)p + n); return true; }
};
struct MemIn {
    const std::vector<char>& b; size_t end, pos = 0; bool failed = false;
    MemIn(const std::vector<char>& v, size_t e) : b(v), end(e) {}
    bool loadBinary(void* p, size_t n) { if (failed || n > end - pos) { memcpy(p, b.data() + pos, failed ? 0 : end - pos); failed = true; return false; } memcpy(p, b.data() + pos, n); pos += n; return true; }
};
// the format before versions were recorded: the same pieces without version and growth
struct Pieces { std::vector<std::vector<char>> b; bool saveBinary(const void* p, size_t n) { b.emplace_back((const char*)p, (const char*)p + n); return true; } };
template<class C> std::vector<char> old_format(const C& c) {
    Pieces p; VX_CHECK(c.phmap_dump(p), "dump reports failure");
    std::vector<char> o; size_t i = 0;
    auto put = [&](size_t j) { o.insert(o.end(), p.b[j].begin(), p.b[j].end()); };
    if constexpr (IsPar<C>) put(i++);
    while (i < p.b.size()) { // version, size, capacity [, growth, control bytes, slots]
        if (i + 3 > p.b.size() || p.b[i].size() != 8 || p.b[i + 1].size() != 8) return {};
        size_t n; memcpy(&n, p.b[i + 1].data(), 8);
        put(i + 1); put(i + 2); if (n && i + 6 > p.b.size()) return {};
        if (n) { put(i + 4); put(i + 5); i += 6; } else i += 3;
    }
    return o;
}
struct VoidOut { std::vector<char> b; void saveBinary(const void* p, size_t n) { b.insert(b.end(), (const char*)p, (const char*)p + n); } }; // archives such as cereal's return nothing
struct VoidIn { const std::vector<char>& b; size_t pos = 0; void loadBinary(void* p, size_t n) { if (n > b.size() - pos) vx::fail("load reads more than dump wrote"); memcpy(p, b.data() + pos, n); pos += n; } };

template<class C> void swap_in(W<C>& w, C& t) { w.c.swap(t); }

template<class C> void start(vx::Ctx& x, std::vector<int> sizes, std::vector<int> profs, std::unique_ptr<W<C>>& w, int& n) {
    n = sizes[x.choose((int)sizes.size())]; int pat = x.choose(E_COUNT), prof = profs[x.choose((int)profs.size())];
    if (n == 0 && pat) throw vx::Prune{};
    bad_functor = 0; int nk = U + n + 2; set_profile(prof, nk + 200);
    x.log("profile %s", prof_name[prof]);
    w.reset(new W<C>(x, nk));
    { C t(0, Hs<typename C::key_type>(2), Eq<typename C::key_type>(2), w->c.get_allocator()); w->c.swap(t); }
    build(*w, U, n, pat);
    int hist = x.choose(3);
    if (hist == 1) { x.log("rehash(0)"); w->c.rehash(0); } else if (hist == 2) { x.log("clear, re-insert first"); w->c.clear(); w->r.clear(); if (n) { w->c.insert(W<C>::mv(U, 5)); w->r.put(U, W<C>::MAP ? 5 : 0); } }
}
template<class C> C fresh_like(int pre) { // target of the load, possibly with previous contents
    C t(0, Hs<typename C::key_type>(2), Eq<typename C::key_type>(2));
    for (int i = 0; i < pre; ++i) t.insert(W<C>::mv(3 + i, 9));
    return t;
}
template<class C> void verify_loaded(vx::Ctx& x, W<C>& w, C& t) {
    VX_CHECK(t.size() == w.c.size(), "loaded container has %zu elements, dumped %zu", t.size(), w.c.size());
    VX_CHECK(t == w.c && w.c == t, "loaded container differs from the dumped one");
    VX_CHECK(t.hash_function().id == 2 && t.key_eq().id == 2, "load replaced the hash or equality function");
    w.c.swap(t); w.where = "load"; w.check();
}
template<class C> void body_round(vx::Ctx& x, std::vector<int> sizes, std::vector<int> profs, int depth) {
    std::unique_ptr<W<C>> wp; int n; start<C>(x, sizes, profs, wp, n); W<C>& w = *wp;
    int pre = (int[]){ 0, 1, 20 }[x.choose(3)], how = x.choose(5);
    C t = fresh_like<C>(pre);
    w.check();
    if (how == 0) {
        x.log("dump to memory, load into a container of %d", pre);
        MemOut o; VX_CHECK(w.c.phmap_dump(o), "dump reports failure");
        MemIn i(o.b, o.b.size()); VX_CHECK(t.phmap_load(i), "load of a complete dump reports failure"); VX_CHECK(i.pos == o.b.size(), "load read %zu of %zu bytes", i.pos, o.b.size());
    } else if (how == 1) {
        x.log("dump through an archive that returns nothing, load into a container of %d", pre);
        VoidOut o; VX_CHECK(w.c.phmap_dump(o), "dump reports failure"); VoidIn i{ o.b }; VX_CHECK(t.phmap_load(i), "load reports failure");
    } else if (how == 2) {
        x.log("dump and load with the archives of the library, into a container of %d", pre);
        int fd = memfd_create("dump", 0); char path[64]; snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
        { gtl::BinaryOutputArchive o(path); VX_CHECK(w.c.phmap_dump(o), "dump reports failure"); }
        { gtl::BinaryInputArchive i(path); VX_CHECK(t.phmap_load(i), "load reports failure"); }
        close(fd);
    } else if (how == 4) {
        x.log("load of the old format into a container of %d", pre);
        std::vector<char> o = old_format<C>(w.c);
        if (o.empty()) throw vx::Prune{}; // the current format is no longer the one the old format was derived from
        MemIn i(o, o.size()); VX_CHECK(t.phmap_load(i), "load of the old format reports failure"); VX_CHECK(i.pos == o.size(), "load of the old format read %zu of %zu bytes", i.pos, o.size());
    } else {
        x.log("two containers after each other in one file, into a container of %d", pre);
        int fd = memfd_create("dump", 0); char path[64]; snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
        int a = 12345, b = 0; C u = fresh_like<C>(0), e;
        { gtl::BinaryOutputArchive o(path); VX_CHECK(o.saveBinary(e) && o.saveBinary(a) && o.saveBinary(w.c) && o.saveBinary(a), "dump reports failure"); }
        { gtl::BinaryInputArchive i(path); VX_CHECK(i.loadBinary(&u) && i.loadBinary(&b) && b == a && i.loadBinary(&t) && i.loadBinary(&(b = 0)) && b == a, "load reports failure or misplaced data"); }
        VX_CHECK(u.empty(), "an empty container was loaded with elements");
        close(fd);
    }
    x.step();
    verify_loaded<C>(x, w, t);
    // it keeps working: every sequence of core operations
    static std::vector<const typename W<C>::Op*> ko, po;
    if (ko.empty()) for (auto& o : W<C>::ops()) if (o.core) (o.keyed ? ko : po).push_back(&o);
    std::vector<int> keys = { 0 }; if (n > 0) keys.push_back(U); if (n > 1) keys.push_back(U + n - 1);
    int nko = (int)(ko.size() * keys.size()), tot = nko + (int)po.size();
    for (int d = 0; d < depth; ++d) {
        int a = x.choose(tot);
        if (a < nko) w.apply(*ko[a / keys.size()], keys[a % keys.size()]); else w.apply(*po[a - nko], 0);
        w.check();
    }
    // fill up: growth bookkeeping must have been restored
    for (int k = 0; k < w.nk; ++k) { auto p = w.c.insert(W<C>::mv(k, 3)); w.inserted("insert", k, W<C>::MAP ? 3 : 0, p.first, p.second); }
    w.check();
    // the former original is independent
    t.clear(); t.insert(W<C>::mv(0, 1)); w.where = "changes of the original"; w.check();
}
#if KIND == 3
// the dump of a container with another number of submaps is refused and changes nothing
void body_count(vx::Ctx& x) {
    using A = std::allocator<std::pair<const int, int>>;
    set_profile(P_NATURAL, 100);
    int n = x.choose(40), pre = x.choose(20); x.log("%d elements dumped, loaded with another number of submaps over %d", n, pre);
    gtl::parallel_flat_hash_map<int, int, Hs<int>, Eq<int>, A, 2, std::mutex> a; gtl::parallel_flat_hash_map<int, int, Hs<int>, Eq<int>, A, 3, std::mutex> b;
    for (int i = 0; i < n; ++i) a.insert({ i, i }); for (int i = 0; i < pre; ++i) b.insert({ 50 + i, i });
    MemOut o; VX_CHECK(a.phmap_dump(o), "dump"); MemIn in(o.b, o.b.size());
    VX_CHECK(!b.phmap_load(in), "load of a dump with another number of submaps reports success");
    size_t c = 0; for (auto& e : b) { ++c; VX_CHECK(e.first >= 50 && e.first < 50 + pre && e.second == e.first - 50, "a refused load changed the container"); }
    VX_CHECK((int)c == pre && (int)b.size() == pre, "a refused load changed the container");
    b.insert({ 1, 1 }); VX_CHECK(b.contains(1), "container unusable after a refused load"); x.step();
}
#endif
template<class C> void body_fault(vx::Ctx& x, std::vector<int> sizes, std::vector<int> profs, bool files) {
    std::unique_ptr<W<C>> wp; int n; start<C>(x, sizes, profs, wp, n); W<C>& w = *wp;
    MemOut full; VX_CHECK(w.c.phmap_dump(full), "dump reports failure");
    size_t total = full.b.size();
    int rd = x.choose(2), pre = (int[]){ 0, 20 }[x.choose(2)];
    if (!rd && pre) throw vx::Prune{};
    x.log("%s failing at each of %zu bytes, %s", rd ? "read" : "write", total, files ? "files" : "memory");
    int fd = -1; char path[64];
    if (files) { fd = memfd_create("dump", 0); snprintf(path, sizeof path, "/proc/self/fd/%d", fd); }
    for (size_t L = 0; L < total; ++L) {
        x.step();
        if (!rd) {
            if (files) {
                if (L) break;
                gtl::BinaryOutputArchive o("/dev/full"); VX_CHECK(!w.c.phmap_dump(o), "dump to a full device reports success");
                gtl::BinaryOutputArchive o2("/nonexistent-directory/x"); VX_CHECK(!w.c.phmap_dump(o2), "dump to a file that cannot be opened reports success");
            } else { MemOut o; o.limit = L; VX_CHECK(!w.c.phmap_dump(o), "dump whose write failed after %zu of %zu bytes reports success", L, total); VX_CHECK(o.failed, "harness"); }
            w.where = "failed dump"; w.check();
        } else {
            C t = fresh_like<C>(pre);
            if (files) {
                if (ftruncate(fd, 0) || pwrite(fd, full.b.data(), L, 0) != (ssize_t)L) vx::harness_error("memfd");
                gtl::BinaryInputArchive i(path); VX_CHECK(!t.phmap_load(i), "load of the first %zu of %zu bytes reports success", L, total);
            } else { MemIn i(full.b, L); VX_CHECK(!t.phmap_load(i), "load of the first %zu of %zu bytes reports success", L, total); }
            // still a container, holding nothing that was not there or in the dump
            size_t cnt = 0; for (const auto& e : t) { int k = W<C>::kof(e); ++cnt; VX_CHECK((k >= 0 && k < w.nk && w.r.in(k)) || (k >= 3 && k < 3 + pre), "failed load leaves key %d", k); }
            VX_CHECK(cnt == t.size(), "failed load leaves a container with size() %zu that traverses %zu elements", t.size(), cnt);
            auto p = t.insert(W<C>::mv(1, 5)); VX_CHECK(p.second && t.contains(W<C>::mk(1)) && t.erase(W<C>::mk(1)) == 1, "container unusable after a failed load");
            t.reserve(30); t.insert(W<C>::mv(1, 5)); VX_CHECK(t.contains(W<C>::mk(1)), "container unusable after a failed load");
            MemIn i(full.b, total); VX_CHECK(t.phmap_load(i), "load after a failed load"); VX_CHECK(t == w.c, "load after a failed load differs");
        }
    }
    if (fd >= 0) close(fd);
}
template<class C> void reg_for(std::string nm) {
    bool T = vx::thorough;
    std::vector<int> sz; for (int i = 0; i < (T ? 130 : 34); ++i) sz.push_back(i);
    std::vector<int> pf = { P_NATURAL, P_ALLEQUAL, P_WRAP };
    vx::add(nm + "-round", 16, 4, [=](vx::Ctx& x) { body_round<C>(x, sz, pf, 1); });
    vx::add(nm + "-round2", 16, 4, [=](vx::Ctx& x) { body_round<C>(x, T ? std::vector<int>{ 0, 1, 7, 14, 15, 28 } : std::vector<int>{ 0, 7, 14 }, T ? pf : std::vector<int>{ P_NATURAL }, T ? 3 : 2); });
    std::vector<int> fs = { 0, 1, 3, 7, 14, 15 }; if (T) fs = { 0, 1, 2, 3, 4, 7, 8, 14, 15, 28, 29, 57 };
    vx::add(nm + "-fault", 16, 4, [=](vx::Ctx& x) { body_fault<C>(x, fs, { P_NATURAL, P_WRAP }, false); });
    vx::add(nm + "-files", 16, 4, [=](vx::Ctx& x) { body_fault<C>(x, T ? std::vector<int>{ 0, 1, 7, 14 } : std::vector<int>{ 0, 1, 7 }, { P_NATURAL }, true); });
}
void reg() {
    tk::install();
    std::cerr.setstate(std::ios::failbit); // failed loads print messages
#if KIND == 3
    vx::add("count", 4, 1, body_count);
#endif
    reg_for<MapI>("mapint"); reg_for<MapP>("mapstruct"); reg_for<SetI>("setint"); reg_for<SetP>("setstruct");
}
VX_MAIN(reg)
