// vx: exhaustive choice-point explorer (stateless model checking of the real code).
//
// A harness registers "units". A unit's body draws every decision from Ctx::choose(n); the
// explorer enumerates all choice sequences depth first. Work is split into shards by the hash
// of the first `shard_depth` choices. The current choice list lives in a shared mapping, so the
// driver (run.py) can turn a crash, a sanitizer abort or a hang into a replayable choice list.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define VX_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VX_ASAN 1
#endif
#endif
#ifdef VX_ASAN
#include <sanitizer/allocator_interface.h>
#endif

extern "C" int __llvm_profile_write_file(void) __attribute__((weak)); // tools/cover.sh

namespace vx {

constexpr int MAXC = 8000;

struct Shared {
    volatile uint64_t steps;
    volatile uint64_t execs;
    volatile uint32_t len;
    volatile uint32_t pad;
    uint16_t          ch[MAXC];
    uint16_t          nn[MAXC];
};

struct Prune {};   // thrown to abandon an execution (out of shard, or state already covered)

inline Shared*     S       = nullptr;
inline bool        verbose = false;
inline bool        replaying = false;
inline std::string out_path;      // result file
inline uint64_t    total_steps = 0;

// ---- allocation balance -------------------------------------------------------------------
inline long long live_allocs = 0;
inline bool      alloc_hooks = false;
#ifdef VX_ASAN
inline void on_malloc(const volatile void* p, size_t) { if (p) ++live_allocs; }
inline void on_free(const volatile void* p) { if (p) --live_allocs; }
#endif
inline void install_hooks() {
#ifdef VX_ASAN
    alloc_hooks = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) > 0;
#endif
}

// ---- set of state hashes --------------------------------------------------------------------
struct HashSet64 {
    uint64_t* t   = nullptr;
    uint64_t  cap = 0, cnt = 0;
    bool      full = false;
    void      init(uint64_t c) {
        cap = c;
        t   = (uint64_t*)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    bool insert(uint64_t h) {
        if (!h) h = 1;
        uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);
        while (t[i]) {
            if (t[i] == h) return false;
            i = (i + 1) & (cap - 1);
        }
        if (cnt * 4 > cap * 3) { full = true; return true; }
        t[i] = h;
        ++cnt;
        return true;
    }
};
inline HashSet64 states;

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h ^ (h >> 29);
}

// ---- failing ----------------------------------------------------------------------------------
[[noreturn]] inline void finish(int rc, const char* msg) {
    if (!out_path.empty()) {
        FILE* f = fopen((out_path + ".viol").c_str(), "w");
        if (f) {
            fprintf(f, "%s\n", msg);
            for (uint32_t i = 0; i < S->len; ++i) fprintf(f, "%s%u", i ? "," : "", S->ch[i]);
            fprintf(f, "\n");
            fclose(f);
        }
    }
    printf("FAIL: %s\n", msg);
    fflush(stdout);
    _exit(rc);
}
[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* fmt, ...) {
    char    b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    finish(1, b);
}
[[noreturn]] inline void harness_error(const char* msg) { finish(3, msg); }

#define VX_CHECK(c, ...) do { if (!(c)) ::vx::fail(__VA_ARGS__); } while (0)
#define VX_EQ(a, b, what) do { auto vx_a = (a); auto vx_b = (b); if (!(vx_a == vx_b)) \
    ::vx::fail("%s: got %lld, expected %lld", what, (long long)vx_a, (long long)vx_b); } while (0)

class Ctx {
public:
    int      shard = 0, nshards = 1, shard_depth = 0;
    uint32_t fixed = 0; // length of the imposed prefix
    // pruning table: key -> remaining depth
    int choose(int n) {
        uint32_t i = S->len;
        if (i >= MAXC) harness_error("too many choices");
        if (n <= 0 || n > 65535) harness_error("bad choose(n)");
        if (i < fixed) {
            if (replaying) {
                if (S->ch[i] >= n) harness_error("replayed choice out of range");
                S->nn[i] = (uint16_t)n;
            } else if (S->nn[i] != n)
                harness_error("nondeterministic harness: branching changed on replay of a prefix");
        } else {
            S->ch[i] = 0;
            S->nn[i] = (uint16_t)n;
        }
        S->len = i + 1;
        if (nshards > 1 && (int)S->len == shard_depth && !replaying) {
            uint64_t h = hash_bytes(S->ch, S->len * 2);
            h ^= h >> 17; h *= 0xed5ad4bbac4c1b51ull; h ^= h >> 31;
            if ((int)(h % (uint64_t)nshards) != shard) throw Prune{};
        }
        return S->ch[i];
    }
    // true if the choices made so far were not all made by an earlier execution
    bool fresh() const { return replaying || S->len >= fixed; }
    void step() { S->steps = ++total_steps; }
    void state(uint64_t h) { states.insert(h); }
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!verbose) return;
        va_list ap;
        va_start(ap, fmt);
        vprintf(fmt, ap);
        va_end(ap);
        putchar('\n');
    }
};

struct Unit {
    std::string               name;
    int                       shards;
    int                       shard_depth;
    std::function<void(Ctx&)> body;
    bool                      leak_check;
};
inline std::vector<Unit> units;
inline bool              thorough = false;

inline void add(std::string name, int shards, int shard_depth, std::function<void(Ctx&)> body, bool leak_check = true) {
    units.push_back(Unit{ std::move(name), shards, shard_depth, std::move(body), leak_check });
}

// optional hook run before and after every execution (reset / check of trackers)
inline std::function<void()> before_exec, after_exec;

inline bool run_once(Unit& u, Ctx& c) { // returns true if the execution ran to its end
    bool pruned = false;
    long long before = live_allocs;
    if (before_exec) before_exec();
    try {
        u.body(c);
    } catch (Prune&) { pruned = true; }
    catch (std::exception& e) { fail("unexpected exception: %s", e.what()); }
    catch (...) { fail("unexpected exception of unknown type"); }
    if (after_exec) after_exec();
    if (u.leak_check && alloc_hooks && live_allocs != before) {
        // something may be allocated lazily once: run the same choices again (twice, to be sure)
        uint32_t  len = S->len, f = c.fixed;
        long long diff = 0;
        for (int again = 0; again < 2; ++again) {
            c.fixed = len;
            S->len  = 0;
            before  = live_allocs;
            if (before_exec) before_exec();
            try { u.body(c); } catch (Prune&) {}
            if (after_exec) after_exec();
            diff = live_allocs - before;
            if (!diff) break;
        }
        c.fixed = f;
        S->len  = len;
        if (diff) fail("memory: %lld allocation(s) not freed (or freed twice) at the end of the history", diff);
    }
    return !pruned;
}

inline int vx_main(int argc, char** argv, void (*reg)()) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    auto usage = [] { fprintf(stderr, "usage: list TIER | run TIER UNIT SHARD OUT | replay TIER UNIT C1,C2,..\n"); return 3; };
    if (argc < 3) return usage();
    thorough = !strcmp(argv[2], "thorough");
    reg();
    if (!strcmp(argv[1], "list")) {
        for (auto& u : units) printf("%s %d\n", u.name.c_str(), u.shards);
        return 0;
    }
    if (argc < 5) return usage();
    Unit* u = nullptr;
    for (auto& x : units) if (x.name == argv[3]) u = &x;
    if (!u) { fprintf(stderr, "no unit %s\n", argv[3]); return 3; }
    if (!strcmp(argv[1], "run")) {
        if (argc < 6) return usage();
        out_path   = argv[5];
        int    fd  = open((out_path + ".trace").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 3;
        S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        states.init(1 << 23);
        install_hooks();
        Ctx c;
        c.shard = atoi(argv[4]); c.nshards = u->shards; c.shard_depth = u->shard_depth;
        const char* dl = getenv("VX_DEADLINE");
        double deadline = dl ? atof(dl) : 0;
        bool     exhaustive = true;
        uint64_t execs = 0, maxlen = 0;
        std::string sample;
        uint64_t next_sample = 1;
        for (;;) {
            S->len = 0;
            bool done = run_once(*u, c);
            S->execs = S->execs + 1;
            if (done) {
                ++execs;
                if (S->len > maxlen) maxlen = S->len;
                if (execs == next_sample) {
                    next_sample *= 4;
                    sample.clear();
                    for (uint32_t i = 0; i < S->len; ++i) { if (i) sample += ','; sample += std::to_string(S->ch[i]); }
                }
            }
            if (deadline && (S->execs & 63) == 0 && (double)time(nullptr) > deadline) { exhaustive = false; break; }
            // backtrack
            uint32_t l = S->len;
            while (l && S->ch[l - 1] + 1 >= S->nn[l - 1]) --l;
            if (!l) break;
            S->ch[l - 1]++;
            c.fixed = l;
        }
        FILE* f = fopen(out_path.c_str(), "w");
        fprintf(f, "{\"execs\":%llu,\"steps\":%llu,\"states\":%llu,\"maxlen\":%llu,\"exhaustive\":%s,\"sample\":\"%s\"}\n",
                (unsigned long long)execs, (unsigned long long)total_steps, (unsigned long long)states.cnt,
                (unsigned long long)maxlen, exhaustive ? "true" : "false", sample.c_str());
        fclose(f);
        f = fopen((out_path + ".states").c_str(), "wb");
        for (uint64_t i = 0; i < states.cap; ++i) if (states.t[i]) fwrite(&states.t[i], 8, 1, f);
        fclose(f);
        unlink((out_path + ".trace").c_str());
        if (__llvm_profile_write_file) __llvm_profile_write_file();
        _exit(0);
    }
    if (!strcmp(argv[1], "replay")) {
        S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        states.init(1 << 16);
        install_hooks();
        replaying = verbose = true;
        Ctx c;
        const char* p = argv[4];
        while (*p) { S->ch[c.fixed++] = (uint16_t)strtol(p, (char**)&p, 10); if (*p == ',') ++p; }
        run_once(*u, c);
        printf("replay: no violation\n");
        fflush(stdout);
        _exit(0);
    }
    return usage();
}

} // namespace vx

#define VX_MAIN(reg) int main(int argc, char** argv) { return vx::vx_main(argc, argv, reg); }
