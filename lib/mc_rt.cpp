// The runtime of mc.hpp: compiled without instrumentation.
#include "mc.hpp"
#include <algorithm>
#include <cxxabi.h>
#include <errno.h>
#include <exception>
#include <link.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>

extern "C" { extern char __data_start, _end; }

namespace mc {
uint64_t total_switches, total_points, total_accesses;

// ------------------------------------------------------------------ vector clocks
struct VC { uint16_t c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

struct Fiber {
    void* sp = nullptr; char* stack = nullptr; int state = 0; // 0 unused, 1 ready, 2 blocked on a lock, 3 done
    void (*fn)(void*) = nullptr; void* arg = nullptr;
    VC vc, acq_pending, rel_fence; bool has_rel_fence = false;
    void* want = nullptr; int want_mode = 0; // 1 exclusive 2 shared 3 guard
    void* eh[2] = {};
    std::exception_ptr err;
};
static Fiber F[MAXT]; static int nf; static int cur = -1; static void* main_sp; static void* main_eh[2];
static Opts opt; static vx::Ctx* ctx; static uint64_t clock_; static bool active;
static constexpr size_t STK = 256 * 1024;

// thread_local variables of the executable: every fiber has its own copy, swapped on each switch
static char* tls; static size_t tls_size, tls_fsize; static const char* tls_init; static char* tls_copy[MAXT + 1];
struct AtExit { void (*fn)(void*); void* obj; }; static AtExit at_exit[MAXT + 1][64]; static int n_exit[MAXT + 1];
static void tls_setup() {
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) -> int {
        for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls = (char*)i->dlpi_tls_data; tls_size = i->dlpi_phdr[k].p_memsz; tls_fsize = i->dlpi_phdr[k].p_filesz; tls_init = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); }
        return 1; // the executable comes first
    }, nullptr);
    for (auto& c : tls_copy) c = (char*)mmap(nullptr, tls_size + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
static void tls_reset(char* to) { if (tls_size) { memcpy(to, tls_init, tls_fsize); memset(to + tls_fsize, 0, tls_size - tls_fsize); } }
static void tls_swap(int from, int to) { if (tls_size) { memcpy(tls_copy[from], tls, tls_size); memcpy(tls, tls_copy[to], tls_size); } }
static void tls_exit(int who) { while (n_exit[who]) { AtExit a = at_exit[who][--n_exit[who]]; a.fn(a.obj); } }

int self() { return cur; }
uint64_t tick() { return ++clock_; }

// ------------------------------------------------------------------ arena
static char* const ARENA = (char*)0x200000000000ull; static constexpr size_t ASZ = 4 << 20;
static char* apos; static bool arena_on; static long live;
enum : uint8_t { A_NONE = 0, A_LIVE = 1, A_FREED = 2 };
static uint8_t* astate; // per byte
struct Hdr { size_t size; uint32_t magic, freed; void* pc; };
struct Shadow { uint32_t gen; uint16_t wc; uint8_t wt; uint8_t pad; uint16_t r[MAXT], aa[MAXT], aw[MAXT]; uint32_t wpc, rpc; };
static Shadow* sh_arena; static Shadow* sh_glob; static uint32_t gen = 0;
static char* gbeg; static size_t gsz;

[[noreturn]] static void report(const char* what, void* addr, void* pc, uint32_t pc2) {
    char b[1500]; int n = snprintf(b, sizeof b, "%s (fiber %d, address %p", what, cur, addr);
    auto where = [&](unsigned long p, const char* label) {
        if (!p || n > 1200) return;
        char cmd[300]; snprintf(cmd, sizeof cmd, "addr2line -f -C -s -e /proc/%d/exe 0x%lx 2>/dev/null", (int)getpid(), p - 1);
        arena_on = false; FILE* f = popen(cmd, "r"); if (!f) return;
        char fn[3000] = "", ln[600] = ""; if (fgets(fn, sizeof fn, f) && fgets(ln, sizeof ln, f)) {} while (fgetc(f) != EOF) {} pclose(f);
        fn[strcspn(fn, "\n")] = 0; ln[strcspn(ln, "\n")] = 0; n += snprintf(b + n, sizeof b - n, "; %s %.120s at %s", label, fn, ln);
    };
    int save = cur; cur = -1; active = false; (void)save;
    where((unsigned long)pc, "access in"); where(pc2, "conflicts with");
    snprintf(b + n, sizeof b - n, ")");
    vx::fail("%s", b);
}

static void init() {
    static bool done = false; if (done) return; done = true;
    void* p = mmap(ARENA, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != ARENA) vx::harness_error("cannot map the arena");
    auto big = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
    astate = (uint8_t*)big(ASZ); sh_arena = (Shadow*)big(ASZ * sizeof(Shadow));
    gbeg = &__data_start; gsz = &_end - &__data_start; sh_glob = (Shadow*)big(gsz * sizeof(Shadow));
    for (auto& f : F) f.stack = (char*)big(STK);
    apos = ARENA; tls_setup();
}
void set_arena(bool on) { arena_on = on; }
void begin() {
    init(); ++gen; memset(astate, 0, apos - ARENA); apos = ARENA; live = 0; nf = 0; cur = -1; clock_ = 0; arena_on = true;
    n_exit[MAXT] = 0; tls_reset(tls);
}
long live_blocks() { return live; }
void end() { tls_exit(MAXT); tls_reset(tls); arena_on = false; if (live) vx::fail("memory: %ld block(s) not freed at the end of the history", live); }

static void* a_alloc(size_t n, size_t al) {
    if (al < 16) al = 16;
    uintptr_t p = (uintptr_t)apos + sizeof(Hdr) + 16; p = (p + al - 1) & ~(al - 1);
    if (p + n + 64 > (uintptr_t)ARENA + ASZ) vx::harness_error("arena exhausted");
    Hdr* h = (Hdr*)(p - sizeof(Hdr)); h->size = n; h->magic = 0xA110C8ED; h->freed = 0; h->pc = 0;
    memset(astate + (p - (uintptr_t)ARENA), A_LIVE, n); memset((void*)p, 0xCD, n);
    apos = (char*)((p + n + 31) & ~15ull); ++live; return (void*)p;
}
static bool in_arena(const void* p) { return (char*)p >= ARENA && (char*)p < ARENA + ASZ; }
static void access(void* a, size_t n, bool write, bool atomic, void* pc);
static void a_free(void* p, void* pc) {
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    if (h->magic != 0xA110C8ED) report("free of an address that was not allocated", p, pc, 0);
    if (h->freed) report("double free", p, pc, (uint32_t)(uintptr_t)h->pc);
    access(p, h->size, true, false, pc); // freeing conflicts with every other access
    h->freed = 1; h->pc = pc; --live; memset(astate + ((char*)p - ARENA), A_FREED, h->size); memset(p, 0xDD, h->size);
}

// ------------------------------------------------------------------ memory accesses
static inline Shadow* shadow(void* a) {
    if (in_arena(a)) return sh_arena + ((char*)a - ARENA);
    if ((char*)a >= gbeg && (char*)a < gbeg + gsz) return sh_glob + ((char*)a - gbeg);
    return nullptr;
}
static void access(void* a, size_t n, bool write, bool atomic, void* pc) {
    if (in_arena(a) && arena_on) {
        uint8_t* s = astate + ((char*)a - ARENA);
        for (size_t i = 0; i < n; ++i) if (s[i] != A_LIVE) report(s[i] == A_FREED ? "use after free" : "access outside an allocated block", (char*)a + i, pc, 0);
    }
    if (cur < 0) return;
    Shadow* s = shadow(a); if (!s) return;
    ++total_accesses;
    Fiber& f = F[cur]; const VC& v = f.vc;
    for (size_t i = 0; i < n; ++i, ++s) {
        if (s->gen != gen) { memset(s, 0, sizeof *s); s->gen = gen; s->wt = 255; }
        if (s->wt != 255 && s->wt != cur && s->wc > v.c[s->wt]) report(write ? "data race: unordered writes" : "data race: read unordered with a write", (char*)a + i, pc, s->wpc);
        if (!atomic) for (int t = 0; t < nf; ++t) if (t != cur) {
            if (write && s->r[t] > v.c[t]) report("data race: write unordered with a read", (char*)a + i, pc, s->rpc);
            if (write && s->aa[t] > v.c[t]) report("data race: write unordered with an atomic access", (char*)a + i, pc, s->rpc);
            if (!write && s->aw[t] > v.c[t]) report("data race: plain read unordered with an atomic write", (char*)a + i, pc, s->wpc);
        } else {}
        else if (write) for (int t = 0; t < nf; ++t) if (t != cur && s->r[t] > v.c[t]) report("data race: atomic write unordered with a plain read", (char*)a + i, pc, s->rpc);
        uint32_t p32 = (uint32_t)(uintptr_t)pc;
        if (atomic) { s->aa[cur] = v.c[cur]; if (write) { s->aw[cur] = v.c[cur]; } s->rpc = p32; }
        else if (write) { s->wt = (uint8_t)cur; s->wc = v.c[cur]; s->wpc = p32; }
        else { s->r[cur] = v.c[cur]; s->rpc = p32; }
    }
}

// ------------------------------------------------------------------ locks
struct Lock { void* a; int owner; uint16_t readers[MAXT]; VC rel, rrel; };
static Lock L[4096]; static int nl; static uint32_t lgen;
static Lock& lock_of(void* a) {
    if (lgen != gen) { nl = 0; lgen = gen; }
    for (int i = 0; i < nl; ++i) if (L[i].a == a) return L[i];
    if (nl == 4096) vx::harness_error("too many locks");
    Lock& l = L[nl++]; l = Lock{}; l.a = a; l.owner = -1; return l;
}
static bool any_reader(const Lock& l) { for (int i = 0; i < MAXT; ++i) if (l.readers[i]) return true; return false; }
static bool available(Lock& l, int mode, int who) {
    if (l.owner >= 0) return false;
    if (mode == 1) return !any_reader(l);
    if (mode == 2 && opt.prefer_writers) for (int i = 0; i < nf; ++i) if (i != who && F[i].state == 2 && F[i].want == l.a && F[i].want_mode == 1) return false;
    return true;
}

// ------------------------------------------------------------------ fibers
extern "C" void mc_switch(void** from, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");
static void** ehg() { return (void**)abi::__cxa_get_globals(); }
static void to_main() {
    int c = cur; void** g = ehg(); F[c].eh[0] = g[0]; F[c].eh[1] = g[1]; g[0] = main_eh[0]; g[1] = main_eh[1];
    tls_swap(c, MAXT); cur = -1; mc_switch(&F[c].sp, main_sp);
}
static void to_fiber(int c) {
    void** g = ehg(); main_eh[0] = g[0]; main_eh[1] = g[1]; g[0] = F[c].eh[0]; g[1] = F[c].eh[1];
    tls_swap(MAXT, c); cur = c; ++total_switches; mc_switch(&main_sp, F[c].sp);
}
static void entry() {
    Fiber& f = F[cur];
    try { f.fn(f.arg); } catch (...) { f.err = std::current_exception(); }
    tls_exit(cur);
    if (lgen == gen) for (int i = 0; i < nl; ++i) if (L[i].owner == cur || L[i].readers[cur]) report("a lock is still held when the thread's calls have returned", L[i].a, 0, 0);
    f.state = 3; to_main(); __builtin_trap();
}
void spawn_raw(void (*fn)(void*), void* arg) {
    if (nf == MAXT) vx::harness_error("too many fibers");
    Fiber& f = F[nf]; char* st = f.stack; f = Fiber{}; f.stack = st; f.fn = fn; f.arg = arg; f.state = 1; f.vc.c[nf] = 1; tls_reset(tls_copy[nf]); n_exit[nf] = 0;
    uintptr_t top = (uintptr_t)(st + STK) & ~15ull; void** sp = (void**)top; *--sp = nullptr; *--sp = (void*)entry; for (int i = 0; i < 6; ++i) *--sp = nullptr; f.sp = sp; ++nf;
}
void point() { if (cur >= 0) { ++total_points; to_main(); } }
static bool enabled(int i) {
    Fiber& f = F[i];
    if (f.state == 1) return true;
    if (f.state != 2) return false;
    if (f.want_mode == 3) return ((volatile char*)f.want)[1] == 0;
    return available(lock_of(f.want), f.want_mode, i);
}
void run(vx::Ctx& x, const Opts& o) {
    opt = o; ctx = &x; active = true; int last = -1, pre = 0; long steps = 0;
    for (;;) {
        int c[MAXT], n = 0; bool all = true;
        if (last >= 0 && F[last].state != 3 && enabled(last)) c[n++] = last; // the running thread first
        bool cont = n == 1;
        for (int i = 0; i < nf; ++i) { if (F[i].state != 3) all = false; if (i != last && enabled(i)) c[n++] = i; }
        if (all) break;
        if (!n) {
            char b[400]; int k = 0; for (int i = 0; i < nf; ++i) if (F[i].state == 2) k += snprintf(b + k, sizeof b - k, " thread %d waits for %s lock %p held by %d;", i, F[i].want_mode == 1 ? "exclusive" : F[i].want_mode == 2 ? "shared" : "static guard", F[i].want, F[i].want_mode == 3 ? -1 : lock_of(F[i].want).owner);
            active = false; vx::fail("deadlock:%s", b);
        }
        if (cont && pre >= o.preempt) n = 1;
        int k = 0;
        if (n > 1) { active = false; bool sa = arena_on; arena_on = false; k = x.choose(n); arena_on = sa; active = true; }
        if (cont && k) ++pre;
        last = c[k]; x.step();
        if (++steps > 20000) { active = false; vx::fail("no progress: more than 20000 scheduling steps"); }
        to_fiber(last);
    }
    active = false;
    for (int i = 0; i < nf; ++i) if (F[i].err) { auto e = F[i].err; F[i].err = nullptr; std::rethrow_exception(e); }
    for (int i = 0; i < nf; ++i) F[i].state = 0;
    nf = 0; // what follows is ordered after all threads
}

static int do_lock(void* a, int mode, bool try_, void* pc) {
    if (cur < 0) return 0;
    access(a, 1, false, true, pc); // the lock itself must be alive, and not be plainly written meanwhile
    { Lock& l = lock_of(a); if (l.owner == cur) { if (try_) { return EBUSY; } report("a thread locks a mutex that it already holds", a, pc, 0); } if (mode == 1 && l.readers[cur]) { if (try_) return EBUSY; report("a thread locks exclusively a mutex that it already holds shared", a, pc, 0); }
      if (mode == 2 && l.readers[cur] && !try_) report("a thread locks shared a mutex that it already holds shared", a, pc, 0); }
    point();
    Fiber& f = F[cur];
    if (try_) { if (!available(lock_of(a), mode, cur)) return EBUSY; }
    else while (!available(lock_of(a), mode, cur)) { f.state = 2; f.want = a; f.want_mode = mode; to_main(); F[cur].state = 1; F[cur].want = nullptr; }
    Lock& l = lock_of(a);
    if (mode == 1) { l.owner = cur; f.vc.join(l.rel); f.vc.join(l.rrel); } else { ++l.readers[cur]; f.vc.join(l.rel); }
    return 0;
}
static int do_unlock(void* a, int mode, void* pc) {
    if (cur < 0) return 0;
    access(a, 1, false, true, pc);
    if (opt.unlock_point) point();
    Lock& l = lock_of(a); Fiber& f = F[cur];
    if (l.owner == cur && mode != 2) { l.owner = -1; l.rel = f.vc; l.rrel = VC{}; }
    else if (l.readers[cur] && mode != 1) { --l.readers[cur]; l.rrel.join(f.vc); }
    else report("a thread unlocks a mutex that it does not hold in that mode", a, pc, 0);
    ++f.vc.c[cur];
    return 0;
}

// ------------------------------------------------------------------ atomics
struct Sync { void* a; VC rel; bool has; };
static Sync SY[1024]; static int ns; static uint32_t sgen;
static Sync& sync_of(void* a) {
    if (sgen != gen) { ns = 0; sgen = gen; }
    for (int i = 0; i < ns; ++i) if (SY[i].a == a) return SY[i];
    if (ns == 1024) vx::harness_error("too many atomics");
    SY[ns] = Sync{ a, {}, false }; return SY[ns++];
}
enum { relaxed, consume, acquire, release, acq_rel, seq_cst };
static bool is_acq(int o) { return o == acquire || o == consume || o == acq_rel || o == seq_cst; }
static bool is_rel(int o) { return o == release || o == acq_rel || o == seq_cst; }
static void at_load(void* a, size_t n, int o, void* pc) {
    access(a, n, false, true, pc); if (cur < 0) return; Sync& s = sync_of(a);
    if (s.has) { if (is_acq(o)) F[cur].vc.join(s.rel); else F[cur].acq_pending.join(s.rel); }
}
static void at_store(void* a, size_t n, int o, void* pc) {
    access(a, n, true, true, pc); if (cur < 0) return; Sync& s = sync_of(a); Fiber& f = F[cur];
    if (is_rel(o)) { s.rel = f.vc; s.has = true; ++f.vc.c[cur]; } else if (f.has_rel_fence) { s.rel = f.rel_fence; s.has = true; } else { s.rel = VC{}; s.has = false; }
}
static void at_rmw(void* a, size_t n, int o, void* pc) {
    access(a, n, true, true, pc); if (cur < 0) return; Sync& s = sync_of(a); Fiber& f = F[cur];
    if (s.has) { if (is_acq(o)) f.vc.join(s.rel); else f.acq_pending.join(s.rel); }
    if (is_rel(o)) { s.rel.join(f.vc); s.has = true; ++f.vc.c[cur]; } else if (f.has_rel_fence) { s.rel.join(f.rel_fence); s.has = true; }
}
static void fence(int o) {
    if (cur < 0) return; Fiber& f = F[cur];
    if (is_acq(o)) f.vc.join(f.acq_pending);
    if (is_rel(o)) { f.rel_fence = f.vc; f.has_rel_fence = true; ++f.vc.c[cur]; }
}
} // namespace mc
using namespace mc;
#define PC __builtin_return_address(0)

// ------------------------------------------------------------------ what the instrumentation calls
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void* a) { access(a, N, false, false, PC); } void __tsan_write##N(void* a) { access(a, N, true, false, PC); } \
    void __tsan_unaligned_read##N(void* a) { access(a, N, false, false, PC); } void __tsan_unaligned_write##N(void* a) { access(a, N, true, false, PC); } \
    void __tsan_read_write##N(void* a) { access(a, N, false, false, PC); access(a, N, true, false, PC); } void __tsan_unaligned_read_write##N(void* a) { access(a, N, false, false, PC); access(a, N, true, false, PC); } \
    void __tsan_volatile_read##N(void* a) { access(a, N, false, false, PC); } void __tsan_volatile_write##N(void* a) { access(a, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true, false, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, true, false, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false, false, PC); access(d, n, true, false, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false, false, PC); access(d, n, true, false, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access(d, n, true, false, PC); return memset(d, c, n); }
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (n) { access((void*)a, n, false, false, PC); access((void*)b, n, false, false, PC); } return __real_memcmp(a, b, n); }

#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int o) { mc::point(); at_load((void*)a, sizeof(T), o, PC); return *a; } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int o) { mc::point(); at_store((void*)a, sizeof(T), o, PC); *a = v; } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int o) { mc::point(); at_rmw((void*)a, sizeof(T), o, PC); T r = *a; *a = v; return r; } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int o) { mc::point(); at_rmw((void*)a, sizeof(T), o, PC); T r = *a; *a = r + v; return r; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int o) { mc::point(); at_rmw((void*)a, sizeof(T), o, PC); T r = *a; *a = r - v; return r; } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int o) { mc::point(); at_rmw((void*)a, sizeof(T), o, PC); T r = *a; *a = r & v; return r; } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int o) { mc::point(); at_rmw((void*)a, sizeof(T), o, PC); T r = *a; *a = r | v; return r; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int o) { mc::point(); at_rmw((void*)a, sizeof(T), o, PC); T r = *a; *a = r ^ v; return r; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int o) { mc::point(); at_rmw((void*)a, sizeof(T), o, PC); T r = *a; *a = ~(r & v); return r; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int o, int fo) { mc::point(); if (*a == *e) { at_rmw((void*)a, sizeof(T), o, PC); *a = v; return 1; } at_load((void*)a, sizeof(T), fo, PC); *e = *a; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int o, int fo) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, o, fo); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int o, int fo) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, o, fo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { fence(o); }
void __tsan_atomic_signal_fence(int) {}

int pthread_mutex_lock(pthread_mutex_t* m) { return do_lock(m, 1, false, PC); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return do_lock(m, 1, true, PC); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return do_unlock(m, 1, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return do_lock(m, 1, false, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return do_lock(m, 1, true, PC); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return do_lock(m, 2, false, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return do_lock(m, 2, true, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return do_unlock(m, 0, PC); }

// statics of functions: byte 0 of the guard: initialised, byte 1: in progress
int __cxa_guard_acquire(__cxxabiv1::__guard* gg) {
    char* g = (char*)gg;
    if (g[0]) { if (cur >= 0) at_load(g, 1, 2, PC); return 0; }
    while (g[1] && cur >= 0) { F[cur].state = 2; F[cur].want = g; F[cur].want_mode = 3; to_main(); F[cur].state = 1; F[cur].want = nullptr; }
    if (g[0]) { at_load(g, 1, 2, PC); return 0; }
    g[1] = 1; return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard* gg) noexcept { char* g = (char*)gg; if (cur >= 0) at_store(g, 1, 3, PC); g[0] = 1; g[1] = 0; }
void __cxa_guard_abort(__cxxabiv1::__guard* gg) noexcept { char* g = (char*)gg; g[1] = 0; }

int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) noexcept {
    int w = cur < 0 ? MAXT : cur; if (n_exit[w] == 64) vx::harness_error("too many thread_local objects");
    at_exit[w][n_exit[w]++] = AtExit{ fn, obj }; return 0;
}
void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t);
void* __wrap_malloc(size_t n) { return arena_on ? a_alloc(n, 16) : __real_malloc(n); }
void __wrap_free(void* p) { if (!p) return; if (in_arena(p)) { if (arena_on) a_free(p, PC); } else __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
    if (!arena_on && !in_arena(p)) return __real_realloc(p, n);
    void* q = a_alloc(n, 16); if (p) { size_t o = in_arena(p) ? ((Hdr*)((char*)p - sizeof(Hdr)))->size : malloc_usable_size(p); if (o > n) o = n; access(p, o, false, false, PC); access(q, o, true, false, PC); memcpy(q, p, o); __wrap_free(p); } return q;
}
void* __wrap_calloc(size_t a, size_t b) { if (!arena_on) return __real_calloc(a, b); void* q = a_alloc(a * b, 16); memset(q, 0, a * b); return q; }
}
static void* nw(size_t n, size_t al) { if (arena_on) return a_alloc(n, al); void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void dl(void* p, void* pc) { if (!p) return; if (in_arena(p)) { if (arena_on) a_free(p, pc); } else __real_free(p); }
void* operator new(size_t n) { return nw(n, 16); }
void* operator new[](size_t n) { return nw(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return nw(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return nw(n, (size_t)a); }
void operator delete(void* p) noexcept { dl(p, PC); }
void operator delete[](void* p) noexcept { dl(p, PC); }
void operator delete(void* p, size_t) noexcept { dl(p, PC); }
void operator delete[](void* p, size_t) noexcept { dl(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { dl(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { dl(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { dl(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { dl(p, PC); }
