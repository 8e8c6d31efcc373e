// Self test of the controlled scheduler: programs with a known number of behaviours.
#include "mc.hpp"
#include <atomic>
#include <mutex>
#include <shared_mutex>
using namespace vx;
struct P { std::mutex a, b; std::shared_mutex s; std::atomic<int> x{ 0 }, y{ 0 }; int d = 0, e = 0; int r[4] = {}; };
template<class A, class B> static void two(Ctx& x, P& p, A&& a, B&& b, mc::Opts o = { 100 }) { mc::spawn(a); mc::spawn(b); mc::run(x, o); }
static void unit(const char* n, void (*f)(Ctx&, P&)) {
    add(n, 1, 0, [f](Ctx& x) { mc::begin(); P* p = new P; f(x, *p); delete p; mc::end(); });
}
static void reg() {
    unit("ok-mutex", [](Ctx& x, P& p) { auto f = [&] { std::lock_guard l(p.a); ++p.d; }; auto g = [&] { std::lock_guard l(p.a); ++p.d; }; two(x, p, f, g); VX_CHECK(p.d == 2, "d"); });
    unit("ok-shared", [](Ctx& x, P& p) { auto f = [&] { std::shared_lock l(p.s); p.r[0] = p.d; }; auto g = [&] { { std::unique_lock l(p.s); ++p.d; } { std::shared_lock l(p.s); p.r[1] = p.d; } }; two(x, p, f, g); VX_CHECK(p.r[1] == 1, "d"); });
    unit("ok-atomic", [](Ctx& x, P& p) { auto f = [&] { p.d = 1; p.x.store(1, std::memory_order_release); }; auto g = [&] { if (p.x.load(std::memory_order_acquire)) p.e = p.d; }; two(x, p, f, g); });
    unit("ok-fence", [](Ctx& x, P& p) { auto f = [&] { p.d = 1; std::atomic_thread_fence(std::memory_order_release); p.x.store(1, std::memory_order_relaxed); }; auto g = [&] { if (p.x.load(std::memory_order_relaxed)) { std::atomic_thread_fence(std::memory_order_acquire); p.e = p.d; } }; two(x, p, f, g); });
    unit("ok-stdlock", [](Ctx& x, P& p) { auto f = [&] { std::lock(p.a, p.b); ++p.d; p.a.unlock(); p.b.unlock(); }; auto g = [&] { std::lock(p.b, p.a); ++p.d; p.a.unlock(); p.b.unlock(); }; two(x, p, f, g, { 3, true }); VX_CHECK(p.d == 2, "d"); });
    unit("ok-static", [](Ctx& x, P& p) { auto h = [] { static int* q = nullptr; (void)q; static int v = 3; return v; }; auto f = [&] { p.r[0] = h(); }; auto g = [&] { p.r[1] = h(); }; two(x, p, f, g); });
    unit("ok-except", [](Ctx& x, P& p) { auto h = [&] { std::lock_guard l(p.a); try { throw 1; } catch (int) { p.x.fetch_add(1); try { throw 2; } catch (int) { p.y.fetch_add(1); } } }; auto f = h, g = h; two(x, p, f, g); VX_CHECK(p.x == 2 && p.y == 2, "x"); });
    unit("ok-tls", [](Ctx& x, P& p) { auto h = [&](int v) { static thread_local int* q = nullptr; struct D { int** q; ~D() { delete *q; } }; static thread_local D d{ &q }; (void)d; if (q) fail("thread_local shared"); q = new int(v); p.x.fetch_add(1); if (*q != v) fail("thread_local value"); }; auto f = [&] { h(1); }; auto g = [&] { h(2); }; h(0); two(x, p, f, g); });
    // each of these must be reported
    unit("bad-static", [](Ctx& x, P& p) { auto h = [&](int v) { static int q[4]; q[v & 1] = v; q[2] = q[1] + v; p.r[v] = q[2]; }; auto f = [&] { h(1); }; auto g = [&] { h(2); }; two(x, p, f, g); });
    unit("bad-race", [](Ctx& x, P& p) { auto f = [&] { ++p.d; }; auto g = [&] { std::lock_guard l(p.a); ++p.d; }; two(x, p, f, g); });
    unit("bad-relaxed", [](Ctx& x, P& p) { auto f = [&] { p.d = 1; p.x.store(1, std::memory_order_relaxed); }; auto g = [&] { if (p.x.load(std::memory_order_acquire)) p.e = p.d; }; two(x, p, f, g); });
    unit("bad-shared-write", [](Ctx& x, P& p) { auto f = [&] { std::shared_lock l(p.s); ++p.d; }; auto g = [&] { std::shared_lock l(p.s); ++p.d; }; two(x, p, f, g); });
    unit("bad-deadlock", [](Ctx& x, P& p) { auto f = [&] { std::lock_guard l(p.a); std::lock_guard m(p.b); }; auto g = [&] { std::lock_guard l(p.b); std::lock_guard m(p.a); }; two(x, p, f, g); });
    unit("bad-writer", [](Ctx& x, P& p) { static std::shared_mutex* t; t = new std::shared_mutex; auto f = [&] { std::shared_lock l(p.s); std::shared_lock m(*t); }; auto g = [&] { std::shared_lock l(*t); std::shared_lock m(p.s); };
        auto h = [&] { std::unique_lock l(p.s); }; auto i = [&] { std::unique_lock l(*t); }; mc::spawn(f); mc::spawn(g); mc::spawn(h); mc::spawn(i); mc::run(x, { 4, false, true }); delete t; });
    unit("bad-lost", [](Ctx& x, P& p) { auto h = [&] { int v = p.x.load(); p.x.store(v + 1); }; auto f = h, g = h; two(x, p, f, g); VX_CHECK(p.x == 2, "lost update"); });
    unit("bad-uaf", [](Ctx& x, P& p) { auto* q = new int(1); auto f = [&] { std::lock_guard l(p.a); delete q; p.d = 1; }; auto g = [&] { std::lock_guard l(p.a); p.e = *q; }; two(x, p, f, g); });
    unit("bad-relock", [](Ctx& x, P& p) { auto f = [&] { std::lock_guard l(p.a); std::lock_guard m(p.a); }; auto g = [] {}; two(x, p, f, g); });
    unit("bad-leak", [](Ctx& x, P& p) { auto f = [&] { std::lock_guard l(p.a); if (p.d) { volatile int* q = new int(3); *q = 4; } p.d = 1; }; auto g = f; two(x, p, f, g); });
    unit("bad-oob", [](Ctx& x, P& p) { auto* q = new int[4]; auto f = [&] { p.e = q[p.d + 4]; }; auto g = [] {}; two(x, p, f, g); });
    unit("bad-held", [](Ctx& x, P& p) { auto f = [&] { p.a.lock(); }; auto g = [] {}; two(x, p, f, g); });
    unit("bad-unlock", [](Ctx& x, P& p) { auto f = [&] { p.a.lock(); }; auto g = [&] { p.a.unlock(); }; two(x, p, f, g); });
}
VX_MAIN(reg)
