// C16: gtl::vector, a fault at every construction, copy, move, assignment and allocation of every operation.
//  -DELEM=4 Obj 5 move-only with throwing move 6 throwing move, copyable   -DAL=0 std::allocator, 1 checking non-propagating, 2 propagating
#include "vec_world.hpp"
using namespace vw;
#if ELEM == 4
using T = tk::Obj;
#elif ELEM == 5
using T = tk::MoveOnlyT;
#else
using T = tk::ObjTM;
#endif
#if AL == 0
using V = gtl::vector<T>;
#elif AL == 1
using V = gtl::vector<T, tk::Alloc<T, false, false, false, false>>;
#else
using V = gtl::vector<T, tk::Alloc<T, true, true, true, false>>;
#endif
using W = World<V>;
constexpr bool STRONG = std::is_copy_constructible_v<T> || std::is_nothrow_move_constructible_v<T>;
static void body(vx::Ctx& x, std::vector<int> sizes, std::vector<int> spares) {
    int n = sizes[x.choose((int)sizes.size())], s = spares[x.choose((int)spares.size())], o = x.choose(W::N_OPS);
    std::vector<int> params;
    for (long k = 0;; ++k) {
        long live0 = tk::live;
        {
            W w(x);
            tk::strict_moved = true;
            w.build(n, s);
            w.faulty = true; w.fault_at = k; w.feed = params;
            std::vector<int> before = w.r;
            x.log("fault at point %ld", k);
            tk::strict_moved = false; // after a failed operation elements may be moved-from
            if (!w.op(o)) throw vx::Prune{};
            if (k == 0) params = w.rec;
            tk::strict_moved = true;
            x.step();
            if (!w.thrown) { w.check(); break; } // the operation completed
            VX_CHECK(w.v.capacity() >= w.v.size(), "%s failed: capacity() %zu below size() %zu", w.where.c_str(), w.v.capacity(), w.v.size());
            if (w.stable && STRONG) { w.r = before; w.where += " that failed"; w.check(); }
            else { tk::strict_moved = false; for (auto& e : w.v) W::get(e); tk::strict_moved = true; }
            // the vector remains usable
            w.faulty = false;
            for (auto& e : w.v) e = W::mk(1);
            size_t m = w.v.size();
            for (int i = 0; i < 3; ++i) w.v.push_back(W::mk(7 + i));
            VX_CHECK(w.v.size() == m + 3 && W::get(w.v[m + 2]) == 9, "%s failed: the vector is not usable afterwards", w.where.c_str());
            w.v.erase(w.v.begin()); w.v.shrink_to_fit(); w.v.reserve(m + 20);
        }
        VX_CHECK(tk::live == live0, "%ld element(s) leaked by a failed operation", tk::live - live0);
        VX_CHECK(tk::blocks->empty(), "%zu block(s) leaked by a failed operation", tk::blocks->size());
        if (k > 500) vx::harness_error("operation never completes");
    }
}
void reg() {
    tk::install(); tk::strict_copy = false;
    bool Th = vx::thorough;
    std::vector<int> sz, sp;
    for (int i = 0; i <= (Th ? 14 : 9); ++i) sz.push_back(i);
    for (int i = 0; i <= (Th ? 8 : 5); ++i) sp.push_back(i);
    vx::add("faults", 16, 3, [=](vx::Ctx& x) { body(x, sz, sp); });
}
VX_MAIN(reg)
