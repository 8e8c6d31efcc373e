// C15 (and lifetimes for C16): gtl::vector vs a plain list of ints.
//  -DELEM=1 int 2 Pod 3 string 4 Obj 5 move-only 6 throwing move 7 over-aligned 8 Pod2   -DAL=0 std::allocator, 1 checking non-propagating, 2 checking propagating
#include "vec_world.hpp"
using namespace vw;
#if ELEM == 1
using T = int;
#elif ELEM == 2
using T = Pod;
#elif ELEM == 3
using T = std::string;
#elif ELEM == 4
using T = tk::Obj;
#elif ELEM == 5
using T = tk::MoveOnly;
#elif ELEM == 6
using T = tk::ObjTM;
#elif ELEM == 7
using T = tk::Over;
#else
using T = Pod2;
#endif
#if AL == 0
using V = gtl::vector<T>;
#elif AL == 1
using V = gtl::vector<T, tk::Alloc<T, false, false, false, false>>;
#elif AL == 2
using V = gtl::vector<T, tk::Alloc<T, true, true, true, false>>;
#else
using V = gtl::vector<T, tk::Alloc<T, true, false, false, false>>;
#endif
using W = World<V>;
static void body(vx::Ctx& x, std::vector<int> sizes, std::vector<int> spares, int depth) {
    int n = sizes[x.choose((int)sizes.size())], s = spares[x.choose((int)spares.size())];
    W w(x);
    w.build(n, s);
    for (int i = 0; i < depth; ++i) {
        int o = x.choose(W::N_OPS);
        if (!w.op(o)) throw vx::Prune{};
        x.step();
        if (x.fresh()) w.check();
    }
}
static void grow(vx::Ctx& x) {
    int start = x.choose(4) * 37, how = x.choose(5);
    W w(x); w.build(start, 0);
    int re = 0; size_t cap = w.v.capacity(); const int N = vx::thorough ? 20000 : 3000;
    w.note("growth by %s", how == 0 ? "push_back" : how == 1 ? "emplace_back" : how == 2 ? "insert(end)" : how == 3 ? "insert(begin)" : "insert(end, 3)");
    int lim = how == 3 ? N / 20 : N;
    while (w.n() < lim) {
        int y = w.fresh();
        if (how == 0) w.v.push_back(W::mk(y)); else if (how == 1) w.v.emplace_back(W::mk(y)); else if (how == 2) w.v.insert(w.v.end(), W::mk(y)); else if (how == 3) w.v.insert(w.v.begin(), W::mk(y)); else { if constexpr (W::COPY) w.v.insert(w.v.end(), 3, W::mk(y)); else return; w.r.push_back(y); w.r.push_back(y); }
        if (how == 3) w.r.insert(w.r.begin(), y); else w.r.push_back(y);
        x.step();
        VX_CHECK(w.v.capacity() >= w.v.size(), "capacity below size");
        if (w.v.capacity() != cap) { ++re; cap = w.v.capacity(); }
        VX_CHECK(re <= 30, "%d reallocations for %d elements: growth is not geometric", re, w.n());
        if (w.n() % 500 == 0) w.check();
    }
    w.check();
}
void reg() {
    tk::install(); tk::strict_copy = false; // relocation may copy an element that the caller moved from
    bool Th = vx::thorough;
    std::vector<int> sz, sp;
    for (int i = 0; i <= (Th ? 16 : 9); ++i) sz.push_back(i);
    for (int i = 0; i <= (Th ? 8 : 5); ++i) sp.push_back(i);
    vx::add("op1", 8, 3, [=](vx::Ctx& x) { body(x, sz, sp, 1); });
    vx::add("op2", Th ? 64 : 16, 3, [=](vx::Ctx& x) { body(x, Th ? std::vector<int>{ 0, 1, 2, 3, 5, 6 } : std::vector<int>{ 0, 1, 3 }, Th ? std::vector<int>{ 0, 1, 2, 4 } : std::vector<int>{ 0, 2 }, 2); });
    if (Th) vx::add("op3", 64, 3, [=](vx::Ctx& x) { body(x, { 0, 1, 2 }, { 0, 1 }, 3); });
    vx::add("grow", 4, 2, grow);
}
VX_MAIN(reg)
