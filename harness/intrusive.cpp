// C23: intrusive_ptr reference counting, all operation sequences up to a depth.
#include "vx.hpp"
#include <gtl/intrusive.hpp>
#include <sstream>

namespace {
int alive[64], destroyed[64], created;
void reset_world() { created = 0; memset(alive, 0, sizeof alive); memset(destroyed, 0, sizeof destroyed); }

template<class Pol>
struct Base : gtl::intrusive_ref_counter<Base<Pol>, Pol> {
    int id, val;
    Base() : id(created++), val(7) { alive[id]++; }
    Base(const Base& o) : gtl::intrusive_ref_counter<Base<Pol>, Pol>(o), id(created++), val(o.val) { alive[id]++; }
    Base& operator=(const Base& o) { gtl::intrusive_ref_counter<Base<Pol>, Pol>::operator=(o); val = o.val; return *this; }
    virtual ~Base() { alive[id]--; destroyed[id]++; if (destroyed[id] != 1) vx::fail("object %d destroyed %d times", id, destroyed[id]); val = -1; }
};
template<class Pol>
struct Pad { long pad[3]; virtual ~Pad() {} };
template<class Pol>
struct Der : Pad<Pol>, Base<Pol> { // Base is not at offset 0: pointer adjustments are real
    int extra = 3;
    Der() = default;
    Der(const Der& o) : Pad<Pol>(o), Base<Pol>(o) {}
    Der& operator=(const Der& o) { Base<Pol>::operator=(o); return *this; }
};

template<class Pol>
struct World {
    using B = Base<Pol>; using D = Der<Pol>;
    using PB = gtl::intrusive_ptr<B>; using PD = gtl::intrusive_ptr<D>; using PC = gtl::intrusive_ptr<const B>;
    alignas(PB) unsigned char mem[4][sizeof(PB)];
    PB& a(int i) { return *(PB*)mem[i]; }
    PD& d() { return *(PD*)mem[2]; }
    PC& c() { return *(PC*)mem[3]; }
    // model
    int  own[4] = { -1, -1, -1, -1 };
    bool isD[64] = {};
    B*   obj[64] = {};
    D*   dobj[64] = {};
    int  det[64] = {};   // detached references we hold by hand
    World() { new (mem[0]) PB(); new (mem[1]) PB(); new (mem[2]) PD(); new (mem[3]) PC(); }
    ~World() {
        a(0).~PB(); a(1).~PB(); d().~PD(); c().~PC();
        for (int i = 0; i < created; ++i)
            for (; det[i]; --det[i]) intrusive_ptr_release(obj[i]);
    }
    int owners(int o) { int n = det[o]; for (int k : own) n += k == o; return n; }
    B* mkB() { B* b = new B(); obj[b->id] = b; isD[b->id] = false; return b; }
    D* mkD() { D* x = new D(); obj[x->id] = x; dobj[x->id] = x; isD[x->id] = true; return x; }
    void check() {
        for (int o = 0; o < created; ++o) {
            int n = owners(o);
            if (n == 0) VX_CHECK(alive[o] == 0 && destroyed[o] == 1, "object %d has no owner but was %s", o, alive[o] ? "not destroyed" : "destroyed twice");
            else {
                VX_CHECK(alive[o] == 1 && destroyed[o] == 0, "object %d was destroyed although it has %d owner(s)", o, n);
                VX_CHECK(obj[o]->use_count() == (unsigned)n, "object %d: use_count %u, owners %d", o, obj[o]->use_count(), n);
                VX_CHECK(obj[o]->val == 7 || obj[o]->val == 8, "object %d content changed", o);
            }
        }
        for (int i = 0; i < 2; ++i) { VX_CHECK(a(i).get() == (own[i] < 0 ? nullptr : obj[own[i]]), "pointer a%d designates the wrong object", i); }
        VX_CHECK(d().get() == (own[2] < 0 ? nullptr : dobj[own[2]]), "pointer d designates the wrong object");
        VX_CHECK(c().get() == (own[3] < 0 ? nullptr : (const B*)obj[own[3]]), "pointer c designates the wrong object");
        // observers
        for (int i = 0; i < 2; ++i) {
            PB& p = a(i);
            bool set = own[i] >= 0;
            VX_CHECK(!!p == set && (p == nullptr) == !set && (nullptr == p) == !set && (p != nullptr) == set && (nullptr != p) == set, "null test");
            VX_CHECK((p == d()) == (p.get() == static_cast<B*>(d().get())) && (p != d()) == (p.get() != static_cast<B*>(d().get())), "comparison with derived");
            VX_CHECK(p == p.get() && p.get() == p && !(p != p.get()) && !(p.get() != p), "comparison with raw pointer");
            VX_CHECK(std::hash<PB>()(p) == std::hash<B*>()(p.get()) && hash_value(p) == std::hash<PB>()(p), "hash");
            VX_CHECK(get_pointer(p) == p.get(), "get_pointer");
            if (set) VX_CHECK(&*p == p.get() && p.operator->() == p.get() && p->id == own[i], "dereference");
        }
        VX_CHECK((a(0) == a(1)) == (own[0] == own[1]) && (a(0) != a(1)) == (own[0] != own[1]), "comparison");
        VX_CHECK((a(0) < a(1)) == std::less<B*>()(a(0).get(), a(1).get()), "ordering");
    }
    uint64_t key() {
        uint64_t h = 1;
        for (int k : own) h = vx::mix(h, k + 2);
        for (int i = 0; i < created; ++i) h = vx::mix(h, owners(i) * 4 + isD[i]);
        return h;
    }
    struct Op { const char* name; int i, j; };
    // returns false if the operation is not applicable in this state (treated as a no-op leaf)
    bool apply(vx::Ctx& x, int op) {
        int n = op; // decoded below
        auto take = [&](int k) { bool r = n < k; if (!r) n -= k; return r; };
        if (take(2)) { x.log("a%d = PB(new B)", n); B* b = mkB(); a(n) = PB(b); own[n] = b->id; return true; }
        if (take(2)) { x.log("a%d = raw new D", n); D* b = mkD(); a(n) = static_cast<B*>(b); own[n] = b->id; return true; }
        if (take(1)) { x.log("d.reset(new D)"); D* b = mkD(); d().reset(b); own[2] = b->id; return true; }
        if (take(4)) { int i = n / 2, j = n % 2; x.log("a%d = a%d", i, j); a(i) = a(j); own[i] = own[j]; return true; }
        if (take(4)) { int i = n / 2, j = n % 2; x.log("a%d = move(a%d)", i, j); a(i) = std::move(a(j)); if (i != j) { own[i] = own[j]; own[j] = -1; } return true; }
        if (take(2)) { x.log("a%d = d", n); a(n) = d(); own[n] = own[2]; return true; }
        if (take(2)) { x.log("a%d = move(d)", n); a(n) = std::move(d()); own[n] = own[2]; own[2] = -1; return true; }
        if (take(1)) { x.log("d = d"); PD& r = d(); d() = r; return true; }
        if (take(1)) { x.log("c = a0 (to const)"); c() = a(0); own[3] = own[0]; return true; }
        if (take(1)) { x.log("c = move(a1) (to const)"); c() = std::move(a(1)); own[3] = own[1]; own[1] = -1; return true; }
        if (take(1)) { x.log("c = move(d) (derived to const base)"); c() = std::move(d()); own[3] = own[2]; own[2] = -1; return true; }
        if (take(4)) { int i = n / 2, j = n % 2; x.log("re-construct a%d as copy of a%d", i, j); if (i == j) return false; a(i).~PB(); new (mem[i]) PB(a(j)); own[i] = own[j]; return true; }
        if (take(2)) { x.log("re-construct a%d by move from a%d", n, 1 - n); a(n).~PB(); new (mem[n]) PB(std::move(a(1 - n))); own[n] = own[1 - n]; own[1 - n] = -1; return true; }
        if (take(1)) { x.log("re-construct a0 as copy of d"); a(0).~PB(); new (mem[0]) PB(d()); own[0] = own[2]; return true; }
        if (take(1)) { x.log("re-construct a0 by move from d"); a(0).~PB(); new (mem[0]) PB(std::move(d())); own[0] = own[2]; own[2] = -1; return true; }
        if (take(1)) { x.log("re-construct c by move from d"); c().~PC(); new (mem[3]) PC(std::move(d())); own[3] = own[2]; own[2] = -1; return true; }
        if (take(2)) { x.log("a%d.reset()", n); a(n).reset(); own[n] = -1; return true; }
        if (take(1)) { x.log("d.reset()"); d().reset(); own[2] = -1; return true; }
        if (take(1)) { x.log("c.reset()"); c().reset(); own[3] = -1; return true; }
        if (take(4)) { int i = n / 2, j = n % 2; x.log("a%d = a%d.get()", i, j); a(i) = a(j).get(); own[i] = own[j]; return true; }
        if (take(4)) { int i = n / 2, j = n % 2; x.log("a%d.reset(a%d.get())", i, j); a(i).reset(a(j).get()); own[i] = own[j]; return true; }
        if (take(2)) { x.log("a%d.reset(a%d.get(), true)", n, 1 - n); a(n).reset(a(1 - n).get(), true); own[n] = own[1 - n]; return true; }
        if (take(2)) { // detach: the reference stays with us
            x.log("raw = a%d.detach()", n);
            B* r = a(n).detach();
            VX_CHECK(r == (own[n] < 0 ? nullptr : obj[own[n]]), "detach returned the wrong object");
            if (own[n] >= 0) det[own[n]]++;
            own[n] = -1;
            return true;
        }
        if (take(2)) { // adopt a detached reference
            int o = -1;
            for (int k = 0; k < created; ++k) if (det[k]) { o = k; break; }
            if (o < 0) return false;
            if (n == 0) { x.log("a0.reset(raw, false)"); a(0).reset(obj[o], false); own[0] = o; }
            else { x.log("a1 = PB(raw, false)"); a(1) = PB(obj[o], false); own[1] = o; }
            det[o]--;
            return true;
        }
        if (take(1)) { x.log("a0.swap(a1)"); a(0).swap(a(1)); std::swap(own[0], own[1]); return true; }
        if (take(1)) { x.log("swap(a0, a1)"); swap(a(0), a(1)); std::swap(own[0], own[1]); return true; }
        if (take(1)) { x.log("a0.swap(a0)"); a(0).swap(a(0)); return true; }
        if (take(2)) { if (own[n] >= 0 && !isD[own[n]]) return false; x.log("d = static_pointer_cast<D>(a%d)", n); d() = gtl::static_pointer_cast<D>(a(n)); own[2] = own[n]; return true; }
        if (take(2)) { if (own[n] >= 0 && !isD[own[n]]) return false; x.log("d = static_pointer_cast<D>(move(a%d))", n); d() = gtl::static_pointer_cast<D>(std::move(a(n))); own[2] = own[n]; own[n] = -1; return true; }
        if (take(2)) { x.log("d = dynamic_pointer_cast<D>(a%d)", n); d() = gtl::dynamic_pointer_cast<D>(a(n)); own[2] = own[n] >= 0 && isD[own[n]] ? own[n] : -1; return true; }
        if (take(2)) { x.log("d = dynamic_pointer_cast<D>(move(a%d))", n); d() = gtl::dynamic_pointer_cast<D>(std::move(a(n))); if (own[n] >= 0 && isD[own[n]]) { own[2] = own[n]; own[n] = -1; } else own[2] = -1; return true; }
        if (take(1)) { x.log("a0 = const_pointer_cast<B>(c)"); a(0) = gtl::const_pointer_cast<B>(c()); own[0] = own[3]; return true; }
        if (take(1)) { x.log("a0 = const_pointer_cast<B>(move(c))"); a(0) = gtl::const_pointer_cast<B>(std::move(c())); own[0] = own[3]; own[3] = -1; return true; }
        if (take(1)) { // copying an object does not copy its count
            if (own[0] < 0 || isD[own[0]]) return false;
            x.log("a1 = new B(*a0)");
            B* b = new B(*a(0)); obj[b->id] = b; isD[b->id] = false;
            VX_CHECK(b->use_count() == 0, "copy of an object has use_count %u", b->use_count());
            a(1) = b; own[1] = b->id; return true;
        }
        if (take(1)) { if (own[0] < 0 || own[1] < 0 || own[0] == own[1]) return false; x.log("*a0 = *a1"); *a(0) = *a(1); return true; }
        if (take(1)) { x.log("PB(nullptr), PB(nullptr,false)"); PB p(nullptr), q(nullptr, false); VX_CHECK(!p && !q, "null construction"); a(1) = nullptr; own[1] = -1; return true; }
        if (take(2)) { x.log("temporary copies of a%d", n); { PB p(a(n)); PB q(p); PB r(std::move(p)); q = r; std::stringstream s, t; s << q; t << q.get(); VX_CHECK(s.str() == t.str(), "a pointer prints as %s", s.str().c_str()); } return true; }
        vx::harness_error("op out of range");
    }
    static constexpr int NOPS = 2+2+1+4+4+2+2+1+1+1+1+4+2+1+1+1+2+1+1+4+4+2+2+2+1+1+1+2+2+2+2+1+1+1+1+1+2;
};

template<class Pol>
void body(vx::Ctx& c, int depth) {
    reset_world();
    {
        World<Pol> w;
        w.check();
        for (int s = 0; s < depth; ++s) {
            int op = c.choose(World<Pol>::NOPS);
            if (!w.apply(c, op)) throw vx::Prune{}; // not applicable here: the shorter sequence was already checked
            c.step();
            w.check();
            c.state(w.key());
        }
    }
    for (int i = 0; i < created; ++i) VX_CHECK(destroyed[i] == 1 && alive[i] == 0, "object %d not destroyed exactly once at the end", i);
}

void reg() {
    int d = vx::thorough ? 5 : 4;
    vx::add("atomic-counter", vx::thorough ? 512 : 32, 2, [d](vx::Ctx& c) { body<gtl::thread_safe_counter>(c, d); });
    vx::add("plain-counter", vx::thorough ? 512 : 32, 2, [d](vx::Ctx& c) { body<gtl::thread_unsafe_counter>(c, d); });
}
} // namespace
VX_MAIN(reg)
