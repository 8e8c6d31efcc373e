// Address-checked element types, checking allocator, fault injection.
#pragma once
#include "vx.hpp"
#include <cstddef>
#include <functional>
#include <map>
#include <new>
#include <string>
#include <type_traits>
#include <utility>

namespace tk {

// ---- fault injection ------------------------------------------------------------------------
struct Fault {};
inline long fault_countdown = -1; // <0: off; 0: the next point throws
inline bool fault_fired     = false;
inline int  fault_mask      = 0xff; // which kinds of points count
enum { F_CTOR = 1, F_COPY = 2, F_MOVE = 4, F_ASSIGN = 8, F_ALLOC = 16, F_CALL = 32 };
inline void point(int kind) {
    if (fault_countdown < 0 || !(kind & fault_mask)) return;
    if (fault_countdown-- == 0) {
        fault_fired = true;
        if (kind == F_ALLOC) throw std::bad_alloc();
        throw Fault{};
    }
}
// arms the injector for the lifetime of the object
struct Arm {
    explicit Arm(long k, int mask = 0xff) { fault_countdown = k; fault_fired = false; fault_mask = mask; }
    ~Arm() { fault_countdown = -1; }
};

// ---- tracked element --------------------------------------------------------------------------
inline long live    = 0; // live tracked objects
inline long made    = 0;
inline bool strict_moved = true; // reading a moved-from value is a violation
inline bool strict_copy  = true; // and so is copying one

constexpr uint64_t MAGIC = 0xC0FFEE1234ABCD55ull;
constexpr uint64_t DEAD  = 0xDEADDEADDEADDEADull;
constexpr int      MOVED = -77777;

struct Raw {
    uint64_t magic;
    int      v;
    void     born(int x) {
        magic = MAGIC ^ (uint64_t)(uintptr_t)this;
        v     = x;
        ++live;
        ++made;
    }
    bool ok() const { return magic == (MAGIC ^ (uint64_t)(uintptr_t)this); }
    void need(const char* what) const {
        if (!ok())
            vx::fail("%s of an object that is %s", what,
                     magic == DEAD ? "already destroyed" : "not constructed (or was copied bytewise)");
    }
    void die() {
        need("destruction");
        magic = DEAD;
        --live;
    }
    int get() const {
        need("read");
        if (strict_moved && v == MOVED) vx::fail("read of a moved-from element");
        return v;
    }
};

// Tag selects the set of operations: copyable / move-only, throwing or noexcept moves
template<bool Copyable, bool NoexceptMove, bool DefaultCtor, size_t Align = 8>
struct alignas(Align) Tr {
    Raw r;
    Tr() requires DefaultCtor { point(F_CTOR); r.born(0); }
    Tr(int x) { point(F_CTOR); r.born(x); }
    Tr(int a, int b) { point(F_CTOR); r.born(a + b); }
    Tr(const Tr& o) requires Copyable { o.r.need("copy"); int x = strict_copy ? o.r.get() : o.r.v; point(F_COPY); r.born(x); }
    Tr(Tr&& o) noexcept(NoexceptMove) {
        o.r.need("move");
        if constexpr (!NoexceptMove) point(F_MOVE);
        r.born(o.r.v);
        o.r.v = MOVED;
    }
    Tr& operator=(const Tr& o) requires Copyable { r.need("assignment"); o.r.need("assignment from"); int x = strict_copy ? o.r.get() : o.r.v; point(F_ASSIGN); r.v = x; return *this; }
    Tr& operator=(Tr&& o) noexcept(NoexceptMove) {
        r.need("move assignment");
        o.r.need("move assignment from");
        if constexpr (!NoexceptMove) point(F_ASSIGN);
        int x = o.r.v;
        if (this != &o) o.r.v = MOVED;
        r.v = x;
        return *this;
    }
    ~Tr() {
        if ((uintptr_t)this % Align) vx::fail("misaligned element");
        r.die();
    }
    int  get() const { return r.get(); }
    bool operator==(const Tr& o) const { return get() == o.get(); }
    bool operator<(const Tr& o) const { return get() < o.get(); }
};
using Obj      = Tr<true, true, true>;    // copyable, noexcept move
using ObjTM    = Tr<true, false, true>;   // copyable, throwing move
using MoveOnly = Tr<false, true, false>;  // move only, no default constructor
using MoveOnlyT= Tr<false, false, true>;  // move only, throwing move
using NoDef    = Tr<true, true, false>;
using Over     = Tr<true, true, true, 64>;

// ---- checking allocator ------------------------------------------------------------------------
struct Block { size_t bytes; int id; size_t align; };
inline std::map<void*, Block>* blocks = nullptr;  // outstanding blocks of the checking allocators
inline long alloc_calls = 0;
inline void reset_blocks() { if (!blocks) blocks = new std::map<void*, Block>(); }

template<class T, bool PC, bool PM, bool PS, bool AE>
struct Alloc {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<PC>;
    using propagate_on_container_move_assignment = std::bool_constant<PM>;
    using propagate_on_container_swap            = std::bool_constant<PS>;
    using is_always_equal                        = std::bool_constant<AE>;
    template<class U> struct rebind { using other = Alloc<U, PC, PM, PS, AE>; };
    using pointer = T*; using const_pointer = const T*;
    int id = 0;
    Alloc(int i = 0) noexcept : id(AE ? 0 : i) {}
    template<class U> Alloc(const Alloc<U, PC, PM, PS, AE>& o) noexcept : id(o.id) {}
    T* allocate(size_t n) {
        point(F_ALLOC);
        ++alloc_calls;
        void* p = ::operator new(n * sizeof(T), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
        if (!blocks) reset_blocks();
        (*blocks)[p] = Block{ n * sizeof(T), id, alignof(T) };
        return (T*)p;
    }
    void deallocate(T* p, size_t n) noexcept {
        if (!blocks) reset_blocks();
        auto it = blocks->find((void*)p);
        if (it == blocks->end()) vx::fail("deallocate of a block not obtained from the allocator (or already returned)");
        if (it->second.bytes != n * sizeof(T)) vx::fail("deallocate of %zu bytes for a block of %zu", n * sizeof(T), it->second.bytes);
        if (it->second.id != id) vx::fail("block of allocator %d returned to allocator %d", it->second.id, id);
        blocks->erase(it);
        ::operator delete((void*)p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
    }
    friend bool operator==(const Alloc& a, const Alloc& b) { return a.id == b.id; }
    friend bool operator!=(const Alloc& a, const Alloc& b) { return a.id != b.id; }
};
template<class T> using PlainAlloc = Alloc<T, false, false, false, false>;

// called by vx around each execution
inline void begin() { live = 0; made = 0; fault_countdown = -1; fault_fired = false; alloc_calls = 0; reset_blocks(); blocks->clear(); }
inline void end() {
    if (live != 0) vx::fail("%ld element(s) still alive after everything was destroyed (or destroyed too often)", live);
    if (!blocks->empty()) vx::fail("%zu block(s) not returned to the allocator", blocks->size());
}
inline void install() { vx::before_exec = begin; vx::after_exec = end; }

} // namespace tk
