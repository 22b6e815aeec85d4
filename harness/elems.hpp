// Element types and allocators shared by the harnesses.
#pragma once
#include "../sim/sim.hpp"
#include <compare>
#include <memory>
#include <type_traits>

namespace el {
using namespace sim;

inline constexpr u64 MOVED = 0x4D6F766564000000ull;

// instrumented element: every life event is registered, every special member may be made to fail
struct Tok {
    u64 v;
    u64 chk;
    u64 stamp;  // changes whenever the object is built or written
    void set(u64 x) { put(x, ~x); }
    void put(u64 x, u64 c) {
        v     = x;
        chk   = c;
        stamp = sim::stamp();
    }
    Tok() {
        maybe_throw(F_CTOR);
        life_construct(this, sizeof *this, "default construction");
        set(0);
    }
    explicit(false) Tok(u64 x) {
        maybe_throw(F_CTOR);
        life_construct(this, sizeof *this, "construction");
        set(x);
    }
    Tok(const Tok& o) {
        life_use(&o, "copy");
        maybe_throw(F_COPY);
        life_construct(this, sizeof *this, "copy construction");
        put(o.v, o.chk);
    }
    Tok(Tok&& o) {
        life_use(&o, "move");
        maybe_throw(F_MOVE);
        life_construct(this, sizeof *this, "move construction");
        put(o.v, o.chk);
        if(&o != this)
            o.set(MOVED);
    }
    Tok& operator=(const Tok& o) {
        life_use(&o, "assignment from");
        life_use(this, "assignment to");
        maybe_throw(F_ASSIGN);
        put(o.v, o.chk);
        return *this;
    }
    Tok& operator=(Tok&& o) {
        life_use(&o, "move assignment from");
        life_use(this, "move assignment to");
        maybe_throw(F_ASSIGN);
        u64 a = o.v, b = o.chk;
        o.set(MOVED);
        put(a, b);
        return *this;
    }
    ~Tok() {
        yield_point();
        life_destroy(this);
        v = chk = stamp = 0xDEADDEADDEADDEADull;
    }
};
// the same with non-throwing moves
struct NTok {
    u64 v;
    u64 chk;
    u64 stamp;  // changes whenever the object is built or written
    void set(u64 x) { put(x, ~x); }
    void put(u64 x, u64 c) {
        v     = x;
        chk   = c;
        stamp = sim::stamp();
    }
    NTok() {
        maybe_throw(F_CTOR);
        life_construct(this, sizeof *this, "default construction");
        set(0);
    }
    explicit(false) NTok(u64 x) {
        maybe_throw(F_CTOR);
        life_construct(this, sizeof *this, "construction");
        set(x);
    }
    NTok(const NTok& o) {
        life_use(&o, "copy");
        maybe_throw(F_COPY);
        life_construct(this, sizeof *this, "copy construction");
        put(o.v, o.chk);
    }
    NTok(NTok&& o) noexcept {
        life_use(&o, "move");
        life_construct(this, sizeof *this, "move construction");
        put(o.v, o.chk);
        if(&o != this)
            o.set(MOVED);
    }
    NTok& operator=(const NTok& o) {
        life_use(&o, "assignment from");
        life_use(this, "assignment to");
        maybe_throw(F_ASSIGN);
        put(o.v, o.chk);
        return *this;
    }
    NTok& operator=(NTok&& o) noexcept {
        life_use(&o, "move assignment from");
        life_use(this, "move assignment to");
        u64 a = o.v, b = o.chk;
        o.set(MOVED);
        put(a, b);
        return *this;
    }
    ~NTok() {
        life_destroy(this);
        v = chk = stamp = 0xDEADDEADDEADDEADull;
    }
};

// owns memory: construction and copy may fail by allocation
struct Own {
    u64* p;
    Own() : p(new u64(0)) {}
    explicit(false) Own(u64 x) : p(new u64(x)) {}
    Own(const Own& o) : p(new u64(o.p ? *o.p : MOVED)) {}
    Own(Own&& o) noexcept : p(o.p) { o.p = nullptr; }
    Own& operator=(const Own& o) {
        u64* q = new u64(o.p ? *o.p : MOVED);
        delete p;
        p = q;
        return *this;
    }
    Own& operator=(Own&& o) noexcept {
        if(this != &o) {
            delete p;
            p   = o.p;
            o.p = nullptr;
        }
        return *this;
    }
    ~Own() {
        delete p;
        p = (u64*)0xDEADDEADull;
    }
};

// the same, can only be moved
struct Uniq : Own {
    Uniq() = default;
    explicit(false) Uniq(u64 x) : Own(x) {}
    Uniq(Uniq&&) noexcept            = default;
    Uniq& operator=(Uniq&&) noexcept = default;
    Uniq(const Uniq&)                = delete;
    Uniq& operator=(const Uniq&)     = delete;
};

struct Big {  // trivially copyable, several words, all derived from the value
    u64 w[5];
    Big() = default;
    explicit(false) Big(u64 x) {
        for(int i = 0; i < 5; ++i)
            w[i] = x * (2 * i + 1) + i;
    }
};
struct alignas(64) Over {
    u64 v;
    u64 chk;
    Over() = default;
    explicit(false) Over(u64 x) : v(x), chk(~x) {}
};

inline constexpr u64 BADVAL = 0xBADBADBADBADull;
inline u64 val(const u64& x) { return x; }
inline u64 val(const sim::u8& x) { return x; }
inline u64 val(const Tok& x) { return x.chk == ~x.v ? x.v : BADVAL; }
inline u64 val(const NTok& x) { return x.chk == ~x.v ? x.v : BADVAL; }
inline u64 val(const Own& x) { return x.p ? *x.p : MOVED; }
inline u64 val(const Big& x) {
    for(int i = 1; i < 5; ++i)
        if(x.w[i] != x.w[0] * (2 * i + 1) + i)
            return BADVAL;
    return x.w[0];
}
inline u64 val(const Over& x) {
    if(reinterpret_cast<std::uintptr_t>(&x) % 64)
        return BADVAL;
    return x.chk == ~x.v ? x.v : BADVAL;
}
template<typename T>
concept Comparable = std::is_same_v<T, Tok> || std::is_same_v<T, NTok> || std::is_same_v<T, Own> || std::is_same_v<T, Big>;
template<Comparable T>
bool operator==(const T& a, const T& b) {
    return val(a) == val(b);
}
template<Comparable T>
bool operator<(const T& a, const T& b) {
    return val(a) < val(b);
}

template<typename T> inline constexpr bool is_tok  = std::is_same_v<T, Tok> || std::is_same_v<T, NTok>;
template<typename T> inline constexpr bool has_life = is_tok<T>;

// is the element alive (where that is known) and readable?
template<typename T>
bool usable(const T& x, const char* how) {
    if constexpr(has_life<T>)
        return life_use(&x, how);
    return true;
}

// stateful allocator on the simulated heap. The id is part of equality.
template<typename T, bool Pocca, bool Pocma, bool Pocs>
struct SimAlloc {
    using value_type                             = T;
    using size_type                              = std::size_t;
    using difference_type                        = std::ptrdiff_t;
    using propagate_on_container_copy_assignment = std::bool_constant<Pocca>;
    using propagate_on_container_move_assignment = std::bool_constant<Pocma>;
    using propagate_on_container_swap            = std::bool_constant<Pocs>;
    using is_always_equal                        = std::false_type;
    template<typename U>
    struct rebind { using other = SimAlloc<U, Pocca, Pocma, Pocs>; };
    u32 id  = 100;
    u32 chk = ~100u;
    SimAlloc() = default;
    explicit SimAlloc(u32 i) : id(i), chk(~i) {}
    template<typename U>
    SimAlloc(const SimAlloc<U, Pocca, Pocma, Pocs>& o) : id(o.id), chk(o.chk) {}
    void made() {
        if(chk != ~id)
            oracle([] { violate("life", "an allocator that was never constructed is used"); });
    }
    T* allocate(std::size_t n) {
        made();
        if(n > (std::size_t(1) << 40) / sizeof(T))
            throw std::bad_array_new_length();
        return static_cast<T*>(heap_alloc(n * sizeof(T), alignof(T), id, "allocator", true));
    }
    void deallocate(T* p, std::size_t n) {
        made();
        heap_free(p, n * sizeof(T), alignof(T), id, "allocator");
    }
    template<typename U>
    bool operator==(const SimAlloc<U, Pocca, Pocma, Pocs>& o) const {
        return id == o.id;
    }
};
}  // namespace el
