// C12, C13: xme::Delegate under random histories, with callables that fail when copied, moved, allocated or called.
#include "common.hpp"
#include <utility>
#include <xme/core/functional/delegate.hpp>

using namespace sim;
using namespace el;

namespace {
struct Ctx {
    u64 calls = 0, last = 0, tag = 0;
    std::function<void()>* again = nullptr;  // runs once, inside the next call
    u64 member(u64 x, Own y);
};
u64 mix(u64 kind, u64 id, u64 n, u64 x, u64 y) { return kind * 1000003 + id * 8191 + n * 131 + x * 7 + y; }
// every callable ends here
u64 called(Ctx& c, u64 kind, u64 id, u64 n, u64 x, const Own& y) {
    u64 v = val(y);
    if(auto* a = std::exchange(c.again, nullptr))
        oracle([&] { (*a)(); });
    return oracle([&] {
        ++c.calls;
        c.last = kind;
        maybe_throw(F_CALL);
        return mix(kind, id, n, x, v);
    });
}

// tracked functor; the check word depends on its address, so that it cannot be moved behind its back
template<int K, std::size_t Pad, std::size_t Align, bool NoThrowMove>
struct alignas(Align) Fn {
    u64 st;   // id << 32 | calls so far
    u64 chk;
    [[no_unique_address]] std::conditional_t<Pad != 0, std::array<u8, Pad ? Pad : 1>, std::tuple<>> pad;
    u64 seal() const { return ~st ^ u64(this) * 0x9E3779B97F4A7C15ull; }
    bool good() const { return chk == seal(); }
    explicit Fn(u64 id) : st(id << 32) {
        oracle([&] { life_construct(this, sizeof *this, "functor construction"); });
        chk = seal();
    }
    Fn(const Fn& o) {
        oracle([&] {
            life_use(&o, "functor copy");
            maybe_throw(F_COPY);
            life_construct(this, sizeof *this, "functor copy");
        });
        st  = o.good() ? o.st : BADVAL;
        chk = seal();
    }
    Fn(Fn&& o) noexcept(NoThrowMove) {
        oracle([&] {
            life_use(&o, "functor move");
            if(!NoThrowMove)
                maybe_throw(F_MOVE);
            life_construct(this, sizeof *this, "functor move");
        });
        st    = o.good() ? o.st : BADVAL;
        chk   = seal();
        o.st  = 0xffffffull << 32;
        o.chk = o.seal();
    }
    Fn& operator=(const Fn&) = delete;
    ~Fn() {
        oracle([&] { life_destroy(this); });
        st = chk = 0xDEADull;
    }
    u64 operator()(Ctx& c, u64 x, Own y) {
        oracle([&] {
            life_use(this, "call of a functor");
            if(u64(this) % Align)
                violate("call", "a functor is called at a misaligned address");
        });
        u64 id = good() ? st >> 32 : BADVAL, n = st & 0xffffffff;
        ++st;
        chk = seal();
        return called(c, K, id, n, x, y);
    }
};
// can also be assigned to, and is half changed when that fails
template<int K, std::size_t Pad>
struct AFn : Fn<K, Pad, 8, true> {
    using Fn<K, Pad, 8, true>::Fn;
    AFn(const AFn&) = default;
    AFn(AFn&&)      = default;
    AFn& operator=(const AFn& o) {
        oracle([&] {
            life_use(&o, "functor assignment from");
            life_use(this, "functor assignment to");
            this->st  = 0xfffffdull << 32;
            this->chk = this->seal();
            maybe_throw(F_ASSIGN);
            this->st  = o.good() ? o.st : BADVAL;
            this->chk = this->seal();
        });
        return *this;
    }
};
template<int K, std::size_t Words>
struct Triv {  // trivially copyable
    u64 st, more[Words];
    u64 operator()(Ctx& c, u64 x, Own y) {
        bool ok = true;
        for(std::size_t i = 0; i < Words; ++i)
            ok &= more[i] == (st >> 32) + i;
        u64 id = ok ? st >> 32 : BADVAL, n = st & 0xffffffff;
        ++st;
        return called(c, K, id, n, x, y);
    }
};
struct Tiny {  // four bytes
    u8 id, n, a, b;
    u64 operator()(Ctx& c, u64 x, Own y) { return called(c, 6, a == u8(~id) ? id : BADVAL, n++, x, y); }
};
struct alignas(16) AlignTriv {  // fits a small buffer by size, not by alignment
    u64 id, n;
    u64 operator()(Ctx& c, u64 x, Own y) {
        if(u64(this) % 16)
            oracle([&] { violate("call", "a functor is called at a misaligned address"); });
        return called(c, 17, id, n++, x, y);
    }
};
struct ConstFn {  // called as constant, odd size
    u32 id, a, b;
    u64 operator()(Ctx& c, u64 x, Own y) const noexcept(false) { return called(c, 19, a == ~id && b == id + 7 ? id : BADVAL, 0, x, y); }
};
using Inner = xme::Delegate<u64(Ctx&, u64, const Own&)>;
Inner inner(u64 id) {
    return Inner([id, z = ~id](Ctx& c, u64 x, const Own& y) { return called(c, 20, z == ~id ? id : BADVAL, 0, x, y); });
}
u64 free_a(Ctx& c, u64 x, Own y) { return called(c, 0, 0, 0, x, y); }
u64 free_b(Ctx& c, u64 x, Own y) { return called(c, 1, 0, 0, x, y); }
u64 Ctx::member(u64 x, Own y) { return called(*this, 4, 0, 0, x, y); }
auto lam12(u64 id) { return [id, z = ~id, w = id * 3, n = u64(0)](Ctx& c, u64 x, Own y) mutable {
    return called(c, 12, z == ~id && w == id * 3 ? id : BADVAL, n++, x, y); }; }
auto lam13() { return [](Ctx& c, u64 x, Own y) { return called(c, 13, 0, 0, x, y); }; }
auto lam14(u64 id) { return [o = Own(id)](Ctx& c, u64 x, Own y) { return called(c, 14, val(o), 0, x, y); }; }

template<int K> struct Kind;
#define KIND(K, TYPE, STATE, LIVE, ...)                       \
    template<> struct Kind<K> {                               \
        using type                  = TYPE;                   \
        static constexpr bool state = STATE, live = LIVE;     \
        static type make([[maybe_unused]] u64 id) { return __VA_ARGS__; } \
    };
using Sig = u64(Ctx&, u64, Own);
using Ptr = u64 (*)(Ctx&, u64, Own);
using Mem = u64 (Ctx::*)(u64, Own);
using F5  = Fn<5, 0, 8, false>;
using F7  = Fn<7, 80, 8, false>;
using F8  = Fn<8, 0, 64, false>;
using F9  = Fn<9, 0, 8, true>;
using T10 = Triv<10, 1>;
using T11 = Triv<11, 6>;
using L12 = decltype(lam12(0));
using L13 = decltype(lam13());
using L14 = decltype(lam14(0));
using F15 = Fn<15, 0, 16, true>;
using F16 = Fn<16, 24, 8, true>;
KIND(0, Ptr, false, false, &free_a)
KIND(1, Ptr, false, false, &free_b)
KIND(2, Ptr, false, false, nullptr)
KIND(3, Mem, false, false, nullptr)
KIND(4, Mem, false, false, &Ctx::member)
KIND(5, F5, true, true, F5(id))
KIND(6, Tiny, true, false, Tiny{u8(id), 0, u8(~id), 0})
KIND(7, F7, true, true, F7(id))
KIND(8, F8, true, true, F8(id))
KIND(9, F9, true, true, F9(id))
KIND(10, T10, true, false, T10{id << 32, {id}})
KIND(11, T11, true, false, T11{id << 32, {id, id + 1, id + 2, id + 3, id + 4, id + 5}})
KIND(12, L12, true, false, lam12(id))
KIND(13, L13, false, false, lam13())
KIND(14, L14, false, false, lam14(id))
KIND(15, F15, true, true, F15(id))
KIND(16, F16, true, true, F16(id))
using T18 = Triv<18, 2>;
KIND(17, AlignTriv, true, false, AlignTriv{id, 0})
KIND(18, T18, true, false, T18{id << 32, {id, id + 1}})
KIND(19, ConstFn, false, false, ConstFn{u32(id), ~u32(id), u32(id) + 7})
KIND(20, Inner, false, false, inner(id))
using F21 = AFn<21, 0>;
using F22 = AFn<22, 40>;
KIND(21, F21, true, true, F21(id))
KIND(22, F22, true, true, F22(id))
constexpr int KINDS = 23;
bool null_kind(int k) { return k == 2 || k == 3; }

template<typename F>
void with_kind(int k, F&& f) {
    [&]<int... I>(std::integer_sequence<int, I...>) {
        ((I == k ? (void)f(Kind<I>{}, std::integral_constant<int, I>{}) : void()), ...);
    }(std::make_integer_sequence<int, KINDS>{});
}

enum : u32 { D_DEF, D_FN, D_COPY, D_MOVE, A_COPY, A_MOVE, A_FN, A_NULL, SWAP, CALL, CALL3, HANDLE, A_SELF, A_SELFM, REFS, RELOC, REENTER, NOPS_ };
const char* names[] = {"ctor()", "ctor(callable)", "ctor(copy)", "ctor(move)", "=copy", "=move", "=callable", "=nullptr", "swap",
                       "call", "three calls", "handle", "=self", "=move(self)", "reference signatures", "relocate", "call that calls again"};
const char* op_name(u32 o) { return o < NOPS_ ? names[o] : "?"; }
constexpr u32 SLOTS = 3;

void gen(Rng& r, Plan& p) {
    u32 n   = r.chance(1, 2) ? r.range(1, 8) : r.range(4, 30);
    u32 fpm = prop_is("C12") ? r.below(3) * 10 : r.range(1, 4) * 12;
    u32 pool[3] = {r.below(KINDS), r.below(KINDS), r.below(KINDS)};
    bool focus  = r.chance(1, 2);
    for(u32 i = 0; i < n; ++i) {
        Step s;
        u32 k = r.below(100);
        s.op  = k < 25 ? r.chance(1, 2) ? D_FN : A_FN : k < 45 ? CALL : r.below(NOPS_);
        s.a   = r.below(SLOTS * SLOTS);
        s.b   = (focus ? pool[r.below(3)] : r.below(KINDS)) + 32 * r.below(3);  // kind, value category
        s.c   = r.below(200);
        random_fault(r, s, fpm, 4);
        p.thr[0].push_back(s);
    }
}
bool relevant(const char* prop, const char* cls) {
    if(is(prop, "C12")) return is(cls, "call") || is(cls, "handle") || is(cls, "callfail");
    if(is(prop, "C13")) return memory_class(cls) || is(cls, "except") || is(cls, "atomicity");
    return false;
}

struct Run {
    using D = xme::Delegate<Sig>;
    struct Val {
        int kind = -1;
        u64 id = 0, n = 0;
    };
    struct Slot {
        D* d = nullptr;
        Val v;
    };
    Slot s[SLOTS];
    u64 next = 1;
    Ctx ctx;

    void call(Slot& x, u64 arg, const Step* st) {
        u64 yv = arg * 5 + 1, calls = ctx.calls, res = 0;
        Own y(yv);
        Step none;
        if(x.v.kind < 0) {
            bool threw = false;
            try {
                sut([&] { res = (*const_cast<const D*>(x.d))(ctx, arg, std::move(y)); });
            } catch(const std::bad_function_call&) {
                threw = true;
            }
            if(!threw || ctx.calls != calls)
                violate("call", "calling an empty Delegate does not throw bad_function_call");
            probe("empty delegate called");
            return;
        }
        auto r = guarded(st ? *st : none, "call", "callfail", [&] { res = (*const_cast<const D*>(x.d))(ctx, arg, std::move(y)); });
        if(r.failed && r.kind != F_CALL)
            return;  // the argument could not be passed on
        if(ctx.calls != calls + 1)
            violate("call", "a call reached %llu callables", (unsigned long long)(ctx.calls - calls));
        if(ctx.last != u64(x.v.kind))
            violate("call", "callable of kind %d was called, kind %d is held", int(ctx.last), x.v.kind);
        if(!r.failed && res != mix(x.v.kind, x.v.id, x.v.n, arg, yv))
            violate("call", "callable of kind %d (id %llu, call %llu) gave %llu, expected %llu", x.v.kind,
                    (unsigned long long)x.v.id, (unsigned long long)x.v.n, (unsigned long long)res,
                    (unsigned long long)mix(x.v.kind, x.v.id, x.v.n, arg, yv));
        with_kind(x.v.kind, [&](auto k, auto) { x.v.n += k.state; });
        if(r.failed)
            probe("callable threw");
    }
    void handle(Slot& x) {
        for(int k = 0; k < KINDS; ++k)
            with_kind(k, [&](auto kd, auto ki) {
                using F    = typename decltype(kd)::type;
                const F* h = sut([&] { return const_cast<const D*>(x.d)->template handle<F>(); });
                constexpr int K = decltype(ki)::value;
                bool same  = false;
                if(x.v.kind >= 0)
                    with_kind(x.v.kind, [&](auto kh, auto) { same = std::is_same_v<F, typename decltype(kh)::type>; });
                if(!same) {
                    if(h)
                        violate("handle", "handle of kind %d is not null, kind %d is held", K, x.v.kind);
                    return;
                }
                if(!h) {
                    violate("handle", "handle of the held kind %d is null", K);
                    return;
                }
                u64 want = x.v.id << 32 | x.v.n;
                bool ok  = true;
                if(!in_arena(h) || !heap_ok(h, sizeof(F)))
                    ok = false;
                else if constexpr(kd.live)
                    ok = life_live(h) && sut([&] { return h->st == want && h->good(); });
                else if constexpr(K == 10 || K == 11 || K == 18)
                    ok = sut([&] { return h->st == want; });
                else if constexpr(K == 17)
                    ok = sut([&] { return h->id == x.v.id && h->n == x.v.n; });
                else if constexpr(K == 19)
                    ok = sut([&] { return h->id == x.v.id; });
                else if constexpr(K == 6)
                    ok = sut([&] { return h->id == u8(x.v.id) && h->n == u8(x.v.n); });
                else if constexpr(K == 0 || K == 1 || K == 4)
                    with_kind(x.v.kind, [&](auto kh, auto) {
                        if constexpr(std::is_same_v<F, typename decltype(kh)::type>)
                            ok = sut([&] { return *h == kh.make(0); });
                    });
                if(!ok)
                    violate("handle", "handle of kind %d does not denote the stored functor", K);
                else
                    probe("handle checked");
            });
    }
    bool check(const char* nm) {
        std::size_t live = 0;
        for(auto& x : s) {
            bool b = sut([&] { return static_cast<bool>(*const_cast<const D*>(x.d)); });
            if(b != (x.v.kind >= 0)) {
                violate("call", "%s: the Delegate is %s but should %sbe", nm, b ? "not empty" : "empty", b ? "" : "not ");
                return false;
            }
            if(x.v.kind >= 0)
                with_kind(x.v.kind, [&](auto k, auto) { live += k.live; });
        }
        if(live_objects() != live) {
            violate("life", "%s: %zu functors are alive, %zu are held", nm, live_objects(), live);
            return false;
        }
        return true;
    }
    // f gets the source in the wanted value category; returns the model value
    template<typename Use>
    Val source(u32 b, Use&& use) {
        Val v;
        v.kind = int(b % 32) % KINDS;
        v.id   = next++ % 200;
        with_kind(v.kind, [&](auto kd, auto) {
            using F = typename decltype(kd)::type;
            F f     = kd.make(v.id);
            switch(b / 32) {
                case 0: use(std::move(f)); break;
                case 1: use(f); break;
                default: use(std::as_const(f)); break;
            }
            if constexpr(kd.live)  // the source must still be whole
                if(!life_live(&f) || !f.good())
                    violate("life", "the source functor was damaged");
            if constexpr(kd.live)
                if(b / 32 && f.st != v.id << 32)
                    violate("call", "the source functor was changed");
        });
        if(!decltype(v.kind)(0) && (v.kind == 0 || v.kind == 1 || v.kind == 4 || v.kind == 13))
            v.id = 0;
        if(null_kind(v.kind))
            v = Val{};
        return v;
    }
    template<typename F>
    bool construct(const Step& st, Slot& x, F&& f) {
        sut([&] { x.d->~D(); });
        root_free(x.d);
        x.v            = Val{};
        void* p        = root_alloc(sizeof(D), alignof(D));
        std::size_t lb = live_blocks(), lo = live_objects();
        auto r         = guarded(st, op_name(st.op), "except", [&] { f(p); });
        if(r.failed) {
            if(live_blocks() > lb || live_objects() > lo)
                violate("leak", "failed %s leaves something behind", op_name(st.op));
            root_free(p);
            p = root_alloc(sizeof(D), alignof(D));
            sut([&] { new(p) D(); });
        }
        x.d = (D*)p;
        return !r.failed;
    }
    bool step(const Step& st) {
        Slot &x = s[st.a % SLOTS], &y = s[st.a / SLOTS % SLOTS];
        const char* nm = op_name(st.op);
        Val old        = x.v;
        bool failed    = false;
        switch(st.op) {
            case D_DEF: construct(st, x, [&](void* p) { new(p) D(); }); break;
            case D_FN: {
                bool ok = false;
                Val v   = source(st.b, [&](auto&& f) {
                    ok = construct(st, x, [&](void* p) { new(p) D(std::forward<decltype(f)>(f)); });
                });
                if(ok)
                    x.v = v;
                break;
            }
            case D_COPY: {
                if(&x == &y)
                    return true;
                if(construct(st, x, [&](void* p) { new(p) D(const_cast<const D&>(*y.d)); }))
                    x.v = y.v;
                break;
            }
            case D_MOVE: {
                if(&x == &y)
                    return true;
                if(construct(st, x, [&](void* p) { new(p) D(std::move(*y.d)); })) {
                    x.v = y.v;
                    y.v = Val{};
                }
                else
                    violate("except", "moving a Delegate throws");
                break;
            }
            case A_COPY: case A_SELF: {
                D* from = st.op == A_SELF ? x.d : y.d;
                Val v   = st.op == A_SELF ? x.v : y.v;
                auto r  = guarded(st, nm, "except", [&] { *x.d = const_cast<const D&>(*from); });
                failed  = r.failed;
                if(!failed)
                    x.v = v;
                break;
            }
            case A_MOVE: {
                if(&x == &y)
                    return true;
                auto r = guarded(st, nm, "except", [&] { *x.d = std::move(*y.d); });
                if(r.failed) {
                    violate("except", "moving a Delegate throws");
                    return false;
                }
                x.v = y.v;
                y.v = Val{};
                break;
            }
            case A_SELFM: {
                guarded(st, nm, "except", [&] { *x.d = std::move(*x.d); });
                if(!sut([&] { return static_cast<bool>(*x.d); }))
                    x.v = Val{};  // self-move may empty it
                break;
            }
            case A_FN: {
                Val v = source(st.b, [&](auto&& f) {
                    auto r = guarded(st, nm, "except", [&] { *x.d = std::forward<decltype(f)>(f); });
                    failed = r.failed;
                });
                if(!failed)
                    x.v = v;
                break;
            }
            case A_NULL: {
                auto r = guarded(st, nm, "except", [&] { *x.d = nullptr; });
                if(!r.failed)
                    x.v = Val{};
                break;
            }
            case SWAP: {
                auto r = guarded(st, nm, "except", [&] { x.d->swap(*y.d); });
                if(r.failed)
                    return false;
                std::swap(x.v, y.v);
                break;
            }
            case CALL: call(x, st.c, &st); break;
            case CALL3:
                for(u32 i = 0; i < 3; ++i)
                    call(x, st.c + i, nullptr);
                break;
            case HANDLE: handle(x); break;
            case RELOC: {
                void* p = root_alloc(sizeof(D), alignof(D));
                auto r  = guarded(st, nm, "except", [&] { new(p) D(std::move(*x.d)); });
                if(r.failed)
                    return false;
                sut([&] { x.d->~D(); });
                root_free(x.d);
                x.d = (D*)p;
                break;
            }
            case REFS: refs(st); break;
            case REENTER: {
                // while its callable runs, the Delegate is copied and called once more
                if(x.v.kind < 0)
                    return true;
                u64 calls = ctx.calls, inner = 0, res = 0;
                Own y1(5), y2(6);
                std::function<void()> f = [&] {
                    sut([&] {
                        D copy(*const_cast<const D*>(x.d));
                        oracle([&] {
                            if(!copy)
                                violate("call", "a copy made during a call is empty");
                        });
                        inner = (*const_cast<const D*>(x.d))(ctx, 3, std::move(y2));
                    });
                };
                ctx.again = &f;
                auto r    = guarded(st, nm, "callfail", [&] { res = (*const_cast<const D*>(x.d))(ctx, 4, std::move(y1)); });
                ctx.again = nullptr;
                u64 more  = 0;
                with_kind(x.v.kind, [&](auto k, auto) { more = k.state; });
                if(r.failed) {  // how far it came is read back from the calls that were counted
                    if(ctx.calls - calls > 2)
                        violate("call", "a call reached %llu callables", (unsigned long long)(ctx.calls - calls));
                    if(more)
                        sut([&] { *x.d = nullptr; }), x.v = Val{};
                    break;
                }
                if(ctx.calls != calls + 2 || inner != mix(x.v.kind, x.v.id, x.v.n + more, 3, 6) || res != mix(x.v.kind, x.v.id, x.v.n, 4, 5))
                    violate("call", "a callable called again while it runs gives another result");
                x.v.n += 2 * more;
                probe("called again while running");
                break;
            }
        }
        if(failed) {
            // the target keeps what it had: same emptiness, same answers
            bool b = sut([&] { return static_cast<bool>(*const_cast<const D*>(x.d)); });
            if(b != (old.kind >= 0))
                violate("atomicity", "failed %s changed whether the Delegate is empty", nm);
            else if(b) {
                u64 before = ctx.calls, res = 0;
                Own y2(1);
                sut([&] { res = (*const_cast<const D*>(x.d))(ctx, 9, std::move(y2)); });
                if(ctx.calls != before + 1 || res != mix(old.kind, old.id, old.n, 9, 1))
                    violate("atomicity", "after failed %s the Delegate calls something else", nm);
                with_kind(x.v.kind, [&](auto k, auto) { x.v.n += k.state; });
            }
            probe("target kept after failed assignment");
        }
        if(!check(nm))
            return false;
        u64 h = 0;
        for(auto& z : s)
            h = h * 22 + (z.v.kind + 1);
        cover(h * 64 + st.op * 2 + failed);
        return true;
    }
    // other signatures: reference results, no result, move-only argument
    void refs(const Step& st) {
        u64 cell = st.c, hits = 0, own_id = 0;
        Ctx other;
        other.tag = st.c + 7;
        void *p1 = root_alloc(sizeof(xme::Delegate<u64&(u64&)>), 16), *p2 = root_alloc(sizeof(xme::Delegate<void()>), 16);
        void* p3 = root_alloc(sizeof(xme::Delegate<u64(std::unique_ptr<u64>)>), 16);
        sut([&] {
            auto* a = new(p1) xme::Delegate<u64&(u64&)>([](u64& r) -> u64& { ++r; return r; });
            auto* b = new(p2) xme::Delegate<void()>([&hits, &cell, c = st.c] { hits += cell == c + 1; });
            auto* c = new(p3) xme::Delegate<u64(std::unique_ptr<u64>)>([](std::unique_ptr<u64> q) { return *q + 1; });
            u64& got = (*a)(cell);
            bool ok  = &got == &cell && cell == st.c + 1;
            (*b)();
            ok &= hits == 1;
            auto b2 = *b;
            b2();
            ok &= hits == 2;
            ok &= (*c)(std::make_unique<u64>(st.c)) == st.c + 1;
            {
                // what is bound by reference stays where it is
                T18 f{u64(st.c) << 32, {st.c, st.c + 1u}};
                Ctx mine;
                xme::Delegate<Sig> byref(std::ref(f)), copy(byref);
                u64 r1 = byref(mine, 1, Own(2)), r2 = copy(mine, 1, Own(2));
                ok &= r1 == mix(18, st.c, 0, 1, 2) && r2 == mix(18, st.c, 1, 1, 2) && f.st == (u64(st.c) << 32) + 2;
                // arguments passed by rvalue reference and by constant reference are not copied
                xme::Delegate<const Own*(Own&&, const Own&, int)> ids([&](Own&& o, const Own& q, int i) {
                    Own taken(std::move(o));
                    own_id = val(taken) * 10 + i;
                    return &q;
                });
                Own o1(3), o2(4);
                ok &= ids(std::move(o1), o2, 5) == &o2 && own_id == 35 && val(o1) == MOVED && val(o2) == 4;
                // pointers to data members
                xme::Delegate<u64&(Ctx&)> tag(&Ctx::tag), none(static_cast<u64 Ctx::*>(nullptr));
                ok &= static_cast<bool>(tag) && &tag(other) == &other.tag && !none;
                tag.swap(none);
                ok &= !tag && &none(other) == &other.tag;
                // deduced signatures
                xme::Delegate d1(&free_a);
                xme::Delegate d2([&](u64 z) { return z + st.c; });
                xme::Delegate d3([n = u64(0)](u64 z) mutable { return z + n++; });
                static_assert(std::is_same_v<decltype(d1), xme::Delegate<Sig>> && std::is_same_v<decltype(d2), xme::Delegate<u64(u64)>>);
                auto d4 = d3;
                ok &= d1(mine, 6, Own(7)) == mix(0, 0, 0, 6, 7) && d2(2) == st.c + 2u && d3(5) == 5 && d3(5) == 6 && d4(5) == 5;
            }
            if(!ok)
                oracle([&] { violate("call", "arguments or results are not passed through"); });
            std::destroy_at(a);
            std::destroy_at(b);
            std::destroy_at(c);
        });
        root_free(p1);
        root_free(p2);
        root_free(p3);
    }
    void go(const Plan& p) {
        for(auto& x : s) {
            void* q = root_alloc(sizeof(D), alignof(D));
            sut([&] { new(q) D(); });
            x.d = (D*)q;
        }
        for(auto& st : p.thr[0])
            if(!step(st))
                return;
        for(auto& x : s) {
            handle(x);
            call(x, 77, nullptr);
        }
        if(!check("at the end"))
            return;
        for(auto& x : s) {
            sut([&] { x.d->~D(); });
            root_free(x.d);
        }
        check_no_leaks();
    }
};
void run(const Plan& p) {
    Run r;
    r.go(p);
}
}  // namespace

const sim::Harness sim::harness{"delegate", op_name, gen, run, relevant, false};
