// C25, C26: Pair, Tuple and bound callables under random histories, with members that fail when built, copied,
// moved or assigned, and callables that fail.
#include "common.hpp"
#include <array>
#include <optional>
#include <tuple>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/functional/bind.hpp>

namespace el {  // three-way comparison for the members
template<Comparable T>
std::strong_ordering operator<=>(const T& a, const T& b) {
    return val(a) <=> val(b);
}
// a nested product may ask its members for these although nothing here compares it
inline bool operator==(const Uniq& a, const Uniq& b) {
    return val(a) == val(b);
}
inline std::strong_ordering operator<=>(const Uniq& a, const Uniq& b) {
    return val(a) <=> val(b);
}
}  // namespace el
using namespace sim;
using namespace el;

namespace {
enum : u32 {
    C_LVAL, C_RVAL, C_COPY, C_MOVE, A_COPY, A_COPY_NC, A_MOVE, A_OTHER, A_OTHER_MOVE, A_STD, A_NUM, SWAP, SWAP_FREE, MAKE, TIE, FORWARD,
    CAT_L, CAT_R, CAT_MIX, APPLY, APPLY_CONST, APPLY_MOVE, CONVERT, APPLY_PICKY, TAKE, COMPARE, BINDING, REFS, WRITE, WIDE, ONE, FOREIGN,
    B_MAKE_L, B_MAKE_R, B_COPY, B_MOVE, B_ASSIGN, B_MOVE_ASSIGN, B_CALL, B_CALL_CONST, B_CALL_MOVE, B_REF, B_NONE, B_MANY, B_MEMBER, B_RESULT, B_PICKY, NOPS_
};
const char* names[] = {"construction from lvalues", "construction from rvalues", "copy construction", "move construction", "assignment from const",
                       "assignment", "move assignment", "assignment from another product", "move assignment from another product",
                       "assignment from a std product", "assignment of numbers", "member swap", "swap", "make", "assignment through tie", "forward_as_tuple", "tuple_cat of lvalues", "tuple_cat of rvalues",
                       "tuple_cat of both", "apply", "apply to const", "apply to rvalue", "conversion", "apply with overloads", "taking one member", "comparison",
                       "structured binding", "product of references", "write of a member", "tuple of five", "tuple of one", "foreign or nested products",
                       "bind lvalues", "bind rvalues", "copy of bound", "move of bound", "assignment of bound", "move assignment of bound", "call of bound",
                       "call of const bound", "call of rvalue bound", "bind reference", "bind nothing", "bind many", "bind member pointer", "result of bound", "bind with overloads"};
static_assert(sizeof names / sizeof *names == NOPS_);
const char* op_name(u32 o) { return o < NOPS_ ? names[o] : "?"; }

// cfg: 0 member types, 1 which of bind_front, bind_back
void gen(Rng& r, Plan& p) {
    p.cfg[0] = r.below(5);
    p.cfg[1] = r.below(2);
    u32 n    = r.chance(1, 2) ? r.range(1, 5) : r.range(4, 18);
    u32 fpm  = r.below(4) * 16;
    u32 lo = prop_is("C26") ? B_MAKE_L : 0, hi = prop_is("C25") ? B_MAKE_L : NOPS_;
    for(u32 i = 0; i < n; ++i) {
        Step s;
        s.op = r.range(lo, hi - 1);
        s.a  = r.below(16);
        s.b  = r.below(1000);
        s.c  = r.below(64);
        random_fault(r, s, fpm, 4);
        p.thr[0].push_back(s);
    }
}
bool relevant(const char* prop, const char* cls) {
    if(is(prop, "C25"))
        return is(cls, "product") || is(cls, "except") || memory_class(cls);
    if(is(prop, "C26"))
        return is(cls, "bind") || is(cls, "bind-except") || memory_class(cls);
    return false;
}

// what a callable received: value category and value of every argument, the callable itself first
struct Arg {
    int cat;  // 0 lvalue, 1 const lvalue, 2 rvalue, 3 const rvalue
    u64 v;
    bool operator==(const Arg&) const = default;
};
std::vector<Arg> got;
template<typename X>
constexpr int cat() {
    using R = std::remove_reference_t<X>;
    return (std::is_lvalue_reference_v<X> ? 0 : 2) + std::is_const_v<R>;
}
std::string show(const std::vector<Arg>& v) {
    static const char* c[] = {"&", "const&", "&&", "const&&"};
    std::string s;
    for(auto& a : v)
        s += " " + std::to_string(a.v) + c[a.cat];
    return s;
}
// takes over what is given as rvalue, as a callee would
template<typename X>
void receive(X&& x) {
    u64 v = val(x);
    oracle([&] { got.push_back({cat<X&&>(), v}); });
    if constexpr(!std::is_lvalue_reference_v<X> && !std::is_const_v<std::remove_reference_t<X>>) {
        std::remove_reference_t<X> taken(std::forward<X>(x));
        if(val(taken) != v)
            oracle([&] { got.push_back({9, val(taken)}); });
    }
}
struct Fun {
    Own s;
    explicit Fun(u64 x) : s(x) {}
    template<typename... X>
    u64 operator()(X&&... x) & {
        return run(*this, std::forward<X>(x)...);
    }
    template<typename... X>
    u64 operator()(X&&... x) const& {
        return run(*this, std::forward<X>(x)...);
    }
    template<typename... X>
    u64 operator()(X&&... x) && {
        return run(std::move(*this), std::forward<X>(x)...);
    }
    template<typename... X>
    u64 operator()(X&&... x) const&& {
        return run(std::move(*this), std::forward<X>(x)...);
    }
    template<typename S, typename... X>
    static u64 run(S&& self, X&&... x) {
        u64 v = val(self.s);
        oracle([&] { got.push_back({cat<S&&>(), v}); });
        maybe_throw(F_CALL);
        (receive(std::forward<X>(x)), ...);
        return v * 3 + sizeof...(X);
    }
};
struct Plain {  // for apply
    template<typename... X>
    u64 operator()(X&&... x) const {
        maybe_throw(F_CALL);
        (receive(std::forward<X>(x)), ...);
        return 11 + sizeof...(X);
    }
};
// overloaded on what it is given: only the overload K (position * 4 + category) may throw, the others are noexcept
template<int K, int S, typename... X>
constexpr bool may_throw() {
    constexpr int c[] = {S, cat<X>()...};
    return K / 4 < int(sizeof c / sizeof *c) && c[K / 4] == K % 4;
}
template<int K>
struct Picky {
    u64 v;
    template<typename... X>
    u64 operator()(X&&... x) & noexcept(!may_throw<K, 0, X&&...>()) {
        return run<0>(v, std::forward<X>(x)...);
    }
    template<typename... X>
    u64 operator()(X&&... x) const& noexcept(!may_throw<K, 1, X&&...>()) {
        return run<1>(v, std::forward<X>(x)...);
    }
    template<typename... X>
    u64 operator()(X&&... x) && noexcept(!may_throw<K, 2, X&&...>()) {
        return run<2>(v, std::forward<X>(x)...);
    }
    template<typename... X>
    u64 operator()(X&&... x) const&& noexcept(!may_throw<K, 3, X&&...>()) {
        return run<3>(v, std::forward<X>(x)...);
    }
    template<int S, typename... X>
    static u64 run(u64 v, X&&... x) noexcept(!may_throw<K, S, X&&...>()) {
        if constexpr(may_throw<K, S, X&&...>())
            maybe_throw(F_CALL);
        u64 r = v * 4 + S;
        ((r = r * 1000 + u64(x) * 4 + cat<X&&>()), ...);
        return r;
    }
};
// calls g as lvalue, const lvalue, rvalue, const rvalue
template<typename G, typename F>
u64 call_as(G& g, u32 c, F f) {
    switch(c % 4) {
        case 0: return f(g);
        case 1: return f(std::as_const(g));
        case 2: return f(std::move(g));
        default: return f(std::move(std::as_const(g)));
    }
}
template<typename F>
void picky_kind(u32 k, F f) {
    [&]<int... K>(std::integer_sequence<int, K...>) { ((int(k) == K ? f(std::integral_constant<int, K>{}) : void()), ...); }
    (std::make_integer_sequence<int, 12>{});
}
template<bool Front>
void bind_picky(const Step& st) {
    const char* nm = names[st.op];
    u32 c = st.c & 3, a = st.c >> 2 & 3;
    u64 r = 0;
    auto o = guarded(st, nm, "bind-except", [&] {
        picky_kind(st.b % 12, [&](auto k) {
            u64 arg = 7;
            auto f  = [&] {
                if constexpr(Front)
                    return xme::bind_front(Picky<k()>{3}, u64(5));
                else
                    return xme::bind_back(Picky<k()>{3}, u64(5));
            }();
            r = call_as(f, c, [&](auto&& g) { return call_as(arg, a, [&](auto&& x) { return std::forward<decltype(g)>(g)(std::forward<decltype(x)>(x)); }); });
        });
    });
    u64 b = 5 * 4 + c, x = 7 * 4 + a, want = ((3 * 4 + c) * 1000 + (Front ? b : x)) * 1000 + (Front ? x : b);
    if(!o.failed && r != want)
        violate("bind", "%s calls another overload: %llu, expected %llu", nm, (unsigned long long)r, (unsigned long long)want);
}
void apply_picky(const Step& st) {
    const char* nm = names[st.op];
    u32 c = st.c & 3, a = st.c >> 2 & 3;
    u64 r = 0;
    auto o = guarded(st, nm, "except", [&] {
        picky_kind(st.b % 12, [&](auto k) {
            Picky<k()> f{3};
            auto go = [&](auto& t) {
                r = call_as(f, c, [&](auto&& g) { return call_as(t, a, [&](auto&& x) { return xme::apply(std::forward<decltype(g)>(g), std::forward<decltype(x)>(x)); }); });
            };
            if(st.c & 16) {
                xme::Pair<u64, u64> t{5, 7};
                go(t);
            }
            else {
                xme::Tuple<u64, u64> t{5, 7};
                go(t);
            }
        });
    });
    u64 want = ((3 * 4 + c) * 1000 + 5 * 4 + a) * 1000 + 7 * 4 + a;
    if(!o.failed && r != want)
        violate("product", "%s calls another overload: %llu, expected %llu", nm, (unsigned long long)r, (unsigned long long)want);
}

template<typename X>
constexpr std::size_t arity = std::tuple_size_v<X>;
template<typename X, std::size_t... I>
void read(const X& x, std::vector<u64>& v, bool& ok, const char* nm, std::index_sequence<I...>) {
    auto one = [&](const auto& e) {
        oracle([&] {
            if constexpr(has_life<std::remove_cvref_t<decltype(e)>>)
                if(!life_live(&e)) {
                    violate("life", "%s: member is not a live object", nm);
                    ok = false;
                    return;
                }
            v.push_back(val(e));
        });
    };
    (one(get<I>(x)), ...);
}
template<typename X>
bool values(const X& x, std::vector<u64>& v, const char* nm) {
    bool ok = true;
    sut([&] { read(x, v, ok, nm, std::make_index_sequence<arity<X>>{}); });
    return ok;
}
using Vals = std::vector<u64>;
Vals moved(std::size_t n) { return Vals(n, MOVED); }
bool among(u64 x, std::initializer_list<u64> l) {
    for(u64 y : l)
        if(x == y)
            return true;
    return false;
}

template<typename A, typename B, typename C, bool Front>
struct Run {
    using P  = xme::Pair<A, B>;
    using T2 = xme::Tuple<A, B>;
    using T  = xme::Tuple<A, B, C>;
    using BF = decltype(xme::bind_front(std::declval<Fun>(), std::declval<A>(), std::declval<B>()));
    using BB = decltype(xme::bind_back(std::declval<Fun>(), std::declval<A>(), std::declval<B>()));
    using Bd = std::conditional_t<Front, BF, BB>;
    static constexpr bool CP = std::copy_constructible<A> && std::copy_constructible<B> && std::copy_constructible<C>;  // else move-only members
    template<typename X>
    struct Slot {
        X* x = nullptr;
        Vals m;
    };
    Slot<P> ps[2];
    Slot<T> ts[2];
    struct BSlot {
        Bd* x = nullptr;
        Vals m;  // callable, bound a, bound b
    };
    BSlot bs[2];
    u64 next = 1;
    u64 fresh(const Step& s) { return next++ * 1000 + s.b; }

    // after a failure every member holds its value of before, or the result, or is moved from
    static void ordered(const Vals& v, const Vals& m, const Vals& want, const Vals& other, bool failed, const char* nm, const char* cls, bool in_order = true) {
        for(std::size_t i = 0; i < v.size(); ++i)
            if(failed ? !among(v[i], {m[i], want[i], other[i]}) : v[i] != want[i])
                violate(cls, "%s%s: member %zu holds %llu, expected %llu", nm, failed ? " (failed)" : "", i, (unsigned long long)v[i],
                        (unsigned long long)want[i]);
        // a Tuple acts on its members in order: those before the one that failed hold the result, those after it are as before
        if(!failed || !in_order || v.size() < 3)
            return;
        std::size_t done = 0, kept = v.size();
        while(done < v.size() && v[done] == want[done])
            ++done;
        while(kept > 0 && v[kept - 1] == m[kept - 1])
            --kept;
        if(kept > done + 1)
            violate(cls, "%s (failed): member %zu was acted on although member %zu was not", nm, kept - 1, done);
    }
    // after a step: every member holds what it should; failed steps may have done a part of it
    template<typename X>
    void judge(X& x, Vals& m, const Vals& want, const Vals& other, bool failed, const char* nm, const char* cls = "product",
               bool in_order = true) {
        Vals v;
        if(!values(x, v, nm)) {
            m = want;
            return;
        }
        ordered(v, m, want, other, failed, nm, cls, in_order);
        m = v;
    }
    static Outcome guarded_(const Step& st, const char* nm, auto f, const char* cls = "except") {
        got.clear();
        return guarded(st, nm, cls, f);
    }
    template<typename X>
    X* place() {
        return (X*)root_alloc(sizeof(X), alignof(X));
    }
    template<typename S>
    void drop(S& s) {
        if(!s.x)
            return;
        using X = std::remove_pointer_t<decltype(s.x)>;
        sut([&] { s.x->~X(); });
        root_free(s.x);
        s.x = nullptr;
        s.m.clear();
    }
    // loose members
    struct Loose {
        A a;
        B b;
        C c;
    };
    template<typename F>
    void with_loose(u64 x, F f) {
        Loose* l = place<Loose>();
        Step none;
        op_begin(&none);
        sut([&] { new(l) Loose{A(x), B(x + 1), C(x + 2)}; });
        op_end();
        f(*l);
        op_begin(&none);
        sut([&] { l->~Loose(); });
        op_end();
        root_free(l);
    }
    template<typename X>
    static X build(Loose& l, bool rv) {
        if constexpr(arity<X> == 2) {
            if constexpr(CP)
                if(!rv)
                    return X{l.a, l.b};
            return X{std::move(l.a), std::move(l.b)};
        }
        else {
            if constexpr(CP)
                if(!rv)
                    return X{l.a, l.b, l.c};
            return X{std::move(l.a), std::move(l.b), std::move(l.c)};
        }
    }
    Vals firstn(u64 x, std::size_t n) {
        Vals v;
        for(std::size_t i = 0; i < n; ++i)
            v.push_back(x + i);
        return v;
    }
    void ensure(auto& s) {
        using X = std::remove_pointer_t<decltype(s.x)>;
        if(s.x)
            return;
        u64 x = next++ * 1000;
        with_loose(x, [&](Loose& l) {
            s.x = place<X>();
            Step none;
            op_begin(&none);
            sut([&] { new(s.x) X(build<X>(l, false)); });
            op_end();
        });
        s.m = firstn(x, arity<X>);
    }
    void loose_is(Loose& l, const Vals& was, const Vals& want, bool failed, const char* nm, std::size_t n, bool in_order = false) {
        Vals v;
        sut([&] {
            u64 x = val(l.a), y = val(l.b), z = val(l.c);
            oracle([&] { v = {x, y, z}; });
        });
        v.resize(n);
        ordered(v, was, want, was, failed, nm, "product", in_order);
    }

    template<typename X>
    void product(Step st, Slot<X>* sl) {
        if constexpr(!CP)  // what such members allow
            switch(st.op) {
                case C_LVAL: st.op = C_RVAL; break;
                case C_COPY: st.op = C_MOVE; break;
                case A_COPY: case A_COPY_NC: st.op = A_MOVE; break;
                case A_OTHER: st.op = A_OTHER_MOVE; break;
                case CAT_L: case CAT_MIX: st.op = CAT_R; break;
                case A_STD: case TIE: st.c |= 1; break;
                case CONVERT: case COMPARE: return;
            }
        constexpr std::size_t N = arity<X>;
        const char* nm = op_name(st.op);
        Slot<X>&d = sl[st.a & 1], &s = sl[st.a >> 1 & 1];
        const bool self = &d == &s;
        switch(st.op) {
            case C_LVAL: case C_RVAL: case MAKE: case FORWARD: {
                u64 x = fresh(st);
                with_loose(x, [&](Loose& l) {
                    X* n     = place<X>();
                    u32 mask = st.op == C_LVAL ? 0 : st.op == C_RVAL ? 7 : st.c & 7;
                    auto o   = guarded_(st, nm, [&] {
                        if(st.op == C_LVAL || st.op == C_RVAL)
                            new(n) X(build<X>(l, mask));
                        else if(st.op == FORWARD) {
                            if constexpr(N == 2)
                                new(n) X{get<0>(xme::forward_as_tuple(std::move(l.a), l.b)), get<1>(xme::forward_as_tuple(l.a, std::move(l.b)))};
                            else
                                new(n) X{get<0>(xme::forward_as_tuple(std::move(l.a), l.b)), get<0>(xme::forward_as_tuple(std::move(l.b))),
                                         get<1>(xme::forward_as_tuple(l.a, std::move(l.c)))};
                            mask = 7;
                        }
                        else if constexpr(!CP) {
                            mask = 7;
                            if constexpr(N == 2)
                                new(n) X(xme::make_pair(std::move(l.a), std::move(l.b)));
                            else
                                new(n) X(xme::make_tuple(std::move(l.a), std::move(l.b), std::move(l.c)));
                        }
                        else if constexpr(N == 2) {
                            if(mask & 1)
                                new(n) X(xme::make_pair(std::move(l.a), l.b));
                            else
                                new(n) X(xme::make_pair(l.a, std::move(l.b)));
                            mask = mask & 1 ? 1 : 2;
                        }
                        else {
                            if(mask & 1)
                                new(n) X(xme::make_tuple(std::move(l.a), l.b, std::move(l.c)));
                            else
                                new(n) X(xme::make_tuple(l.a, std::move(l.b), l.c));
                            mask = mask & 1 ? 5 : 2;
                        }
                    });
                    Vals was = firstn(x, N), want = was;
                    if(o.failed)
                        mask = 7;
                    for(std::size_t i = 0; i < N; ++i)
                        if(mask >> i & 1)
                            want[i] = MOVED;
                    loose_is(l, was, want, o.failed, nm, N);
                    if(o.failed) {
                        root_free(n);
                        return;
                    }
                    drop(d);
                    d.x = n;
                    d.m = was;
                    judge(*d.x, d.m, was, was, false, nm);
                });
                break;
            }
            case C_COPY: case C_MOVE: {
                ensure(s);
                X* n   = place<X>();
                auto o = guarded_(st, nm, [&] {
                    if(st.op == C_MOVE)
                        new(n) X(std::move(*s.x));
                    else if constexpr(CP) {
                        if(st.c & 1)
                            new(n) X(*s.x);
                        else
                            new(n) X(std::as_const(*s.x));
                    }
                });
                Vals was = s.m;
                judge(*s.x, s.m, st.op == C_MOVE ? moved(N) : was, was, o.failed, nm);
                if(o.failed) {
                    root_free(n);
                    break;
                }
                Slot<X> t;
                t.x = n;
                t.m = was;
                judge(*t.x, t.m, was, was, false, nm);
                drop(d);
                d = t;
                break;
            }
            case A_COPY: case A_COPY_NC: case A_MOVE: {
                ensure(d);
                ensure(s);
                if(self && st.op == A_MOVE)
                    break;
                auto o   = guarded_(st, nm, [&] {
                    X* r = nullptr;
                    if constexpr(CP) {
                        if(st.op == A_COPY)
                            r = &(*d.x = std::as_const(*s.x));
                        else if(st.op == A_COPY_NC)
                            r = &(*d.x = *s.x);
                    }
                    if(st.op == A_MOVE)
                        r = &(*d.x = std::move(*s.x));
                    if(r != d.x)
                        oracle([&] { violate("product", "%s returns another object", nm); });
                });
                Vals was = s.m;
                if(!self)
                    judge(*s.x, s.m, st.op == A_MOVE ? moved(N) : was, was, o.failed, nm);
                judge(*d.x, d.m, was, was, o.failed, nm);
                break;
            }
            case A_OTHER: case A_OTHER_MOVE: case A_STD: case A_NUM: {
                ensure(d);
                u64 x    = fresh(st);
                Vals was = firstn(x, N);
                with_loose(x, [&](Loose& l) {
                    bool mv = st.op == A_OTHER_MOVE || (st.op == A_STD && st.c & 1);
                    Outcome o;
                    if constexpr(N == 2) {
                        // source: a Tuple of references, so that the loose members show what was moved
                        if(st.op == A_NUM)
                            o = guarded_(st, nm, [&] { *d.x = xme::Pair<u64, u64>{x, x + 1}; });
                        else if(st.op == A_STD) {
                            if(mv)
                                o = guarded_(st, nm, [&] { *d.x = std::pair<A&&, B&&>(std::move(l.a), std::move(l.b)); });
                            else
                                o = guarded_(st, nm, [&] { if constexpr(CP) *d.x = std::pair<A&, B&>(l.a, l.b); });
                        }
                        else if(mv)
                            o = guarded_(st, nm, [&] { *d.x = xme::forward_as_tuple(std::move(l.a), std::move(l.b)); });
                        else
                            o = guarded_(st, nm, [&] { if constexpr(CP) *d.x = xme::tie(l.a, l.b); });
                    }
                    else {
                        if(st.op == A_NUM)
                            o = guarded_(st, nm, [&] { *d.x = xme::Tuple<u64, u64, u64>{x, x + 1, x + 2}; });
                        else if(st.op == A_STD) {
                            if(mv)
                                o = guarded_(st, nm, [&] { *d.x = std::forward_as_tuple(std::move(l.a), std::move(l.b), std::move(l.c)); });
                            else
                                o = guarded_(st, nm, [&] { if constexpr(CP) *d.x = std::tie(l.a, l.b, l.c); });
                        }
                        else if(mv)
                            o = guarded_(st, nm, [&] { *d.x = xme::forward_as_tuple(std::move(l.a), std::move(l.b), std::move(l.c)); });
                        else
                            o = guarded_(st, nm, [&] { if constexpr(CP) *d.x = xme::tie(l.a, l.b, l.c); });
                    }
                    loose_is(l, was, mv ? moved(N) : was, o.failed, nm, N, true);
                    judge(*d.x, d.m, was, was, o.failed, nm);
                });
                break;
            }
            case SWAP: case SWAP_FREE: {
                ensure(d);
                ensure(s);
                auto o  = guarded_(st, nm, [&] {
                    if(st.op == SWAP)
                        d.x->swap(*s.x);
                    else
                        xme::swap(*d.x, *s.x);
                });
                Vals dm = d.m, sm = s.m, mo = moved(N);
                judge(*d.x, d.m, sm, mo, o.failed, nm, "product", false);
                if(!self)
                    judge(*s.x, s.m, dm, mo, o.failed, nm, "product", false);
                break;
            }
            case TIE: {
                ensure(s);
                bool mv  = st.c & 1;
                u64 x    = fresh(st);
                Vals was = firstn(x, N), sm = s.m;
                with_loose(x, [&](Loose& l) {
                    auto o = guarded_(st, nm, [&] {
                        if constexpr(N == 2) {
                            if(mv)
                                xme::tie(l.a, l.b) = std::move(*s.x);
                            else if constexpr(CP)
                                xme::tie(l.a, l.b) = *s.x;
                        }
                        else if(mv)
                            xme::tie(l.a, l.b, l.c) = std::move(*s.x);
                        else if constexpr(CP)
                            xme::tie(l.a, l.b, l.c) = std::as_const(*s.x);
                    });
                    loose_is(l, was, sm, o.failed, nm, N, true);
                    judge(*s.x, s.m, mv ? moved(N) : sm, sm, o.failed, nm);
                });
                break;
            }
            case CAT_L: case CAT_R: case CAT_MIX: {
                ensure(d);
                ensure(s);
                if(self)
                    break;
                bool mv[2] = {st.op == CAT_R || (st.op == CAT_MIX && st.c & 1), st.op == CAT_R || (st.op == CAT_MIX && !(st.c & 1))};
                Vals dm = d.m, sm = s.m, all = dm, v;
                all.insert(all.end(), sm.begin(), sm.end());
                auto look = [&](auto&& t) {
                    bool ok = true;
                    static_assert(arity<std::remove_cvref_t<decltype(t)>> == 2 * N);
                    read(t, v, ok, nm, std::make_index_sequence<2 * N>{});
                };
                auto o = guarded_(st, nm, [&] {
                    if(st.op == CAT_R)
                        look(xme::tuple_cat(std::move(*d.x), std::move(*s.x)));
                    else if constexpr(CP) {
                        if(st.op == CAT_L) {
                            if(st.c & 1)
                                look(xme::tuple_cat(*d.x, *s.x));
                            else
                                look(xme::tuple_cat(std::as_const(*d.x), *s.x));
                        }
                        else if(mv[0])
                            look(xme::tuple_cat(std::move(*d.x), *s.x));
                        else
                            look(xme::tuple_cat(*d.x, std::move(*s.x)));
                    }
                });
                if(!o.failed && v != all)
                    violate("product", "%s gives %s, expected %s", nm, el::show(v).c_str(), el::show(all).c_str());
                judge(*d.x, d.m, mv[0] ? moved(N) : dm, dm, o.failed, nm);
                judge(*s.x, s.m, mv[1] ? moved(N) : sm, sm, o.failed, nm);
                break;
            }
            case APPLY: case APPLY_CONST: case APPLY_MOVE: {
                ensure(s);
                int c   = st.op == APPLY ? 0 : st.op == APPLY_CONST ? 1 : st.c & 4 ? 3 : 2;
                Vals sm = s.m;
                u64 r   = 0;
                auto o  = guarded_(st, nm, [&] {
                    Plain f;
                    if(c == 0)
                        r = xme::apply(f, *s.x);
                    else if(c == 1)
                        r = xme::apply(f, std::as_const(*s.x));
                    else if(c == 2)
                        r = xme::apply(f, std::move(*s.x));
                    else
                        r = xme::apply(f, std::move(std::as_const(*s.x)));
                });
                std::vector<Arg> want;
                for(u64 x : sm)
                    want.push_back({c, x});
                if(!o.failed && (got != want || r != 11 + N))
                    violate("product", "%s hands over%s, expected%s", nm, show(got).c_str(), show(want).c_str());
                judge(*s.x, s.m, c == 2 ? moved(N) : sm, sm, o.failed, nm);
                break;
            }
            case CONVERT: {
                if constexpr(N == 3) {
                    ensure(s);
                    Vals sm = s.m, v;
                    bool rv = !CP || st.c & 8;
                    u32 to  = st.c % 3;
                    if(rv && to == 2)
                        to = 0;
                    auto o  = guarded_(st, nm, [&] {
                        bool ok   = true;
                        auto look = [&](auto&& l) {
                            u64 x = val(l.a), y = val(l.b), z = val(l.c);
                            oracle([&] { v = {x, y, z}; });
                        };
                        if(rv && to == 0) {
                            Loose l = std::move(*s.x);
                            look(l);
                        }
                        else if(rv) {
                            std::tuple<A, B, C> t = std::move(*s.x);
                            read(t, v, ok, nm, std::make_index_sequence<3>{});
                        }
                        else if constexpr(CP) {
                            if(to == 0) {
                                Loose l = *s.x;
                                look(l);
                            }
                            else if(to == 1) {
                                std::tuple<A, B, C> t = std::as_const(*s.x);
                                read(t, v, ok, nm, std::make_index_sequence<3>{});
                            }
                            else {
                                xme::Tuple<const A&, const B&, const C&> t = *s.x;
                                read(t, v, ok, nm, std::make_index_sequence<3>{});
                            }
                        }
                    });
                    if(!o.failed && v != sm)
                        violate("product", "%s gives %s, expected %s", nm, el::show(v).c_str(), el::show(sm).c_str());
                    judge(*s.x, s.m, rv ? moved(N) : sm, sm, o.failed, nm, "product", to == 0);
                }
                break;
            }
            case TAKE: {
                ensure(s);
                Vals sm = s.m, want = sm;
                std::size_t i = st.c % N;
                want[i]       = MOVED;
                u64 v         = 0;
                auto o        = guarded_(st, nm, [&] {
                    if(i == 0) {
                        A x(get<0>(std::move(*s.x)));
                        v = val(x);
                    }
                    else if(i == 1) {
                        B x(get<1>(std::move(*s.x)));
                        v = val(x);
                    }
                    else if constexpr(N == 3) {
                        C x(get<2>(std::move(*s.x)));
                        v = val(x);
                    }
                });
                if(!o.failed && v != sm[i])
                    violate("product", "%s gives %llu, expected %llu", nm, (unsigned long long)v, (unsigned long long)sm[i]);
                judge(*s.x, s.m, want, sm, o.failed, nm);
                break;
            }
            case COMPARE: if constexpr(CP) {
                ensure(d);
                ensure(s);
                if(st.c % 3 == 0 && !self) {  // often equal up to some member
                    Step none;
                    op_begin(&none);
                    sut([&] { get<0>(*d.x) = get<0>(*s.x); });
                    if(st.c % 2)
                        sut([&] { get<1>(*d.x) = get<1>(*s.x); });
                    op_end();
                    d.m[0] = s.m[0];
                    if(st.c % 2)
                        d.m[1] = s.m[1];
                }
                bool eq = false, lt = false, ge = false, ne = false;
                guarded_(st, nm, [&] {
                    const X &x = *d.x, &y = *s.x;
                    eq = x == y;
                    ne = x != y;
                    lt = x < y;
                    ge = x >= y;
                });
                if(eq != (d.m == s.m) || lt != (d.m < s.m) || ne == eq || ge == lt)
                    violate("product", "%s of %s and %s: == %d, < %d", nm, el::show(d.m).c_str(), el::show(s.m).c_str(), eq, lt);
                probe(eq ? "products equal" : d.m[0] == s.m[0] ? "products differ after the first member" : "products differ");
                break;
            }
            break;
            case BINDING: {
                ensure(s);
                Vals v;
                u64 n  = fresh(st);
                Vals want = s.m;
                auto o = guarded_(st, nm, [&] {
                    if constexpr(N == 2) {
                        auto& [a, b] = *s.x;
                        a            = A(n);
                        oracle([&] { want[0] = n; });
                        if(&b != &get<1>(*s.x))
                            oracle([&] { violate("product", "%s denotes another member", nm); });
                    }
                    else {
                        auto& [a, b, c] = *s.x;
                        b               = B(n);
                        oracle([&] { want[1] = n; });
                        if(&a != &get<0>(*s.x) || &c != &get<2>(*s.x))
                            oracle([&] { violate("product", "%s denotes another member", nm); });
                    }
                });
                judge(*s.x, s.m, want, s.m, o.failed, nm);
                break;
            }
            case REFS: {
                ensure(s);
                u64 n     = fresh(st);
                Vals want = s.m;
                want[1]   = n;
                if(st.c & 1)
                    want[0] = n + 1;
                auto o    = guarded_(st, nm, [&] {
                    auto p = xme::make_pair(std::ref(get<0>(*s.x)), std::ref(get<1>(*s.x)));
                    auto t = xme::make_tuple(std::ref(get<0>(*s.x)), std::cref(get<1>(*s.x)));
                    static_assert(std::is_same_v<decltype(p), xme::Pair<A&, B&>> && std::is_same_v<decltype(t), xme::Tuple<A&, const B&>>);
                    get<1>(p) = B(n);
                    if(st.c & 1)
                        get<0>(std::move(t)) = A(n + 1);
                });
                judge(*s.x, s.m, want, s.m, o.failed, nm, "product", false);
                break;
            }
            case WRITE: {
                ensure(s);
                u64 n     = fresh(st);
                Vals want = s.m;
                std::size_t i = st.c % N;
                want[i]       = n;
                auto o        = guarded_(st, nm, [&] {
                    if(i == 0)
                        get<0>(*s.x) = A(n);
                    else if(i == 1)
                        (*s.x)[std::integral_constant<std::size_t, 1>{}] = B(n);
                    else if constexpr(N == 3)
                        get<2>(*s.x) = C(n);
                });
                judge(*s.x, s.m, want, s.m, o.failed, nm);
                break;
            }
        }
    }

    // other sizes: five members, one member, concatenation of products of several sizes and kinds
    template<typename X>
    struct Temp {  // an object that lives for one step
        X* x = nullptr;
        Vals m;
        template<typename... M>
        Temp(Run& r, M... v) : x(r.template place<X>()), m{v...} {
            Step none;
            op_begin(&none);
            make(std::index_sequence_for<M...>{});
            op_end();
        }
        template<std::size_t... I>
        void make(std::index_sequence<I...>) {
            sut([&] { new(x) X{std::tuple_element_t<I, X>(m[I])...}; });
        }
        ~Temp() {
            Step none;
            op_begin(&none);
            sut([&] { x->~X(); });
            op_end();
            root_free(x);
        }
    };
    void wide(const Step& st) {
        using W        = xme::Tuple<A, B, C, A, B>;
        const char* nm = op_name(st.op);
        u64 x          = fresh(st);
        Temp<W> d(*this, x, x + 1, x + 2, x + 3, x + 4), s(*this, x + 10, x + 11, x + 12, x + 13, x + 14);
        Vals dm = d.m, sm = s.m, mo = moved(5);
        u32 what = st.c % 9;
        if constexpr(!CP)
            what = what == 0 ? 1 : what == 2 ? 3 : what == 5 ? 4 : what;
        switch(what) {
            case 0: case 1: {
                W* n   = place<W>();
                auto o = guarded_(st, nm, [&] {
                    if(what == 1)
                        new(n) W(std::move(*s.x));
                    else if constexpr(CP)
                        new(n) W(std::as_const(*s.x));
                });
                judge(*s.x, s.m, what == 1 ? mo : sm, sm, o.failed, nm);
                if(!o.failed) {
                    Vals v = sm;
                    judge(*n, v, sm, sm, false, nm);
                    sut([&] { n->~W(); });
                }
                root_free(n);
                break;
            }
            case 2: case 3: {
                auto o = guarded_(st, nm, [&] {
                    if(what == 3)
                        *d.x = std::move(*s.x);
                    else if constexpr(CP) {
                        if(st.c & 1)
                            *d.x = *s.x;
                        else
                            *d.x = std::as_const(*s.x);
                    }
                });
                judge(*s.x, s.m, what == 3 ? mo : sm, sm, o.failed, nm);
                judge(*d.x, d.m, sm, sm, o.failed, nm);
                break;
            }
            case 4: {
                auto o = guarded_(st, nm, [&] { xme::swap(*d.x, *s.x); });
                judge(*d.x, d.m, sm, mo, o.failed, nm, "product", false);
                judge(*s.x, s.m, dm, mo, o.failed, nm, "product", false);
                break;
            }
            case 5: if constexpr(CP) {
                u32 same = st.b % 6;  // members that are equal before the first that differs
                bool low = st.b / 6 % 2;
                Vals dv = dm, sv = dm;
                if(same < 5)
                    (low ? dv : sv)[same] += 5;
                for(std::size_t i = same + 1; i < 5; ++i)
                    (low ? sv : dv)[i] += 7;
                Temp<W> a(*this, dv[0], dv[1], dv[2], dv[3], dv[4]), b(*this, sv[0], sv[1], sv[2], sv[3], sv[4]);
                bool eq = false, lt = false, ge = false, ne = false;
                guarded_(st, nm, [&] {
                    const W &p = *a.x, &q = *b.x;
                    eq = p == q;
                    ne = p != q;
                    lt = p < q;
                    ge = p >= q;
                });
                if(eq != (dv == sv) || lt != (dv < sv) || ne == eq || ge == lt)
                    violate("product", "comparison of %s and %s: == %d, < %d", el::show(dv).c_str(), el::show(sv).c_str(), eq, lt);
                break;
            }
            break;
            case 6: {
                bool rv = st.b & 1;
                u64 r   = 0;
                auto o  = guarded_(st, nm, [&] {
                    Plain f;
                    r = rv ? xme::apply(f, std::move(*s.x)) : xme::apply(f, *s.x);
                });
                std::vector<Arg> want;
                for(u64 v : sm)
                    want.push_back({rv ? 2 : 0, v});
                if(!o.failed && (got != want || r != 16))
                    violate("product", "apply hands over%s, expected%s", show(got).c_str(), show(want).c_str());
                judge(*s.x, s.m, rv ? mo : sm, sm, o.failed, nm);
                break;
            }
            case 7: {
                Temp<xme::Pair<A, B>> q(*this, x + 20, x + 21);
                Temp<xme::Tuple<C>> t(*this, x + 30);
                Vals qm = q.m, tm = t.m, v, want = sm;
                bool keep = st.b & 1;  // the five are a lvalue
                if constexpr(!CP)
                    keep = false;
                auto look = [&](auto&& r) {
                    bool ok = true;
                    static_assert(arity<std::remove_cvref_t<decltype(r)>> == 8);
                    read(r, v, ok, nm, std::make_index_sequence<8>{});
                };
                want.insert(want.end(), qm.begin(), qm.end());
                want.insert(want.end(), tm.begin(), tm.end());
                auto o = guarded_(st, nm, [&] {
                    if(!keep)
                        look(xme::tuple_cat(std::move(*s.x), xme::Tuple<>{}, std::move(*q.x), std::move(*t.x)));
                    else if constexpr(CP)
                        look(xme::tuple_cat(*s.x, xme::Tuple<>{}, std::move(*q.x), std::move(*t.x)));
                });
                if(!o.failed && v != want)
                    violate("product", "tuple_cat of four gives %s, expected %s", el::show(v).c_str(), el::show(want).c_str());
                judge(*s.x, s.m, keep ? sm : mo, sm, o.failed, nm);
                judge(*q.x, q.m, moved(2), qm, o.failed, nm);
                judge(*t.x, t.m, moved(1), tm, o.failed, nm);
                break;
            }
            default: {
                auto o = guarded_(st, nm, [&] { *d.x = xme::Tuple<u64, u64, u64, u64, u64>{x + 40, x + 41, x + 42, x + 43, x + 44}; });
                Vals w = firstn(x + 40, 5);
                judge(*d.x, d.m, w, w, o.failed, nm);
            }
        }
    }
    // together with products of the standard library, inside each other, and with many members
    void foreign(const Step& st) {
        const char* nm = op_name(st.op);
        u64 x    = fresh(st);
        u32 what = st.c % 6;
        bool rv  = !CP || st.b & 1;
        switch(what) {
            case 0: {
                Temp<T2> s(*this, x, x + 1);
                Temp<std::tuple<B, C>> t(*this, x + 2, x + 3);
                Temp<std::array<C, 2>> r(*this, x + 4, x + 5);
                Vals v, want{x, x + 1, x + 2, x + 3, x + 4, x + 5};
                auto look = [&](auto&& g) {
                    bool ok = true;
                    static_assert(std::is_same_v<std::remove_cvref_t<decltype(g)>, xme::Tuple<A, B, B, C, C, C>>);
                    read(g, v, ok, nm, std::make_index_sequence<6>{});
                };
                auto o = guarded_(st, nm, [&] {
                    if(rv)
                        look(xme::tuple_cat(std::move(*s.x), std::move(*t.x), std::move(*r.x)));
                    else if constexpr(CP)
                        look(xme::tuple_cat(*s.x, std::as_const(*t.x), *r.x));
                });
                if(!o.failed && v != want)
                    violate("product", "tuple_cat with others gives %s, expected %s", el::show(v).c_str(), el::show(want).c_str());
                judge(*s.x, s.m, rv ? moved(2) : s.m, Vals(s.m), o.failed, nm);
                judge(*t.x, t.m, rv ? moved(2) : t.m, Vals(t.m), o.failed, nm);
                judge(*r.x, r.m, rv ? moved(2) : r.m, Vals(r.m), o.failed, nm);
                break;
            }
            case 1: {
                Temp<std::tuple<A, B, C>> t(*this, x, x + 1, x + 2);
                Temp<std::array<B, 2>> r(*this, x + 4, x + 5);
                std::vector<Arg> want;
                bool arr = st.b & 2;
                for(u64 v : arr ? r.m : t.m)
                    want.push_back({st.b & 1 ? 2 : 0, v});
                Vals rm = r.m, tm = t.m;
                auto o = guarded_(st, nm, [&] {
                    Plain f;
                    if(arr)
                        st.b & 1 ? xme::apply(f, std::move(*r.x)) : xme::apply(f, *r.x);
                    else
                        st.b & 1 ? xme::apply(f, std::move(*t.x)) : xme::apply(f, *t.x);
                });
                if(!o.failed && got != want)
                    violate("product", "apply to another's product hands over%s, expected%s", show(got).c_str(), show(want).c_str());
                judge(*t.x, t.m, st.b & 1 && !arr ? moved(3) : tm, tm, o.failed, nm);
                judge(*r.x, r.m, st.b & 1 && arr ? moved(2) : rm, rm, o.failed, nm);
                break;
            }
            case 2: case 3: {
                using N = xme::Tuple<A, B, C, A, B, C, A, B, C, A, B, C>;
                Temp<N> d(*this, x, x + 1, x + 2, x + 3, x + 4, x + 5, x + 6, x + 7, x + 8, x + 9, x + 10, x + 11);
                Temp<N> s(*this, x + 20, x + 21, x + 22, x + 23, x + 24, x + 25, x + 26, x + 27, x + 28, x + 29, x + 30, x + 31);
                Vals dm = d.m, sm = s.m;
                if(what == 2) {
                    u32 how = st.b / 2 % 3;
                    auto o = guarded_(st, nm, [&] {
                        if(how == 0)
                            d.x->swap(*s.x);
                        else if(rv)
                            *d.x = std::move(*s.x);
                        else if constexpr(CP)
                            *d.x = *s.x;
                    });
                    if(how == 0) {
                        judge(*d.x, d.m, sm, moved(12), o.failed, nm, "product", false);
                        judge(*s.x, s.m, dm, moved(12), o.failed, nm, "product", false);
                    }
                    else {
                        judge(*d.x, d.m, sm, sm, o.failed, nm);
                        judge(*s.x, s.m, rv ? moved(12) : sm, sm, o.failed, nm);
                    }
                    break;
                }
                Vals v, want = dm;
                want.insert(want.end(), sm.begin(), sm.end());
                auto look = [&](auto&& g) {
                    bool ok = true;
                    static_assert(arity<std::remove_cvref_t<decltype(g)>> == 24);
                    read(g, v, ok, nm, std::make_index_sequence<24>{});
                };
                auto o = guarded_(st, nm, [&] {
                    if(rv)
                        look(xme::tuple_cat(std::move(*d.x), std::move(*s.x)));
                    else if constexpr(CP)
                        look(xme::tuple_cat(*d.x, std::as_const(*s.x)));
                });
                if(!o.failed && v != want)
                    violate("product", "tuple_cat gives %s, expected %s", el::show(v).c_str(), el::show(want).c_str());
                judge(*d.x, d.m, rv ? moved(12) : dm, dm, o.failed, nm);
                judge(*s.x, s.m, rv ? moved(12) : sm, sm, o.failed, nm);
                break;
            }
            default: {  // a product of products
                using N = xme::Tuple<P, T2>;
                using M = xme::Pair<P, T2>;
                Temp<P> p(*this, x, x + 1);
                Temp<T2> t(*this, x + 2, x + 3);
                Vals pm = p.m, tm = t.m, v, want{x, x + 1, x + 2, x + 3}, v2;
                auto seen = [&](auto& n) {
                    v2.clear();
                    sut([&] {
                        bool ok = true;
                        read(get<0>(n), v2, ok, nm, std::make_index_sequence<2>{});
                        read(get<1>(n), v2, ok, nm, std::make_index_sequence<2>{});
                    });
                    return v2;
                };
                bool wrong = false;
                auto go = [&](auto* tag) {
                    using X = std::remove_pointer_t<decltype(tag)>;
                    if(rv) {
                        X n{std::move(*p.x), std::move(*t.x)}, k(std::move(n));
                        oracle([&] { wrong |= seen(k) != want || seen(n) != moved(4); });
                        n = std::move(k);
                        oracle([&] { wrong |= seen(n) != want || seen(k) != moved(4); });
                    }
                    else if constexpr(CP) {
                        X n{*p.x, *t.x}, k(n);
                        oracle([&] { wrong |= seen(k) != want || seen(n) != want; });
                        P q = get<0>(std::move(n));
                        oracle([&] {
                            wrong |= seen(n) != Vals({MOVED, MOVED, x + 2, x + 3});
                            wrong |= val(q.first) != x || val(q.second) != x + 1;
                        });
                        n = k;
                        oracle([&] { wrong |= seen(k) != want || seen(n) != want; });
                        bool eq = n == k;
                        oracle([&] { wrong |= !eq; });
                    }
                };
                auto o = guarded_(st, nm, [&] {
                    if(what == 4)
                        go((N*)nullptr);
                    else
                        go((M*)nullptr);
                });
                if(wrong)
                    violate("product", "a product of products holds %s, expected %s", el::show(v2).c_str(), el::show(want).c_str());
                judge(*p.x, p.m, rv ? moved(2) : pm, pm, o.failed, nm);
                judge(*t.x, t.m, rv ? moved(2) : tm, tm, o.failed, nm);
                break;
            }
        }
    }
    void single(const Step& st) {
        using W        = xme::Tuple<B>;
        const char* nm = op_name(st.op);
        u64 x          = fresh(st);
        Temp<W> d(*this, x), s(*this, x + 10);
        Vals dm = d.m, sm = s.m, mo = moved(1);
        u32 what = st.c % 5;
        if constexpr(!CP)
            what |= 1;
        switch(what) {
            case 0: case 1: {
                W* n   = place<W>();
                auto o = guarded_(st, nm, [&] {
                    if(what == 1)
                        new(n) W(std::move(*s.x));
                    else if constexpr(CP)
                        new(n) W(*s.x);
                });
                judge(*s.x, s.m, what == 1 ? mo : sm, sm, o.failed, nm);
                if(!o.failed) {
                    Vals v = sm;
                    judge(*n, v, sm, sm, false, nm);
                    sut([&] { n->~W(); });
                }
                root_free(n);
                break;
            }
            case 2: case 3: {
                auto o = guarded_(st, nm, [&] {
                    if(what == 3)
                        *d.x = std::move(*s.x);
                    else if constexpr(CP)
                        *d.x = *s.x;
                });
                judge(*s.x, s.m, what == 3 ? mo : sm, sm, o.failed, nm);
                judge(*d.x, d.m, sm, sm, o.failed, nm);
                break;
            }
            default: {
                auto o = guarded_(st, nm, [&] { d.x->swap(*s.x); });
                judge(*d.x, d.m, sm, mo, o.failed, nm, "product", false);
                judge(*s.x, s.m, dm, mo, o.failed, nm, "product", false);
            }
        }
    }

    // ---------------------------------------------------------------- bound callables
    // pointer to member, with what may be bound as its object
    struct Thing {
        u64 v;
        B b;
        u64 add(u64 a, u64 c) const { return v + a * 2 + c * 3; }
        u64 set(u64 a) {
            v = a;
            return a + 1;
        }
    };
    void members(const Step& st) {
        const char* nm = op_name(st.op);
        u64 x          = fresh(st);
        Thing* t       = place<Thing>();
        Step none;
        op_begin(&none);
        sut([&] { new(t) Thing{x, B(x + 1)}; });
        op_end();
        u64 r = 0, want = 0, after = x;
        bool same = true;
        auto o    = guarded_(st, nm, [&] {
            switch(st.b % 5) {
                case 0:
                    if constexpr(Front)
                        r = xme::bind_front(&Thing::add, t, x + 2)(x + 5);
                    else
                        r = xme::bind_back(&Thing::add, x + 5)(*t, x + 2);
                    want = x + (x + 2) * 2 + (x + 5) * 3;
                    break;
                case 1:
                    if constexpr(Front)
                        r = xme::bind_front(&Thing::set, std::ref(*t))(x + 9);
                    else
                        r = xme::bind_back(&Thing::set, x + 9)(t);
                    want = x + 10;
                    after = x + 9;
                    break;
                case 2:
                    if constexpr(Front)
                        same = &xme::bind_front(&Thing::b, t)() == &t->b;
                    else
                        same = &xme::bind_back(&Thing::b)(*t) == &t->b;
                    break;
                case 3:  // a function
                    if constexpr(Front)
                        r = xme::bind_front(+[](u64 a, u64 b) { return a * 7 + b; }, x)(x + 1);
                    else
                        r = xme::bind_back(+[](u64 b, u64 a) { return a * 7 + b; }, x)(x + 1);
                    want = x * 7 + x + 1;
                    break;
                default:  // a bound callable bound again
                    if constexpr(Front)
                        r = xme::bind_front(xme::bind_front(&Thing::add, t), x + 2)(x + 5);
                    else
                        r = xme::bind_back(xme::bind_back(&Thing::add, x + 5), x + 2)(t);
                    want = x + (x + 2) * 2 + (x + 5) * 3;
            }
        }, "bind-except");
        if(!o.failed && (r != want || !same))
            violate("bind", "%s gives %llu, expected %llu", nm, (unsigned long long)r, (unsigned long long)want);
        if(!o.failed && t->v != after)
            violate("bind", "%s does not act on the object", nm);
        sut([&] { t->~Thing(); });
        root_free(t);
    }
    // nothing bound, and several bound with several given
    void none_or_many(const Step& st) {
        const char* nm = op_name(st.op);
        u64 x          = fresh(st);
        int c          = st.b % 3;  // how it is called
        bool one       = st.op == B_NONE;
        using B3 = std::conditional_t<Front, decltype(xme::bind_front(std::declval<Fun>(), std::declval<A>(), std::declval<B>(), std::declval<C>(), std::declval<A>())),
                                      decltype(xme::bind_back(std::declval<Fun>(), std::declval<A>(), std::declval<B>(), std::declval<C>(), std::declval<A>()))>;
        using B0 = std::conditional_t<Front, decltype(xme::bind_front(std::declval<Fun>())), decltype(xme::bind_back(std::declval<Fun>()))>;
        u64 r  = 0;
        auto o = guarded_(st, nm, [&] {
            auto call = [&](auto& f) {
                auto given = [&](auto&& g) {
                    B p(x + 10);
                    if(one && st.c & 1)
                        r = std::forward<decltype(g)>(g)();
                    else
                        r = std::forward<decltype(g)>(g)(p, x + 11, C(x + 12));
                };
                if(c == 0)
                    given(f);
                else if(c == 1)
                    given(std::as_const(f));
                else
                    given(std::move(f));
            };
            if(one) {
                if constexpr(Front) {
                    B0 f = xme::bind_front(Fun(x));
                    call(f);
                }
                else {
                    B0 f = xme::bind_back(Fun(x));
                    call(f);
                }
            }
            else {
                if constexpr(Front) {
                    B3 f = xme::bind_front(Fun(x), A(x + 1), B(x + 2), C(x + 3), A(x + 4));
                    call(f);
                }
                else {
                    B3 f = xme::bind_back(Fun(x), A(x + 1), B(x + 2), C(x + 3), A(x + 4));
                    call(f);
                }
            }
        }, "bind-except");
        std::vector<Arg> want{{c, x}}, bnd, giv;
        if(!one)
            for(u64 i = 1; i <= 4; ++i)
                bnd.push_back({c, x + i});
        if(!one || !(st.c & 1))
            giv = {{0, x + 10}, {2, x + 11}, {2, x + 12}};
        auto& p1 = Front ? bnd : giv;
        auto& p2 = Front ? giv : bnd;
        want.insert(want.end(), p1.begin(), p1.end());
        want.insert(want.end(), p2.begin(), p2.end());
        if(!o.failed && (got != want || r != x * 3 + want.size() - 1))
            violate("bind", "%s calls with%s, expected%s", nm, show(got).c_str(), show(want).c_str());
        if(o.failed)
            for(std::size_t i = 0; i < got.size(); ++i)
                if(i >= want.size() || got[i] != want[i]) {
                    violate("bind", "%s (failed) calls with%s, expected%s", nm, show(got).c_str(), show(want).c_str());
                    break;
                }
    }
    // results are handed through as they are
    void result(const Step& st) {
        const char* nm = op_name(st.op);
        u64 x          = fresh(st);
        with_loose(x, [&](Loose& l) {
            u64 seen  = 0;
            bool same = true;
            auto o    = guarded_(st, nm, [&] {
                auto bind = [&](auto f, auto... a) {
                    if constexpr(Front)
                        return xme::bind_front(f, a...);
                    else
                        return xme::bind_back(f, a...);
                };
                auto take = [&]<typename F, typename... X>(F&& f, X&&... a) {
                    if constexpr(Front)
                        return xme::bind_front(std::forward<F>(f), std::forward<X>(a)...);
                    else
                        return xme::bind_back(std::forward<F>(f), std::forward<X>(a)...);
                };
                if(st.c % 4 == 3) {  // a callable that can only be moved
                    auto f = take([u = Uniq(x + 5)](const Uniq& a, const Uniq& b) { return val(u) * 5 + val(a) * 3 + val(b); }, Uniq(x + 6));
                    auto g = std::move(f);
                    const u64 first = Front ? x + 6 : x + 7, second = Front ? x + 7 : x + 6;
                    Uniq last(x + 7);
                    const u64 twice[2] = {g(last), std::as_const(g)(last)};
                    for(u64 r : twice)
                        same &= r == (x + 5) * 5 + first * 3 + second;
                    same &= std::move(g)(last) == twice[0];
                    oracle([&] { probe("callable that can only be moved"); });
                }
                else if(st.b % 3 == 0) {  // the object itself
                    auto f = bind([&](int, int) -> B& { return l.b; }, 1);
                    static_assert(std::is_same_v<decltype(f(2)), B&>);
                    same = &f(2) == &l.b;
                }
                else if(st.b % 3 == 1) {  // an object made by the call
                    auto f = bind([&](u64, u64) { return Uniq(x + 5); }, u64(1));
                    static_assert(std::is_same_v<decltype(f(2)), Uniq>);
                    Uniq u = f(2);
                    seen   = val(u);
                    same   = seen == x + 5;
                }
                else {
                    u64 k  = 0;
                    auto f = bind([&k](u64 a, u64 b) { k = a + b; }, u64(7));
                    static_assert(std::is_void_v<decltype(f(u64(2)))>);
                    f(u64(2));
                    same = k == 9;
                }
            }, "bind-except");
            if(!o.failed && !same)
                violate("bind", "%s is not what the callable gave (%llu)", nm, (unsigned long long)seen);
        });
    }
    Bd* make_bound(Bd* where, Fun& f, Loose& l, bool rv) {
        if constexpr(Front) {
            if constexpr(CP)
                if(!rv)
                    return new(where) Bd(xme::bind_front(f, l.a, l.b));
            return new(where) Bd(xme::bind_front(std::move(f), std::move(l.a), std::move(l.b)));
        }
        else {
            if constexpr(CP)
                if(!rv)
                    return new(where) Bd(xme::bind_back(f, l.a, l.b));
            return new(where) Bd(xme::bind_back(std::move(f), std::move(l.a), std::move(l.b)));
        }
    }
    void create(const Step& st, BSlot& d, bool rv, const char* nm) {
        u64 x = fresh(st);
        with_loose(x, [&](Loose& l) {
            Step none;
            Fun* f = place<Fun>();
            op_begin(&none);
            sut([&] { new(f) Fun(x + 7); });
            op_end();
            Bd* n    = place<Bd>();
            auto o   = guarded_(st, nm, [&] { make_bound(n, *f, l, rv); }, "bind-except");
            Vals was = firstn(x, 2);
            Vals v;
            u64 fv = 0;
            sut([&] {
                u64 a = val(l.a), b = val(l.b);
                fv = val(f->s);
                oracle([&] { v = {a, b}; });
            });
            for(int i = 0; i < 2; ++i)
                if(o.failed ? !among(v[i], {was[i], MOVED}) : v[i] != (rv ? MOVED : was[i]))
                    violate("bind", "%s: the source of argument %d holds %llu", nm, i, (unsigned long long)v[i]);
            if(!rv && fv != x + 7)
                violate("bind", "%s changes the callable it copies", nm);
            op_begin(&none);
            sut([&] { f->~Fun(); });
            op_end();
            root_free(f);
            if(o.failed) {
                root_free(n);
                return;
            }
            drop(d);
            d.x = n;
            d.m = {x + 7, x, x + 1};
        });
    }
    void ensure_b(BSlot& d) {
        Step none;
        if(!d.x)
            create(none, d, !CP, "bind");
    }
    void bound(Step st) {
        if constexpr(!CP)
            switch(st.op) {
                case B_MAKE_L: st.op = B_MAKE_R; break;
                case B_COPY: st.op = B_MOVE; break;
                case B_ASSIGN: st.op = B_MOVE_ASSIGN; break;
            }
        const char* nm = op_name(st.op);
        BSlot &d = bs[st.a & 1], &s = bs[st.a >> 1 & 1];
        switch(st.op) {
            case B_MAKE_L: create(st, d, false, nm); break;
            case B_MAKE_R: create(st, d, true, nm); break;
            case B_COPY: case B_MOVE: {
                ensure_b(s);
                Bd* n    = place<Bd>();
                auto o   = guarded_(st, nm, [&] {
                    if(st.op == B_MOVE)
                        new(n) Bd(std::move(*s.x));
                    else if constexpr(CP)
                        new(n) Bd(std::as_const(*s.x));
                }, "bind-except");
                Vals was = s.m;
                if(st.op == B_MOVE) {
                    // a failed move may have taken some parts; the object is only destroyed afterwards
                    if(o.failed)
                        drop(s);
                    else
                        s.m = moved(3);
                }
                if(o.failed) {
                    root_free(n);
                    break;
                }
                drop(d);
                d.x = n;
                d.m = was;
                break;
            }
            case B_ASSIGN: case B_MOVE_ASSIGN: {
                ensure_b(d);
                ensure_b(s);
                if(&s == &d && st.op == B_MOVE_ASSIGN)
                    break;
                auto o = guarded_(st, nm, [&] {
                    if(st.op == B_MOVE_ASSIGN)
                        *d.x = std::move(*s.x);
                    else if constexpr(CP)
                        *d.x = std::as_const(*s.x);
                }, "bind-except");
                if(o.failed) {
                    // valid, with each part old or new: made new again
                    if(st.op == B_MOVE_ASSIGN)
                        drop(s);
                    if(&s != &d)
                        drop(d);
                    break;
                }
                d.m = s.m;
                if(st.op == B_MOVE_ASSIGN)
                    s.m = moved(3);
                break;
            }
            case B_CALL: case B_CALL_CONST: case B_CALL_MOVE: {
                ensure_b(s);
                int c = st.op == B_CALL ? 0 : st.op == B_CALL_CONST ? 1 : st.c & 8 ? 3 : 2;
                u64 x = fresh(st);
                with_loose(x, [&](Loose& l) {
                    u64 r     = 0;
                    bool rv   = st.c & 1;
                    u32 extra = st.c >> 1 & 1;
                    auto call = [&](auto&& f) {
                        if(extra)
                            r = rv ? std::forward<decltype(f)>(f)(std::move(l.b), l.c) : std::forward<decltype(f)>(f)(l.b, std::as_const(l.c));
                        else
                            r = rv ? std::forward<decltype(f)>(f)(std::move(l.b)) : std::forward<decltype(f)>(f)(std::as_const(l.b));
                    };
                    auto o = guarded_(st, nm, [&] {
                        if(c == 0)
                            call(*s.x);
                        else if(c == 1)
                            call(std::as_const(*s.x));
                        else if(c == 2)
                            call(std::move(*s.x));
                        else
                            call(std::move(std::as_const(*s.x)));
                    }, "bind-except");
                    std::vector<Arg> want{{c, s.m[0]}};
                    auto bnd = [&] {
                        want.push_back({c, s.m[1]});
                        want.push_back({c, s.m[2]});
                    };
                    if(Front)
                        bnd();
                    want.push_back({rv ? 2 : extra ? 0 : 1, x + 1});
                    if(extra)
                        want.push_back({rv ? 0 : 1, x + 2});
                    if(!Front)
                        bnd();
                    if(!o.failed && (got != want || r != s.m[0] * 3 + 3 + extra))
                        violate("bind", "%s calls with%s, expected%s", nm, show(got).c_str(), show(want).c_str());
                    if(o.failed)
                        for(std::size_t i = 0; i < got.size(); ++i)
                            if(i >= want.size() || got[i] != want[i]) {
                                violate("bind", "%s (failed) calls with%s, expected%s", nm, show(got).c_str(), show(want).c_str());
                                break;
                            }
                    if(c == 2) {
                        if(o.failed)
                            drop(s);
                        else
                            s.m[1] = s.m[2] = MOVED;
                    }
                    else
                        recheck(s, nm);
                });
                break;
            }
            case B_REF: {
                u64 x = fresh(st);
                with_loose(x, [&](Loose& l) {
                    auto o = guarded_(st, nm, [&] {
                        auto f = [](A& a, u64 k) -> u64 {
                            a = A(k);
                            return k + 1;
                        };
                        u64 r;
                        if constexpr(Front)
                            r = xme::bind_front(f, std::ref(l.a))(x + 50);
                        else
                            r = xme::bind_back([&](u64 k, A& a) { return f(a, k); }, std::ref(l.a))(x + 50);
                        if(r != x + 51)
                            oracle([&] { violate("bind", "%s: wrong result", nm); });
                    }, "bind-except");
                    u64 v  = 0;
                    sut([&] { v = val(l.a); });
                    if(o.failed ? !among(v, {x, x + 50}) : v != x + 50)
                        violate("bind", "%s does not reach the referenced object", nm);
                });
                break;
            }
        }
    }
    // a bound callable called through const access gives what it holds
    void recheck(BSlot& s, const char* nm) {
        Step none;
        op_begin(&none);
        got.clear();
        sut([&] { std::as_const (*s.x)(u64(5)); });
        op_end();
        std::vector<Arg> want{{1, s.m[0]}};
        if(!Front)
            want.push_back({2, 5});
        want.push_back({1, s.m[1]});
        want.push_back({1, s.m[2]});
        if(Front)
            want.push_back({2, 5});
        if(got != want)
            violate("bind", "after %s a bound callable calls with%s, expected%s", nm, show(got).c_str(), show(want).c_str());
    }

    void go(const Plan& p) {
        for(auto& st : p.thr[0]) {
            if(st.op == FOREIGN)
                foreign(st);
            else if(st.op == WIDE)
                wide(st);
            else if(st.op == ONE)
                single(st);
            else if(st.op == B_NONE || st.op == B_MANY)
                none_or_many(st);
            else if(st.op == B_MEMBER)
                members(st);
            else if(st.op == B_RESULT)
                result(st);
            else if(st.op == B_PICKY)
                bind_picky<Front>(st);
            else if(st.op == APPLY_PICKY)
                apply_picky(st);
            else if(st.op >= B_MAKE_L)
                bound(st);
            else if(st.c & 32)
                product(st, ps);
            else
                product(st, ts);
            u64 h = st.op;
            for(auto& s : ps)
                h = h * 8 + (s.x ? 1 + (s.m[0] == MOVED) + 2 * (s.m[1] == MOVED) : 0);
            for(auto& s : ts)
                h = h * 16 + (s.x ? 1 + (s.m[0] == MOVED) + 2 * (s.m[1] == MOVED) + 4 * (s.m[2] == MOVED) : 0);
            for(auto& s : bs) {
                h = h * 8 + (s.x ? 1 + (s.m[0] == MOVED) + 2 * (s.m[1] == MOVED) : 0);
                if(s.x)
                    recheck(s, op_name(st.op));
            }
            cover(h);
            // objects the step did not touch keep their members
            for(auto& s : ps)
                if(s.x)
                    judge(*s.x, s.m, Vals(s.m), s.m, false, op_name(st.op));
            for(auto& s : ts)
                if(s.x)
                    judge(*s.x, s.m, Vals(s.m), s.m, false, op_name(st.op));
        }
        for(auto& s : ps)
            drop(s);
        for(auto& s : ts)
            drop(s);
        for(auto& s : bs)
            drop(s);
        check_no_leaks();
    }
};
template<typename A, typename B, typename C>
void start(const Plan& p) {
    if(p.cfg[1] == 0)
        Run<A, B, C, true>().go(p);
    else
        Run<A, B, C, false>().go(p);
}
void run(const Plan& p) {
    got.clear();
    switch(p.cfg[0]) {
        case 0: start<NTok, Own, Tok>(p); break;
        case 1: start<Own, NTok, Own>(p); break;
        case 2: start<Tok, NTok, NTok>(p); break;
        case 3: start<NTok, NTok, Own>(p); break;
        default: start<Uniq, NTok, Uniq>(p); break;
    }
}
}  // namespace

const sim::Harness sim::harness{"product", op_name, gen, run, relevant};
