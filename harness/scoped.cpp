// C14: xme::ScopedDelegate. The plan is a small program (scopes, guards, loops, returns, catches);
// failures strike at any of its points.
#include "common.hpp"
#include <concepts>
#include <functional>
#include <xme/core/functional/scoped_delegate.hpp>

using namespace sim;
using namespace el;

namespace {
enum : u32 { G_RV, G_LV, G_LAMBDA, G_OWN_RV, G_OWN_LV, G_TWO, G_FNPTR, G_EMPTY, WORK, RETURN, TRY, LOOP, CALLFN, UNWIND, G_HANDED, G_GONE, G_CONST, G_STDFUN, NOPS_ };
const char* names[] = {"guard(rvalue)", "guard(lvalue)", "guard(lambda)", "guard(owning rvalue)", "guard(owning lvalue)",
                       "two guards", "guard(function pointer)", "guard(empty functor)", "work", "return", "try", "loop", "call", "guard while unwinding", "guard handed on", "guard of a callable that is gone", "guard(const lvalue)", "guard(std::function)"};
const char* op_name(u32 o) { return o < NOPS_ ? names[o] : "?"; }

void gen(Rng& r, Plan& p) {
    u32 n = r.range(1, 14);
    for(u32 i = 0; i < n; ++i) {
        Step s;
        s.op = r.chance(1, 2) ? r.below(WORK) : r.below(NOPS_);
        s.a  = r.below(4);
        s.b  = r.below(4);
        p.thr[0].push_back(s);
    }
    if(r.chance(3, 4)) {
        static const u32 m[] = {F_CALL, F_CALL, F_COPY, F_MOVE, F_ALLOC, F_CALL | F_COPY | F_MOVE | F_ALLOC};
        p.thr[0][0].fault   = m[r.below(6)] | (r.chance(1, 4) ? F_PERSIST : 0);
        p.thr[0][0].fault_n = r.range(1, 1 + n);
    }
}
bool relevant(const char* prop, const char* cls) {
    return is(prop, "C14") && (is(cls, "guard") || is(cls, "except") || memory_class(cls));
}

std::vector<u64>* open_guards;  // successfully constructed, not yet run
u64 runs_total;
u64 trace_hash;  // of the sequence of guards created and run
u64 guard_id;
void ran(u64 id) {
    oracle([&] {
        ++runs_total;
        if(open_guards->empty() || open_guards->back() != id)
            violate("guard", "guard %llu runs, but %s%llu should be next", (unsigned long long)id,
                    open_guards->empty() ? "no guard is open: " : "", (unsigned long long)(open_guards->empty() ? 0 : open_guards->back()));
        if(!open_guards->empty())
            open_guards->pop_back();
        trace_hash = trace_hash * 0x9E3779B97F4A7C15ull + id * 2 + 1;
        event(200, id);
    });
}
void opened(u64 id) {
    oracle([&] {
        open_guards->push_back(id);
        trace_hash = trace_hash * 0x9E3779B97F4A7C15ull + id * 2 + 2;
        event(201, id);
    });
}

struct G {  // tracked, may fail when copied or moved
    u64 id, chk;
    explicit G(u64 i) : id(i), chk(~i) { oracle([&] { life_construct(this, sizeof *this, "callable construction"); }); }
    G(const G& o) : id(o.id), chk(o.chk) {
        oracle([&] {
            life_use(&o, "callable copy");
            maybe_throw(F_COPY);
            life_construct(this, sizeof *this, "callable copy");
        });
    }
    G(G&& o) : id(o.id), chk(o.chk) {
        oracle([&] {
            life_use(&o, "callable move");
            maybe_throw(F_MOVE);
            life_construct(this, sizeof *this, "callable move");
        });
        o.id = 1000000 + id;  // a moved-from callable must not run
        o.chk = ~o.id;
    }
    ~G() {
        oracle([&] { life_destroy(this); });
        id = 2000000;
    }
    void operator()() {
        oracle([&] { life_use(this, "call"); });
        ran(chk == ~id ? id : BADVAL);
    }
};
struct GOwn {
    Own o;
    explicit GOwn(u64 i) : o(i) {}
    GOwn(const GOwn&) = default;
    GOwn(GOwn&&) = default;
    void operator()() { ran(val(o)); }
};
u64 fn_id;
void plain_fn() { ran(fn_id); }
u64 empty_id;
struct Empty {
    void operator()() const { ran(empty_id); }
};

template<typename W>
void hand_on(u64 id, u32 how, W work) {
    using S = xme::ScopedDelegate<G>;
    S g{G(id)};
    opened(id);
    if constexpr(std::is_copy_constructible_v<S>)
        if(how & 1) {
            S h(std::as_const(g));
            work();
        }
    if constexpr(std::is_move_constructible_v<S>)
        if(how & 2) {
            S h(std::move(g));
            work();
        }
    work();
}

struct Machine {
    const Plan& p;
    u64 next = 1;
    // runs the rest of the program from step i; true = go on in the caller, false = function returned
    void block(std::size_t i) {
        if(i >= p.thr[0].size())
            return;
        const Step& s = p.thr[0][i];
        std::size_t depth = oracle([&] { return open_guards->size(); });
        struct Check {  // evaluated however this scope is left, after its guards are gone
            std::size_t depth;
            const char* what;
            ~Check() {
                oracle([&] {
                    if(open_guards->size() != depth)
                        violate("guard", "after the scope of %s, %zu guards have not run", what, open_guards->size() - depth);
                });
            }
        } check{depth, op_name(s.op)};
        switch(s.op) {
            case G_RV: {
                u64 id = next++;
                xme::ScopedDelegate g{G(id)};
                opened(id);
                block(i + 1);
                return;
            }
            case G_LV: {
                u64 id = next++;
                G f(id);
                xme::ScopedDelegate g{f};
                opened(id);
                block(i + 1);
                return;
            }
            case G_LAMBDA: {
                u64 id = next++;
                xme::ScopedDelegate g{[&id] { ran(id); }};
                opened(id);
                block(i + 1);
                return;
            }
            case G_OWN_RV: {
                u64 id = next++;
                xme::ScopedDelegate g{GOwn(id)};
                opened(id);
                block(i + 1);
                return;
            }
            case G_OWN_LV: {
                u64 id = next++;
                GOwn f(id);
                xme::ScopedDelegate g{f};
                opened(id);
                block(i + 1);
                return;
            }
            case G_TWO: {
                u64 a = next++, b = next++;
                xme::ScopedDelegate g{G(a)};
                opened(a);
                maybe_throw(F_CALL);
                G f(b);
                xme::ScopedDelegate h{f};
                opened(b);
                if(s.a == 0)
                    return;
                maybe_throw(F_CALL);
                block(i + 1);
                return;
            }
            case G_FNPTR: {
                u64 id = next++, was = fn_id;
                {
                    xme::ScopedDelegate<void (*)()> g{&plain_fn};
                    fn_id = id;
                    opened(id);
                    maybe_throw(F_CALL);
                }
                fn_id = was;
                block(i + 1);
                return;
            }
            case G_GONE: {  // the guard has its own copy
                u64 id = next++;
                alignas(G) unsigned char mem[sizeof(G)];
                G* f = new(mem) G(id);
                struct Kill {
                    G* f;
                    ~Kill() {
                        if(f)
                            f->~G();
                    }
                } kill{f};
                xme::ScopedDelegate g{*f};
                opened(id);
                f->~G();
                kill.f = nullptr;
                block(i + 1);
                return;
            }
            case G_CONST: {
                u64 id        = next++;
                const auto f = [&id]() -> u64 {
                    ran(id);
                    return id;
                };
                xme::ScopedDelegate g{f};
                opened(id);
                block(i + 1);
                return;
            }
            case G_STDFUN: {
                u64 id = next++, pad[4] = {id, id, id, id};
                std::function<void()> f = [pad] { ran(pad[0]); };
                if(s.a & 1) {
                    xme::ScopedDelegate g{f};
                    f = nullptr;
                    opened(id);
                    block(i + 1);
                }
                else {
                    xme::ScopedDelegate g{std::move(f)};
                    opened(id);
                    block(i + 1);
                }
                return;
            }
            case G_EMPTY: {
                u64 id = next++;
                {
                    Empty e;
                    xme::ScopedDelegate g{e};
                    empty_id = id;
                    opened(id);
                    maybe_throw(F_CALL);
                }
                block(i + 1);
                return;
            }
            case WORK:
                maybe_throw(F_CALL);
                block(i + 1);
                return;
            case RETURN: return;
            case TRY:
                try {
                    block(i + 1);
                } catch(const Fault& e) {
                    caught(e);
                } catch(const std::bad_alloc&) {
                    oracle([&] { probe("failure caught inside"); });
                }
                return;
            case LOOP:
                for(u32 j = 0; j < 4; ++j) {
                    u64 id = next++;
                    xme::ScopedDelegate g{G(id)};
                    opened(id);
                    if(j == s.a)
                        continue;
                    if(j == s.b)
                        break;
                    maybe_throw(F_CALL);
                    if(j == 3)
                        block(i + 1);
                }
                return;
            case CALLFN: {
                u64 id = next++;
                auto f = [&]() -> u64 {
                    xme::ScopedDelegate g{G(id)};
                    opened(id);
                    if(s.a == 0)
                        return 1;
                    maybe_throw(F_CALL);
                    return id + 2;
                };
                u64 r = f();
                if(r == 0)
                    return;
                block(i + 1);
                return;
            }
            case G_HANDED: {
                // Guards cannot be copied or moved. Should they learn it, the action still runs once.
                u64 id = next++;
                hand_on(id, s.a, [&] { maybe_throw(F_CALL); });
                block(i + 1);
                return;
            }
            case UNWIND: {
                // a guard created and left while another exception is in flight
                struct InDtor {
                    Machine& m;
                    std::size_t i;
                    ~InDtor() {
                        u64 id = m.next++;
                        xme::ScopedDelegate g{[&id] { ran(id); }};
                        opened(id);
                    }
                } d{*this, i};
                maybe_throw(F_CALL);
                block(i + 1);
                return;
            }
        }
    }
    void caught(const Fault& e) {
        oracle([&] {
            if(e.id != last_fault_id())
                violate("except", "another failure arrives than the one injected");
            probe("failure caught inside");
        });
    }
};

void run(const Plan& p) {
    if(p.thr[0].empty())
        return;
    std::vector<u64> open;
    open_guards = &open;
    runs_total  = 0;
    Machine m{p};
    op_begin(&p.thr[0][0]);
    bool threw = false;
    try {
        sut([&] { m.block(0); });
    } catch(const Fault& e) {
        threw = true;
        m.caught(e);
    } catch(const std::bad_alloc&) {
        threw = true;
    }
    if(threw && !fault_fired())
        violate("except", "an exception appeared although no failure was injected");
    if(threw)
        probe("program left by an exception");
    op_end();
    if(!open.empty())
        violate("guard", "%zu guards have not run at the end", open.size());
    cover(trace_hash * 4 + threw * 2 + failure_happened());
    check_no_leaks();
}
}  // namespace

const sim::Harness sim::harness{"scoped", op_name, gen, run, relevant, false};
