// C01-C05: SPSCQueue under every interleaving, legal stale load, stall and failure the seed chooses.
#include "elems.hpp"
#include <cstring>
#include <xme/container/spsc_queue.hpp>

using namespace sim;
using namespace el;

namespace {
constexpr u64 QBOUND = 40;  // accesses of a query
constexpr u64 BOUND = 100;  // accesses of one operation, the construction of its element included
constexpr u32 BIG = 38, BIGS = 8;  // configurations with long rings and long histories
constexpr u32 UNIQ = BIG + BIGS;   // elements that can only be moved
constexpr u32 ONE = UNIQ + 8;      // room for nothing
constexpr u32 HUGE_ = UNIQ + 4;    // more places than 16 bits count
enum : u32 { PUSH, PUSHM, EMPLACE, WAVAIL, FILL, PUSHN, CREAD = 8, CONSUME, POP, DRAIN, CONSUMEN, PEEK, POPN, TRYC };

const char* op_name(u32 o) {
    switch(o) {
        case PUSH: return "push(copy)";
        case PUSHM: return "push(move)";
        case EMPLACE: return "emplace";
        case WAVAIL: return "write_available";
        case FILL: return "fill";
        case PUSHN: return "push-burst";
        case CREAD: return "read_available";
        case CONSUME: return "consume";
        case POP: return "pop";
        case DRAIN: return "drain";
        case CONSUMEN: return "consume-burst";
        case PEEK: return "consume(by reference)";
        case POPN: return "pop-burst";
        case TRYC: return "query+consume";
    }
    return "?";
}

// thr: 0 producer, 1 consumer, 2 second producer (takes over), 3 second consumer, 4/5 next phase
// cfg: 0 type/size, 1 prefill offset, 2 end mode, 3 swap roles in phase 2, 4 dynamic ctor failure, 5 elements at the start
void gen(Rng& r, Plan& p) {
    bool faults = prop_is("C05") ? r.chance(3, 4) : r.chance(1, 4);
    bool wf     = prop_is("C04");
    p.cfg[0]    = r.below(38);
    if(prop_is("C05") && r.chance(2, 3)) {  // types that can fail
        static const u32 t[] = {2, 3, 8, 9, 14, 15, 20, 21, 26, 27, 32, 33};
        p.cfg[0] = t[r.below(12)];
    }
    else if(r.chance(1, 16))
        p.cfg[0] = UNIQ + r.below(4);
    if(r.chance(1, 60))
        p.cfg[0] = ONE + r.below(2);
    bool big = r.chance(1, 100);
    if(big)
        p.cfg[0] = BIG + r.below(BIGS);
    p.cfg[1] = r.chance(1, 4) ? 0 : r.below(big ? 700 : 20);
    p.cfg[5] = r.chance(2, 3) ? 0 : r.below(big ? 1100 : 20);
    if(r.chance(1, 5000)) {
        static const u32 at[] = {0, 65536, 131072};
        p.cfg[0] = HUGE_ + r.below(3);
        p.cfg[1] = at[r.below(8) ? r.below(2) : 2];
        p.cfg[1] = p.cfg[1] ? p.cfg[1] - r.below(6) : 0;
        p.cfg[5] = at[r.below(3)];
        p.cfg[5] = p.cfg[5] ? p.cfg[5] - r.below(6) : 0;
    }
    p.cfg[2] = r.below(4);
    p.cfg[3] = r.below(2);
    p.cfg[4] = faults && r.chance(1, 6);
    bool two_p = r.chance(1, 4), two_c = r.chance(1, 4), phase2 = r.chance(1, 3);
    auto len   = [&] { return r.chance(1, 2) ? r.range(1, 5) : r.range(1, 16); };
    auto burst = [&] { return big && r.chance(1, 2) ? r.range(10, 300) : r.range(1, 9); };
    for(int t = 0; t < 6; ++t) {
        if((t == 2 && !two_p) || (t == 3 && !two_c) || (t >= 4 && !phase2))
            continue;
        u32 n = len();
        for(u32 i = 0; i < n; ++i) {
            Step s;
            if(t % 2 == 0) {
                u32 k = r.below(wf ? 16 : 12);
                s.op  = k < 3 ? PUSH : k < 5 ? PUSHM : k < 7 ? EMPLACE : k < 9 ? WAVAIL : k < 11 ? PUSHN : k < 12 ? FILL : k < 14 ? FILL : EMPLACE;
                s.a   = burst();
                if(faults && r.chance(1, 4)) {
                    static const u32 m[] = {F_CTOR, F_COPY, F_MOVE, F_ALLOC, F_ELEM | F_ALLOC};
                    s.fault   = m[r.below(5)];
                    s.fault_n = r.range(1, 3);
                    if(r.chance(1, 8))
                        s.fault |= F_PERSIST;
                }
            }
            else {
                u32 k = r.below(wf ? 18 : 14);
                s.op  = k < 2 ? CREAD : k < 5 ? CONSUME : k < 6 ? POP : k < 7 ? DRAIN : k < 8 ? CONSUMEN : k < 9 ? PEEK : k < 10 ? POPN : k < 14 ? TRYC : DRAIN;
                s.a   = burst();
                if(faults && r.chance(1, 4)) {
                    s.fault   = r.chance(2, 3) ? F_CALL : F_MOVE;
                    s.fault_n = r.range(1, 3);
                    if(r.chance(1, 8))
                        s.fault |= F_PERSIST;
                }
            }
            p.thr[t].push_back(s);
        }
    }
    if(r.chance(wf ? 4 : 1, wf ? 5 : 3)) {
        u32 n = r.range(1, 3);
        for(u32 i = 0; i < n; ++i) {
            Stall s;
            s.fiber = r.below(2);
            s.at    = r.chance(1, 2) ? r.range(1, 30) : r.range(1, 200);
            s.len   = r.chance(1, 2) ? FOREVER : r.range(1, 300);
            p.stalls.push_back(s);
        }
    }
}

bool relevant(const char* prop, const char* cls) {
    auto c = [&](const char* x) { return !strcmp(cls, x); };
    auto p = [&](const char* x) { return !strcmp(prop, x); };
    if(p("C01")) return c("order") || c("phantom") || c("lost") || c("torn") || c("race") || c("publish") || c("source");
    if(p("C02")) return c("race") || c("publish");
    if(p("C03")) return c("overfull") || c("early-full") || c("count") || c("source-full");
    if(p("C04")) return c("op-bound") || c("blocking") || c("alloc") || c("progress");
    if(p("C05"))
        return c("life") || c("leak") || c("leak-obj") || c("mem") || c("free") || c("free-live") ||
               c("except") || c("atomicity") || c("early-free") || c("source");
    return false;
}

template<typename T>
u64 enc(u64 seq) {
    if constexpr(sizeof(T) == 1)
        return (seq * 37 + 5) & 0xff;
    else
        return seq * 0x9E3779B97F4A7C15ull + 0x1234567;
}


template<typename T, typename Q>
struct Run {
    Q* q;
    u64 N;  // capacity
    u64 SIDE = 1024;  // most attempts
    u64* side;
    u64 NSIDE = 1024;  // places of it
    u64* back;         // the same in the other direction: written by the consumer before it frees a place
    std::vector<u64> accepted;  // sequence numbers in the order of success
    u64 seq = 0;                // attempts so far
    bool pending = false;       // a push is in progress
    u64 pend_seq = 0;
    bool pend_taken = false;    // its element was already delivered
    u64 consumed = 0;           // completed
    bool taking  = false;       // a consumption is in progress
    u64 known_pushed = 0;       // what the consumer certainly knows
    u64 known_consumed = 0;     // what the producer certainly knows
    bool stop_c = false, stop_p = false;  // an element was lost to the model, stop checking

    u64 started() const { return consumed + (taking ? 1 : 0); }
    u64 pushes_visible() const { return accepted.size() + (pending && !pend_taken ? 1 : 0); }

    // ---------------------------------------------------------------- producer
    enum PR { OK, FULL, FAILED };
    template<typename F>
    PR push_one(F&& f) {
        if(seq + 1 >= SIDE)
            return FULL;
        u64 s    = seq++;
        if(s < NSIDE)
            side[s] = s * 3 + 1;  // plain write, published by the push
        u64 v    = enc<T>(s);
        pending  = true;
        pend_seq = s;
        pend_taken = false;
        bool ok  = false;
        u64 al0  = op_allocs();
        try {
            ok = f(v);
            yield_point();
        } catch(const Fault& e) {
            if(e.id != last_fault_id())
                violate("except", "push threw another failure than the one injected");
            pending = false;
            if(pend_taken)
                violate("phantom", "an element whose push threw was delivered");
            probe("push threw");
            return FAILED;
        } catch(const std::bad_alloc&) {
            if(!fault_fired())
                violate("except", "push threw bad_alloc although no allocation failed");
            pending = false;
            if(pend_taken)
                violate("phantom", "an element whose push threw was delivered");
            probe("push threw bad_alloc");
            return FAILED;
        } catch(...) {
            violate("except", "push threw something that was never injected");
            pending = false;
            return FAILED;
        }
        if(!std::is_base_of_v<Own, T> && op_allocs() != al0)
            violate("alloc", "push requested memory");
        u64 known_unconsumed = accepted.size() + (pend_taken ? 0 : 0) - known_consumed;
        if(!ok) {
            pending = false;
            if(pend_taken)
                violate("phantom", "a push reported failure but its element was delivered");
            if(known_unconsumed != N - 1)
                violate("early-full", "push reports full with %llu of %llu places known to be used",
                        (unsigned long long)known_unconsumed, (unsigned long long)(N - 1));
            probe("push on full queue");
            return FULL;
        }
        if(!pend_taken)
            accepted.push_back(s);
        pending = false;
        event(1, s);
        if(accepted.size() - started() > N - 1 && accepted.size() > started())
            violate("overfull", "%llu elements in a queue of capacity %llu",
                    (unsigned long long)(accepted.size() - started()), (unsigned long long)N);
        if(accepted.size() - known_consumed > N - 1) {
            known_consumed = accepted.size() - (N - 1);
            freed("push");
        }
        if constexpr(has_life<T>)
            if(u64 n = live_in_arena(); n > N - 1)
                violate("early-free", "a place was given out again before the element in it was destroyed: "
                        "%llu elements alive in a queue of capacity %llu", (unsigned long long)n, (unsigned long long)N);
        return OK;
    }
    void freed(const char* what) {  // plain read of what the consumer wrote before it freed the place
        u64 i = known_consumed - 1;
        if(i < NSIDE && back[i] != i * 5 + 2)
            violate("publish", "%s announces a free place, but what the consumer did before is not visible", what);
    }
    struct Kept {  // an lvalue that is pushed
        T& x;
        u64 v;
        ~Kept() {
            if(val(x) != v)
                violate("source", "push of an lvalue changed it");
        }
    };
    PR push_kind(u32 k) {
        if constexpr(!std::is_copy_constructible_v<T>)
            k += k % 3 == 0;
        switch(k % 3) {
            case 0: {
                return push_one([&](u64 v) {
                    if constexpr(!std::is_copy_constructible_v<T>)
                        return false;
                    else if constexpr(std::is_same_v<T, u64> || std::is_same_v<T, u8>) {
                        const T x = (T)v;
                        return sut([&] { return q->push(x); });
                    }
                    else {
                        if(v % 2) {  // an lvalue that could be changed
                            T x = sut([&] { return T(v); });
                            Kept kept{x, v};
                            return sut([&] { return q->push(x); });
                        }
                        const T x = sut([&] { return T(v); });
                        return sut([&] { return q->push(x); });
                    }
                });
            }
            case 1:
                return push_one([&](u64 v) {
                    T x = sut([&] { return T(v); });
                    u64 al0 = op_allocs();
                    bool ok = sut([&] { return q->push(std::move(x)); });
                    if(op_allocs() != al0)
                        violate("alloc", "push of an rvalue requested memory");
                    if(!ok && val(x) != v)
                        violate("source-full", "a push to a full queue changed the value that was not taken");
                    return ok;
                });
            default:
                return push_one([&](u64 v) {
                    if constexpr(std::is_copy_constructible_v<T> && std::is_class_v<T>)
                        if(v % 2) {
                            T x = sut([&] { return T(v); });
                            Kept kept{x, v};
                            return sut([&] { return q->emplace(x); });
                        }
                    return sut([&] { return q->emplace((T)v); });
                });
        }
    }
    void query_bound(const char* nm) {
        if(op_steps() > QBOUND)
            violate("op-bound", "%s took %llu own accesses", nm, (unsigned long long)op_steps());
        op_tick();
    }
    u64 query_w() {
        op_tick();
        u64 w = sut([&] { return q->write_available(); });
        query_bound("write_available");
        check_w(w);
        return w;
    }
    void check_w(u64 w) {
        u64 lo = N - 1 - (accepted.size() - known_consumed);
        u64 hi = N - 1 - (accepted.size() - std::min<u64>(started(), accepted.size()));
        if(w > N - 1 || w > hi)
            violate("count", "write_available says %llu, at most %llu places are free", (unsigned long long)w,
                    (unsigned long long)hi);
        if(w < lo)
            violate("count", "write_available says %llu, the producer knows of %llu free places",
                    (unsigned long long)w, (unsigned long long)lo);
        if(w <= N - 1 && accepted.size() + w > N - 1 + known_consumed)
            known_consumed = accepted.size() + w - (N - 1), freed("write_available");
        event(2, w);
    }
    void producer(const std::vector<Step>& steps) {
        for(auto& s : steps) {
            op_begin(&s);
            switch(s.op) {
                case PUSH: case PUSHM: case EMPLACE: push_kind(s.op); break;
                case WAVAIL: query_w(); break;
                case PUSHN:
                    for(u32 i = 0; i < s.a; ++i) {
                        if(push_kind(s.a + i) == FULL)
                            break;
                        rearm();
                    }
                    break;
                case FILL: {
                    op_end();
                    set_fresh(true);
                    u64 c0 = consumed;
                    for(;;) {
                        op_begin(nullptr);
                        u64 w = query_w();
                        if(w == 0)
                            break;
                        bool stop = seq + w + 2 >= SIDE;
                        for(u64 i = 0; i < w && !stop; ++i) {
                            op_begin(nullptr);
                            if(push_kind(2 + 0 * i) != OK) {
                                violate("progress", "push %llu of %llu announced by write_available failed",
                                        (unsigned long long)i + 1, (unsigned long long)w);
                                stop = true;
                            }
                        }
                        if(stop)
                            break;
                    }
                    if(seq + 2 * N + 4 < SIDE && accepted.size() < c0 + N - 1)
                        violate("progress", "the producer cannot fill the queue: %llu of %llu places used",
                                (unsigned long long)(accepted.size() - c0), (unsigned long long)(N - 1));
                    set_fresh(false);
                    probe(stalled_forever_exists() ? "fill with the consumer stopped for ever" : "fill");
                    break;
                }
            }
            op_end();
        }
    }
    void rearm() { op_tick(); }

    // ---------------------------------------------------------------- consumer
    void delivered(u64 v) {  // value of the next element, called at delivery
        if(stop_c)
            return;
        u64 i = consumed;
        u64 s;
        if(i < accepted.size())
            s = accepted[i];
        else if(i == accepted.size() && pending && !pend_taken) {
            s          = pend_seq;
            pend_taken = true;
            accepted.push_back(s);
            probe("delivered before push returned");
        }
        else {
            stop_c = true;
            violate("phantom", "element %llu delivered, only %llu were pushed", (unsigned long long)i,
                    (unsigned long long)accepted.size());
            return;
        }
        if(v != enc<T>(s)) {
            stop_c = true;
            if(v == BADVAL)
                violate("torn", "element %llu is damaged", (unsigned long long)i);
            for(u64 k = 0; k < seq; ++k)
                if(enc<T>(k) == v)
                    violate("order", "delivery %llu is attempt %llu, attempt %llu was due", (unsigned long long)i,
                            (unsigned long long)k, (unsigned long long)s);
            violate("phantom", "delivery %llu has a value that was never pushed", (unsigned long long)i);
            return;
        }
        u64 sd = s < NSIDE ? side[s] : s * 3 + 1;  // plain read of data the producer wrote before pushing
        if(sd != s * 3 + 1)
            violate("publish", "the producer's write before push %llu is not visible", (unsigned long long)s);
        event(3, s);
    }
    void note_pop() {  // pop: which element went is not visible; account for it
        u64 i = consumed;
        if(i == accepted.size() && pending && !pend_taken) {
            pend_taken = true;
            accepted.push_back(pend_seq);
        }
        else if(i >= accepted.size()) {
            stop_c = true;
            violate("phantom", "pop of an element that was never pushed");
            return;
        }
        if(u64 s = accepted[i]; s < NSIDE && side[s] != s * 3 + 1)
            violate("publish", "the producer's write before push %llu is not visible before it is popped", (unsigned long long)s);
    }
    bool consume_one(u32 kind) {  // 0 move out, 1 by reference, 2 pop
        if(consumed < NSIDE)
            back[consumed] = consumed * 5 + 2;  // plain write, published by freeing the place
        taking   = true;
        u64 al0  = op_allocs();
        bool got = false;
        try {
            if(kind == 2) {
                note_pop();
                sut([&] { q->pop(); });
            }
            else
                sut([&] {
                    q->consume([&](T&& x) {
                        if(!heap_ok(&x, sizeof(T)))
                            violate("mem", "consume hands out a reference outside the queue's storage");
                        usable(x, "delivery");
                        maybe_throw(F_CALL);
                        if(kind == 0) {
                            T y(std::move(x));
                            u64 v = val(y);
                            got   = true;
                            delivered(v);
                        }
                        else {
                            u64 v = val(x);
                            got   = true;
                            delivered(v);
                        }
                    });
                });
        } catch(const Fault& e) {
            if(e.id != last_fault_id())
                violate("except", "consume threw another failure than the one injected");
            if(got)
                violate("except", "consume threw after the callback returned");
            taking = false;
            probe("consume callback threw");
            return false;
        } catch(...) {
            violate("except", "consume threw something that was never injected");
            taking = false;
            return false;
        }
        yield_point();
        if(kind != 2 && !got) {
            violate("lost", "consume returned without calling the callback");
            note_pop();
        }
        taking = false;
        ++consumed;
        if(known_pushed < consumed)
            known_pushed = consumed;
        if(!std::is_base_of_v<Own, T> && op_allocs() != al0)
            violate("alloc", "consume or pop requested memory");
        return true;
    }
    u64 query_r() {
        u64 al0 = op_allocs();
        op_tick();
        u64 r   = sut([&] { return q->read_available(); });
        query_bound("read_available");
        if(op_allocs() != al0)
            violate("alloc", "read_available requested memory");
        u64 hi = pushes_visible() - consumed;
        u64 lo = known_pushed - consumed;
        if(r > N - 1 || r > hi)
            violate("count", "read_available says %llu, at most %llu elements are there", (unsigned long long)r,
                    (unsigned long long)hi);
        if(r < lo)
            violate("count", "read_available says %llu, the consumer knows of %llu elements",
                    (unsigned long long)r, (unsigned long long)lo);
        if(r <= hi && consumed + r > known_pushed)
            known_pushed = consumed + r;
        event(4, r);
        return r;
    }
    bool have() {
        if(known_pushed > consumed)
            return true;
        u64 r = query_r();
        if(r == 0)
            probe("consumer found the queue empty");
        return r > 0 && known_pushed > consumed;
    }
    void consumer(const std::vector<Step>& steps) {
        for(auto& s : steps) {
            if(stop_c)
                return;
            op_begin(&s);
            switch(s.op) {
                case CREAD: query_r(); break;
                case CONSUME: if(have()) consume_one(0); break;
                case PEEK: if(have()) consume_one(1); break;
                case POP: if(have()) consume_one(2); break;
                case TRYC: if(query_r() && known_pushed > consumed) consume_one(s.a % 3 == 0); break;
                case CONSUMEN: case POPN:
                    for(u32 i = 0; i < s.a && !stop_c && have(); ++i, op_tick())
                        if(!consume_one(s.op == POPN ? 2 : i % 2))
                            if(fault_fired())
                                break;
                    break;
                case DRAIN: {
                    op_end();
                    set_fresh(true);
                    u64 target = accepted.size();
                    for(;;) {
                        op_begin(nullptr);
                        u64 r = query_r();
                        if(r == 0)
                            break;
                        bool bad = false;
                        for(u64 i = 0; i < r && !bad; ++i) {
                            op_begin(nullptr);
                            if(known_pushed <= consumed || !consume_one(0) || stop_c)
                                bad = true;
                        }
                        if(bad)
                            break;
                    }
                    if(!stop_c && consumed < target)
                        violate("progress", "the consumer cannot drain: %llu of %llu published elements",
                                (unsigned long long)consumed, (unsigned long long)target);
                    set_fresh(false);
                    probe(stalled_forever_exists() ? "drain with the producer stopped for ever" : "drain");
                    break;
                }
            }
            op_end();
        }
    }

    void quiescent(const char* when) {
        if(stop_c)
            return;
        u64 r = sut([&] { return q->read_available(); });
        u64 w = sut([&] { return q->write_available(); });
        u64 t = accepted.size() - consumed;
        if(r != t || w != N - 1 - t)
            violate("count", "%s: counts are %llu/%llu, the truth is %llu/%llu", when, (unsigned long long)r,
                    (unsigned long long)w, (unsigned long long)t, (unsigned long long)(N - 1 - t));
        known_pushed   = accepted.size();
        known_consumed = consumed;
        cover(N * 131 + t * 17 + (accepted.size() % N) * 1009 + sizeof(T) * 7919);
    }

    void go(const Plan& p, u64 cap) {
        N    = cap;
        if(p.cfg[0] >= BIG && p.cfg[0] < UNIQ)
            SIDE = 16384;
        if(p.cfg[0] >= HUGE_) {
            SIDE = 400000;
            set_run_bound(30000000);
        }
        accepted.reserve(SIDE);
        NSIDE = std::min<u64>(SIDE, 65536);
        side = (u64*)root_alloc(NSIDE * 8, 8);
        back = (u64*)root_alloc(NSIDE * 8, 8);
        q    = (Q*)root_alloc(sizeof(Q), alignof(Q));
        Step cs;
        cs.op = 63;
        if(p.cfg[4])
            cs.fault = F_ALLOC, cs.fault_n = 1;
        op_begin(&cs);
        try {
            sut([&] {
                if constexpr(std::is_default_constructible_v<Q>)
                    new(q) Q();
                else
                    new(q) Q(cap);
            });
        } catch(const std::bad_alloc&) {
            if(!fault_fired())
                violate("except", "constructor threw without a failure");
            probe("constructor failed");
            op_end();
            check_no_leaks();
            return;
        }
        if(fault_fired())
            violate("except", "constructor hides a failed allocation");
        op_end();
        quiescent("new queue");
        // move the indices
        op_begin(nullptr);
        for(u32 i = 0; i < p.cfg[1] && N > 1; ++i) {
            if(push_kind(i) == OK && have())
                consume_one(i % 3);
            known_consumed = consumed;
        }
        for(u32 i = 0; i < p.cfg[5] && push_kind(i) == OK; ++i)
            ;
        op_end();
        quiescent("after serial use");
        set_op_bound(BOUND);
        std::vector<std::function<void()>> b;
        b.push_back([&] {
            producer(p.thr[0]);
            post(0);
        });
        b.push_back([&] {
            consumer(p.thr[1]);
            post(1);
        });
        if(!p.thr[2].empty())
            b.push_back([&] {
                wait(0);
                producer(p.thr[2]);
            });
        if(!p.thr[3].empty())
            b.push_back([&] {
                wait(1);
                consumer(p.thr[3]);
            });
        parallel(std::move(b));
        quiescent("after the threads were joined");
        if(!p.thr[4].empty() || !p.thr[5].empty()) {
            std::vector<std::function<void()>> c;
            auto P = [&] { producer(p.thr[4]); };
            auto C = [&] { consumer(p.thr[5]); };
            if(p.cfg[3]) {  // the threads swap roles
                c.push_back(C);
                c.push_back(P);
            }
            else {
                c.push_back(P);
                c.push_back(C);
            }
            parallel(std::move(c));
            quiescent("after the second phase");
        }
        set_op_bound(0);
        if(p.cfg[2] != 0 && !stop_c) {  // drain and compare everything
            op_begin(nullptr);
            while(!stop_c && consumed < accepted.size() && sut([&] { return q->read_available(); }) > 0)
                consume_one(p.cfg[2] == 1 ? 1 : 0);
            op_end();
            if(!stop_c && consumed != accepted.size())
                violate("lost", "%llu elements were accepted, only %llu delivered",
                        (unsigned long long)accepted.size(), (unsigned long long)consumed);
            quiescent("after the final drain");
            if(accepted.size() > 2 * N)
                probe("wrapped around twice");
        }
        else
            probe("destroyed with contents");
        sut([&] { q->~Q(); });
        root_free(q);
        root_free(side);
        root_free(back);
        check_no_leaks();
    }
};

template<typename T, std::size_t N>
void stat(const Plan& p) {
    Run<T, xme::SPSCQueue<T, xme::Capacity<N>>> r;
    r.go(p, N);
}
template<typename T>
void dyn(const Plan& p, std::size_t n) {
    if(p.cfg[1] & 1) {
        Run<T, xme::SPSCQueue<T>> r;
        r.go(p, n);
    }
    else {
        Run<T, xme::SPSCQueue<T, SimAlloc<T, false, false, false>>> r;
        r.go(p, n);
    }
}
template<typename T>
void by_size(const Plan& p, u32 k) {
    switch(k) {
        case 0: stat<T, 2>(p); break;
        case 1: stat<T, 4>(p); break;
        case 2: stat<T, 8>(p); break;
        case 3: dyn<T>(p, 4); break;
        case 4: dyn<T>(p, 2); break;
        default: dyn<T>(p, 8); break;
    }
}
void run(const Plan& p) {
    u32 k = p.cfg[0];
    if(k < 36)
        switch(k % 6) {
            case 0: by_size<u64>(p, k / 6); break;
            case 1: by_size<Big>(p, k / 6); break;
            case 2: by_size<Tok>(p, k / 6); break;
            case 3: by_size<Own>(p, k / 6); break;
            case 4: by_size<Over>(p, k / 6); break;
            default: by_size<u8>(p, k / 6); break;
        }
    else
        switch(k) {
            case 36: stat<u64, 16>(p); break;
            case 37: dyn<u64>(p, 16); break;
            case 38: stat<u64, 64>(p); break;
            case 39: dyn<u64>(p, 32); break;
            case 40: stat<Tok, 256>(p); break;
            case 41: dyn<Tok>(p, 128); break;
            case 42: stat<u8, 512>(p); break;
            case 43: dyn<u64>(p, 1024); break;
            case 44: stat<Tok, 8>(p); break;
            case HUGE_: stat<u8, 131072>(p); break;
            case HUGE_ + 2: stat<u64, 4>(p); break;  // long history
            case HUGE_ + 1: dyn<u8>(p, 131072); break;
            case ONE: stat<u64, 1>(p); break;
            case ONE + 1: dyn<Tok>(p, 1); break;
            case UNIQ: stat<Uniq, 2>(p); break;
            case UNIQ + 1: stat<Uniq, 4>(p); break;
            case UNIQ + 2: dyn<Uniq>(p, 4); break;
            case UNIQ + 3: stat<Uniq, 8>(p); break;
            default: dyn<u64>(p, 4); break;
        }
}
}  // namespace

const sim::Harness sim::harness{"spsc", op_name, gen, run, relevant, false};
