// C09: xme::Heap as a priority queue, under failing allocations and copies.
#include "common.hpp"
#include "source.hpp"
#include <algorithm>
#include <forward_list>
#include <xme/container/heap.hpp>

using namespace sim;
using namespace el;

namespace {
enum : u32 { C_DEF, C_ITER, C_FWD, C_RANGE, C_COPY, C_MOVE, A_COPY, A_MOVE, PUSH_C, PUSH_M, PUSH_V, EMPL, PUSH_TOP, PUSH_OWN, POP, DRAIN, BURST, C_STREAM, C_GEN, NOPS_ };
const char* names[] = {"ctor()", "ctor(iters)", "ctor(forward iters)", "ctor(range)", "ctor(copy)", "ctor(move)", "=copy", "=move", "push(copy)",
                       "push(move)", "push(converted)", "emplace", "push(front)", "push(own element)", "pop", "drain", "push burst", "ctor(stream)", "ctor(generator)"};
const char* op_name(u32 o) { return o < NOPS_ ? names[o] : "?"; }
constexpr u32 SLOTS = 2;

struct ByHigh {  // orders by the upper part only: many elements are equivalent
    template<typename T>
    bool operator()(const T& a, const T& b) const {
        return (val(a) >> 8) < (val(b) >> 8);
    }
};

constexpr u32 HUGE_ = 10;
void gen(Rng& r, Plan& p) {
    p.cfg[0] = r.below(10);
    p.cfg[1] = r.below(3);  // how priorities are distributed
    u32 n    = r.chance(1, 2) ? r.range(1, 10) : r.range(6, 60);
    u32 fpm  = r.below(3) * 12;
    u32 bias = r.below(100);
    bool big = r.chance(1, 80);
    if(big)
        bias /= 4;
    for(u32 i = 0; i < n; ++i) {
        Step s;
        u32 k = r.below(100);
        if(k < 8)
            s.op = r.chance(1, 5) ? C_STREAM + r.below(2) : C_DEF + r.below(A_MOVE - C_DEF + 1);
        else if(k < 10)
            s.op = DRAIN;
        else if(k < 14)
            s.op = BURST;
        else
            s.op = r.below(100) < bias ? POP : PUSH_C + r.below(6);
        s.a = r.below(SLOTS * SLOTS);
        s.b = u32(r.next());
        s.c = big && r.chance(1, 3) ? r.below(300) : r.below(12);
        random_fault(r, s, fpm, 4);
        p.thr[0].push_back(s);
    }
    if(r.chance(1, 2500)) {  // thousands of elements
        p.thr[0].resize(std::min<std::size_t>(p.thr[0].size(), 12));
        static const u32 ops[] = {C_ITER, C_FWD, C_RANGE, C_STREAM, C_GEN, BURST};
        Step s;
        s.op = ops[r.below(6)];
        s.b  = u32(r.next());
        s.c  = s.op == BURST ? r.range(300, 1200) : r.range(500, 5000);
        if(r.chance(1, 20)) {  // more than 16 bits count
            p.cfg[0] = HUGE_;
            s.op     = ops[r.below(5)];
            s.c      = r.range(66000, 90000);
            s.a      = 0;
            for(auto& t : p.thr[0])
                t = {r.chance(1, 2) ? POP : r.chance(1, 9) ? DRAIN : PUSH_C + r.below(6)}, t.b = u32(r.next());
        }
        p.thr[0].insert(p.thr[0].begin() + std::min<std::size_t>(r.below(4), p.thr[0].size()), s);
    }
}

bool relevant(const char* prop, const char* cls) {
    return is(prop, "C09") && (is(cls, "order") || is(cls, "contents") || is(cls, "except") || is(cls, "atomicity") ||
                               is(cls, "life") || is(cls, "mem") || is(cls, "free"));
}

template<typename T, typename Cmp, bool Max, typename Store = xme::Array<T>>
struct Run {
    using H = xme::Heap<T, Store, Cmp>;
    struct Slot {
        H* h = nullptr;
        std::vector<u64> m;  // multiset, sorted
    };
    Slot s[SLOTS];
    bool huge = false;
    u32 dist;
    u64 serial = 0;
    static constexpr bool CP     = std::is_copy_constructible_v<T>;
    static auto moves(T* p) { return std::make_move_iterator(p); }
    static constexpr bool byhigh = std::is_same_v<Cmp, ByHigh>;
    u64 prio(u64 v) { return byhigh ? v >> 8 : v; }
    u64 pick(u32 rnd) {
        u64 pr = dist == 0 ? rnd % 4 : dist == 1 ? rnd % 1000 : serial % 64;
        ++serial;
        return byhigh ? pr << 8 | (serial & 0xff) : pr;
    }
    bool read(Slot& x, std::vector<u64>& v, const char* nm) {
        bool ok = true;
        sut([&] {
            const H& c = *x.h;
            auto it    = c.begin();
            for(; it != c.end() && ok; ++it) {
                const T* p = &*it;
                ok = oracle([&] {
                    if(v.size() > x.m.size() + 64) {
                        violate("contents", "%s: iteration passes %zu elements, expected %zu", nm, v.size(), x.m.size());
                        return false;
                    }
                    if(!heap_ok(p, sizeof(T))) {
                        violate("mem", "%s: an element does not lie in owned memory", nm);
                        return false;
                    }
                    if constexpr(has_life<T>)
                        if(!life_live(p)) {
                            violate("life", "%s: an element is not a live object", nm);
                            return false;
                        }
                    v.push_back(val(*p));
                    return true;
                });
            }
        });
        return ok;
    }
    bool check(Slot& x, const char* nm) {
        std::vector<u64> v;
        if(!read(x, v, nm))
            return false;
        u64 top = v.empty() ? 0 : v[0];
        std::sort(v.begin(), v.end());
        if(v != x.m) {
            violate("contents", "%s: holds %s, expected %s", nm, show(v).c_str(), show(x.m).c_str());
            return false;
        }
        bool bad = false;
        u64 f    = 0;
        sut([&] {
            const H& c = *x.h;
            bad |= c.size() != v.size() || c.empty() != v.empty() || x.h->empty() != v.empty() || x.h->size() != v.size();
            if(!v.empty()) {
                f = val(c.front());
                bad |= val(x.h->front()) != f;
            }
        });
        if(bad)
            violate("contents", "%s: size or emptiness disagree with the contents", nm);
        if(!v.empty()) {
            u64 best = Max ? prio(v.back()) : prio(v.front());
            if(prio(f) != best || prio(top) != best) {
                violate("order", "%s: front is %llu, but the heap holds %s", nm, (unsigned long long)f, show(v).c_str());
                return false;
            }
        }
        return true;
    }
    void add(Slot& x, u64 v) { x.m.insert(std::lower_bound(x.m.begin(), x.m.end(), v), v); }
    bool unchanged(Slot& x, const char* nm) {
        std::vector<u64> v;
        if(!read(x, v, nm))
            return false;
        std::sort(v.begin(), v.end());
        if(v != x.m)
            violate("atomicity", "failed %s changed the contents from %s to %s", nm, show(x.m).c_str(), show(v).c_str());
        return v == x.m;
    }
    bool pop(Slot& x, const Step& st, u64& got) {
        sut([&] { got = val(const_cast<const H&>(*x.h).front()); });
        Step plain = st;
        plain.fault = 0;
        auto r = guarded(plain, "pop", "except", [&] { x.h->pop(); });
        if(r.failed)
            return false;
        auto it = std::lower_bound(x.m.begin(), x.m.end(), got);
        if(it == x.m.end() || *it != got) {
            violate("contents", "front %llu was never pushed", (unsigned long long)got);
            return false;
        }
        x.m.erase(it);
        return true;
    }
    template<typename F>
    void construct(const Step& st, Slot& x, std::vector<u64> m, F&& f) {
        if(x.h) {
            sut([&] { x.h->~H(); });
            root_free(x.h);
        }
        x.h = nullptr;
        x.m.clear();
        void* p = root_alloc(sizeof(H), alignof(H));
        auto r  = guarded(st, op_name(st.op), "except", [&] { f(p); });
        if(r.failed) {
            root_free(p);
            p = root_alloc(sizeof(H), alignof(H));
            sut([&] { new(p) H(); });
        }
        else {
            x.m = std::move(m);
            std::sort(x.m.begin(), x.m.end());
        }
        x.h = (H*)p;
    }
    bool step(const Step& st) {
        Slot &x = s[st.a % SLOTS], &y = s[st.a / SLOTS % SLOTS];
        const char* nm = op_name(st.op);
        std::vector<u64> vals;
        auto make_src = [&](u32 k) {
            std::vector<T> v;
            v.reserve(k);
            for(u32 i = 0; i < k; ++i) {
                vals.push_back(pick(st.b * 2654435761u + i * 40503u >> 7));
                v.push_back(T(vals.back()));
            }
            return v;
        };
        switch(st.op) {
            case C_DEF: construct(st, x, {}, [&](void* p) { new(p) H(); }); break;
            case C_ITER: {
                auto src = make_src(st.c);
                construct(st, x, vals, [&](void* p) {
                    if constexpr(CP)
                        new(p) H(src.data(), src.data() + src.size());
                    else
                        new(p) H(moves(src.data()), moves(src.data() + src.size()));
                });
                if constexpr(CP)
                    kept(src, vals, nm, "contents");
                break;
            }
            case C_FWD: if constexpr(CP) {
                auto src = make_src(st.c);
                std::forward_list<T> fl(src.begin(), src.end());
                construct(st, x, vals, [&](void* p) { new(p) H(fl.begin(), fl.end()); });
                kept(fl, vals, nm, "contents");
            }
                break;
            case C_STREAM: case C_GEN: {
                make_src(st.c);
                Source<T> src{vals, "contents"};
                construct(st, x, vals, [&](void* p) {
                    if(st.op == C_GEN)
                        st.b & 1 ? new(p) H(src.first(), src.last()) : new(p) H(src.range());
                    else
                        st.b & 1 ? new(p) H(src.once(), src.end()) : new(p) H(src.once_range());
                });
                if(st.op == C_STREAM && x.m.size() == vals.size())
                    src.all_read(nm);
                break;
            }
            case C_RANGE: if constexpr(CP) {
                auto src = make_src(st.c);
                std::forward_list<T> fl(src.begin(), src.end());
                construct(st, x, vals, [&](void* p) {
                    if(st.b & 1)
                        new(p) H(src);
                    else
                        new(p) H(fl);
                });
                kept(fl, vals, nm, "contents");
                kept(src, vals, nm, "contents");
            }
                break;
            case C_COPY:
                if(&x == &y)
                    return true;
                if constexpr(CP)
                    construct(st, x, y.m, [&](void* p) { new(p) H(const_cast<const H&>(*y.h)); });
                break;
            case C_MOVE: {
                if(&x == &y)
                    return true;
                auto m = y.m;
                construct(st, x, m, [&](void* p) { new(p) H(std::move(*y.h)); });
                y.m.clear();
                break;
            }
            case A_COPY: if constexpr(CP) {
                auto r = guarded(st, nm, "except", [&] { *x.h = const_cast<const H&>(*y.h); });
                if(r.failed)
                    return unchanged(x, nm);
                x.m = y.m;
            }
                break;
            case A_MOVE: {
                if(&x == &y)
                    return true;
                auto r = guarded(st, nm, "except", [&] { *x.h = std::move(*y.h); });
                if(r.failed)
                    return false;
                x.m = y.m;
                y.m.clear();
                break;
            }
            case PUSH_C: case PUSH_M: case PUSH_V: case EMPL: {
                auto src = make_src(1);
                u64 raw  = vals[0];
                auto r   = guarded(st, nm, "except", [&] {
                    if(CP && st.op == PUSH_C) {
                        if constexpr(CP)
                            st.c % 2 ? x.h->push(src[0]) : x.h->push(std::as_const(src[0]));
                    }
                    else if(st.op == PUSH_C || st.op == PUSH_M)
                        x.h->push(std::move(src[0]));
                    else if(st.op == PUSH_V)
                        x.h->push(raw);
                    else if(st.c % 3 == 0)
                        x.h->emplace(raw);
                    else if(st.c % 3 == 1 || !CP)
                        x.h->emplace(std::move(src[0]));
                    else if constexpr(CP)
                        x.h->emplace(src[0]);
                });
                if(CP && (st.op == PUSH_C || (st.op == EMPL && st.c % 3 == 2)))
                    kept(src, vals, nm, "contents");
                if(r.failed) {
                    if(!unchanged(x, nm))
                        return false;
                }
                else
                    add(x, raw);
                break;
            }
            case PUSH_TOP: case PUSH_OWN: if constexpr(CP) {
                if(x.m.empty())
                    return true;
                u64 v  = 0;
                auto r = guarded(st, nm, "except", [&] {
                    const H& c = *x.h;
                    const T& e = st.op == PUSH_TOP ? c.front() : c[st.c % x.m.size()];
                    v          = val(e);
                    x.h->push(e);
                });
                if(r.failed) {
                    if(!unchanged(x, nm))
                        return false;
                }
                else
                    add(x, v);
            }
                break;
            case BURST:
                for(u32 i = 0, fails = 0; i < st.c && fails < 8; ++i) {
                    u64 v  = pick(st.b + i * 7919);
                    auto r = guarded(st, nm, "except", [&] { x.h->emplace(v); });
                    if(r.failed) {
                        ++fails;
                        if(!unchanged(x, nm))
                            return false;
                    }
                    else
                        add(x, v);
                    if((i & 31) == 31 && !check(x, nm))
                        return false;
                }
                break;
            case POP: {
                if(x.m.empty())
                    return true;
                u64 g;
                if(!pop(x, st, g))
                    return false;
                break;
            }
            case DRAIN: {
                u64 last = 0;
                bool first = true;
                while(!x.m.empty()) {
                    u64 g;
                    if(!pop(x, st, g) || ((x.m.size() < 300 || x.m.size() % (huge ? 16384 : 64) == 0) && !check(x, nm)))
                        return false;
                    if(!first && (Max ? prio(g) > prio(last) : prio(g) < prio(last)))
                        violate("order", "drained %llu after %llu", (unsigned long long)g, (unsigned long long)last);
                    last  = g;
                    first = false;
                }
                probe("drained in order");
                break;
            }
        }
        if(!check(x, nm) || (&x != &y && !check(y, nm)))
            return false;
        u64 h = x.m.size();
        for(auto v : x.m)
            h = h * 1099511628211ull + v;
        cover(h);
        return true;
    }
    void go(const Plan& p) {
        dist = p.cfg[1];
        for(auto& x : s) {
            void* q = root_alloc(sizeof(H), alignof(H));
            sut([&] { new(q) H(); });
            x.h = (H*)q;
        }
        for(auto& st : p.thr[0])
            if(!step(st))
                return;
        Step d;
        d.op = DRAIN;
        if(!step(d))
            return;
        for(auto& x : s) {
            sut([&] { x.h->~H(); });
            root_free(x.h);
        }
        check_no_leaks();
    }
};

void run(const Plan& p) {
    switch(p.cfg[0]) {
        case 0: { Run<NTok, std::less<>, true> r; r.go(p); break; }
        case 1: { Run<NTok, ByHigh, true> r; r.go(p); break; }
        case 2: { Run<Own, ByHigh, true> r; r.go(p); break; }
        case 3: { Run<u64, std::less<>, true> r; r.go(p); break; }
        case 4: { Run<u64, std::greater<>, false> r; r.go(p); break; }
        case 5: { Run<Big, std::less<>, true> r; r.go(p); break; }
        case 6: { Run<Uniq, ByHigh, true> r; r.go(p); break; }
        case HUGE_: {
            set_huge();
            Run<u64, std::less<>, true> r;
            r.huge = true;
            r.go(p);
            break;
        }
        case 7: { Run<u64, ByHigh, true, std::vector<u64>> r; r.go(p); break; }
        case 8: { Run<NTok, ByHigh, true, xme::Array<NTok, SimAlloc<NTok, true, true, true>>> r; r.go(p); break; }
        default: { Run<NTok, ByHigh, true> r; r.go(p); break; }
    }
}
}  // namespace

const sim::Harness sim::harness{"heap", op_name, gen, run, relevant, false};
