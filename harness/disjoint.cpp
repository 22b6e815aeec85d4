// C19: find and reverse on disjoint parts of one buffer, from several threads at once.
#include "common.hpp"
#include <span>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>

using namespace sim;
using namespace el;

namespace {
enum : u32 { FIND, FIND_RANGE, FIND_SUB, FIND_SEQ, REVERSE, REVERSE_RANGE, REVERSE_SUB, WRITE, FIND_SHARED, NOPS_ };
const char* names[] = {"find", "find(range)", "find in a part of the part", "find(sequenced)", "reverse", "reverse(range)", "reverse part of the part", "write", "find in shared part"};
const char* op_name(u32 o) { return o < NOPS_ ? names[o] : "?"; }
// cfg: 0 element size, 1 offset of the first part, 2.. lengths (0 = shared read-only part)
void gen(Rng& r, Plan& p) {
    u32 nt   = r.range(1, 4);
    p.cfg[0] = r.below(4);
    p.cfg[1] = r.below(8);
    p.cfg[2] = r.below(3) ? r.below(40) : r.below(140);
    p.cfg[3] = r.below(4);  // how many different values there are
    for(u32 t = 0; t < nt; ++t) {
        p.cfg[4 + t] = r.below(4) ? r.below(100) : 14 + 16 * r.below(8) + r.below(5);
        u32 n = r.range(1, 6);
        for(u32 i = 0; i < n; ++i) {
            Step s;
            s.op = r.below(NOPS_);
            s.a  = r.below(256);
            s.b  = r.below(256);
            s.c  = r.below(256);
            p.thr[t].push_back(s);
        }
    }
    if(r.chance(1, 300)) {  // long parts; the value looked for is rare
        p.cfg[8] = 1;
        p.cfg[9] = r.below(70);
        auto len = [&] {
            static const u32 at[] = {4080, 8190, 16380, 65530};
            return r.chance(1, 2) ? r.range(100, 3000) : at[r.below(4)] + r.below(140);
        };
        if(r.chance(1, 4))
            p.cfg[2] = len();
        p.cfg[4 + r.below(nt)] = len();
        for(auto& t : p.thr)
            for(auto& s : t) {
                s.b = r.below(70000);
                s.c = r.below(70000);
            }
    }
    if(r.chance(1, 4)) {
        u32 t = 1 + r.below(nt);
        p.stalls.push_back({t, r.below(60), r.range(10, 200)});
    }
}
bool relevant(const char* prop, const char* cls) {
    return is(prop, "C19") && (is(cls, "race") || is(cls, "outside") || is(cls, "result") || memory_class(cls));
}

template<typename T>
struct Run {
    const Plan& p;
    T* buf = nullptr;
    std::size_t total = 0;
    std::vector<T> shared_model;
    struct Part {
        T *b, *e;
        std::vector<T> m;
    };
    Part part[4];
    bool rare = false;
    T value(u32 x) const {
        static const u64 spread[] = {0x0101010101010101ull, 0x0001000100010001ull, 0x00ff00000001ull, 0x8000000000000001ull};
        u32 kinds = p.cfg[3] == 0 ? 2 : p.cfg[3] == 1 ? 5 : p.cfg[3] == 2 ? 60 : 250;
        return T((x % kinds) * spread[p.cfg[3] % 4] + x % kinds);
    }
    // everything outside what the thread owns is checked afterwards; races by the simulator
    void compare(Part& pt, const char* nm) {
        bool bad = false;
        std::size_t where = 0;
        sut([&] {
            for(std::size_t i = 0; i < pt.m.size(); ++i)
                if(pt.b[i] != pt.m[i] && !bad) {
                    bad   = true;
                    where = i;
                }
        });
        if(bad)
            violate("result", "%s: element %zu of %zu differs from running alone", nm, where, pt.m.size());
    }
    void search(const Step& st, Part& pt, const char* nm, T* b, T* e, const T* mb, const T* me) {
        std::size_t want = 0, n = me - mb;
        T v = st.a % 3 ? value(rare && st.a % 3 == 1 ? 0 : st.b) : n ? mb[st.b % n] : value(st.b);
        while(want < n && mb[want] != v)
            ++want;
        std::size_t got = ~0ul;
        sut([&] {
            const T *cb = b, *ce = e;
            if(st.op == FIND_RANGE) {
                std::span<const T> s(cb, ce);
                got = xme::find(s, v) - s.begin();
            }
            else if(st.op == FIND_SEQ)
                got = xme::find<std::execution::sequenced_policy>(cb, ce, v) - cb;
            else if(st.c & 1)
                got = xme::find(b, e, v) - b;
            else
                got = xme::find(cb, ce, v) - cb;
        });
        if(got != want)
            violate("result", "%s of %zu elements gives %zu, expected %zu", nm, n, got, want);
        probe(want == n ? "value not found" : "value found");
        (void)pt;
    }
    void thread(u32 t) {
        Part& pt = part[t];
        for(auto& st : p.thr[t]) {
            const char* nm = op_name(st.op);
            op_begin(&st);
            std::size_t n = pt.m.size();
            std::size_t f = n ? st.b % (n + 1) : 0, l = f + (n - f ? st.c % (n - f + 1) : 0);
            switch(st.op) {
                case FIND: case FIND_RANGE: case FIND_SEQ: search(st, pt, nm, pt.b, pt.e, pt.m.data(), pt.m.data() + n); break;
                case FIND_SUB: search(st, pt, nm, pt.b + f, pt.b + l, pt.m.data() + f, pt.m.data() + l); break;
                case FIND_SHARED: search(st, pt, nm, buf + p.cfg[1], buf + p.cfg[1] + shared_model.size(), shared_model.data(), shared_model.data() + shared_model.size()); break;
                case REVERSE: case REVERSE_RANGE: case REVERSE_SUB: {
                    if(st.op != REVERSE_SUB) {
                        f = 0;
                        l = n;
                    }
                    sut([&] {
                        if(st.op == REVERSE_RANGE) {
                            std::span<T> s(pt.b, pt.e);
                            xme::reverse(s);
                        }
                        else
                            xme::reverse(pt.b + f, pt.b + l);
                    });
                    std::reverse(pt.m.begin() + f, pt.m.begin() + l);
                    break;
                }
                case WRITE: {
                    if(!n)
                        break;
                    // the edges are written most often
                    std::size_t i = st.a % 3 == 0 ? 0 : st.a % 3 == 1 ? n - 1 : st.b % n;
                    pt.m[i] = value(rare && st.c % 2 ? 0 : st.c);
                    sut([&] { pt.b[i] = pt.m[i]; });
                    break;
                }
            }
            if(n < 4000 || st.a % 4 == 0)
                compare(pt, nm);
            op_end();
        }
        // every element is written once by its owner, so that any access from elsewhere is a race
        sut([&] {
            for(std::size_t i = 0; i < pt.m.size(); ++i)
                pt.b[i] = pt.m[i];
        });
    }
    void go() {
        std::size_t off = p.cfg[1];
        rare            = p.cfg[8];
        if(rare)
            set_run_bound(30000000);
        u32 nt = 0;
        total  = off + p.cfg[2];
        for(u32 t = 0; t < 4; ++t)
            if(!p.thr[t].empty())
                nt = t + 1;
        for(u32 t = 0; t < nt; ++t)
            total += p.cfg[4 + t];
        if(!total)
            return;
        buf = (T*)root_alloc(total * sizeof(T), alignof(T));
        std::vector<T> init(total);
        for(std::size_t i = 0; i < total; ++i)
            if(init[i] = value(u32(i * 2654435761u >> 13)); rare && init[i] == value(0))
                init[i] = value(1);
        for(std::size_t i = 0; i < total; ++i)
            ((volatile T*)buf)[i] = init[i];
        std::size_t at = off + p.cfg[2];
        shared_model.assign(init.begin() + off, init.begin() + at);
        for(u32 t = 0; t < nt; ++t) {
            part[t].b = buf + at;
            if(u32 n = p.cfg[4 + t]; rare && n) {  // one near the end
                std::size_t k            = at + n - 1 - p.cfg[9] % n % 70;
                ((volatile T*)buf)[k] = init[k] = value(0);
            }
            part[t].m.assign(init.begin() + at, init.begin() + at + p.cfg[4 + t]);
            at += p.cfg[4 + t];
            part[t].e = buf + at;
        }
        std::vector<std::function<void()>> bodies;
        for(u32 t = 0; t < nt; ++t)
            bodies.push_back([this, t] { thread(t); });
        if(nt)
            parallel(std::move(bodies));
        for(std::size_t i = 0; i < off + p.cfg[2]; ++i)
            if(((volatile T*)buf)[i] != init[i])
                violate("outside", "element %zu, which no thread may change, was changed", i);
        for(u32 t = 0; t < nt; ++t)
            for(std::size_t i = 0; i < part[t].m.size(); ++i)
                if(((volatile T*)part[t].b)[i] != part[t].m[i])
                    violate("result", "element %zu of thread %u differs from running alone", i, t);
        u64 h = sizeof(T);
        for(u32 t = 0; t < nt; ++t)
            h = h * 200 + p.cfg[4 + t];
        cover(h * 8 + p.cfg[1]);
        root_free(buf);
    }
};
void run(const Plan& p) {
    switch(p.cfg[0]) {
        case 0: Run<sim::u8>{p}.go(); break;
        case 1: Run<std::int16_t>{p}.go(); break;
        case 2: Run<std::int32_t>{p}.go(); break;
        default: Run<std::int64_t>{p}.go(); break;
    }
}
}  // namespace

const sim::Harness sim::harness{"disjoint", op_name, gen, run, relevant, true};
