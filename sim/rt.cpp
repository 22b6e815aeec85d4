// Deterministic simulator runtime. Compiled WITHOUT instrumentation; implements the __tsan_*
// callbacks that the instrumented harness (= the real code of /repo) calls for each access.
#include "sim.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <elf.h>
#include <link.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

extern "C" {
extern char __data_start[], _edata[], __bss_start[], _end[];
}

namespace sim {
namespace {

constexpr u64 ARENA     = 0x600000000000ull;
constexpr u64 ARENA_SZ  = 64ull << 20;
constexpr u64 ARENA_RUN = 8ull << 20;  // of which a run may use this much, unless it says otherwise
constexpr u64 ST_ADDR   = 0x610000000000ull;  // 1 byte of heap state per arena byte
constexpr u64 CELL_ADDR = 0x620000000000ull;  // race cell per arena byte
constexpr u64 GCELL_ADDR = 0x630000000000ull; // race cell per global byte
constexpr u64 BLK_ADDR  = 0x640000000000ull;  // block id per 16 arena bytes
constexpr u64 STACK_ADDR = 0x650000000000ull;
constexpr u64 RT_ADDR   = 0x660000000000ull;
constexpr u64 STACK_SZ  = 512 << 10;
constexpr u64 STACK_PAINT = 48 << 10;
constexpr int MAXF      = 8;
constexpr u32 CHMAX     = 1 << 16;
constexpr int MAXJ      = 64;
constexpr int NAMES     = 96;
constexpr int NOPS      = 64;
constexpr u64 STATE_BITS = 1ull << 22;

enum : u8 { ST_NONE = 0, ST_LIVE = 1, ST_FREED = 2, ST_RED = 3 };

struct VC {
    u32 c[MAXF] = {};
    void join(const VC& o) {
        for(int i = 0; i < MAXF; ++i)
            if(o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

struct Cell {  // race state of one byte
    u32 run;
    u32 wclk;
    u8 wfid, atom, pad[2];
    u32 rclk[MAXF];
};

struct AStore {
    u64 val;
    VC rel;       // clock an acquiring reader obtains
    u32 epoch;    // storing fiber's clock
    u8 fid;
    bool sc;
};
struct ARead { u32 epoch, idx; };
struct ALoc {
    u8 size = 0;
    bool dirty = true;
    std::vector<AStore> st;
    std::vector<ARead> rd[MAXF];
    u32 awr[MAXF] = {}, ard[MAXF] = {};
    u32 last_sc = 0;
    void reset() {
        st.clear();
        for(auto& r : rd)
            r.clear();
        last_sc = 0;
    }
};

struct Block {
    u32 off, size, align, owner;
    u8 state;  // 1 live 2 freed
    bool root;
    const char* what;
};

struct Name { char n[56]; u64 v; };
struct Choice { u32 idx, val; };

struct Stats {
    u64 runs, steps, switches, decisions, loads, stale, stalls, forever_stalls;
    u64 fault_armed[7], fault_fired[7];
    u64 ops[NOPS], opfault[NOPS];
    u64 allocs, ctors;
    Name probes[NAMES], ignored[NAMES];
};

struct Viol {
    bool set;
    char cls[32];
    char msg[512];
    u64 hash, steps, idx;
    u32 nch;
    bool overflow;
};

struct Worker {
    std::atomic<u64> cur;
    Stats st;
    Viol v;
    u32 nch;
    bool overflow;
    u64 hash;
    u64 steps;
    u8 flags;
    bool finished;
    Choice ch[CHMAX];
};

struct Shared {
    std::atomic<u64> next, found;
    std::atomic<bool> stop;
    Worker w[MAXJ];
    u8 states[STATE_BITS / 8];
};

enum FState : u8 { F_RUN, F_BLOCK, F_STALL, F_DONE };

struct Fiber {
    void* sp = nullptr;
    char* stack = nullptr;
    FState state = F_DONE;
    std::function<void()> body;
    VC vc, pend_acq, rel_fence;
    u64 acc = 0, opacc = 0;
    bool in_op = false, fresh = false;
    u32 stall_i = 0;
    u64 wake = 0;
    u64 block_on = 0;
    int prio = 0;
    // failures
    u32 fmask = 0, fleft = 0, fkind = 0;
    bool fpersist = false, ffired = false;
    u64 last_fault = 0;
    u64 allocs = 0;
    int sut = 0;
    void* eh[2] = {};
    std::vector<char> tls;
};

struct Mutex { int owner = -1; int count = 0; VC rel; };
struct Sem { u32 n = 0; VC rel; };

struct LifeRec { u32 size; };

struct RT {
    bool active, par, tracing, relaxed_done;
    int quiet;
    int cur, nf;
    void* main_sp;
    Fiber f[MAXF];
    u64 steps, cap, thin, tick_steps, stamps;
    u32 runno;
    u64 opbound;
    // choices
    bool replay;
    Rng srng{0};
    u64 dec;
    const std::vector<Choice>* rch;
    size_t rpos;
    u32 sw_num, sw_den, stale_num, stale_den;
    bool creep;           // loads see the stores one after the other
    int prey;             // a fiber that advances one access at a time, others run in between (0: none)
    u32 prey_den;
    bool pct;
    std::vector<u64> pct_pts;
    int pct_low;
    // memory
    u64 brk, high, room;
    std::vector<Block> blocks;
    std::unordered_map<u64, ALoc> locs;
    std::map<u64, LifeRec> life;
    std::unordered_map<u64, Mutex> mtx;
    Sem sem[16];
    VC sc;
    u64 fault_seq;
    u64 hash;
    u8 flags;
    const Plan* plan;
    const char* prop;
    Shared* sh;
    Worker* w;
    u64 idx;
    FILE* trace;
    // globals
    bool globals;
    std::vector<char> snap_data, snap_bss;
    char* tls_base;
    size_t tls_size;
    std::vector<char> tls_init;
    u64 viol_ignored;
    int jobs;
    Rng* pad;
};

constexpr u64 LONG_RUN = 300000;
RT* const R        = (RT*)RT_ADDR;
u8* const ST       = (u8*)ST_ADDR;
Cell* const CELLS  = (Cell*)CELL_ADDR;
Cell* const GCELLS = (Cell*)GCELL_ADDR;
u32* const BLK     = (u32*)BLK_ADDR;

inline u64 glo_lo() { return (u64)__data_start; }
inline u64 glo_sz() { return (u64)_end - (u64)__data_start; }

inline void mix(u64 v) {
    R->hash = (R->hash ^ v) * 0x9E3779B97F4A7C15ull;
    R->hash ^= R->hash >> 29;
}

void tr_(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define tr(...)              \
    do {                     \
        if(R->tracing)       \
            tr_(__VA_ARGS__); \
    } while(0)
void tr_(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    fprintf(R->trace, "# %6llu f%d  ", (unsigned long long)R->steps, R->cur);
    vfprintf(R->trace, fmt, ap);
    fputc('\n', R->trace);
    va_end(ap);
}

void bump(Name* t, const char* n) {
    for(int i = 0; i < NAMES; ++i) {
        if(!t[i].n[0])
            snprintf(t[i].n, sizeof t[i].n, "%s", n);
        if(!strncmp(t[i].n, n, sizeof(t[i].n) - 1)) {
            ++t[i].v;
            return;
        }
    }
}

bool always_relevant(const char* c) {
    return !strcmp(c, "crash") || !strcmp(c, "assert") || !strcmp(c, "terminate") ||
           !strcmp(c, "hang") || !strcmp(c, "deadlock") || !strcmp(c, "uncaught");
}

[[noreturn]] void report(const char* cls, const char* msg) {
    Worker* w = R->w;
    R->active = false;
    w->v.set  = true;
    snprintf(w->v.cls, sizeof w->v.cls, "%s", cls);
    snprintf(w->v.msg, sizeof w->v.msg, "%s", msg);
    w->v.hash     = R->hash;
    w->v.steps    = R->steps;
    w->v.idx      = R->idx;
    w->v.nch      = w->nch;
    w->v.overflow = w->overflow;
    u64 f = R->sh->found.load();
    while(R->idx < f && !R->sh->found.compare_exchange_weak(f, R->idx)) {}
    if(R->tracing) {
        fprintf(R->trace, "# %6llu f%d  VIOLATION %s: %s\n", (unsigned long long)R->steps, R->cur, cls, msg);
        fflush(R->trace);
    }
    _exit(0);
}

// ------------------------------------------------------------------ fiber switch
extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_tramp
.type sim_tramp,@function
sim_tramp:
    xorl %ebp, %ebp
    pushq $0
    jmp sim_fiber_main
.size sim_tramp,.-sim_tramp
)");
extern "C" void sim_tramp();

void eh_swap(Fiber& from, Fiber& to) {
    void** g   = (void**)abi::__cxa_get_globals();
    from.eh[0] = g[0];
    from.eh[1] = g[1];
    g[0]       = to.eh[0];
    g[1]       = to.eh[1];
    if(R->tls_size) {
        from.tls.assign(R->tls_base, R->tls_base + R->tls_size);
        if(to.tls.empty())
            to.tls = R->tls_init;
        memcpy(R->tls_base, to.tls.data(), R->tls_size);
    }
}

void switch_to(int t) {
    int f = R->cur;
    if(f == t)
        return;
    R->cur = t;
    eh_swap(R->f[f], R->f[t]);
    sim_switch(&R->f[f].sp, R->f[t].sp);
}

// ------------------------------------------------------------------ choices
u32 choose(u32 n, u32 rnd) {  // rnd: value to take in search mode (already in 0..n-1)
    u64 i = R->dec++;
    u32 v;
    if(R->replay) {
        v = 0;
        auto& c = *R->rch;
        while(R->rpos < c.size() && c[R->rpos].idx < i)
            ++R->rpos;
        if(R->rpos < c.size() && c[R->rpos].idx == i)
            v = c[R->rpos].val;
        if(v >= n)
            v = n - 1;
    }
    else
        v = rnd;
    if(v) {
        Worker* w = R->w;
        if(w->nch < CHMAX)
            w->ch[w->nch++] = {(u32)i, v};
        else
            w->overflow = true;
        mix(i * 16 + v);
    }
    return v;
}

// picks the next fiber among the runnable ones; cur may or may not be runnable
void resched(bool must_leave) {
    if(++R->steps > R->cap)
        violate("hang", "no end after %llu steps", (unsigned long long)R->steps);
    ++R->w->st.decisions;
    for(;;) {
        int cand[MAXF], n = 0;
        u64 soon   = ~0ull;
        bool fore = false, alive = false;
        for(int k = 0; k < R->nf; ++k) {
            int i    = 1 + (R->cur - 1 + k + R->nf) % R->nf;
            Fiber& f = R->f[i];
            if(f.state == F_STALL && f.wake != ~0ull && R->steps >= f.wake)
                f.state = F_RUN;
            if(f.state == F_RUN)
                cand[n++] = i;
            else if(f.state == F_STALL) {
                alive = true;
                if(f.wake == ~0ull)
                    fore = true;
                else if(f.wake < soon)
                    soon = f.wake;
            }
            else if(f.state == F_BLOCK)
                alive = true;
        }
        if(n == 0) {
            if(soon != ~0ull) {
                R->steps = soon;
                continue;
            }
            if(fore) {
                for(int i = 1; i <= R->nf; ++i)
                    if(R->f[i].state == F_BLOCK && R->opbound && R->f[i].in_op)
                        violate("blocking", "fiber %d waits for a thread that is stopped for ever", i);
                for(int i = 1; i <= R->nf; ++i)
                    if(R->f[i].state == F_STALL)
                        R->f[i].state = F_RUN;
                R->relaxed_done = true;
                continue;
            }
            if(alive)
                violate("deadlock", "all threads are blocked");
            // everything done: back to the harness
            switch_to(0);
            return;
        }
        u32 pick = 0;
        if(n > 1) {
            u32 rnd = 0;
            if(!R->replay) {
                bool own = cand[0] == R->cur && !must_leave;
                if(R->pct) {
                    for(u64 p : R->pct_pts)
                        if(p == R->steps)
                            R->f[cand[0]].prio = --R->pct_low;
                    for(int i = 1; i < n; ++i)
                        if(R->f[cand[i]].prio > R->f[cand[rnd]].prio)
                            rnd = i;
                }
                else if(R->prey) {
                    if(own && R->cur == R->prey)
                        rnd = 1 + R->srng.below(n - 1);
                    else if(!own || R->srng.chance(1, R->prey_den)) {
                        rnd = own ? 1 + R->srng.below(n - 1) : R->srng.below(n);
                        for(int i = 0; i < n; ++i)
                            if(own && cand[i] == R->prey)
                                rnd = i;
                    }
                }
                else if(own) {
                    if(R->srng.chance(R->sw_num, R->sw_den))
                        rnd = 1 + R->srng.below(n - 1);
                }
                else
                    rnd = R->srng.below(n);
            }
            pick = choose(n, rnd);
        }
        int t = cand[pick];
        if(t != R->cur) {
            ++R->w->st.switches;
            R->flags |= 2;
            mix(t);
            switch_to(t);
        }
        return;
    }
}

inline void visible() {
    RT* r    = R;
    Fiber& f = r->f[r->cur];
    ++f.acc;
    ++f.opacc;
    if(r->opbound && f.in_op && f.opacc > r->opbound)
        violate("op-bound", "operation of fiber %d is still running after %llu own accesses", r->cur,
                (unsigned long long)f.opacc);
    if(!r->par) {
        if(++r->steps > r->cap)
            violate("hang", "no end after %llu steps", (unsigned long long)r->steps);
        return;
    }
    if(r->cur == 0)
        return;
    // stalls are listed per fiber in increasing order of `at`
    for(auto& s : r->plan->stalls) {
        if(s.fiber + 1 == (u32)r->cur && s.at == f.acc && !(r->relaxed_done && s.len == FOREVER)) {
            f.state = F_STALL;
            f.wake  = s.len == FOREVER ? ~0ull : r->steps + s.len;
            ++r->w->st.stalls;
            if(s.len == FOREVER)
                ++r->w->st.forever_stalls;
            r->flags |= 8;
            tr("stalls %s", s.len == FOREVER ? "until the others are done" : "for a while");
        }
    }
    // a very long run: from here on a thread runs a while between two chances to be interrupted
    if(r->steps > LONG_RUN && (++r->thin & 31)) {
        if(++r->steps > r->cap)
            violate("hang", "no end after %llu steps", (unsigned long long)r->steps);
        return;
    }
    resched(false);
}

bool in_globals(u64 a) { return a - glo_lo() < glo_sz(); }

inline Cell* cell_of(u64 a) {
    if(a - ARENA < ARENA_SZ)
        return CELLS + (a - ARENA);
    return GCELLS + (a - glo_lo());
}
inline Cell& fresh_cell(Cell* c) {
    if(c->run != R->runno) {
        memset(c, 0, sizeof *c);
        c->run = R->runno;
    }
    return *c;
}

std::string where(u64 a) {
    char b[160];
    if(a - ARENA < ARENA_SZ) {
        u64 off = a - ARENA;
        const Block* best = nullptr;
        for(auto& k : R->blocks)
            if(off + 64 >= k.off && off < (u64)k.off + k.size + 64)
                if(!best || (off >= k.off && off < (u64)k.off + k.size))
                    best = &k;
        if(best)
            snprintf(b, sizeof b, "%s block of %u bytes at offset %lld", best->what, best->size,
                     (long long)off - (long long)best->off);
        else
            snprintf(b, sizeof b, "arena+%llu", (unsigned long long)off);
    }
    else
        snprintf(b, sizeof b, "global+%llu", (unsigned long long)(a - glo_lo()));
    return b;
}

void check_mem(u64 a, u64 n, const char* how) {
    if(a - ARENA >= ARENA_SZ)
        return;
    u64 off = a - ARENA;
    for(u64 i = 0; i < n; ++i) {
        u8 s = off + i < ARENA_SZ ? ST[off + i] : (u8)ST_NONE;
        if(s != ST_LIVE) {
            violate("mem", "%s of %llu bytes in %s memory (%s)", how, (unsigned long long)n,
                    s == ST_FREED ? "freed" : "unowned", where(a + i).c_str());
            return;
        }
    }
}

ALoc* loc_at(u64 a) {
    auto it = R->locs.find(a);
    return it == R->locs.end() ? nullptr : &it->second;
}

void atom_plain(u64 a, bool wr) {  // plain access to a byte belonging to an atomic object
    for(u64 b = a; b + 16 > a; --b) {
        ALoc* l = loc_at(b);
        if(l && b + l->size > a) {
            Fiber& f = R->f[R->cur];
            for(int g = 0; g < MAXF; ++g)
                if(g != R->cur && (l->awr[g] > f.vc.c[g] || (wr && l->ard[g] > f.vc.c[g])))
                    violate("race", "plain %s of %s races with an atomic access by fiber %d",
                            wr ? "write" : "read", where(a).c_str(), g);
            if(wr)
                l->dirty = true;
            return;
        }
        if(a - b > 16)
            return;
    }
}

void race_check(u64 a, u64 n, bool wr, bool atomic) {
    int me   = R->cur;
    Fiber& f = R->f[me];
    for(u64 i = 0; i < n; ++i) {
        Cell& c = fresh_cell(cell_of(a + i));
        if(c.wclk && c.wfid != me && c.wclk > f.vc.c[c.wfid]) {
            violate("race", "%s%s of %s races with a write by fiber %d", atomic ? "atomic " : "",
                    wr ? "write" : "read", where(a + i).c_str(), c.wfid);
            c.wclk = 0;
        }
        if(wr)
            for(int g = 0; g < MAXF; ++g)
                if(g != me && c.rclk[g] > f.vc.c[g]) {
                    violate("race", "%swrite of %s races with a read by fiber %d",
                            atomic ? "atomic " : "", where(a + i).c_str(), g);
                    c.rclk[g] = 0;
                }
        if(!atomic) {
            if(c.atom)
                atom_plain(a + i, wr);
            if(wr) {
                c.wclk = f.vc.c[me];
                c.wfid = me;
            }
            else
                c.rclk[me] = f.vc.c[me];
        }
        else
            c.atom = 1;
    }
}

void access(const void* p, u64 n, bool wr) {
    u64 a = (u64)p;
    if(!(a - ARENA < ARENA_SZ || (R->globals && R->par && in_globals(a))))
        return;
    if(!R->active || R->quiet)
        return;
    visible();
    mix((a & 0xffffffffffull) * 2 + wr + ((u64)R->cur << 56));
    if(R->tracing && R->par)
        tr("%s %llu @%s", wr ? "write" : "read", (unsigned long long)n, where(a).c_str());
    check_mem(a, n, wr ? "write" : "read");
    if(R->par)
        race_check(a, n, wr, false);
    else if(wr && !R->locs.empty()) {
        for(u64 i = 0; i < n; ++i) {
            Cell& c = fresh_cell(cell_of(a + i));
            if(c.atom)
                atom_plain(a + i, true);
        }
    }
}

// ------------------------------------------------------------------ atomics
inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
constexpr int SC = 5;

inline bool atomic_tracked(u64 a) {
    return R->active && !R->quiet && (a - ARENA < ARENA_SZ || in_globals(a));
}

u64 rawget(const volatile void* p, int n) {
    u64 v = 0;
    memcpy(&v, (const void*)p, n);
    return v;
}
void rawset(volatile void* p, int n, u64 v) { memcpy((void*)p, &v, n); }

ALoc& prep(u64 a, int n, bool wr) {
    check_mem(a, n, wr ? "atomic write" : "atomic read");
    if(R->globals || a - ARENA < ARENA_SZ)
        race_check(a, n, wr, true);
    ALoc& l = R->locs[a];
    if(l.size != n)
        l.dirty = true;
    l.size = n;
    if(l.dirty) {
        l.reset();
        AStore s{};
        s.val = rawget((void*)a, n);
        s.fid = 0;
        l.st.push_back(s);
        l.dirty = false;
    }
    return l;
}

void read_from(ALoc& l, u32 idx, int mo) {
    Fiber& f        = R->f[R->cur];
    const AStore& s = l.st[idx];
    if(is_acq(mo))
        f.vc.join(s.rel);
    else
        f.pend_acq.join(s.rel);
    auto& rd = l.rd[R->cur];
    if(rd.empty() || rd.back().idx != idx)
        rd.push_back({f.vc.c[R->cur], idx});
    l.ard[R->cur] = f.vc.c[R->cur];
}

u64 do_load(u64 a, int n, int mo) {
    mo &= 0xf;
    visible();
    ALoc& l  = prep(a, n, false);
    Fiber& f = R->f[R->cur];
    ++R->w->st.loads;
    u32 last = l.st.size() - 1, lo = 0;
    if(R->par) {
        for(u32 i = last; i > 0; --i)
            if(l.st[i].epoch <= f.vc.c[l.st[i].fid]) {
                lo = i;
                break;
            }
        for(int g = 0; g < MAXF; ++g)
            for(size_t k = l.rd[g].size(); k-- > 0;)
                if(l.rd[g][k].epoch <= f.vc.c[g]) {
                    if(l.rd[g][k].idx > lo)
                        lo = l.rd[g][k].idx;
                    break;
                }
        if(mo == SC && l.last_sc > lo)
            lo = l.last_sc;
        if(f.fresh)
            lo = last;
    }
    else
        lo = last;
    u32 back = 0;
    if(last > lo) {
        u32 rnd = 0;
        if(!R->replay && R->creep)
            rnd = last - lo - 1;
        else if(!R->replay && R->srng.chance(R->stale_num, R->stale_den))
            rnd = R->srng.chance(1, 3) ? last - lo : 1 + R->srng.below(last - lo);
        back = choose(last - lo + 1, rnd);
        if(back) {
            ++R->w->st.stale;
            R->flags |= 4;
        }
    }
    u64 v = l.st[last - back].val;
    read_from(l, last - back, mo);
    mix(a * 3 + v);
    tr("atomic load(mo %d) @%s = %llu%s", mo, where(a).c_str(), (unsigned long long)v,
       back ? " (stale)" : "");
    return v;
}

void push_store(ALoc& l, u64 v, int mo, const VC* prev_rel) {
    Fiber& f = R->f[R->cur];
    AStore s{};
    s.val = v;
    s.fid = R->cur;
    if(is_rel(mo))
        s.rel = f.vc;
    else
        s.rel = f.rel_fence;
    if(prev_rel)
        s.rel.join(*prev_rel);
    s.epoch        = f.vc.c[R->cur];
    s.sc           = mo == SC;
    l.awr[R->cur]  = f.vc.c[R->cur];
    l.st.push_back(s);
    if(s.sc)
        l.last_sc = l.st.size() - 1;
    ++f.vc.c[R->cur];
}

void do_store(u64 a, int n, u64 v, int mo) {
    mo &= 0xf;
    visible();
    ALoc& l = prep(a, n, true);
    push_store(l, v, mo, nullptr);
    rawset((void*)a, n, v);
    mix(a * 5 + v);
    tr("atomic store(mo %d) @%s = %llu", mo, where(a).c_str(), (unsigned long long)v);
}

template<typename F>
u64 do_rmw(u64 a, int n, int mo, F f) {
    mo &= 0xf;
    visible();
    ALoc& l = prep(a, n, true);
    u32 last = l.st.size() - 1;
    u64 old  = l.st[last].val;
    VC prel  = l.st[last].rel;
    read_from(l, last, mo);
    u64 nv = f(old);
    push_store(l, nv, mo, &prel);
    rawset((void*)a, n, nv);
    mix(a * 7 + nv);
    tr("atomic rmw(mo %d) @%s %llu -> %llu", mo, where(a).c_str(), (unsigned long long)old,
       (unsigned long long)nv);
    return old;
}

bool do_cas(u64 a, int n, u64& exp, u64 des, int mo, int fmo, bool weak) {
    mo &= 0xf;
    fmo &= 0xf;
    visible();
    ALoc& l  = prep(a, n, true);
    u32 last = l.st.size() - 1;
    u64 old  = l.st[last].val;
    if(old == exp) {
        if(weak && R->par) {
            u32 rnd = 0;
            if(!R->replay && R->srng.chance(1, 16))
                rnd = 1;
            if(choose(2, rnd)) {
                read_from(l, last, fmo);
                return false;
            }
        }
        VC prel = l.st[last].rel;
        read_from(l, last, mo);
        push_store(l, des, mo, &prel);
        rawset((void*)a, n, des);
        mix(a * 11 + des);
        tr("atomic cas(mo %d) @%s %llu -> %llu", mo, where(a).c_str(), (unsigned long long)old,
           (unsigned long long)des);
        return true;
    }
    exp = old;
    read_from(l, last, fmo);
    tr("atomic cas failed @%s = %llu", where(a).c_str(), (unsigned long long)old);
    return false;
}

void do_fence(int mo) {
    mo &= 0xf;
    if(!R->active || R->quiet)
        return;
    visible();
    Fiber& f = R->f[R->cur];
    if(is_acq(mo))
        f.vc.join(f.pend_acq);
    if(mo == SC) {
        f.vc.join(R->sc);
        R->sc.join(f.vc);
    }
    if(is_rel(mo)) {
        f.rel_fence = f.vc;
        ++f.vc.c[R->cur];
    }
    tr("fence(mo %d)", mo);
}

// ------------------------------------------------------------------ heap
void fill(u64 off, u64 n, u8 v) { memset((void*)(ARENA + off), v, n); }

void* arena_block(std::size_t n, std::size_t align, u32 owner, const char* what, bool root) {
    u64 off = R->brk + 32;
    off     = (off + 15) / 16 * 16;
    off     = (off + align - 1) / align * align;
    if((off / align) % 2 == 0)  // exactly the requested alignment, not twice that
        off += align;
    u64 sz = n ? n : 1;
    if(off + sz + 64 > R->room) {
        violate("hang", "the run uses too much memory");
        return nullptr;
    }
    memset(ST + R->brk, ST_RED, off - R->brk);
    memset(ST + off, ST_LIVE, n);
    u64 end = (off + sz + 15) / 16 * 16 + 32;
    memset(ST + off + n, ST_RED, end - off - n);
    fill(off, sz, 0xA5);
    if(R->par)
        for(u64 i = 0; i < n; ++i)
            CELLS[off + i].run = 0;
    R->brk = end;
    if(end > R->high)
        R->high = end;
    BLK[off / 16] = R->blocks.size();
    R->blocks.push_back({(u32)off, (u32)n, (u32)align, owner, 1, root, what});
    return (void*)(ARENA + off);
}

int kind_bit(u32 k) {
    int b = 0;
    while(k > 1) {
        k >>= 1;
        ++b;
    }
    return b;
}

}  // namespace

bool in_arena(const void* p) { return (u64)p - ARENA < ARENA_SZ; }
u64 arena_off(const void* p) { return (u64)p - ARENA; }

bool fault_point(u32 kind) {
    if(!R->active)
        return false;
    Fiber& f = R->f[R->cur];
    if(!(f.fmask & kind))
        return false;
    if(f.ffired && !f.fpersist)
        return false;
    if(!f.ffired) {
        if(f.fleft > 1) {
            --f.fleft;
            return false;
        }
        f.ffired = true;
    }
    f.fkind       = kind;
    f.last_fault  = ++R->fault_seq;
    ++R->w->st.fault_fired[kind_bit(kind)];
    R->flags |= 1;
    mix(0xFA000 + kind);
    tr("INJECTED failure %s #%llu",
       kind == F_ALLOC  ? "allocation"
       : kind == F_CTOR ? "constructor"
       : kind == F_COPY ? "copy"
       : kind == F_MOVE ? "move"
       : kind == F_ASSIGN ? "assignment"
       : kind == F_CALL ? "call"
                        : "system call",
       (unsigned long long)f.last_fault);
    return true;
}
void maybe_throw(u32 kind) {
    if(!fault_point(kind))
        return;
    if(R->hash & 64)
        throw StdFault(kind, R->f[R->cur].last_fault);
    throw Fault{kind, R->f[R->cur].last_fault};
}
u64 last_fault_id() { return R->f[R->cur].last_fault; }
bool failure_happened() { return R->fault_seq != 0; }

void* heap_alloc(std::size_t n, std::size_t align, u32 owner, const char* what, bool faultable) {
    Fiber& f = R->f[R->cur];
    ++f.allocs;
    ++R->w->st.allocs;
    if(n > R->room / 4)
        throw std::bad_alloc();
    if(faultable && fault_point(F_ALLOC))
        throw std::bad_alloc();
    void* p = arena_block(n, align, owner, what, false);
    mix(0xA110C + n);
    tr("alloc %zu -> arena+%llu (%s)", n, (unsigned long long)arena_off(p), what);
    return p;
}

void heap_free(void* p, std::size_t n, std::size_t align, u32 owner, const char* what) {
    (void)align;
    if(!in_arena(p)) {
        violate("free", "%s of a pointer that no allocation returned (%s)", what, p ? "foreign" : "null");
        return;
    }
    u64 off = arena_off(p);
    u32 id  = BLK[off / 16];
    if(id >= R->blocks.size() || R->blocks[id].off != off) {
        violate("free", "%s of a pointer into the middle of memory: %s", what, where((u64)p).c_str());
        return;
    }
    Block& b = R->blocks[id];
    if(b.state != 1 || b.root) {
        violate("free", "%s of %s a second time", what, where((u64)p).c_str());
        return;
    }
    if(b.owner != owner)
        violate("free", "%s of a block of another allocator (%s, owner %u, returned to %u)", what, b.what,
                b.owner, owner);
    else if(n != ~0ull && n != b.size)
        violate("free", "%s of a block of %u bytes with size %zu", what, b.size, n);
    auto it = R->life.lower_bound((u64)p);
    if(it != R->life.end() && it->first < (u64)p + b.size)
        violate("free-live", "%s of a block that still holds a live object", what);
    if(R->par && !R->quiet)
        race_check((u64)p, b.size, true, false);
    memset(ST + off, ST_FREED, b.size);
    fill(off, b.size, 0xDD);
    b.state = 2;
    mix(0xF4EE + off);
    tr("free arena+%llu (%s)", (unsigned long long)off, what);
}

void* root_alloc(std::size_t n, std::size_t align) {
    if(n > R->room / 4)
        return nullptr;
    return arena_block(n, align, 0, "object", true);
}
void root_free(void* p) {
    u64 off  = arena_off(p);
    Block& b = R->blocks[BLK[off / 16]];
    auto it  = R->life.lower_bound((u64)p);
    if(it != R->life.end() && it->first < (u64)p + b.size)
        violate("leak-obj", "an object is gone but something inside it was never destroyed");
    memset(ST + off, ST_FREED, b.size);
    fill(off, b.size, 0xDD);
    b.state = 2;
}

bool heap_ok(const void* p, std::size_t n) {
    if(!in_arena(p))
        return false;
    u64 off = arena_off(p);
    for(std::size_t i = 0; i < n; ++i)
        if(off + i >= ARENA_SZ || ST[off + i] != ST_LIVE)
            return false;
    return true;
}
std::size_t live_blocks() {
    std::size_t n = 0;
    for(auto& b : R->blocks)
        n += b.state == 1 && !b.root;
    return n;
}
void check_no_leaks() {
    for(auto& b : R->blocks)
        if(b.state == 1 && !b.root) {
            violate("leak", "a block of %u bytes (%s) was never returned", b.size, b.what);
            break;
        }
    if(!R->life.empty())
        violate("leak-obj", "%zu objects were never destroyed", R->life.size());
}

// ------------------------------------------------------------------ lifetimes
void life_construct(const void* p, std::size_t n, const char* how) {
    u64 a = (u64)p;
    ++R->w->st.ctors;
    if(in_arena(p))
        check_mem(a, n, how);
    auto it = R->life.lower_bound(a);
    bool hit = it != R->life.end() && it->first < a + n;
    if(!hit && it != R->life.begin()) {
        auto q = std::prev(it);
        hit    = q->first + q->second.size > a;
    }
    if(hit) {
        violate("life", "%s over an object that is still alive (%s)", how,
                in_arena(p) ? where(a).c_str() : "stack");
        // recover: the old object is replaced
        while((it = R->life.lower_bound(a)) != R->life.end() && it->first < a + n)
            R->life.erase(it);
    }
    R->life[a] = {(u32)n};
}
void life_destroy(const void* p) {
    auto it = R->life.find((u64)p);
    if(it == R->life.end()) {
        violate("life", "destruction of an object that is not alive (%s)",
                in_arena(p) ? where((u64)p).c_str() : "stack");
        return;
    }
    R->life.erase(it);
}
bool life_use(const void* p, const char* how) {
    if(R->life.count((u64)p))
        return true;
    violate("life", "%s of an object that is not alive (%s)", how,
            in_arena(p) ? where((u64)p).c_str() : "stack");
    return false;
}
bool life_live(const void* p) { return R->life.count((u64)p); }
std::size_t live_objects() { return R->life.size(); }
std::size_t live_in_arena() {
    auto a = R->life.lower_bound(ARENA), b = R->life.lower_bound(ARENA + ARENA_SZ);
    return std::distance(a, b);
}

// ------------------------------------------------------------------ misc interface
const char* prop() { return R->prop; }
bool prop_is(const char* id) { return !strcmp(R->prop, id); }
bool tracing() { return R->tracing; }
u64 steps() { return R->steps; }
u64 stamp() { return ++R->stamps; }

void violate(const char* cls, const char* fmt, ...) {
    if(!R->active)
        return;
    char msg[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(msg, sizeof msg, fmt, ap);
    va_end(ap);
    if(always_relevant(cls) || harness.relevant(R->prop, cls) || !strcmp(R->prop, "ANY"))
        report(cls, msg);
    bump(R->w->st.ignored, cls);
    mix(0xBAD);
    tr("(not this property) %s: %s", cls, msg);
    ++R->viol_ignored;
    if(!strcmp(cls, "op-bound"))
        R->f[R->cur].opacc = 0;
}
void probe(const char* name) { bump(R->w->st.probes, name); }
void event(u32 kind, u64 a, u64 b) { mix(kind * 0x10001ull + a * 31 + b); }
void cover(u64 h) {
    h ^= h >> 31;
    h *= 0x9E3779B97F4A7C15ull;
    h >>= 64 - 22;
    R->sh->states[h / 8] |= 1 << (h % 8);
}
void note(const char* fmt, ...) {
    if(!R->tracing)
        return;
    char msg[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(msg, sizeof msg, fmt, ap);
    va_end(ap);
    tr("%s", msg);
}

SutScope::SutScope() { ++R->f[R->cur].sut; }
SutScope::~SutScope() { --R->f[R->cur].sut; }
HarnessScope::HarnessScope() {
    ++R->quiet;
    R->f[R->cur].sut += -1000;
}
HarnessScope::~HarnessScope() {
    --R->quiet;
    R->f[R->cur].sut -= -1000;
}

int self() { return R->cur; }
void op_begin(const Step* s) {
    Fiber& f  = R->f[R->cur];
    f.opacc   = 0;
    f.allocs  = 0;
    f.in_op   = true;
    f.fmask   = s ? s->fault & 0x7f : 0;
    f.fleft   = s ? s->fault_n : 0;
    f.fpersist = s && (s->fault & F_PERSIST);
    f.ffired  = false;
    f.fkind   = 0;
    if(s) {
        if(s->op < NOPS)
            ++R->w->st.ops[s->op];
        for(int i = 0; i < 7; ++i)
            if(f.fmask >> i & 1)
                ++R->w->st.fault_armed[i];
        mix(s->op * 1000003ull + s->a * 31 + s->b * 7 + s->c);
        if(R->tracing)
            tr("op %s(%u,%u,%u)%s", harness.op_name(s->op), s->a, s->b, s->c,
               s->fault ? " [failure armed]" : "");
    }
}
u64 op_steps() { return R->f[R->cur].opacc; }
void op_tick() { R->f[R->cur].opacc = 0; }
void op_end() {
    Fiber& f = R->f[R->cur];
    f.in_op  = false;
    f.fmask  = 0;
}
bool fault_fired() { return R->f[R->cur].ffired; }
u32 fault_kind() { return R->f[R->cur].fkind; }
u64 op_allocs() { return R->f[R->cur].allocs; }
void set_run_bound(u64 n) { R->cap = n; }
void set_huge() {
    R->cap  = 100000000;
    R->room = ARENA_SZ;
}
void set_op_bound(u64 n) { R->opbound = n; }
void set_fresh(bool on) { R->f[R->cur].fresh = on; }
void yield_point() {
    if(R->active && R->par && R->cur)
        visible();
}
bool stalled_forever_exists() {
    for(int i = 1; i <= R->nf; ++i)
        if(R->f[i].state == F_STALL && R->f[i].wake == ~0ull)
            return true;
    return false;
}

extern "C" void sim_fiber_main() {
    int id = R->cur;
    try {
        R->f[id].body();
    } catch(const Fault& f) {
        violate("uncaught", "injected failure escaped from fiber %d", id);
    } catch(...) {
        violate("uncaught", "an exception escaped from fiber %d", id);
    }
    tr("thread ends");
    R->f[id].state = F_DONE;
    resched(true);
    abort();
}

void parallel(std::vector<std::function<void()>> bodies) {
    RT* r = R;
    int n = (int)bodies.size();
    if(n == 0)
        return;
    if(n >= MAXF)
        abort();
    r->nf           = n;
    r->relaxed_done = false;
    Fiber& m        = r->f[0];
    ++m.vc.c[0];
    for(int i = 1; i <= n; ++i) {
        Fiber& f = r->f[i];
        f.body   = std::move(bodies[i - 1]);
        f.state  = F_RUN;
        f.vc.join(m.vc);
        ++f.vc.c[i];
        f.pend_acq = VC{};
        f.rel_fence = VC{};
        f.in_op = f.fresh = false;
        f.fmask           = 0;
        f.sut             = 0;
        f.eh[0] = f.eh[1] = nullptr;
        f.tls.clear();
        f.prio = 100 + r->srng.below(1000);
        memset(f.stack + STACK_SZ - STACK_PAINT, 0xCB, STACK_PAINT);
        u64* sp = (u64*)(f.stack + STACK_SZ - 72);
        *--sp   = 0;
        *--sp   = (u64)&sim_tramp;
        for(int k = 0; k < 6; ++k)
            *--sp = 0;
        f.sp = sp;
    }
    ++m.vc.c[0];
    m.state = F_BLOCK;
    r->par  = true;
    // the first thread to run is a choice as well
    {
        u32 pick = n > 1 ? choose(n, r->replay ? 0 : r->srng.below(n)) : 0;
        switch_to(1 + pick);
    }
    r->par = false;
    for(int i = 1; i <= n; ++i) {
        m.vc.join(r->f[i].vc);
        r->f[i].body = nullptr;
    }
    r->nf = 0;
}

// ------------------------------------------------------------------ mutexes, futexes (not used by
// the library today; a lock in a supposedly wait-free operation must be seen)
namespace {
void block_until(u64 key) {
    Fiber& f   = R->f[R->cur];
    f.state    = F_BLOCK;
    f.block_on = key;
    tr("blocks");
    resched(true);
}
void wake(u64 key) {
    for(int i = 1; i <= R->nf; ++i)
        if(R->f[i].state == F_BLOCK && R->f[i].block_on == key)
            R->f[i].state = F_RUN;
}
}  // namespace
// hand-over between threads that the test itself provides (external synchronisation)
void post(u32 id) {
    Sem& s = R->sem[id];
    ++s.n;
    s.rel.join(R->f[R->cur].vc);
    ++R->f[R->cur].vc.c[R->cur];
    wake(id + 1);
    tr("hands over %u", id);
}
void wait(u32 id) {
    Sem& s = R->sem[id];
    while(s.n == 0)
        block_until(id + 1);
    --s.n;
    R->f[R->cur].vc.join(s.rel);
    tr("takes over %u", id);
}
namespace {
int mutex_lock(u64 a, bool try_only) {
    if(!R->active || R->quiet)
        return 0;
    visible();
    for(;;) {
        Mutex& m = R->mtx[a];
        if(m.owner < 0 || m.owner == R->cur) {
            m.owner = R->cur;
            ++m.count;
            R->f[R->cur].vc.join(m.rel);
            return 0;
        }
        if(try_only)
            return EBUSY;
        if(!R->par || R->cur == 0)
            violate("deadlock", "lock never released");
        block_until(a);
    }
}
int mutex_unlock(u64 a) {
    if(!R->active || R->quiet)
        return 0;
    visible();
    Mutex& m = R->mtx[a];
    if(m.count > 0 && --m.count == 0) {
        m.rel   = R->f[R->cur].vc;
        m.owner = -1;
        ++R->f[R->cur].vc.c[R->cur];
        wake(a);
    }
    return 0;
}
}  // namespace
}  // namespace sim

using namespace sim;

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return mutex_lock((u64)m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return mutex_lock((u64)m, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return mutex_unlock((u64)m); }
int sched_yield() noexcept {
    if(R->active && R->par && R->cur) {
        visible();
        resched(true);
    }
    return 0;
}
int nanosleep(const timespec*, timespec*) {
    sched_yield();
    return 0;
}
int clock_nanosleep(clockid_t, int, const timespec*, timespec*) {
    sched_yield();
    return 0;
}

// function-local statics
int __cxa_guard_acquire(u64* g) {
    char* b = (char*)g;
    for(;;) {
        if(*b)
            return 0;
        if(!b[1]) {
            b[1] = 1;
            return 1;
        }
        if(!R->active || !R->par)
            abort();
        block_until((u64)g);
    }
}
void __cxa_guard_release(u64* g) {
    char* b = (char*)g;
    if(atomic_tracked((u64)g))
        do_store((u64)g, 1, 1, 3);
    *b   = 1;
    b[1] = 0;
    if(R->active && R->par)
        wake((u64)g);
}
void __cxa_guard_abort(u64* g) {
    ((char*)g)[1] = 0;
    if(R->active && R->par)
        wake((u64)g);
}

void __assert_fail(const char* e, const char* file, unsigned line, const char*) noexcept {
    const char* s = strrchr(file, '/');
    if(R->active) {
        char m[300];
        snprintf(m, sizeof m, "assertion failed: %s (%s:%u)", e, s ? s + 1 : file, line);
        report("assert", m);
    }
    fprintf(stderr, "assertion failed: %s %s:%u\n", e, file, line);
    _exit(3);
}

// ---- instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                          \
    void __tsan_read##n(void* p) { access(p, n, false); }              \
    void __tsan_write##n(void* p) { access(p, n, true); }              \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); }    \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true); }    \
    void __tsan_volatile_read##n(void* p) { access(p, n, false); }     \
    void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) {
    if(n > 0)
        access(p, n, false);
}
void __tsan_write_range(void* p, long n) {
    if(n > 0)
        access(p, n, true);
}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }

#define AT(bits, T)                                                                                 \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) {                                     \
        return atomic_tracked((u64)p) ? (T)do_load((u64)p, bits / 8, mo) : *p;                      \
    }                                                                                               \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {                                  \
        if(atomic_tracked((u64)p))                                                                  \
            do_store((u64)p, bits / 8, (u64)v, mo);                                                 \
        else                                                                                        \
            *p = v;                                                                                 \
    }                                                                                               \
    AT_RMW(bits, T, exchange, v)                                                                    \
    AT_RMW(bits, T, fetch_add, (T)(o + v))                                                          \
    AT_RMW(bits, T, fetch_sub, (T)(o - v))                                                          \
    AT_RMW(bits, T, fetch_and, (T)(o & v))                                                          \
    AT_RMW(bits, T, fetch_or, (T)(o | v))                                                           \
    AT_RMW(bits, T, fetch_xor, (T)(o ^ v))                                                          \
    AT_RMW(bits, T, fetch_nand, (T) ~(o & v))                                                       \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) {  \
        return cas_any<T>(p, c, v, mo, fmo, false);                                                 \
    }                                                                                               \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) {    \
        return cas_any<T>(p, c, v, mo, fmo, true);                                                  \
    }                                                                                               \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) {        \
        T e = c;                                                                                    \
        cas_any<T>(p, &e, v, mo, fmo, false);                                                       \
        return e;                                                                                   \
    }
#define AT_RMW(bits, T, name, expr)                                                    \
    T __tsan_atomic##bits##_##name(volatile T* p, T v, int mo) {                       \
        auto fn = [&](u64 ov) -> u64 {                                                 \
            T o = (T)ov;                                                               \
            (void)o;                                                                   \
            return (u64)(T)(expr);                                                     \
        };                                                                             \
        if(atomic_tracked((u64)p))                                                     \
            return (T)do_rmw((u64)p, bits / 8, mo, fn);                                \
        T o = *p;                                                                      \
        *p  = (T)fn((u64)o);                                                           \
        return o;                                                                      \
    }
}
template<typename T>
static int cas_any(volatile T* p, T* c, T v, int mo, int fmo, bool weak) {
    if(atomic_tracked((u64)p)) {
        u64 e  = (u64)*c;
        bool r = do_cas((u64)p, sizeof(T), e, (u64)v, mo, fmo, weak);
        if(!r)
            *c = (T)e;
        return r;
    }
    if(*p == *c) {
        *p = v;
        return 1;
    }
    *c = *p;
    return 0;
}
extern "C" {
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, unsigned int)
AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { do_fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ---- memory functions called by instrumented code (redirected by objcopy)
void* sim_memcpy(void* d, const void* s, size_t n) {
    if(n) {
        access(s, n, false);
        access(d, n, true);
    }
    return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) {
    if(n) {
        access(s, n, false);
        access(d, n, true);
    }
    return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) {
    if(n)
        access(d, n, true);
    return memset(d, c, n);
}
int sim_memcmp(const void* a, const void* b, size_t n) {
    if(n) {
        access(a, n, false);
        access(b, n, false);
    }
    return memcmp(a, b, n);
}
size_t sim_strlen(const char* s) {
    size_t n = strlen(s);
    access(s, n + 1, false);
    return n;
}
static bool in_sut() { return R->active && R->f[R->cur].sut > 0; }
void* sim_malloc(size_t n) {
    if(!in_sut())
        return malloc(n);
    try {
        return heap_alloc(n, 16, 2, "malloc", true);
    } catch(...) {
        return nullptr;
    }
}
void* sim_calloc(size_t a, size_t b) {
    if(!in_sut())
        return calloc(a, b);
    void* p = sim_malloc(a * b);
    if(p)
        memset(p, 0, a * b);
    return p;
}
void sim_free(void* p) {
    if(p && in_arena(p))
        heap_free(p, ~0ull, 0, 2, "free()");
    else
        free(p);
}
}

// ------------------------------------------------------------------ global operator new/delete
static void* gnew(size_t n, size_t al) {
    if(in_sut())
        return heap_alloc(n, al, 1, "operator new", true);
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if(!p)
        throw std::bad_alloc();
    return p;
}
static void gdel(void* p, size_t n) {
    if(!p)
        return;
    if(in_arena(p)) {
        if(R->active)
            heap_free(p, n, 0, 1, "operator delete");
    }
    else if(in_sut()) {
        // memory obtained outside the code under test may legally be released inside it
        free(p);
    }
    else
        free(p);
}
// The harness object's references to operator new/delete are redirected to these (see build.py), so
// that neither this runtime nor libstdc++.so allocates from the simulated heap.
static void* gnew_nt(size_t n, size_t al) noexcept {
    try {
        return gnew(n, al);
    } catch(...) {
        return nullptr;
    }
}
extern "C" {
void* sim_Znwm(size_t n) { return gnew(n, 16); }
void* sim_Znam(size_t n) { return gnew(n, 16); }
void* sim_ZnwmSt11align_val_t(size_t n, size_t a) { return gnew(n, a); }
void* sim_ZnamSt11align_val_t(size_t n, size_t a) { return gnew(n, a); }
void* sim_ZnwmRKSt9nothrow_t(size_t n, const void*) { return gnew_nt(n, 16); }
void* sim_ZnamRKSt9nothrow_t(size_t n, const void*) { return gnew_nt(n, 16); }
void* sim_ZnwmSt11align_val_tRKSt9nothrow_t(size_t n, size_t a, const void*) { return gnew_nt(n, a); }
void* sim_ZnamSt11align_val_tRKSt9nothrow_t(size_t n, size_t a, const void*) { return gnew_nt(n, a); }
void sim_ZdlPv(void* p) { gdel(p, ~0ull); }
void sim_ZdaPv(void* p) { gdel(p, ~0ull); }
void sim_ZdlPvm(void* p, size_t n) { gdel(p, n); }
void sim_ZdaPvm(void* p, size_t n) { gdel(p, n); }
void sim_ZdlPvSt11align_val_t(void* p, size_t) { gdel(p, ~0ull); }
void sim_ZdaPvSt11align_val_t(void* p, size_t) { gdel(p, ~0ull); }
void sim_ZdlPvmSt11align_val_t(void* p, size_t n, size_t) { gdel(p, n); }
void sim_ZdaPvmSt11align_val_t(void* p, size_t n, size_t) { gdel(p, n); }
void sim_ZdlPvRKSt9nothrow_t(void* p, const void*) { gdel(p, ~0ull); }
void sim_ZdaPvRKSt9nothrow_t(void* p, const void*) { gdel(p, ~0ull); }
}

// ------------------------------------------------------------------ one run
namespace {
u64 mix64(u64 a, u64 b) {
    Rng r(a ^ (b * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull));
    r.next();
    return r.next();
}
u64 hash_str(const char* s) {
    u64 h = 1469598103934665603ull;
    while(*s)
        h = (h ^ (u8)*s++) * 1099511628211ull;
    return h;
}

void strategy(u64 seed) {
    RT* r   = R;
    r->srng = Rng(seed ^ 0x5bd1e9955bd1e995ull);
    static const u32 dens[] = {2, 3, 5, 8, 16, 40, 120};
    r->sw_num = 1;
    r->sw_den = dens[r->srng.below(7)];
    static const u32 stale[] = {0, 1, 2, 4, 6};
    r->stale_num = stale[r->srng.below(5)];
    r->stale_den = 8;
    r->pct       = r->srng.chance(1, 4);
    r->pct_low   = 50;
    r->creep     = r->srng.chance(1, 10);
    r->prey      = r->srng.chance(1, 10) ? 1 + r->srng.below(2) : 0;
    r->prey_den  = 1u << r->srng.range(2, 9);
    r->pct_pts.clear();
    if(r->pct) {
        u32 d = r->srng.range(1, 4), span = 1u << r->srng.range(5, 11);
        for(u32 i = 0; i < d; ++i)
            r->pct_pts.push_back(1 + r->srng.below(span));
    }
}

void reset_run() {
    RT* r = R;
    memcpy(__data_start, r->snap_data.data(), r->snap_data.size());
    memcpy(__bss_start, r->snap_bss.data(), r->snap_bss.size());
    if(r->tls_size)
        memcpy(r->tls_base, r->tls_init.data(), r->tls_size);
    ++r->runno;
    memset(ST, 0, r->high);
    r->room = ARENA_RUN;
    r->brk = r->high = 4096;
    memset(ST, ST_RED, 4096);
    r->blocks.clear();
    r->blocks.reserve(256);
    r->locs.clear();
    r->life.clear();
    r->mtx.clear();
    for(auto& m : r->sem)
        m = Sem{};
    r->sc = VC{};
    r->steps = 0;
    r->thin  = r->stamps = 0;
    r->cap   = 4000000;
    r->opbound = 0;
    r->dec   = 0;
    r->rpos  = 0;
    r->fault_seq = 0;
    r->hash  = 0x1234567;
    r->flags = 0;
    r->quiet = 0;
    r->viol_ignored = 0;
    r->nf    = 0;
    r->par   = false;
    for(int i = 0; i < MAXF; ++i) {
        Fiber& f = r->f[i];
        f.vc = f.pend_acq = f.rel_fence = VC{};
        f.vc.c[i]                       = 1;
        f.acc = f.opacc = 0;
        f.in_op = f.fresh = false;
        f.fmask           = 0;
        f.ffired          = false;
        f.last_fault      = 0;
        f.sut             = 0;
        f.allocs          = 0;
        f.state           = F_DONE;
        f.tls.clear();
        f.eh[0] = f.eh[1] = nullptr;
    }
    r->w->nch      = 0;
    r->w->overflow = false;
    r->w->v.set    = false;
}

// The harness itself runs on a fiber with a painted stack, so that reads of uninitialised stack
// memory do not depend on what ran before in this process.
extern "C" void sim_root_main() {
    for(;;) {
        try {
            harness.run(*R->plan);
        } catch(const Fault&) {
            violate("uncaught", "injected failure escaped");
        } catch(const std::exception& e) {
            violate("uncaught", "exception escaped: %s", e.what());
        } catch(...) {
            violate("uncaught", "an exception escaped");
        }
        void** h = (void**)(RT_ADDR - 4096 + 64);
        void* dummy;
        sim_switch(&dummy, *h);
    }
}
asm(R"(
.text
.globl sim_root_tramp
.type sim_root_tramp,@function
sim_root_tramp:
    xorl %ebp, %ebp
    pushq $0
    jmp sim_root_main
.size sim_root_tramp,.-sim_root_tramp
)");
extern "C" void sim_root_tramp();

void run_once(const Plan& p) {
    RT* r     = R;
    r->plan   = &p;
    r->active = true;
    r->cur    = 0;
    char* st  = r->f[0].stack;
    memset(st + STACK_SZ - 2 * STACK_PAINT, 0xCB, 2 * STACK_PAINT);
    u64* sp = (u64*)(st + STACK_SZ - 72);
    *--sp   = 0;
    *--sp   = (u64)&sim_root_tramp;
    for(int k = 0; k < 6; ++k)
        *--sp = 0;
    for(int i = 0; i < NCFG; ++i)
        mix(p.cfg[i]);
    for(int t = 0; t < NTHR; ++t)
        for(auto& s : p.thr[t]) {
            mix(s.op * 131 + s.a + s.b * 7 + s.c * 13);
            mix(s.fault * 64 + s.fault_n);
        }
    void** host = (void**)(RT_ADDR - 4096 + 64);
    r->tick_steps = 0;
    alarm(20);
    sim_switch(host, sp);
    r->active   = false;
    r->w->hash  = r->hash;
    r->w->steps = r->steps;
    r->w->flags = r->flags;
}

void on_signal(int sig) {
    if(R->active) {
        char m[100];
        if(sig == SIGALRM) {
            if(R->steps > R->tick_steps) {  // slow, but it advances; the number of steps is bounded
                R->tick_steps = R->steps;
                alarm(20);
                return;
            }
            report("hang", "no visible access within the wall clock limit");
        }
        snprintf(m, sizeof m, "signal %d (%s)", sig, strsignal(sig));
        report("crash", m);
    }
    signal(sig, SIG_DFL);
    raise(sig);
}
void on_terminate() {
    if(R->active) {
        const std::type_info* t = abi::__cxa_current_exception_type();
        char m[200];
        snprintf(m, sizeof m, "std::terminate called (exception type %s)", t ? t->name() : "none");
        report("terminate", m);
    }
    abort();
}

int find_tls(dl_phdr_info* i, size_t, void* out) {
    // first entry is the program itself
    for(int k = 0; k < i->dlpi_phnum; ++k)
        if(i->dlpi_phdr[k].p_type == PT_TLS) {
            ((RT*)out)->tls_base = (char*)i->dlpi_tls_data;
            ((RT*)out)->tls_size = i->dlpi_phdr[k].p_memsz;
        }
    return 1;
}

void* mapat(u64 a, u64 n, bool shared = false) {
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE,
                   (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE,
                   -1, 0);
    if(p != (void*)a) {
        fprintf(stderr, "cannot map simulator memory\n");
        _exit(3);
    }
    return p;
}

// instrumented initialisers of static objects run before main
__attribute__((constructor(101))) void rt_map() { mapat(RT_ADDR, (sizeof(RT) + 4095) / 4096 * 4096); }

void rt_init() {
    mapat(ARENA, ARENA_SZ);
    mapat(ST_ADDR, ARENA_SZ);
    mapat(CELL_ADDR, ARENA_SZ * sizeof(Cell));
    mapat(GCELL_ADDR, (glo_sz() + 16) * sizeof(Cell));
    mapat(BLK_ADDR, ARENA_SZ / 16 * 4);
    mapat(STACK_ADDR, STACK_SZ * MAXF);
    mapat(RT_ADDR - 4096, 4096);
    new(R) RT();
    for(int i = 0; i < MAXF; ++i)
        R->f[i].stack = (char*)STACK_ADDR + i * STACK_SZ;
    R->sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                          MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    R->w  = &R->sh->w[0];
    R->trace = stdout;
    R->globals = harness.track_globals;
    dl_iterate_phdr(find_tls, R);
    if(R->tls_size)
        R->tls_init.assign(R->tls_base, R->tls_base + R->tls_size);
    static char altstack[65536];
    stack_t ss{};
    ss.ss_sp   = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
    for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGALRM})
        sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    R->snap_data.assign(__data_start, _edata);
    R->snap_bss.assign(__bss_start, _end);
}

u64 run_seed(u64 base, u64 idx) {
    return mix64(mix64(base, hash_str(harness.name)) ^ hash_str(R->prop), idx);
}

Plan make_plan(u64 seed) {
    Rng g(seed);
    Plan p;
    harness.gen(g, p);
    return p;
}

// one search run in this process
void search_run(u64 base, u64 idx, Plan& p) {
    u64 seed  = run_seed(base, idx);
    p         = make_plan(seed);
    R->idx    = idx;
    reset_run();
    R->replay = false;
    strategy(seed);
    run_once(p);
}

// ------------------------------------------------------------------ attempts in a child process
struct Outcome {
    bool viol;
    bool error;
    std::string cls, msg;
    u64 hash, steps;
    std::vector<Choice> ch;
    bool overflow;
};

Outcome attempt(const Plan& p, const std::vector<Choice>* ch, u64 sched_seed, bool trace = false) {
    Worker* w = &R->sh->w[MAXJ - 1];
    w->v.set  = false;
    w->finished = false;
    w->nch    = 0;
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) {
        R->w   = w;
        R->idx = ~0ull - 1;
        reset_run();
        if(ch) {
            R->replay = true;
            R->rch    = ch;
            R->srng   = Rng(1);
        }
        else {
            R->replay = false;
            strategy(sched_seed);
        }
        R->tracing = trace;
        run_once(p);
        w->finished = true;
        fflush(R->trace);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o{};
    o.viol = w->v.set;
    if(!w->v.set && !w->finished) {
        o.viol = true;
        o.cls  = "crash";
        char b[64];
        snprintf(b, sizeof b, "process ended with status %d", st);
        o.msg  = b;
        o.hash = 1;
    }
    else if(o.viol) {
        o.cls = w->v.cls;
        o.msg = w->v.msg;
        o.hash = w->v.hash;
        o.steps = w->v.steps;
    }
    else {
        o.hash  = w->hash;
        o.steps = w->steps;
    }
    o.ch.assign(w->ch, w->ch + w->nch);
    o.overflow = w->overflow;
    return o;
}

struct Cand { Plan p; std::vector<Choice> ch; Outcome o; };

struct Minimiser {
    std::string cls;
    Cand best;
    int left = 2500;
    double t_end;

    static double now() {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }
    bool tryit(const Plan& p, const std::vector<Choice>& ch) {
        if(left <= 0 || now() > t_end)
            return false;
        --left;
        Outcome o = attempt(p, &ch, 0);
        if(o.viol && o.cls == cls && !o.overflow) {
            best.p  = p;
            best.ch = o.ch;
            best.o  = o;
            return true;
        }
        return false;
    }
    bool try_any(const Plan& p, int reseeds) {
        if(tryit(p, best.ch))
            return true;
        if(best.ch.empty())
            return false;
        if(tryit(p, {}))
            return true;
        for(int i = 0; i < reseeds && left > 0 && now() < t_end; ++i) {
            --left;
            Outcome o = attempt(p, nullptr, 7919 + i);
            if(o.viol && o.cls == cls && !o.overflow) {
                best.p  = p;
                best.ch = o.ch;
                best.o  = o;
                return true;
            }
        }
        return false;
    }
    void run() {
        bool again = true;
        for(int round = 0; again && round < 6; ++round) {
            again = false;
            for(size_t i = best.p.stalls.size(); i-- > 0;) {
                Plan q = best.p;
                q.stalls.erase(q.stalls.begin() + i);
                again |= try_any(q, 4);
            }
            for(int t = 0; t < NTHR; ++t)
                for(size_t len = std::max<size_t>(best.p.thr[t].size() / 2, 1); len >= 1; len /= 2) {
                    for(size_t i = best.p.thr[t].size(); i >= len && i > 0;) {
                        size_t from = i - len;
                        if(from + len > best.p.thr[t].size()) {
                            --i;
                            continue;
                        }
                        Plan q = best.p;
                        q.thr[t].erase(q.thr[t].begin() + from, q.thr[t].begin() + from + len);
                        if(try_any(q, 6))
                            again = true;
                        if(i < len + 1)
                            break;
                        i -= len;
                    }
                    if(len == 1)
                        break;
                }
            // drop choices, chunkwise
            for(size_t len = std::max<size_t>(best.ch.size() / 2, 1); len >= 1 && !best.ch.empty(); len /= 2) {
                for(size_t i = 0; i < best.ch.size();) {
                    std::vector<Choice> c = best.ch;
                    size_t e = std::min(c.size(), i + len);
                    c.erase(c.begin() + i, c.begin() + e);
                    if(tryit(best.p, c))
                        again = true;
                    else
                        i += len;
                }
                if(len == 1)
                    break;
            }
            for(int t = 0; t < NTHR; ++t)
                for(size_t i = 0; i < best.p.thr[t].size(); ++i) {
                    if(best.p.thr[t][i].fault) {
                        Plan q = best.p;
                        q.thr[t][i].fault = q.thr[t][i].fault_n = 0;
                        again |= tryit(q, best.ch);
                    }
                    if(best.p.thr[t][i].fault & F_PERSIST) {
                        Plan q = best.p;
                        q.thr[t][i].fault &= ~F_PERSIST;
                        again |= tryit(q, best.ch);
                    }
                    u32 Step::* fs[] = {&Step::a, &Step::b, &Step::c, &Step::fault_n};
                    for(auto m : fs)
                        for(u32 v : {0u, 1u, best.p.thr[t][i].*m / 2, best.p.thr[t][i].*m - 1})
                            if(i < best.p.thr[t].size() && best.p.thr[t][i].*m > v) {
                                Plan q = best.p;
                                q.thr[t][i].*m = v;
                                if(tryit(q, best.ch))
                                    again = true;
                            }
                }
            for(int c = 0; c < NCFG; ++c)
                for(u32 v : {0u, 1u, 2u})
                    if(best.p.cfg[c] > v) {
                        Plan q = best.p;
                        q.cfg[c] = v;
                        if(try_any(q, 0)) {
                            again = true;
                            break;
                        }
                    }
        }
    }
};

// ------------------------------------------------------------------ replay files
const char* g_variant = "";

void print_plan(FILE* f, const Plan& p, bool comments) {
    fprintf(f, "cfg");
    for(u32 c : p.cfg)
        fprintf(f, " %u", c);
    fprintf(f, "\n");
    for(int t = 0; t < NTHR; ++t)
        for(auto& s : p.thr[t]) {
            fprintf(f, "step %d %u %u %u %u %u %u", t, s.op, s.a, s.b, s.c, s.fault, s.fault_n);
            if(comments)
                fprintf(f, "   # %s", harness.op_name(s.op));
            fprintf(f, "\n");
        }
    for(auto& s : p.stalls)
        fprintf(f, "stall %u %u %u\n", s.fiber, s.at, s.len);
}

bool load_replay(const char* path, Plan& p, std::vector<Choice>& ch, std::string& pr, std::string& cls,
                 u64& hash, bool& bysched, u64& schedseed) {
    FILE* f = fopen(path, "r");
    if(!f)
        return false;
    char line[4096];
    bysched = false;
    while(fgets(line, sizeof line, f)) {
        char k[32];
        int off = 0;
        if(line[0] == '#' || sscanf(line, "%31s%n", k, &off) != 1)
            continue;
        char* rest = line + off;
        if(!strcmp(k, "cfg")) {
            for(u32& c : p.cfg)
                c = strtoul(rest, &rest, 10);
        }
        else if(!strcmp(k, "step")) {
            int t;
            Step s;
            if(sscanf(rest, "%d %u %u %u %u %u %u", &t, &s.op, &s.a, &s.b, &s.c, &s.fault, &s.fault_n) == 7 &&
               t >= 0 && t < NTHR)
                p.thr[t].push_back(s);
        }
        else if(!strcmp(k, "stall")) {
            Stall s;
            if(sscanf(rest, "%u %u %u", &s.fiber, &s.at, &s.len) == 3)
                p.stalls.push_back(s);
        }
        else if(!strcmp(k, "choice")) {
            Choice c;
            if(sscanf(rest, "%u %u", &c.idx, &c.val) == 2)
                ch.push_back(c);
        }
        else if(!strcmp(k, "sched")) {
            bysched   = true;
            schedseed = strtoull(rest, nullptr, 0);
        }
        else if(!strcmp(k, "property")) {
            char b[64];
            if(sscanf(rest, "%63s", b) == 1)
                pr = b;
        }
        else if(!strcmp(k, "class")) {
            char b[64];
            if(sscanf(rest, "%63s", b) == 1)
                cls = b;
        }
        else if(!strcmp(k, "hash"))
            hash = strtoull(rest, nullptr, 0);
    }
    fclose(f);
    return true;
}

std::string jstr(const char* s) {
    std::string o = "\"";
    for(; *s; ++s) {
        if(*s == '"' || *s == '\\')
            o += '\\';
        if((u8)*s >= 32)
            o += *s;
    }
    return o + "\"";
}

void merge(Stats& a, const Stats& b) {
    a.runs += b.runs; a.steps += b.steps; a.switches += b.switches; a.decisions += b.decisions;
    a.loads += b.loads; a.stale += b.stale; a.stalls += b.stalls; a.forever_stalls += b.forever_stalls;
    a.allocs += b.allocs; a.ctors += b.ctors;
    for(int i = 0; i < 7; ++i) { a.fault_armed[i] += b.fault_armed[i]; a.fault_fired[i] += b.fault_fired[i]; }
    for(int i = 0; i < NOPS; ++i) { a.ops[i] += b.ops[i]; a.opfault[i] += b.opfault[i]; }
    for(auto pr : {std::pair(a.probes, b.probes), std::pair(a.ignored, b.ignored)})
        for(int i = 0; i < NAMES && pr.second[i].n[0]; ++i)
            for(int k = 0; k < NAMES; ++k) {
                if(!pr.first[k].n[0])
                    memcpy(pr.first[k].n, pr.second[i].n, sizeof pr.first[k].n);
                if(!strcmp(pr.first[k].n, pr.second[i].n)) {
                    pr.first[k].v += pr.second[i].v;
                    break;
                }
            }
}

struct Args {
    std::string mode, prop, out, replay_out, file;
    u64 seed = 1, runs = 1000, from = 0;
    int jobs = 8;
    double time = 60;
    bool trace = false, nomin = false;
};

double now() { return Minimiser::now(); }

int do_search(const Args& a) {
    double t0 = now();
    u64 cap   = a.runs;
    u64* hashes = (u64*)mmap(nullptr, cap * 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u8* flags   = (u8*)mmap(nullptr, cap + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u32* stepsv = (u32*)mmap(nullptr, cap * 4 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    R->sh->next  = a.from;
    R->sh->found = ~0ull;
    std::vector<pid_t> pids;
    for(int j = 0; j < a.jobs; ++j) {
        fflush(stdout);
        pid_t pid = fork();
        if(pid == 0) {
            R->w = &R->sh->w[j];
            Plan p;
            while(now() - t0 < a.time) {
                u64 i = R->sh->next.fetch_add(1);
                if(i >= a.from + a.runs || i > R->sh->found.load())
                    break;
                R->w->cur = i;
                search_run(a.seed, i, p);
                hashes[i - a.from] = R->w->hash | 1;
                flags[i - a.from]  = R->w->flags | 0x80;
                stepsv[i - a.from] = (u32)R->w->steps;
                ++R->w->st.runs;
                R->w->st.steps += R->w->steps;
            }
            R->w->finished = true;
            _exit(0);
        }
        pids.push_back(pid);
    }
    for(int j = 0; j < a.jobs; ++j) {
        int st;
        waitpid(pids[j], &st, 0);
        Worker& w = R->sh->w[j];
        if(!w.finished && !w.v.set) {  // died without a report
            u64 i = w.cur, f = R->sh->found.load();
            if(i < f)
                R->sh->found = i;
        }
    }
    double wall = now() - t0;
    Stats tot{};
    for(int j = 0; j < a.jobs; ++j)
        merge(tot, R->sh->w[j].st);
    // distinct executions
    std::vector<u64> hs;
    u64 nontriv = 0, done = 0;
    {
        std::vector<u64> nh;
        for(u64 i = 0; i < cap; ++i)
            if(flags[i] & 0x80) {
                ++done;
                hs.push_back(hashes[i]);
                if(flags[i] & 0x0f)
                    nh.push_back(hashes[i]);
            }
        std::sort(hs.begin(), hs.end());
        hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
        std::sort(nh.begin(), nh.end());
        nh.erase(std::unique(nh.begin(), nh.end()), nh.end());
        nontriv = nh.size();
    }
    u64 states = 0;
    for(u64 i = 0; i < STATE_BITS / 8; ++i)
        states += __builtin_popcount(R->sh->states[i]);
    u64 found = R->sh->found.load();
    int rc    = 0;
    std::string vj = "null";
    if(found != ~0ull) {
        rc = 1;
        Plan p   = make_plan(run_seed(a.seed, found));
        Outcome o = attempt(p, nullptr, run_seed(a.seed, found));
        if(!o.viol) {
            fprintf(stderr, "run %llu was reported but does not reproduce from its seed\n", (unsigned long long)found);
            for(int j = 0; j < a.jobs; ++j)
                if(R->sh->w[j].v.set)
                    fprintf(stderr, "worker %d: %s: %s\n", j, R->sh->w[j].v.cls, R->sh->w[j].v.msg);
            return 2;
        }
        Minimiser m;
        m.cls   = o.cls;
        m.t_end = now() + 40;
        bool by_sched = true;
        if(!o.overflow) {
            Outcome o2 = attempt(p, &o.ch, 0);
            if(o2.viol && o2.cls == o.cls) {
                by_sched = false;
                m.best   = {p, o.ch, o2};
                if(!a.nomin)
                    m.run();
            }
        }
        if(by_sched)
            m.best = {p, {}, o};
        const char* path = a.replay_out.empty() ? "/tmp/replay.txt" : a.replay_out.c_str();
        FILE* f = fopen(path, "w");
        if(!f)
            return 2;
        size_t ns = 0, ns0 = 0;
        for(int t = 0; t < NTHR; ++t) {
            ns += m.best.p.thr[t].size();
            ns0 += p.thr[t].size();
        }
        fprintf(f, "# xme simulation replay\nharness %s\nvariant %s\nproperty %s\nclass %s\n", harness.name,
                g_variant, a.prop.c_str(), m.cls.c_str());
        fprintf(f, "# %s\n", m.best.o.msg.c_str());
        fprintf(f, "# found by seed %llu run %llu (run seed 0x%llx); minimised from %zu steps, %zu scheduling choices "
                   "to %zu and %zu\n",
                (unsigned long long)a.seed, (unsigned long long)found,
                (unsigned long long)run_seed(a.seed, found), ns0, o.ch.size(), ns, m.best.ch.size());
        fprintf(f, "hash 0x%llx\n", (unsigned long long)m.best.o.hash);
        if(by_sched)
            fprintf(f, "sched 0x%llx\n", (unsigned long long)run_seed(a.seed, found));
        print_plan(f, m.best.p, true);
        for(auto& c : m.best.ch)
            fprintf(f, "choice %u %u\n", c.idx, c.val);
        fprintf(f, "# trace: step, thread, event\n");
        fflush(f);
        R->trace = f;
        attempt(m.best.p, by_sched ? nullptr : &m.best.ch, run_seed(a.seed, found), true);
        R->trace = stdout;
        fclose(f);
        vj = std::string("{\"class\":") + jstr(m.cls.c_str()) + ",\"msg\":" + jstr(m.best.o.msg.c_str()) +
             ",\"run\":" + std::to_string(found) + ",\"replay\":" + jstr(path) + "}";
    }
    FILE* f = fopen(a.out.c_str(), "w");
    if(!f)
        return 2;
    auto U = [](u64 v) { return (unsigned long long)v; };
    fprintf(f, "{\"harness\":%s,\"variant\":%s,\"runs\":%llu,\"wall\":%.3f,\"steps\":%llu,\"switches\":%llu,"
               "\"decisions\":%llu,\"loads\":%llu,\"stale\":%llu,\"stalls\":%llu,\"forever_stalls\":%llu,"
               "\"allocs\":%llu,\"ctors\":%llu,\"distinct\":%llu,\"distinct_nontrivial\":%llu,\"states\":%llu,\n",
            jstr(harness.name).c_str(), jstr(g_variant).c_str(), U(done), wall, U(tot.steps), U(tot.switches),
            U(tot.decisions), U(tot.loads), U(tot.stale), U(tot.stalls), U(tot.forever_stalls), U(tot.allocs),
            U(tot.ctors), U(hs.size()), U(nontriv), U(states));
    static const char* kinds[] = {"alloc", "ctor", "copy", "move", "assign", "call", "sys"};
    fprintf(f, "\"faults_armed\":{");
    for(int i = 0; i < 7; ++i)
        fprintf(f, "%s\"%s\":%llu", i ? "," : "", kinds[i], U(tot.fault_armed[i]));
    fprintf(f, "},\"faults_fired\":{");
    for(int i = 0; i < 7; ++i)
        fprintf(f, "%s\"%s\":%llu", i ? "," : "", kinds[i], U(tot.fault_fired[i]));
    fprintf(f, "},\n\"ops\":{");
    bool first = true;
    for(int i = 0; i < NOPS; ++i)
        if(tot.ops[i]) {
            fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(harness.op_name(i)).c_str(), U(tot.ops[i]));
            first = false;
        }
    for(int pass = 0; pass < 2; ++pass) {
        fprintf(f, "},\n\"%s\":{", pass ? "ignored" : "probes");
        Name* t = pass ? tot.ignored : tot.probes;
        for(int i = 0; i < NAMES && t[i].n[0]; ++i)
            fprintf(f, "%s%s:%llu", i ? "," : "", jstr(t[i].n).c_str(), U(t[i].v));
    }
    fprintf(f, "},\n\"sums\":[");
    for(u64 i = 0; i < 64 && i < cap; ++i)
        fprintf(f, "%s\"%llx\"", i ? "," : "", U(flags[i] & 0x80 ? hashes[i] : 0));
    fprintf(f, "],\n\"violation\":%s}\n", vj.c_str());
    fclose(f);
    return rc;
}

int do_sums(const Args& a) {
    // reverse order, one process: must give the hashes of the search
    Plan p;
    std::vector<u64> h(a.runs);
    for(u64 i = a.runs; i-- > 0;) {
        search_run(a.seed, a.from + i, p);
        h[i] = R->w->hash | 1;
    }
    for(u64 i = 0; i < a.runs; ++i)
        printf("%llx\n", (unsigned long long)h[i]);
    return 0;
}

int do_replay(const Args& a) {
    Plan p;
    std::vector<Choice> ch;
    std::string pr, cls;
    u64 hash = 0, ss = 0;
    bool bysched;
    if(!load_replay(a.file.c_str(), p, ch, pr, cls, hash, bysched, ss)) {
        fprintf(stderr, "cannot read %s\n", a.file.c_str());
        return 2;
    }
    R->prop = strdup(pr.c_str());
    Outcome o = attempt(p, bysched ? nullptr : &ch, ss, a.trace);
    if(!o.viol) {
        printf("replay: no violation, hash 0x%llx\n", (unsigned long long)o.hash);
        return 0;
    }
    printf("replay: %s: %s\nreplay: hash 0x%llx steps %llu %s\n", o.cls.c_str(), o.msg.c_str(),
           (unsigned long long)o.hash, (unsigned long long)o.steps,
           o.cls == cls && o.hash == hash ? "EXACT" : "DIFFERS");
    return o.cls == cls && o.hash == hash ? 1 : 4;
}

int do_show(const Args& a) {
    u64 seed = run_seed(a.seed, a.from);
    Plan p   = make_plan(seed);
    printf("run seed 0x%llx\n", (unsigned long long)seed);
    print_plan(stdout, p, true);
    Outcome o = attempt(p, nullptr, seed, a.trace);
    printf("%s hash 0x%llx steps %llu choices %zu\n", o.viol ? o.cls.c_str() : "ok", (unsigned long long)o.hash,
           (unsigned long long)o.steps, o.ch.size());
    return 0;
}
}  // namespace

int main(int argc, char** argv) {
    if(!getenv("SIM_NOASLR_DONE")) {
        setenv("SIM_NOASLR_DONE", "1", 1);
        if(personality(0xffffffff) != -1 && personality(ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    Args a;
    if(argc > 1)
        a.mode = argv[1];
    for(int i = 2; i < argc; ++i) {
        std::string k = argv[i];
        auto v        = [&] { return i + 1 < argc ? argv[++i] : ""; };
        if(k == "--prop") a.prop = v();
        else if(k == "--seed") a.seed = strtoull(v(), nullptr, 0);
        else if(k == "--runs") a.runs = strtoull(v(), nullptr, 0);
        else if(k == "--from") a.from = strtoull(v(), nullptr, 0);
        else if(k == "--jobs") a.jobs = atoi(v());
        else if(k == "--time") a.time = atof(v());
        else if(k == "--out") a.out = v();
        else if(k == "--replay") a.replay_out = v();
        else if(k == "--variant") g_variant = v();
        else if(k == "--trace") a.trace = true;
        else if(k == "--nomin") a.nomin = true;
        else a.file = k;
    }
    rt_init();
    R->prop = a.prop.c_str();
    if(a.mode == "search") return do_search(a);
    if(a.mode == "sums") return do_sums(a);
    if(a.mode == "replay") return do_replay(a);
    if(a.mode == "show") return do_show(a);
    fprintf(stderr, "usage: %s search|sums|replay|show --prop ID ...\n", argv[0]);
    return 2;
}
