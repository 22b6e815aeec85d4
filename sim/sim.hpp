// Deterministic simulator: interface used by the harnesses.
// Everything declared here is implemented in rt.cpp (not instrumented).
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <new>
#include <string>
#include <vector>

namespace sim {
using u8  = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// ---------------------------------------------------------------- randomness
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z     = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z     = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n ? u32((next() >> 32) * n >> 32) : 0; }
    u32 range(u32 lo, u32 hi) { return lo + below(hi - lo + 1); }  // inclusive
    bool chance(u32 num, u32 den) { return below(den) < num; }
};

// ---------------------------------------------------------------- plan of one run
enum : u32 {  // kinds of injected failure
    F_ALLOC = 1, F_CTOR = 2, F_COPY = 4, F_MOVE = 8, F_ASSIGN = 16, F_CALL = 32, F_SYS = 64,
    F_PERSIST = 0x8000
};
enum : u32 { F_ELEM = F_CTOR | F_COPY | F_MOVE | F_ASSIGN };

struct Step {
    u32 op = 0, a = 0, b = 0, c = 0;
    u32 fault = 0;    // mask of failure kinds; 0 = none
    u32 fault_n = 0;  // which eligible point (1-based) fails
};
struct Stall { u32 fiber, at, len; };  // fiber stops before its at-th access, for len scheduler steps
constexpr u32 FOREVER = 0xffffffffu;

constexpr int NCFG = 10, NTHR = 6;
struct Plan {
    u32 cfg[NCFG] = {};
    std::vector<Step> thr[NTHR];
    std::vector<Stall> stalls;
};

struct Harness {
    const char* name;
    const char* (*op_name)(u32 op);
    void (*gen)(Rng&, Plan&);
    void (*run)(const Plan&);
    // does a violation of this class break this property?
    bool (*relevant)(const char* prop, const char* cls);
    bool track_globals;   // race detection also on .data/.bss of the program
};
extern const Harness harness;

const char* prop();           // property this process decides
bool prop_is(const char* id);

// ---------------------------------------------------------------- violations, coverage
// Reports a violation of class cls. Returns only if cls is not relevant to the property.
void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char* name);             // "this rare condition was reached"
void event(u32 kind, u64 a = 0, u64 b = 0);  // goes into the event log and its hash
void cover(u64 h);                           // an abstract state was reached
u64 steps();
u64 stamp();  // another number every time
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // trace only
bool tracing();

// ---------------------------------------------------------------- threads (fibers)
// Runs the bodies concurrently under the scheduler, returns when all are done.
void parallel(std::vector<std::function<void()>> bodies);
int self();                   // id of the running fiber, 0 = the harness itself
void op_begin(const Step* s); // arms the step's fault, resets the step counter of this fiber
void op_end();                // disarms
u64 op_steps();               // own accesses since the operation began or the last tick
void op_tick();               // the next part of the operation has its own step bound
bool fault_fired();           // did the armed fault fire since op_begin?
u32 fault_kind();             // which kind fired
u64 op_allocs();              // allocation requests since op_begin
void set_run_bound(u64 n);    // max accesses of the whole run
void set_huge();              // a long run: many accesses, much memory
void set_op_bound(u64 n);     // max own accesses per operation (0 = none)
void set_fresh(bool on);      // this fiber's loads return the newest value (no staleness)
void yield_point();           // explicit scheduling point
bool stalled_forever_exists();
void post(u32 id);            // external synchronisation between the test's threads (ids 0..15)
void wait(u32 id);

// ---------------------------------------------------------------- failures
bool fault_point(u32 kind);   // true: the caller must fail now
struct Fault { u32 kind; u64 id; };
struct StdFault : std::exception, Fault {  // failures also come as the standard's exceptions
    StdFault(u32 k, u64 i) : Fault{k, i} {}
    const char* what() const noexcept override { return "injected"; }
};
void maybe_throw(u32 kind);   // throws Fault when the fault point fires
u64 last_fault_id();
bool failure_happened();      // did any injected failure fire in this run?

// ---------------------------------------------------------------- memory
struct SutScope {             // operator new/delete inside go to the simulated heap
    SutScope();
    ~SutScope();
    SutScope(const SutScope&) = delete;
};
struct HarnessScope {         // temporarily leave it (oracle code called from the code under test)
    HarnessScope();
    ~HarnessScope();
    HarnessScope(const HarnessScope&) = delete;
};
void* heap_alloc(std::size_t n, std::size_t align, u32 owner, const char* what, bool faultable);
void heap_free(void* p, std::size_t n, std::size_t align, u32 owner, const char* what);
void* root_alloc(std::size_t n, std::size_t align);  // memory for an object under test
void root_free(void* p);
bool in_arena(const void* p);
u64 arena_off(const void* p);
bool heap_ok(const void* p, std::size_t n);  // [p,p+n) lies in one live block
void check_no_leaks();  // no live blocks (other than roots), no live objects
std::size_t live_blocks();

// ---------------------------------------------------------------- object lifetimes
void life_construct(const void* p, std::size_t n, const char* how);
void life_destroy(const void* p);
bool life_use(const void* p, const char* how);  // reports use of a non-live object
bool life_live(const void* p);
std::size_t live_objects();
std::size_t live_in_arena();  // of these, outside the stacks

template<typename F>
auto sut(F&& f) -> decltype(auto) {
    SutScope s;
    return f();
}
template<typename F>
auto oracle(F&& f) -> decltype(auto) {
    HarnessScope s;
    return f();
}
}  // namespace sim
