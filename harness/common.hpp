// One guarded operation: the step's failure is armed, and what comes out is judged.
#pragma once
#include "elems.hpp"
#include <cstring>
#include <exception>

namespace el {
using namespace sim;
struct Outcome {
    bool failed  = false;
    u32 kind     = 0;  // kind of the injected failure, 0 = none fired
    u64 allocs   = 0;
    bool wrong   = false;  // the failure did not reach the caller as it was
};
// cls: violation class used when the failure is hidden or replaced
template<typename F>
Outcome guarded(const Step& st, const char* name, const char* cls, F&& f) {
    Outcome o;
    op_begin(&st);
    try {
        sut([&] { f(); });
        if(fault_fired()) {
            violate(cls, "%s hides an injected failure", name);
            o.wrong = true;
        }
    } catch(const Fault& e) {
        o.failed = true;
        if(!fault_fired() || e.id != last_fault_id()) {
            violate(cls, "%s throws another failure than the one injected", name);
            o.wrong = true;
        }
    } catch(const std::bad_alloc&) {
        o.failed = true;
        if(!fault_fired() || fault_kind() != F_ALLOC) {
            violate(cls, "%s throws bad_alloc although no allocation failed", name);
            o.wrong = true;
        }
    } catch(const std::exception& e) {
        o.failed = o.wrong = true;
        violate(cls, "%s throws %s", name, e.what());
    }
    o.kind   = fault_fired() ? fault_kind() : 0;
    o.allocs = op_allocs();
    op_end();
    if(o.failed)
        probe(o.kind == F_ALLOC ? "operation failed: allocation" : "operation failed: element");
    return o;
}
inline bool is(const char* a, const char* b) { return !std::strcmp(a, b); }
inline bool memory_class(const char* c) {
    return is(c, "life") || is(c, "mem") || is(c, "free") || is(c, "free-live") || is(c, "leak") || is(c, "leak-obj");
}
inline std::string show(const std::vector<u64>& v) {
    std::string s = "[";
    for(auto x : v)
        s += " " + std::to_string(x);
    return s + " ]";
}
inline void random_fault(Rng& r, Step& s, u32 percent, u32 maxn = 8) {
    if(r.below(100) >= percent)
        return;
    static const u32 m[] = {F_ALLOC, F_ALLOC, F_CTOR, F_COPY, F_MOVE, F_ASSIGN, F_CALL, F_CTOR | F_COPY,
                            F_CTOR | F_COPY | F_MOVE | F_ASSIGN | F_CALL | F_ALLOC};
    s.fault   = m[r.below(9)];
    s.fault_n = r.chance(1, 2) ? r.range(1, 2) : r.range(1, maxn);
    if(r.chance(1, 12))
        s.fault |= F_PERSIST;
}
// a range that was copied from keeps its values
template<typename R>
void kept(const R& src, const std::vector<u64>& vals, const char* nm, const char* cls = "sequence") {
    std::size_t i = 0;
    for(auto& e : src)
        if(i >= vals.size() || val(e) != vals[i++]) {
            violate(cls, "%s changed the range it copied from", nm);
            return;
        }
}
// texts around the sizes at which buffers end: k = 8 * (index of the length) + variant
constexpr u32 LENGTHS = 22;
inline u32 some_length(Rng& r) { return r.chance(1, 500) ? r.range(20, LENGTHS - 1) : r.below(20); }
inline std::string long_text(u32 k) {
    static const u32 len[LENGTHS] = {7, 8, 14, 15, 16, 23, 24, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 600, 1024, 4097, 65535, 70000};
    std::string s(len[k / 8 % LENGTHS], 'a' + k % 8);
    for(std::size_t i = 0; i < s.size(); i += 5)
        s[i] = "xyzXYZ_09"[(i / 5 + k) % 9];
    if(k % 2)
        s.back() = 'z';
    return s;
}
}  // namespace el
