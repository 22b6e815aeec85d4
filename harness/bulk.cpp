// C17: bulk construction and destruction on raw storage, every element operation may fail.
#include "source.hpp"
#include "common.hpp"
#include <algorithm>
#include <forward_list>
#include <iterator>
#include <xme/ranges/uninitialized.hpp>

using namespace sim;
using namespace el;

namespace {
enum : u32 { COPY_PTR, COPY_FWD, COPY_CONV, COPY_RANGE, COPY_STRIDE, COPY_UNBOUNDED, COPY_GEN, COPY_GEN_RANGE, MOVE_IN, FILL, FILL_STRIDE, DESTROY, DESTROY_RANGE, DESTROY_N, DESTROY_AT, DESTROY_ARRAY, DESTROY_ARRAYS, DESTROY_NESTED, NOPS_ };
const char* names[] = {"copy(pointers)", "copy(forward list)", "copy(converted)", "copy(ranges)", "copy(strided output)", "copy(unbounded output)", "copy(generator)", "copy(generator range)", "copy(move iterators)",
                       "fill", "fill(strided)", "destroy", "destroy(range)", "destroy_n", "destroy_at", "destroy_at(array)", "destroy_n(arrays)", "destroy_at(nested array)"};
const char* op_name(u32 o) { return o < NOPS_ ? names[o] : "?"; }
constexpr u32 HUGE_ = 8;
void gen(Rng& r, Plan& p) {
    p.cfg[0] = r.below(5);
    bool big = r.chance(1, 40);
    u32 n = r.range(1, 5), fpm = r.range(0, 3) * 30;
    for(u32 i = 0; i < n; ++i) {
        Step s;
        s.op = r.below(NOPS_);
        s.a  = r.below(10);  // source length
        s.b  = r.below(10);  // room
        s.c  = r.below(10);
        if(big) {
            u32 top = r.chance(1, 2) ? 40 : 300;
            s.a = r.below(top);
            s.b = r.below(top);
            s.c = r.below(top);
        }
        if(r.below(100) < fpm) {
            s.fault   = r.chance(1, 2) ? F_ALLOC | F_CTOR | F_COPY | F_MOVE | F_ASSIGN | F_CALL : r.chance(1, 2) ? F_COPY : r.chance(1, 2) ? F_CTOR : r.chance(1, 2) ? F_MOVE : F_CALL;
            s.fault_n = r.range(1, big ? 200 : 10);
        }
        p.thr[0].push_back(s);
    }
    if(r.chance(1, 25000)) {  // more elements than 16 bits count
        p.cfg[0] += HUGE_;
        p.thr[0].resize(std::min<std::size_t>(p.thr[0].size(), 2));
        for(auto& s : p.thr[0]) {
            s.a = r.chance(1, 3) ? r.below(70000) : r.range(65530, 70000);
            s.b = r.chance(1, 3) ? r.below(70000) : r.range(65530, 70000);
            s.c = r.chance(1, 2) ? r.below(70000) : r.range(65530, 70000);
            if(s.op >= DESTROY && r.chance(1, 2))
                s.b = r.below(20);
            if(s.fault)
                s.fault_n = r.chance(1, 3) ? r.below(100) + 1 : r.range(60000, 70000);
        }
    }
}
bool relevant(const char* prop, const char* cls) {
    return is(prop, "C17") && (is(cls, "bulk") || is(cls, "except") || is(cls, "outside") || memory_class(cls));
}

// forward iterator over every second place
template<typename T>
struct Stride {
    using iterator_category = std::forward_iterator_tag;
    using value_type        = T;
    using difference_type   = std::ptrdiff_t;
    using pointer           = T*;
    using reference         = T&;
    T* p = nullptr;
    T& operator*() const { return *p; }
    T* operator->() const { return p; }
    Stride& operator++() {
        p += 2;
        return *this;
    }
    Stride operator++(int) {
        auto t = *this;
        p += 2;
        return t;
    }
    bool operator==(const Stride&) const = default;
};
template<typename T>
struct Span {  // a minimal range
    T *b, *e;
    T* begin() const { return b; }
    T* end() const { return e; }
};

template<typename T, typename Alloc>
struct Run {
    static constexpr std::size_t PAD = 3;
    std::size_t ROOM = 24;
    u64 next = 1;
    T* raw   = nullptr;
    std::vector<u8> image;
    void snapshot() {
        const volatile u8* b = (const u8*)raw;
        image.assign(b, b + ROOM * sizeof(T));
    }
    // every place not in `places` must be as it was
    bool untouched(const std::vector<std::size_t>& places, const char* nm) {
        const volatile u8* b = (const u8*)raw;
        for(std::size_t i = 0; i < ROOM; ++i) {
            if(std::binary_search(places.begin(), places.end(), i))
                continue;
            for(std::size_t k = 0; k < sizeof(T); ++k)
                if(b[i * sizeof(T) + k] != image[i * sizeof(T) + k]) {
                    violate("outside", "%s wrote to place %zu, outside its range", nm, i);
                    return false;
                }
        }
        return true;
    }
    void go(const Plan& p) {
        for(auto& st : p.thr[0])
            ROOM = std::max<std::size_t>(ROOM, 2 * std::max(st.a, st.b) + 6);
        raw = (T*)root_alloc(ROOM * sizeof(T), alignof(T));
        for(std::size_t i = 0; i < ROOM * sizeof(T); ++i)
            ((volatile u8*)raw)[i] = u8(0xC0 + i * 7);
        for(auto& st : p.thr[0])
            step(st);
        root_free(raw);
        check_no_leaks();
    }
    void step(const Step& st) {
        const char* nm = op_name(st.op);
        Alloc al;
        T* out = raw + PAD;
        std::size_t lo = live_objects(), lb = live_blocks();
        snapshot();
        std::vector<u64> vals;
        std::vector<std::size_t> places;  // where elements are expected
        if(st.op <= FILL_STRIDE) {
            bool fill = st.op >= FILL, stride = st.op == COPY_STRIDE || st.op == FILL_STRIDE;
            std::size_t n = st.a, room = st.b;
            std::size_t k = fill ? n : st.op == COPY_UNBOUNDED ? n : std::min(n, room);
            std::size_t stopped_in = ~0ul, stopped_out = ~0ul;
            bool failed;
            Outcome r;
            {
                std::vector<T> src;
                src.reserve(n + 1);
                std::vector<u64> raws;
                for(std::size_t i = 0; i < n + fill; ++i) {
                    vals.push_back(next++);
                    raws.push_back(vals.back());
                    src.push_back(T(vals.back()));
                }
                std::forward_list<T> fl(src.begin(), src.end());
                std::size_t src_objects = live_objects(), src_blocks = live_blocks();
                r = guarded(st, nm, "except", [&] {
                    const T* f = src.data();
                    Source<T> source{vals, "outside"};
                    auto ptrs = [&](auto res) {
                        stopped_in  = res.first - f;
                        stopped_out = res.second - out;
                    };
                    switch(st.op) {
                        case COPY_PTR: ptrs(xme::ranges::uninitialized_copy_a(f, f + n, out, out + room, al)); break;
                        case COPY_FWD: {
                            auto res   = xme::ranges::uninitialized_copy_a(fl.begin(), fl.end(), out, out + room, al);
                            stopped_in = std::distance(fl.begin(), res.first);
                            stopped_out = res.second - out;
                            break;
                        }
                        case COPY_CONV: {
                            const u64* q = raws.data();
                            auto res     = xme::ranges::uninitialized_copy_a(q, q + n, out, out + room, al);
                            stopped_in   = res.first - q;
                            stopped_out  = res.second - out;
                            break;
                        }
                        case COPY_RANGE: {
                            Span<const T> in{f, f + n};
                            Span<T> o{out, out + room};
                            auto res    = xme::ranges::uninitialized_copy_a(in, o, al);
                            if constexpr(requires { res.first - f; })
                                ptrs(res);
                            else {
                                stopped_in = k;
                                stopped_out = k;
                            }
                            break;
                        }
                        case COPY_STRIDE: {
                            auto res    = xme::ranges::uninitialized_copy_a(f, f + n, Stride<T>{out}, Stride<T>{out + 2 * room}, al);
                            stopped_in  = res.first - f;
                            stopped_out = (res.second.p - out) / 2;
                            break;
                        }
                        case COPY_UNBOUNDED: ptrs(xme::ranges::uninitialized_copy_a(f, f + n, out, std::unreachable_sentinel, al)); break;
                        case COPY_GEN: {
                            auto res    = xme::ranges::uninitialized_copy_a(source.first(), source.last(), out, out + room, al);
                            stopped_in  = res.first.i;
                            stopped_out = res.second - out;
                            break;
                        }
                        case COPY_GEN_RANGE: {
                            auto in = source.range();
                            Span<T> o{out, out + room};
                            (void)xme::ranges::uninitialized_copy_a(in, o, al);
                            stopped_in = stopped_out = k;
                            break;
                        }
                        case MOVE_IN: {
                            auto b      = std::make_move_iterator(src.data());
                            auto res    = xme::ranges::uninitialized_copy_a(b, b + n, out, out + room, al);
                            stopped_in  = res.first - b;
                            stopped_out = res.second - out;
                            break;
                        }
                        case FILL:
                            stopped_out = xme::ranges::uninitialized_fill_n_a(out, n, f[n], al) - out;
                            stopped_in  = n;
                            break;
                        case FILL_STRIDE:
                            stopped_out = (xme::ranges::uninitialized_fill_n_a(Stride<T>{out}, n, f[n], al).p - out) / 2;
                            stopped_in  = n;
                            break;
                    }
                });
                failed = r.failed;
                // the source is as it was
                bool damaged = false;
                for(std::size_t i = st.op == MOVE_IN ? k : 0; i < src.size(); ++i)
                    damaged |= val(src[i]) != vals[i];
                std::size_t i = 0;
                for(auto& x : fl)
                    damaged |= val(x) != vals[i++];
                if(damaged)
                    violate("outside", "%s changed its source", nm);
                if(failed) {
                    if(live_objects() != src_objects)
                        violate("leak-obj", "failed %s: %zu elements too many are alive", nm, live_objects() - src_objects);
                    if(live_blocks() != src_blocks)
                        violate("leak", "failed %s leaves memory behind", nm);
                }
                if(fill)
                    vals.assign(n, vals[n]);
            }
            for(std::size_t i = 0; i < k; ++i)
                places.push_back(PAD + (stride ? 2 * i : i));
            if(!untouched(places, nm))
                return;
            if(failed) {
                probe("bulk operation rolled back");
                return;
            }
            if(stopped_in != k || stopped_out != k)
                violate("bulk", "%s reports a stop at %zu and %zu, expected %zu", nm, stopped_in, stopped_out, k);
            for(std::size_t i = 0; i < k; ++i) {
                T* q = raw + places[i];
                if constexpr(has_life<T>)
                    if(!life_live(q)) {
                        violate("life", "%s did not construct element %zu of %zu", nm, i, k);
                        return;
                    }
                if(val(*q) != vals[i])
                    violate("bulk", "%s: element %zu is %llu, expected %llu", nm, i, (unsigned long long)val(*q), (unsigned long long)vals[i]);
            }
            if(has_life<T> && live_objects() != lo + k)
                violate("life", "%s constructed %zu elements, expected %zu", nm, live_objects() - lo, k);
            for(auto i : places)
                sut([&] { raw[i].~T(); });
        }
        else {
            std::size_t n = st.a + 1, first = st.op >= DESTROY_ARRAY ? 0 : st.b % n, last = first + st.c % (n - first + 1);
            if(st.op == DESTROY_AT)
                last = first + 1;
            if(st.op == DESTROY_ARRAY) {
                n    = 6;
                first = 1;
                last = 4;
            }
            if(st.op == DESTROY_ARRAYS || st.op == DESTROY_NESTED) {
                n    = 8;
                first = 1;
                last = 7;
            }
            for(std::size_t i = 0; i < n; ++i) {
                vals.push_back(next++);
                sut([&] { new(out + i) T(vals[i]); });
            }
            snapshot();
            guarded(Step{}, nm, "except", [&] {
                switch(st.op) {
                    case DESTROY: xme::ranges::destroy_a(out + first, out + last, al); break;
                    case DESTROY_RANGE: xme::ranges::destroy_a(Span<T>{out + first, out + last}, al); break;
                    case DESTROY_N: xme::ranges::destroy_n_a(out + first, std::ptrdiff_t(last - first), al); break;
                    case DESTROY_AT: xme::ranges::destroy_at_a(out + first, al); break;
                    case DESTROY_ARRAY: xme::ranges::destroy_at_a(reinterpret_cast<T(*)[3]>(out + first), al); break;
                    case DESTROY_ARRAYS: xme::ranges::destroy_n_a(reinterpret_cast<T(*)[2]>(out + first), 3, al); break;
                    case DESTROY_NESTED: xme::ranges::destroy_at_a(reinterpret_cast<T(*)[3][2]>(out + first), al); break;
                }
            });
            for(std::size_t i = first; i < last; ++i)
                places.push_back(PAD + i);
            untouched(places, nm);
            for(std::size_t i = 0; i < n; ++i) {
                bool gone = i >= first && i < last;
                if constexpr(has_life<T>)
                    if(life_live(out + i) == gone) {
                        violate("life", "%s [%zu,%zu): element %zu is %s", nm, first, last, i, gone ? "still alive" : "dead");
                        return;
                    }
                if(!gone && val(out[i]) != vals[i])
                    violate("outside", "%s changed element %zu", nm, i);
                if(!gone)
                    sut([&] { out[i].~T(); });
            }
            if(std::is_same_v<T, Own> && live_blocks() != lb)
                violate("leak", "%s did not destroy every element", nm);
        }
        cover(((u64(st.op) * 512 + st.a) * 512 + st.b) * 512 + st.c + sizeof(T) * (1ull << 40) + (failure_happened() ? 1ull << 60 : 0));
    }
};
void run(const Plan& p) {
    if(p.cfg[0] >= HUGE_)
        set_huge();
    switch(p.cfg[0] % HUGE_) {
        case 0: { Run<Tok, SimAlloc<Tok, true, true, true>> r; r.go(p); break; }
        case 1: { Run<Own, std::allocator<Own>> r; r.go(p); break; }
        case 2: { Run<u64, std::allocator<u64>> r; r.go(p); break; }
        case 3: { Run<Over, std::allocator<Over>> r; r.go(p); break; }
        default: { Run<Tok, std::allocator<Tok>> r; r.go(p); break; }
    }
}
}  // namespace

const sim::Harness sim::harness{"bulk", op_name, gen, run, relevant, false};
