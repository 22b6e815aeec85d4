// C06, C07, C08: xme::Array under random histories with failing allocations and element operations.
#include "source.hpp"
#include <cstring>
#include <forward_list>
#include <span>
#include <xme/container/array.hpp>

using namespace sim;
using namespace el;

namespace {
enum : u32 {
    C_DEF, C_N, C_NVAL, C_LIST, C_ITER, C_RANGE, C_COPY, C_MOVE, A_COPY, A_MOVE, A_LIST, SWAP, CLEAR, RESERVE,
    RESIZE, INS_COPY, INS_MOVE, INS_ALIAS, INS_CONV, INS_RANGE, INS_FWD, P_COPY, P_MOVE, P_ALIAS, P_CONV, P_RANGE,
    P_FWD, POP, EMPLACE, E_ALIAS, ERASE, ERASE_R, READ, A_SELF, A_SELFM, SET, INS_ALIASM, P_BURST,
    C_STREAM, C_GEN, INS_STREAM, INS_GEN, P_STREAM, P_GEN, NOPS_
};
const char* names[] = {"ctor()", "ctor(n)", "ctor(n,value)", "ctor(list)", "ctor(iter)", "ctor(range)", "ctor(copy)",
                       "ctor(move)", "=copy", "=move", "=list", "swap", "clear", "reserve", "resize", "insert(copy)",
                       "insert(move)", "insert(own element)", "insert(converted)", "insert(iters)", "insert(range)",
                       "push_back(copy)", "push_back(move)", "push_back(own element)", "push_back(converted)",
                       "push_back(iters)", "push_back(range)", "pop_back", "emplace_back", "emplace_back(own element)",
                       "erase", "erase(range)", "read", "=self", "=move(self)", "set", "insert(move of own element)",
                       "push burst", "ctor(stream)", "ctor(generator)", "insert(stream)", "insert(generator)", "push_back(stream)",
                       "push_back(generator)"};
const char* op_name(u32 o) { return o < NOPS_ ? names[o] : "?"; }
constexpr u32 SLOTS = 3, HUGE_ = 9;

void gen_huge(Rng& r, Plan& p) {  // more elements than 16 bits count
    static const u32 fill[] = {C_N, C_NVAL, C_ITER, C_RANGE, C_STREAM, C_GEN, P_RANGE, P_FWD, P_STREAM, P_GEN, INS_RANGE, INS_FWD, INS_STREAM, INS_GEN, RESIZE};
    static const u32 rest[] = {C_COPY, C_MOVE, A_COPY, A_MOVE, SWAP, RESERVE, INS_COPY, INS_ALIAS, INS_CONV, INS_RANGE, INS_FWD, INS_STREAM, INS_GEN, P_COPY, P_RANGE, P_STREAM,
                               P_ALIAS, POP, ERASE, ERASE_R, ERASE_R, READ, SET, RESIZE, RESIZE};
    p.cfg[0] = HUGE_ + r.below(2);
    p.thr[0].clear();
    for(u32 i = 0, n = r.range(2, 6); i < n; ++i) {
        Step s;
        bool f = i == 0 || r.chance(1, 6);
        s.op   = f ? fill[r.below(15)] : rest[r.below(25)];
        s.a    = i == 0 || r.chance(3, 4) ? 0 : r.below(SLOTS * SLOTS);
        if((s.op == C_COPY || s.op == C_MOVE || s.op == A_COPY || s.op == A_MOVE || s.op == SWAP) && r.chance(3, 4))
            s.a = r.chance(1, 2) ? 1 : SLOTS;  // between the long one and another
        s.b = r.chance(1, 3) ? r.below(6) : r.chance(1, 2) ? r.range(65530, 65545) : r.below(80000);
        s.c = f ? r.range(65500, 80000) : r.chance(1, 2) ? r.below(12) : r.below(5000);
        if(s.op == ERASE_R)
            s.c = r.below(80000);
        if(s.op == RESIZE)
            s.b = r.chance(1, 2) ? r.range(65530, 80000) : r.below(140000), s.c |= 1;
        p.thr[0].push_back(s);
    }
    if(r.chance(1, 5)) {
        Step& s   = p.thr[0][r.below(p.thr[0].size())];
        s.fault   = r.chance(1, 2) ? u32(F_ALLOC) : u32(F_CTOR | F_COPY | F_MOVE | F_ASSIGN);
        s.fault_n = s.fault == F_ALLOC ? r.range(1, 8) : r.below(70000) + 1;
        if(s.op >= C_STREAM && r.chance(1, 2))
            s.fault = F_CALL;
    }
}

void gen(Rng& r, Plan& p) {
    p.cfg[0] = r.below(9);
    bool big = r.chance(1, 80);  // long arrays
    p.cfg[1] = r.below(2);  // same / different allocators
    u32 n    = r.chance(1, 2) ? r.range(1, 8) : r.range(4, 30);
    u32 fpm  = prop_is("C06") ? r.below(3) * 8 : r.range(1, 4) * 12;  // percentage of steps with a failure
    bool focus = r.chance(1, 3);  // only a few kinds of operation
    u32 fa = r.below(NOPS_), fb = r.below(NOPS_), fc = r.below(NOPS_);
    for(u32 i = 0; i < n; ++i) {
        Step s;
        u32 k = r.below(100);
        if(focus && k < 70)
            s.op = k < 25 ? fa : k < 50 ? fb : fc;
        else if(k < 12)
            s.op = C_DEF + r.below(C_MOVE - C_DEF + 1);
        else if(k < 20)
            s.op = A_COPY + r.below(4);
        else if(k < 42)
            s.op = P_COPY + r.below(6);
        else if(k < 64)
            s.op = INS_COPY + r.below(6);
        else if(k < 70)
            s.op = C_STREAM + r.below(6);
        else
            s.op = r.below(NOPS_);
        s.a = r.below(SLOTS) + SLOTS * r.below(SLOTS);
        s.b = r.below(24);
        s.c = r.below(12);
        if(big && r.chance(1, 2)) {
            s.b = r.below(600);
            s.c = r.chance(1, 2) ? r.below(60) : r.below(300);
        }
        if(r.below(100) < fpm) {
            static const u32 m[] = {F_ALLOC, F_ALLOC, F_CTOR, F_COPY, F_MOVE, F_ASSIGN, F_CTOR | F_COPY | F_MOVE | F_ASSIGN | F_ALLOC};
            s.fault   = m[r.below(7)];
            s.fault_n = r.chance(1, 2) ? r.range(1, 3) : r.range(1, big ? 120 : 12);
            if(r.chance(1, 10))
                s.fault |= F_PERSIST;
            if(s.op >= C_STREAM && r.chance(1, 3))
                s.fault = F_CALL;
        }
        p.thr[0].push_back(s);
    }
    if(r.chance(1, 20000))
        return gen_huge(r, p);
    if(r.chance(1, 2500)) {  // thousands of elements
        p.thr[0].resize(std::min<std::size_t>(p.thr[0].size(), 8));
        static const u32 ops[] = {C_ITER, C_GEN, P_RANGE, P_GEN, P_BURST, INS_RANGE, INS_GEN, C_STREAM, P_STREAM, INS_STREAM};
        for(u32 k = r.range(1, 2); k > 0; --k) {
            Step s;
            s.op = ops[r.below(10)];
            s.a  = r.below(SLOTS);
            s.b  = r.below(3000);
            s.c  = r.range(500, s.op == P_BURST ? 1500 : 5000);
            if(r.chance(1, 4)) {
                s.fault   = r.chance(1, 2) ? u32(F_ALLOC) : u32(F_CTOR | F_COPY | F_MOVE | F_ASSIGN);
                s.fault_n = r.range(1, 4000);
            }
            p.thr[0].insert(p.thr[0].begin() + r.below(p.thr[0].size() + 1), s);
        }
        for(auto& s : p.thr[0])
            if(s.op == RESERVE || (s.op >= INS_COPY && s.op <= INS_FWD) || s.op == ERASE || s.op == ERASE_R) {
                s.b = r.below(6000);
                if(s.op == ERASE_R)
                    s.c = r.below(6000);
            }
    }
}

bool relevant(const char* prop, const char* cls) {
    auto c = [&](const char* x) { return !strcmp(cls, x); };
    auto p = [&](const char* x) { return !strcmp(prop, x); };
    bool memory = c("life") || c("mem") || c("free") || c("free-live") || c("leak") || c("leak-obj");
    if(p("C06")) return c("sequence") || c("capacity") || c("inplace") || c("iterator");
    if(p("C07")) return memory;
    if(p("C08")) return c("except") || c("atomicity") || c("invalid") || (memory && failure_happened());
    return false;
}

template<typename T>
T mk(u64 v) {
    return T(v);
}

template<typename T, typename Alloc>
struct Run {
    using A = xme::Array<T, Alloc>;
    struct Slot {
        A* a = nullptr;
        std::vector<u64> m;  // the abstract sequence
        bool dead = false;   // content unknown to the model
    };
    Slot s[SLOTS];
    u64 next = 1;
    u32 nid  = 100;
    bool diff_alloc;

    Alloc alloc_for(u32 k) {
        if constexpr(std::is_constructible_v<Alloc, u32>)
            return Alloc(diff_alloc ? 100 + k % 3 : 100);
        else
            return Alloc();
    }
    u64 fresh() { return next++; }

    // ------------------------------------------------------------------ observation
    static constexpr bool counts_allocs = !std::is_base_of_v<Own, T>;
    static constexpr bool CP            = std::is_copy_constructible_v<T>;

    bool readable(Slot& x, const char* when) {  // may the elements be looked at?
        std::size_t n, cap;
        const T* d;
        sut([&] {
            const A& c = *x.a;
            n          = c.size();
            cap        = c.capacity();
            d          = c.data();
        });
        if(n > cap) {
            violate("invalid", "%s: size %zu exceeds capacity %zu", when, n, cap);
            violate("capacity", "%s: size %zu exceeds capacity %zu", when, n, cap);
            return false;
        }
        if(n > 10000000)
            return false;
        if(n && !heap_ok(d, n * sizeof(T))) {
            violate("mem", "%s: the elements do not lie in owned memory", when);
            violate("invalid", "%s: the elements do not lie in owned memory", when);
            return false;
        }
        if(cap && !heap_ok(d, cap * sizeof(T))) {
            violate("mem", "%s: capacity %zu is not backed by memory", when, cap);
            violate("capacity", "%s: capacity %zu is not backed by memory", when, cap);
            violate("invalid", "%s: capacity %zu is not backed by memory", when, cap);
            return false;
        }
        if constexpr(has_life<T>)
            for(std::size_t i = 0; i < n; ++i)
                if(!life_live(d + i)) {
                    violate("life", "%s: element %zu of %zu is not a live object", when, i, n);
                    violate("invalid", "%s: element %zu of %zu is not a live object", when, i, n);
                    return false;
                }
        return true;
    }
    std::vector<u64> actual(Slot& x) {
        std::vector<u64> v;
        sut([&] {
            const A& c = *x.a;
            auto d     = c.data();
            auto n     = c.size();
            oracle([&] {
                for(std::size_t i = 0; i < n; ++i)
                    v.push_back(val(d[i]));
            });
        });
        return v;
    }
    bool check(Slot& x, const char* when) {
        if(!readable(x, when))
            return false;
        auto v = actual(x);
        if(v != x.m) {
            std::string t, w;
            for(auto k : v) t += " " + std::to_string(k);
            for(auto k : x.m) w += " " + std::to_string(k);
            violate("sequence", "%s: holds [%s ], expected [%s ]", when, t.c_str(), w.c_str());
            x.m = v;
            return false;
        }
        bool bad = false;
        sut([&] {
            const A& c = *x.a;
            bad |= c.size() != x.m.size() || c.empty() != x.m.empty() || x.a->size() != x.m.size() || x.a->empty() != x.m.empty();
            if(!x.m.empty()) {
                bad |= val(c.front()) != x.m.front() || val(c.back()) != x.m.back();
                bad |= val(x.a->front()) != x.m.front() || val(x.a->back()) != x.m.back();
                bad |= x.a->data() != c.data() || &*x.a->begin() != c.data() || &(*x.a)[0] != c.data();
                bad |= x.a->begin() + x.m.size() != x.a->end();
            }
        });
        if(bad)
            violate("sequence", "%s: size, emptiness, front, back or data disagree with the contents", when);
        return true;
    }
    void full_read(Slot& x) {
        bool bad = false;
        sut([&] {
            const A& c = *x.a;
            std::size_t i = 0, n = x.m.size();
            for(auto it = c.begin(); it != c.end() && i < n; ++it, ++i)
                bad |= val(*it) != x.m[i] || val(c[i]) != x.m[i] || val((*x.a)[i]) != x.m[i];
            bad |= i != n;
            for(auto it = x.a->begin(); it != x.a->end() && i > 0; it++, --i)
                bad |= val(*it) != x.m[n - i];
        });
        if(bad)
            violate("sequence", "iteration and indexing disagree with the contents");
        sut([&] {
            const std::ptrdiff_t n = x.m.size(), i = n ? n / 2 : 0, j = n ? (n * 7 + i) % (n + 1) : 0;
            const auto b = x.a->begin(), e = x.a->end();
            bad |= !walks(b, e, n, i, j);
            const A& c = *x.a;
            bad |= !walks(c.begin(), c.end(), n, i, j);
            typename A::const_iterator k = b;
            bad |= k != c.begin() || k + n != c.end();
            auto r = e;
            for(std::ptrdiff_t p = n; p-- > 0 && !bad;)
                bad |= val(*--r) != x.m[p];
        });
        if(bad)
            violate("sequence", "iterator arithmetic disagrees with the contents");
    }
    template<typename It>
    static bool walks(It b, It e, std::ptrdiff_t n, std::ptrdiff_t i, std::ptrdiff_t j) {
        bool ok = e - b == n && (b == e) == (n == 0) && (b < e) == (n > 0) && !(e < b) && b <= e && e >= b && (e > b) == (n > 0);
        It p = b;
        p += i;
        ok &= p - b == i && p == b + i && e - p == n - i && p.operator->() == b.operator->() + i;
        if(i < n)
            ok &= &*p == &b[i] && &*p == &p[0];
        p -= i;
        ok &= p == b;
        p = b + j;
        It q = b + i;
        ok &= q - p == i - j && (p < q) == (j < i) && (p > q) == (j > i) && (p == q) == (i == j) && p - j == b && e - (n - j) == p;
        ok &= (p <=> q) == (j <=> i) && j + b == p;
        if(j < n) {
            It o = p++;
            ok &= o == b + j && p == b + (j + 1);
            o = p--;
            ok &= o == b + (j + 1) && p == b + j;
            ok &= &*++p == &*b + (j + 1) || j + 1 == n;
            ok &= &*--p == &*b + j;
        }
        return ok;
    }
    std::size_t expected_live() {
        std::size_t n = 0;
        for(auto& x : s)
            if(x.a)
                n += sut([&] { return const_cast<const A*>(x.a)->size(); });
        return n;
    }

    // ------------------------------------------------------------------ one step
    // Runs f with the failure armed. Returns 0 ok, 1 failed.
    std::size_t base_live = 0;
    int guarded(const Step& st, std::function<void()> f) {
        op_begin(&st);
        int r = 0;
        try {
            sut([&] { f(); });
            if(fault_fired())
                violate("except", "%s hides an injected failure", op_name(st.op));
        } catch(const Fault& e) {
            r = 1;
            if(e.id != last_fault_id() || !fault_fired())
                violate("except", "%s throws another failure than the one injected", op_name(st.op));
        } catch(const std::bad_alloc&) {
            r = 1;
            if(!fault_fired() || fault_kind() != F_ALLOC)
                violate("except", "%s throws bad_alloc although no allocation failed", op_name(st.op));
        } catch(const std::exception& e) {
            r = 1;
            violate("except", "%s throws %s", op_name(st.op), e.what());
        }
        fk  = fault_fired() ? fault_kind() : 0;
        oal = op_allocs();
        op_end();
        if(r)
            probe(fk == F_ALLOC ? "operation failed: allocation" : "operation failed: element");
        return r;
    }
    u32 fk  = 0;
    u64 oal = 0;
    // a range that was copied from keeps its values
    template<typename R>
    void kept(const R& src, const std::vector<u64>& vals, const char* nm) {
        std::size_t i = 0;
        for(auto& e : src)
            if(i >= vals.size() || val(e) != vals[i++]) {
                violate("sequence", "%s changed the range it copied from", nm);
                return;
            }
    }

    static auto moves(T* p) { return std::make_move_iterator(p); }
    static std::forward_list<T> listed(const std::vector<T>& v) {
        if constexpr(CP)
            return {v.begin(), v.end()};
        else
            return {};
    }

    // after a failure that may leave other contents: only validity is demanded
    void adopt(Slot& x, const char* when) {
        if(!readable(x, when))
            return;
        x.m = actual(x);
    }

    struct Before {
        std::size_t cap, size;
        const T* data;
        std::vector<u64> stamps;
    };
    Before before(Slot& x) {
        Before b;
        sut([&] {
            const A& c = *x.a;
            b          = {c.capacity(), c.size(), c.data(), {}};
            if constexpr(is_tok<T>)
                oracle([&] {
                    if(b.size && (b.size > b.cap || !heap_ok(b.data, b.size * sizeof(T))))
                        return;
                    for(std::size_t i = 0; i < b.size; ++i)
                        b.stamps.push_back(b.data[i].stamp);
                });
        });
        return b;
    }
    void after_failure(Slot& x, const Before& b, const std::vector<u64>& old, bool strong, const char* name) {
        if(!readable(x, name))
            return;
        bool block_failure = fk == F_ALLOC && counts_allocs;
        auto v             = actual(x);
        std::size_t cap    = before(x).cap;
        if(strong || block_failure) {
            if(v != old)
                violate("atomicity", "%s failed (%s) and changed the contents", name,
                        block_failure ? "allocation" : "element");
            if(block_failure && cap != b.cap)
                violate("atomicity", "%s: failed allocation changed the capacity from %zu to %zu", name, b.cap, cap);
        }
        x.m = v;
    }
    // at: the first position the operation may touch
    void fits(Slot& x, const Before& b, std::size_t need, std::size_t at, const char* name) {
        if(need > b.cap)
            return;
        if(counts_allocs && oal)
            violate("inplace", "%s within reserved capacity requested memory", name);
        Before n = before(x);
        if(b.cap && n.data != b.data)
            violate("inplace", "%s within reserved capacity moved the elements elsewhere", name);
        if(n.cap != b.cap)
            violate("capacity", "%s within reserved capacity changed the capacity", name);
        for(std::size_t i = 0; i < at && i < n.stamps.size() && i < b.stamps.size(); ++i)
            if(n.stamps[i] != b.stamps[i])
                violate("inplace", "%s within reserved capacity rebuilt or wrote element %zu", name, i);
        probe("fits into reserved capacity");
    }

    template<typename F>
    void construct(const Step& st, Slot& x, std::vector<u64> m, F&& f) {
        // replace the object in the slot
        if(x.a) {
            sut([&] { x.a->~A(); });
            root_free(x.a);
            x.a = nullptr;
        }
        x.m.clear();
        void* p          = root_alloc(sizeof(A), alignof(A));
        std::size_t lb   = live_blocks();
        std::size_t lo   = live_objects();
        int r            = guarded(st, [&] { f(p); });
        if(r) {
            if(live_blocks() != lb) {
                violate("invalid", "failed %s leaves a block behind", op_name(st.op));
                violate("leak", "failed %s leaves a block behind", op_name(st.op));
            }
            if(live_objects() != lo) {
                violate("invalid", "failed %s leaves an object behind", op_name(st.op));
                violate("leak-obj", "failed %s leaves an object behind", op_name(st.op));
            }
            root_free(p);
            p = root_alloc(sizeof(A), alignof(A));
            Alloc al = alloc_for(st.b);
            sut([&] { new(p) A(al); });
            x.a = (A*)p;
            return;
        }
        x.a = (A*)p;
        x.m = std::move(m);
    }

    bool step(const Step& st) {
        Slot& x     = s[st.a % SLOTS];
        Slot& y     = s[st.a / SLOTS % SLOTS];
        const char* nm = op_name(st.op);
        std::size_t n = x.m.size();
        std::vector<u64> old = x.m;
        Before b = before(x);
        std::vector<u64> vals;
        // sources are built outside the operation, so that failures hit only the library's work
        auto make_src = [&](u32 k) {
            std::vector<T> v;
            v.reserve(k);
            for(u32 i = 0; i < k; ++i) {
                u64 f = fresh();
                vals.push_back(f);
                v.push_back(T(f));
            }
            return v;
        };
        auto insert_model = [&](std::size_t pos) { x.m.insert(x.m.begin() + pos, vals.begin(), vals.end()); };
        switch(st.op) {
            case C_DEF: {
                Alloc al = alloc_for(st.b);
                construct(st, x, {}, [&](void* p) { st.c & 1 ? new(p) A() : new(p) A(al); });
                break;
            }
            case C_N: {
                Alloc al = alloc_for(st.b);
                u32 k    = st.c;
                construct(st, x, {}, [&](void* p) { new(p) A(k, al); });
                if(x.a && before(x).cap < k && fk == 0)
                    violate("capacity", "constructor for %u elements has capacity %zu", k, before(x).cap);
                break;
            }
            case C_NVAL: if constexpr(CP) {
                Alloc al = alloc_for(st.b);
                u32 k    = st.c;
                auto src = make_src(1);
                construct(st, x, std::vector<u64>(k, vals[0]), [&](void* p) { new(p) A(k, src[0], al); });
            }
                break;
            case C_LIST: if constexpr(CP) {
                Alloc al = alloc_for(st.b);
                u64 v0 = fresh(), v1 = fresh(), v2 = fresh();
                std::initializer_list<T> il = {T(v0), T(v1), T(v2)};
                construct(st, x, {v0, v1, v2}, [&](void* p) { new(p) A(il, al); });
            }
                break;
            case C_ITER: {
                Alloc al = alloc_for(st.b);
                auto src = make_src(st.c);
                construct(st, x, vals, [&](void* p) {
                    if constexpr(CP)
                        new(p) A(src.data(), src.data() + src.size(), al);
                    else
                        new(p) A(moves(src.data()), moves(src.data() + src.size()), al);
                });
                if constexpr(CP)
                    kept(src, vals, nm);
                break;
            }
            case C_RANGE: if constexpr(CP) {
                Alloc al = alloc_for(st.b);
                auto src = make_src(st.c);
                std::forward_list<T> fl(src.begin(), src.end());
                construct(st, x, vals, [&](void* p) { new(p) A(fl, al); });
                kept(fl, vals, nm);
            }
                break;
            case C_COPY: if constexpr(CP) {
                if(&x == &y)
                    return true;
                auto m = y.m;
                construct(st, x, m, [&](void* p) { new(p) A(const_cast<const A&>(*y.a)); });
            }
                break;
            case C_MOVE: {
                if(&x == &y)
                    return true;
                auto m = y.m;
                construct(st, x, m, [&](void* p) { new(p) A(std::move(*y.a)); });
                y.m.clear();
                break;
            }
            case A_COPY:
                if(&x == &y)
                    return true;
                if constexpr(CP) {
                    if(guarded(st, [&] { *x.a = const_cast<const A&>(*y.a); }))
                        after_failure(x, b, old, true, nm);
                    else
                        x.m = y.m;
                }
                break;
            case A_MOVE: {
                if(&x == &y)
                    return true;
                if(guarded(st, [&] { *x.a = std::move(*y.a); })) {
                    adopt(x, nm);
                    adopt(y, nm);
                }
                else {
                    x.m = y.m;
                    y.m.clear();
                }
                break;
            }
            case A_LIST: if constexpr(CP) {
                u64 v0 = fresh(), v1 = fresh();
                std::initializer_list<T> il = {T(v0), T(v1)};
                if(guarded(st, [&] { *x.a = il; }))
                    after_failure(x, b, old, false, nm);
                else
                    x.m = {v0, v1};
            }
                break;
            case SWAP:
                if(guarded(st, [&] { x.a->swap(*y.a); }))
                    violate("except", "swap throws");
                else if(&x != &y)
                    std::swap(x.m, y.m);
                break;
            case CLEAR:
                if(guarded(st, [&] { x.a->clear(); }))
                    violate("except", "clear throws");
                x.m.clear();
                fits(x, b, 0, 0, nm);
                break;
            case RESERVE: {
                std::size_t k = st.b;
                if(guarded(st, [&] { x.a->reserve(k); }))
                    after_failure(x, b, old, false, nm);
                else {
                    if(before(x).cap < k || before(x).cap < b.cap)
                        violate("capacity", "reserve(%zu) leaves capacity %zu (was %zu)", k, before(x).cap, b.cap);
                    fits(x, b, k, n, nm);
                }
                break;
            }
            case RESIZE: {
                std::size_t k = st.c % 4 == 0 ? b.cap : st.b;
                if(guarded(st, [&] { x.a->resize(k); }))
                    after_failure(x, b, old, false, nm);
                else {
                    if(k == b.cap)
                        fits(x, b, k, n, nm);
                    if(x.m.size() > k)
                        x.m.resize(k);
                    if(before(x).cap != k)
                        violate("capacity", "resize(%zu) leaves capacity %zu", k, before(x).cap);
                }
                break;
            }
            case INS_COPY: case INS_MOVE: case INS_CONV: {
                std::size_t pos = st.b % (n + 1);
                auto src        = make_src(1);
                u64 raw         = vals[0];
                const T* ret    = nullptr;
                int r           = guarded(st, [&] {
                    auto it = x.a->begin() + pos;
                    auto q  = it;
                    if constexpr(CP)
                        q = st.op == INS_COPY   ? st.c % 2 ? x.a->insert(it, src[0]) : x.a->insert(it, std::as_const(src[0]))
                            : st.op == INS_MOVE ? x.a->insert(it, std::move(src[0]))
                                                : x.a->insert(it, raw);
                    else
                        q = st.op == INS_CONV ? x.a->insert(it, raw) : x.a->insert(it, std::move(src[0]));
                    ret = q.operator->();
                });
                if(CP && st.op == INS_COPY)
                    kept(src, vals, nm);
                if(r) {
                    // inserting at the end is appending
                    bool app = pos == n && ((st.op == INS_COPY && fk == F_COPY) || (st.op == INS_CONV && fk == F_CTOR));
                    after_failure(x, b, old, app, nm);
                    break;
                }
                insert_model(pos);
                if(ret != before(x).data + pos)
                    violate("iterator", "%s returns a wrong position", nm);
                fits(x, b, n + 1, pos, nm);
                break;
            }
            case INS_ALIAS: case INS_ALIASM: if constexpr(CP) {
                if(n == 0)
                    return true;
                std::size_t pos = st.b % (n + 1), from = st.c % n;
                const T* ret = nullptr;
                int r        = guarded(st, [&] {
                    auto it = x.a->begin() + pos;
                    auto q  = st.op == INS_ALIAS ? x.a->insert(it, const_cast<const A&>(*x.a)[from])
                                                 : x.a->insert(it, (*x.a)[from]);
                    ret     = q.operator->();
                });
                if(r) {
                    after_failure(x, b, old, pos == n && fk == F_COPY, nm);
                    break;
                }
                vals.push_back(old[from]);
                insert_model(pos);
                if(ret != before(x).data + pos)
                    violate("iterator", "%s returns a wrong position", nm);
                fits(x, b, n + 1, pos, nm);
            }
                break;
            case INS_RANGE: case INS_FWD: {
                std::size_t pos = st.b % (n + 1);
                auto src        = make_src(st.c < 12 ? st.c % 7 : st.c);
                auto fl      = listed(src);
                const T* ret = nullptr;
                int r        = guarded(st, [&] {
                    auto it = x.a->begin() + pos;
                    auto q  = it;
                    if constexpr(CP)
                        q = st.op == INS_RANGE ? x.a->insert(it, src.data(), src.data() + src.size()) : x.a->insert(it, fl);
                    else
                        q = x.a->insert(it, moves(src.data()), moves(src.data() + src.size()));
                    ret = q.operator->();
                });
                if constexpr(CP) {
                    kept(src, vals, nm);
                    kept(fl, vals, nm);
                }
                if(r) {
                    after_failure(x, b, old, false, nm);
                    break;
                }
                insert_model(pos);
                if(ret != before(x).data + pos)
                    violate("iterator", "%s returns a wrong position", nm);
                fits(x, b, n + vals.size(), pos, nm);
                break;
            }
            case P_COPY: case P_MOVE: case P_CONV: case EMPLACE: {
                auto src = make_src(1);
                u64 raw  = vals[0];
                const T* ret = nullptr;
                int r    = guarded(st, [&] {
                    if(CP && st.op == P_COPY) {
                        if constexpr(CP)
                            st.c % 2 ? x.a->push_back(src[0]) : x.a->push_back(std::as_const(src[0]));
                    }
                    else if(st.op == P_COPY || st.op == P_MOVE)
                        x.a->push_back(std::move(src[0]));
                    else if(st.op == P_CONV)
                        x.a->push_back(raw);
                    else if(st.c % 3 == 0)
                        ret = &x.a->emplace_back(raw);
                    else if(st.c % 3 == 1 || !CP)
                        ret = &x.a->emplace_back(std::move(src[0]));
                    else if constexpr(CP)
                        ret = &x.a->emplace_back(src[0]);
                });
                if(CP && (st.op == P_COPY || (st.op == EMPLACE && st.c % 3 == 2)))
                    kept(src, vals, nm);
                if(r) {
                    bool own = (st.op == P_COPY && fk == F_COPY) || ((st.op == P_CONV || st.op == EMPLACE) && fk == F_CTOR) ||
                               (st.op == EMPLACE && st.c % 3 == 2 && fk == F_COPY) ||
                               (!counts_allocs && (st.op == P_COPY || st.op == P_CONV || st.op == EMPLACE)) ||
                               (std::is_same_v<T, NTok>);
                    after_failure(x, b, old, own, nm);
                    break;
                }
                insert_model(n);
                if(st.op == EMPLACE && ret != before(x).data + n)
                    violate("iterator", "emplace_back returns a wrong reference");
                fits(x, b, n + 1, n, nm);
                break;
            }
            case P_ALIAS: case E_ALIAS: if constexpr(CP) {
                if(n == 0)
                    return true;
                std::size_t from = st.c % n;
                int r            = guarded(st, [&] {
                    if(st.op == P_ALIAS)
                        x.a->push_back(const_cast<const A&>(*x.a)[from]);
                    else
                        x.a->emplace_back((*x.a)[from]);
                });
                if(r) {
                    after_failure(x, b, old, fk == F_COPY, nm);
                    break;
                }
                vals.push_back(old[from]);
                insert_model(n);
                fits(x, b, n + 1, n, nm);
            }
                break;
            case P_BURST: {
                u32 k = st.c + 1, fails = 0;
                for(u32 i = 0; i < k && fails < 8; ++i) {
                    u64 v = fresh();
                    old = x.m;
                    b = before(x);
                    int r = guarded(st, [&] { x.a->emplace_back(v); });
                    if(r) {
                        ++fails;
                        after_failure(x, b, old, fk == F_CTOR || std::is_same_v<T, NTok>, nm);
                    }
                    else
                        x.m.push_back(v);
                }
                break;
            }
            case C_STREAM: case C_GEN: {
                Alloc al = alloc_for(st.b);
                make_src(st.c);
                Source<T> src{vals, "sequence"};
                construct(st, x, vals, [&](void* p) {
                    if(st.op == C_GEN)
                        st.b & 1 ? new(p) A(src.first(), src.last(), al) : new(p) A(src.range(), al);
                    else
                        st.b & 1 ? new(p) A(src.once(), src.end(), al) : new(p) A(src.once_range(), al);
                });
                if(x.m == vals && st.op == C_STREAM)
                    src.all_read(nm);
                break;
            }
            case INS_STREAM: case INS_GEN: case P_STREAM: case P_GEN: {
                make_src(st.c < 12 ? st.c % 7 : st.c);
                Source<T> src{vals, "sequence"};
                bool push       = st.op == P_STREAM || st.op == P_GEN;
                std::size_t pos = push ? n : st.b % (n + 1);
                const T* ret    = nullptr;
                int r           = guarded(st, [&] {
                    auto it = x.a->begin() + pos;
                    bool rg = st.a & 1;
                    if(st.op == P_STREAM)
                        rg ? x.a->push_back(src.once_range()) : x.a->push_back(src.once(), src.end());
                    else if(st.op == P_GEN)
                        rg ? x.a->push_back(src.range()) : x.a->push_back(src.first(), src.last());
                    else if(st.op == INS_STREAM)
                        it = rg ? x.a->insert(it, src.once_range()) : x.a->insert(it, src.once(), src.end());
                    else
                        it = rg ? x.a->insert(it, src.range()) : x.a->insert(it, src.first(), src.last());
                    ret = it.operator->();
                });
                if(r) {
                    after_failure(x, b, old, false, nm);
                    break;
                }
                insert_model(pos);
                if(st.op == INS_STREAM || st.op == P_STREAM)
                    src.all_read(nm);
                if(!push && ret != before(x).data + pos)
                    violate("iterator", "%s returns a wrong position", nm);
                fits(x, b, n + vals.size(), pos, nm);
                break;
            }
            case P_RANGE: case P_FWD: {
                auto src = make_src(st.c < 12 ? st.c % 7 : st.c);
                auto fl = listed(src);
                int r   = guarded(st, [&] {
                    if constexpr(!CP)
                        x.a->push_back(moves(src.data()), moves(src.data() + src.size()));
                    else if(st.op == P_RANGE)
                        x.a->push_back(src.data(), src.data() + src.size());
                    else
                        x.a->push_back(fl);
                });
                if constexpr(CP) {
                    kept(src, vals, nm);
                    kept(fl, vals, nm);
                }
                if(r) {
                    after_failure(x, b, old, false, nm);
                    break;
                }
                insert_model(n);
                fits(x, b, n + vals.size(), n, nm);
                break;
            }
            case POP:
                if(n == 0)
                    return true;
                if(guarded(st, [&] { x.a->pop_back(); }))
                    violate("except", "pop_back throws");
                x.m.pop_back();
                fits(x, b, n, n - 1, nm);
                break;
            case ERASE: {
                if(n == 0)
                    return true;
                std::size_t pos = st.b % n;
                const T* ret    = nullptr;
                int r           = guarded(st, [&] { ret = x.a->erase(x.a->begin() + pos).operator->(); });
                if(r) {
                    after_failure(x, b, old, false, nm);
                    break;
                }
                x.m.erase(x.m.begin() + pos);
                if(ret != before(x).data + pos)
                    violate("iterator", "erase returns a wrong position");
                fits(x, b, n, pos, nm);
                break;
            }
            case ERASE_R: {
                std::size_t f = st.b % (n + 1), l = f + st.c % (n - f + 1);
                const T* ret = nullptr;
                int r = guarded(st, [&] { ret = x.a->erase(x.a->begin() + f, x.a->begin() + l).operator->(); });
                if(r) {
                    after_failure(x, b, old, false, nm);
                    break;
                }
                x.m.erase(x.m.begin() + f, x.m.begin() + l);
                if(ret != before(x).data + f)
                    violate("iterator", "erase(range) returns a wrong position");
                fits(x, b, n, f, nm);
                break;
            }
            case READ: full_read(x); break;
            case A_SELF:
                if constexpr(CP)
                    if(guarded(st, [&] { *x.a = const_cast<const A&>(*x.a); }))
                        after_failure(x, b, old, true, nm);
                break;
            case A_SELFM:
                guarded(st, [&] { *x.a = std::move(*x.a); });
                if(readable(x, nm)) {
                    auto v = actual(x);
                    if(v != x.m && !v.empty())
                        violate("sequence", "self move assignment leaves neither the old contents nor nothing");
                    x.m = v;
                }
                break;
            case SET: if constexpr(CP) {
                if(n == 0)
                    return true;
                std::size_t i = st.b % n;
                T src(fresh());
                u64 v = val(src);
                int r = guarded(st, [&] { (*x.a)[i] = const_cast<const T&>(src); });
                if(!r)
                    x.m[i] = v;
            }
                break;
        }
        if(!check(x, nm))
            return false;
        if(&y != &x && !check(y, nm))
            return false;
        if constexpr(has_life<T>)
            if(live_objects() != expected_live()) {
                violate("life", "%s: %zu objects are alive, the arrays hold %zu", nm, live_objects(), expected_live());
                return false;
            }
        cover(x.m.size() * 64 + before(x).cap + st.op * 4096 + (fk ? 1 << 20 : 0) + sizeof(T) * (1ull << 24));
        return true;
    }

    void go(const Plan& p) {
        diff_alloc = p.cfg[1];
        for(u32 i = 0; i < SLOTS; ++i) {
            void* q  = root_alloc(sizeof(A), alignof(A));
            Alloc al = alloc_for(i);
            sut([&] { new(q) A(al); });
            s[i].a = (A*)q;
        }
        for(auto& st : p.thr[0])
            if(!step(st))
                return;  // the state is beyond the model (and some other property is broken)
        for(auto& x : s) {
            if(!check(x, "at the end"))
                return;
            full_read(x);
        }
        for(auto& x : s) {
            sut([&] { x.a->~A(); });
            root_free(x.a);
        }
        check_no_leaks();
    }
};

void run(const Plan& p) {
    switch(p.cfg[0]) {
        case 0: { Run<Tok, SimAlloc<Tok, true, true, true>> r; r.go(p); break; }
        case 1: { Run<NTok, SimAlloc<NTok, true, true, true>> r; r.go(p); break; }
        case 2: { Run<Own, std::allocator<Own>> r; r.go(p); break; }
        case 3: { Run<u64, SimAlloc<u64, true, true, true>> r; r.go(p); break; }
        case 4: { Run<Tok, std::allocator<Tok>> r; r.go(p); break; }
        case 5: { Run<Tok, SimAlloc<Tok, false, false, true>> r; r.go(p); break; }
        case 6: { Run<Tok, SimAlloc<Tok, false, true, true>> r; r.go(p); break; }
        case 7: { Run<Uniq, SimAlloc<Uniq, true, true, true>> r; r.go(p); break; }
        case HUGE_: { set_huge(); Run<u64, SimAlloc<u64, true, true, true>> r; r.go(p); break; }
        case HUGE_ + 1: { set_huge(); Run<Tok, std::allocator<Tok>> r; r.go(p); break; }
        default: { Run<Big, std::allocator<Big>> r; r.go(p); break; }
    }
}
}  // namespace

const sim::Harness sim::harness{"array", op_name, gen, run, relevant, false};
