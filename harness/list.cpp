// C10, C11: xme::LinkedList under random histories with failing allocations and element operations.
#include "common.hpp"
#include "source.hpp"
#include <forward_list>
#include <xme/container/linked_list.hpp>

using namespace sim;
using namespace el;

namespace {
enum : u32 {
    C_DEF, C_N, C_NVAL, C_LIST, C_ITER, C_RANGE, C_COPY, C_MOVE, A_COPY, A_MOVE, A_LIST, AS_ITER, AS_LIST, AS_RANGE,
    PUSH_C, PUSH_M, EMPL_F, POP, INS_C, INS_M, INS_CONV, INS_ALIAS, INS_IT, INS_R, EMPL_A, ER_A, ER_R, CLEAR, REV,
    A_SELF, A_SELFM, READ, SET, C_STREAM, C_GEN, AS_STREAM, AS_GEN, INS_STREAM, INS_GEN, NOPS_
};
const char* names[] = {"ctor()", "ctor(n)", "ctor(n,value)", "ctor(list)", "ctor(iters)", "ctor(range)", "ctor(copy)",
                       "ctor(move)", "=copy", "=move", "=list", "assign(iters)", "assign(list)", "assign(range)",
                       "push_front(copy)", "push_front(move)", "emplace_front", "pop_front", "insert_after(copy)",
                       "insert_after(move)", "insert_after(converted)", "insert_after(own element)", "insert_after(iters)",
                       "insert_after(range)", "emplace_after", "erase_after", "erase_after(range)", "clear", "reverse",
                       "=self", "=move(self)", "read", "set", "ctor(stream)", "ctor(generator)", "assign(stream)",
                       "assign(generator)", "insert_after(stream)", "insert_after(generator)"};
const char* op_name(u32 o) { return o < NOPS_ ? names[o] : "?"; }
constexpr u32 SLOTS = 3;

void gen(Rng& r, Plan& p) {
    p.cfg[0] = r.below(6);
    u32 n    = r.chance(1, 2) ? r.range(1, 8) : r.range(4, 30);
    u32 fpm  = prop_is("C10") ? r.below(3) * 10 : r.range(1, 4) * 12;
    bool focus = r.chance(1, 3), big = r.chance(1, 80);
    u32 f[3] = {r.below(NOPS_), r.below(NOPS_), r.below(NOPS_)};
    for(u32 i = 0; i < n; ++i) {
        Step s;
        u32 k = r.below(100);
        if(focus && k < 70)
            s.op = f[k % 3];
        else if(k < 15)
            s.op = r.below(AS_RANGE + 1);
        else if(k < 21)
            s.op = C_STREAM + r.below(6);
        else if(k < 65)
            s.op = PUSH_C + r.below(EMPL_A - PUSH_C + 1);
        else
            s.op = r.below(NOPS_);
        s.a = r.below(SLOTS) + SLOTS * r.below(SLOTS);
        s.b = r.below(24);
        s.c = r.below(12);
        if(big && r.chance(1, 2)) {
            s.b = r.below(500);
            s.c = r.chance(1, 2) ? r.below(40) : r.below(250);
        }
        random_fault(r, s, fpm, big ? 120 : 12);
        p.thr[0].push_back(s);
    }
    if(r.chance(1, 3000)) {  // so long that nothing may be done once per element on the stack
        p.thr[0].resize(std::min<std::size_t>(p.thr[0].size(), 5));
        static const u32 start[] = {C_N, C_ITER, C_GEN, AS_GEN, INS_GEN, INS_IT};
        Step s;
        s.op = start[r.below(6)];
        s.c  = r.range(10000, 20000);
        p.cfg[0] = r.chance(1, 2) ? 5 : 1;
        p.thr[0].insert(p.thr[0].begin() + r.below(2), s);
    }
}

bool relevant(const char* prop, const char* cls) {
    if(is(prop, "C10")) return is(cls, "sequence") || is(cls, "moved") || is(cls, "iterator") || is(cls, "mem");
    if(is(prop, "C11")) return is(cls, "except") || is(cls, "atomicity") || is(cls, "invalid") || memory_class(cls);
    return false;
}

template<typename T, typename Alloc>
struct Run {
    using L = xme::LinkedList<T, Alloc>;
    using It = typename L::iterator;
    static constexpr bool CP = std::is_copy_constructible_v<T>;
    static auto moves(T* p) { return std::make_move_iterator(p); }
    static std::forward_list<T> listed(const std::vector<T>& v) {
        if constexpr(CP)
            return {v.begin(), v.end()};
        else
            return {};
    }
    struct Slot {
        L* l = nullptr;
        std::vector<u64> m;            // abstract sequence
        std::vector<const T*> at;      // where each element lies (null = not yet known)
    };
    Slot s[SLOTS];
    u64 next = 1;

    std::size_t walk(Slot& x, std::vector<u64>& v, std::vector<const T*>& at, const char* when) {
        // walks the list; false if it is not a list of live elements
        bool ok = true;
        sut([&] {
            const L& c = *x.l;
            auto it    = c.begin();
            auto e     = c.end();
            for(; it != e; ++it) {
                const T* p = it.operator->();
                bool bad = oracle([&] {
                    if(v.size() > 50000) {
                        violate("invalid", "%s: the list does not end", when);
                        violate("sequence", "%s: the list does not end", when);
                        return true;
                    }
                    if(!heap_ok(p, sizeof(T))) {
                        violate("mem", "%s: element %zu does not lie in owned memory", when, v.size());
                        return true;
                    }
                    if constexpr(has_life<T>)
                        if(!life_live(p)) {
                            violate("life", "%s: element %zu is not a live object", when, v.size());
                            return true;
                        }
                    v.push_back(val(*p));
                    at.push_back(p);
                    return false;
                });
                if(bad) {
                    ok = false;
                    break;
                }
            }
        });
        return ok;
    }
    bool check(Slot& x, const char* when) {
        std::vector<u64> v;
        std::vector<const T*> at;
        if(!walk(x, v, at, when))
            return false;
        if(v != x.m) {
            violate("sequence", "%s: holds %s, expected %s", when, show(v).c_str(), show(x.m).c_str());
            x.m  = v;
            x.at = at;
            return false;
        }
        for(std::size_t i = 0; i < v.size(); ++i)
            if(x.at[i] && x.at[i] != at[i]) {
                violate("moved", "%s: element %zu (value %llu) is at another address", when, i, (unsigned long long)v[i]);
                break;
            }
        x.at = at;
        bool bad = false;
        sut([&] {
            const L& c = *x.l;
            bad |= c.empty() != v.empty() || x.l->empty() != v.empty() || (x.l->begin() == x.l->end()) != v.empty();
            if(!v.empty())
                bad |= &c.front() != at[0] || &x.l->front() != at[0] || &*++x.l->before_begin() != at[0] ||
                       &*++c.before_begin() != at[0] || &*++x.l->cbefore_begin() != at[0];
        });
        if(bad)
            violate("sequence", "%s: emptiness, front or before_begin disagree with the contents", when);
        return true;
    }
    // adopt whatever the list holds now; elements that were there and still are must not have moved
    bool adopt(Slot& x, const char* when) {
        std::vector<u64> v;
        std::vector<const T*> at;
        if(!walk(x, v, at, when))
            return false;
        x.m  = v;
        x.at = at;
        return true;
    }
    void full_read(Slot& x) {
        bool bad = false;
        sut([&] {
            std::size_t i = 0;
            for(auto it = x.l->begin(); it != x.l->end() && i < x.m.size(); it++, ++i)
                bad |= val(*it) != x.m[i] || it.operator->() != x.at[i];
            bad |= i != x.m.size();
            const L& c = *x.l;
            typename L::const_iterator k = x.l->before_begin(), b = c.before_begin(), e = x.l->end();
            bad |= k != b || !(k == c.cbefore_begin()) || e != c.end() || b == e;
            for(i = 0; ++k != e && i < x.m.size(); ++i) {
                bad |= (i + 1 < x.m.size()) == (std::next(k) == e) || k == b;
                auto old = k;
                auto ret = k++;
                auto then = old;
                bad |= k != ++then || ret != old || ret.operator->() != x.at[i] || &*ret != x.at[i];
                k = ret;
            }
            bad |= i != x.m.size();
            auto w = x.l->before_begin();
            for(i = 0; i < x.m.size() && i < 3; ++i) {
                auto old = w;
                bad |= w++ != old || w == old || w.operator->() != x.at[i] || &*w != x.at[i];
            }
        });
        if(bad)
            violate("sequence", "iteration disagrees with the contents");
    }
    It nth(L& l, std::size_t pos) {  // position after which something happens; 0 = before the first
        It it = l.before_begin();
        while(pos--)
            ++it;
        return it;
    }
    // the element operation failed inside a single insertion: nothing may have changed
    bool unchanged(Slot& x, const std::vector<u64>& old, const char* nm) {
        std::vector<u64> v;
        std::vector<const T*> at;
        if(!walk(x, v, at, nm))
            return false;
        if(v != old)
            violate("atomicity", "failed %s changed the list from %s to %s", nm, show(old).c_str(), show(v).c_str());
        x.m = v;
        x.at = at;
        return true;
    }
    void model_insert(Slot& x, std::size_t pos, const std::vector<u64>& vals) {
        x.m.insert(x.m.begin() + pos, vals.begin(), vals.end());
        x.at.insert(x.at.begin() + pos, vals.size(), nullptr);
    }
    void model_new(Slot& x, std::vector<u64> m) {
        x.m = std::move(m);
        x.at.assign(x.m.size(), nullptr);
    }
    std::size_t nth_returned(Slot& x, const T* p) {  // index of the element at address p
        std::size_t i = 0;
        bool found = false;
        sut([&] {
            for(auto it = x.l->begin(); it != x.l->end(); ++it, ++i)
                if(it.operator->() == p) {
                    found = true;
                    break;
                }
        });
        return found ? i : ~std::size_t(0);
    }

    template<typename F>
    void construct(const Step& st, Slot& x, std::vector<u64> m, F&& f, bool keep_at = false) {
        if(x.l) {
            sut([&] { x.l->~L(); });
            root_free(x.l);
            x.l = nullptr;
        }
        x.m.clear();
        auto at = x.at;
        x.at.clear();
        void* p        = root_alloc(sizeof(L), alignof(L));
        std::size_t lb = live_blocks(), lo = live_objects();
        auto r         = guarded(st, op_name(st.op), "except", [&] { f(p); });
        if(r.failed) {
            if(live_blocks() != lb)
                violate("leak", "failed %s leaves a node behind", op_name(st.op));
            if(live_objects() != lo)
                violate("leak-obj", "failed %s leaves an element behind", op_name(st.op));
            root_free(p);
            p = root_alloc(sizeof(L), alignof(L));
            sut([&] { new(p) L(); });
            x.l = (L*)p;
            return;
        }
        x.l = (L*)p;
        model_new(x, std::move(m));
    }

    // what was there stays, in place and in order, around any prefix of the new elements
    bool after_range_failure(Slot& x, std::size_t pos, const std::vector<u64>& vals, const std::vector<u64>& old, const char* nm) {
        auto at = x.at;
        if(!adopt(x, nm))
            return false;
        std::vector<u64> kept;
        for(auto v : x.m)
            if(std::find(vals.begin(), vals.end(), v) == vals.end())
                kept.push_back(v);
        if(kept != old)
            violate("sequence", "failed %s changed the other elements: %s became %s", nm, show(old).c_str(), show(x.m).c_str());
        else
            for(std::size_t i = 0; i < pos; ++i)
                if(at[i] != x.at[i])
                    violate("moved", "failed %s moved an element", nm);
        return true;
    }

    bool step(const Step& st) {
        Slot& x        = s[st.a % SLOTS];
        Slot& y        = s[st.a / SLOTS % SLOTS];
        const char* nm = op_name(st.op);
        std::size_t n  = x.m.size();
        auto old       = x.m;
        std::vector<u64> vals;
        auto make_src = [&](u32 k) {
            std::vector<T> v;
            v.reserve(k);
            for(u32 i = 0; i < k; ++i) {
                vals.push_back(next++);
                v.push_back(T(vals.back()));
            }
            return v;
        };
        switch(st.op) {
            case C_DEF: construct(st, x, {}, [&](void* p) { new(p) L(); }); break;
            case C_N: construct(st, x, std::vector<u64>(st.c, val(T())), [&](void* p) { new(p) L(std::size_t(st.c)); }); break;
            case C_NVAL: if constexpr(CP) {
                auto src = make_src(1);
                construct(st, x, std::vector<u64>(st.c, vals[0]), [&](void* p) { new(p) L(std::size_t(st.c), const_cast<const T&>(src[0])); });
            }
                break;
            case C_LIST: if constexpr(CP) {
                auto src = make_src(3);
                std::initializer_list<T> il = {src[0], src[1], src[2]};
                construct(st, x, vals, [&](void* p) { new(p) L(il); });
            }
                break;
            case C_ITER: {
                auto src = make_src(st.c);
                construct(st, x, vals, [&](void* p) {
                    if constexpr(CP)
                        new(p) L(src.data(), src.data() + src.size());
                    else
                        new(p) L(moves(src.data()), moves(src.data() + src.size()));
                });
                if constexpr(CP)
                    kept(src, vals, nm);
                break;
            }
            case C_RANGE: if constexpr(CP) {
                auto src = make_src(st.c);
                std::forward_list<T> fl(src.begin(), src.end());
                construct(st, x, vals, [&](void* p) { new(p) L(fl); });
                kept(fl, vals, nm);
            }
                break;
            case C_COPY:
                if(&x == &y)
                    return true;
                if constexpr(CP)
                    construct(st, x, y.m, [&](void* p) { new(p) L(const_cast<const L&>(*y.l)); });
                break;
            case C_MOVE: {
                if(&x == &y)
                    return true;
                auto m = y.m;
                auto at = y.at;
                construct(st, x, m, [&](void* p) { new(p) L(std::move(*y.l)); });
                x.at = at;
                model_new(y, {});
                break;
            }
            case A_COPY: if constexpr(CP) {
                if(&x == &y)
                    return true;
                auto r = guarded(st, nm, "except", [&] { *x.l = const_cast<const L&>(*y.l); });
                if(r.failed) {
                    if(!adopt(x, nm))
                        return false;
                }
                else
                    model_new(x, y.m);
            }
                break;
            case A_MOVE: {
                if(&x == &y)
                    return true;
                auto r = guarded(st, nm, "except", [&] { *x.l = std::move(*y.l); });
                if(r.failed)
                    return false;
                x.m  = y.m;
                x.at = y.at;
                model_new(y, {});
                break;
            }
            case A_LIST: case AS_LIST: if constexpr(CP) {
                auto src = make_src(2);
                std::initializer_list<T> il = {src[0], src[1]};
                auto r = guarded(st, nm, "except", [&] {
                    if(st.op == A_LIST)
                        *x.l = il;
                    else
                        x.l->assign(il);
                });
                if(r.failed) {
                    if(!adopt(x, nm))
                        return false;
                }
                else
                    model_new(x, vals);
            }
                break;
            case AS_ITER: case AS_RANGE: {
                auto src = make_src(st.c);
                auto fl = listed(src);
                auto r = guarded(st, nm, "except", [&] {
                    if constexpr(!CP)
                        x.l->assign(moves(src.data()), moves(src.data() + src.size()));
                    else if(st.op == AS_ITER)
                        x.l->assign(src.data(), src.data() + src.size());
                    else
                        x.l->assign(fl);
                });
                if constexpr(CP) {
                    kept(src, vals, nm);
                    kept(fl, vals, nm);
                }
                if(r.failed) {
                    if(!adopt(x, nm))
                        return false;
                }
                else
                    model_new(x, vals);
                break;
            }
            case PUSH_C: case PUSH_M: case EMPL_F: {
                auto src = make_src(1);
                u64 raw  = vals[0];
                const T* ret = nullptr;
                auto r   = guarded(st, nm, "except", [&] {
                    if(CP && st.op == PUSH_C) {
                        if constexpr(CP)
                            st.c % 2 ? x.l->push_front(src[0]) : x.l->push_front(std::as_const(src[0]));
                    }
                    else if(st.op == PUSH_C || st.op == PUSH_M)
                        x.l->push_front(std::move(src[0]));
                    else if(st.c % 3 == 0)
                        ret = &x.l->emplace_front(raw);
                    else if(st.c % 3 == 1 || !CP)
                        ret = &x.l->emplace_front(std::move(src[0]));
                    else if constexpr(CP)
                        ret = &x.l->emplace_front(src[0]);
                });
                if(CP && (st.op == PUSH_C || (st.op == EMPL_F && st.c % 3 == 2)))
                    kept(src, vals, nm);
                if(r.failed)
                    return unchanged(x, old, nm);
                model_insert(x, 0, vals);
                if(st.op == EMPL_F && nth_returned(x, ret) != 0)
                    violate("iterator", "emplace_front returns a wrong reference");
                break;
            }
            case POP: {
                if(n == 0)
                    return true;
                auto r = guarded(st, nm, "except", [&] { x.l->pop_front(); });
                if(r.failed)
                    return false;
                x.m.erase(x.m.begin());
                x.at.erase(x.at.begin());
                break;
            }
            case INS_C: case INS_M: case INS_CONV: case EMPL_A: case INS_ALIAS: {
                std::size_t pos = st.b % (n + 1);
                if(st.op == INS_ALIAS && (n == 0 || !CP))
                    return true;
                auto src = make_src(1);
                u64 raw  = vals[0];
                if(st.op == INS_ALIAS)
                    vals[0] = old[st.c % n];
                const T* ret = nullptr;
                auto r = guarded(st, nm, "except", [&] {
                    auto it = nth(*x.l, pos);
                    It q;
                    if(CP && st.op == INS_C) {
                        if constexpr(CP)
                            q = st.c % 2 ? x.l->insert_after(it, src[0]) : x.l->insert_after(it, std::as_const(src[0]));
                    }
                    else if(st.op == INS_C || st.op == INS_M)
                        q = x.l->insert_after(it, std::move(src[0]));
                    else if(st.op == INS_CONV)
                        q = x.l->insert_after(it, raw);
                    else if(st.op == EMPL_A && st.c % 3 == 0)
                        q = x.l->emplace_after(it, raw);
                    else if(st.op == EMPL_A && (st.c % 3 == 1 || !CP))
                        q = x.l->emplace_after(it, std::move(src[0]));
                    else if(st.op == EMPL_A) {
                        if constexpr(CP)
                            q = x.l->emplace_after(it, src[0]);
                    }
                    else if constexpr(CP)
                        q = x.l->insert_after(it, const_cast<const T&>(*nth(*x.l, st.c % n + 1)));
                    ret = q.operator->();
                });
                if(CP && (st.op == INS_C || (st.op == EMPL_A && st.c % 3 == 2)))
                    kept(src, vals, nm);
                if(r.failed)
                    return unchanged(x, old, nm);
                model_insert(x, pos, vals);
                if(nth_returned(x, ret) != pos)
                    violate("iterator", "%s returns a wrong position", nm);
                break;
            }
            case INS_IT: case INS_R: {
                std::size_t pos = st.b % (n + 1);
                auto src        = make_src(st.c < 12 ? st.c % 6 : st.c);
                auto fl = listed(src);
                const T* ret = nullptr;
                bool at_pos = false;
                auto r = guarded(st, nm, "except", [&] {
                    auto it = nth(*x.l, pos);
                    auto q  = it;
                    if constexpr(CP)
                        q = st.op == INS_IT ? x.l->insert_after(it, src.data(), src.data() + src.size()) : x.l->insert_after(it, fl);
                    else
                        q = x.l->insert_after(it, moves(src.data()), moves(src.data() + src.size()));
                    at_pos = q == it;
                    if(!at_pos)
                        ret = q.operator->();
                });
                if constexpr(CP) {
                    kept(src, vals, nm);
                    kept(fl, vals, nm);
                }
                if(r.failed) {
                    if(!after_range_failure(x, pos, vals, old, nm))
                        return false;
                    break;
                }
                model_insert(x, pos, vals);
                if(vals.empty() ? !at_pos : nth_returned(x, ret) != pos + vals.size() - 1)
                    violate("iterator", "%s returns a wrong position", nm);
                break;
            }
            case C_STREAM: case C_GEN: {
                make_src(st.c);
                Source<T> src{vals, "sequence"};
                construct(st, x, vals, [&](void* p) {
                    if(st.op == C_GEN)
                        st.b & 1 ? new(p) L(src.first(), src.last()) : new(p) L(src.range());
                    else
                        st.b & 1 ? new(p) L(src.once(), src.end()) : new(p) L(src.once_range());
                });
                if(st.op == C_STREAM && x.m == vals)
                    src.all_read(nm);
                break;
            }
            case AS_STREAM: case AS_GEN: {
                make_src(st.c);
                Source<T> src{vals, "sequence"};
                auto r = guarded(st, nm, "except", [&] {
                    if(st.op == AS_GEN)
                        st.b & 1 ? x.l->assign(src.first(), src.last()) : x.l->assign(src.range());
                    else
                        st.b & 1 ? x.l->assign(src.once(), src.end()) : x.l->assign(src.once_range());
                });
                if(r.failed) {
                    if(!adopt(x, nm))
                        return false;
                    break;
                }
                if(st.op == AS_STREAM)
                    src.all_read(nm);
                model_new(x, vals);
                break;
            }
            case INS_STREAM: case INS_GEN: {
                std::size_t pos = st.b % (n + 1);
                make_src(st.c < 12 ? st.c % 6 : st.c);
                Source<T> src{vals, "sequence"};
                const T* ret = nullptr;
                bool at_pos  = false;
                auto r = guarded(st, nm, "except", [&] {
                    auto it = nth(*x.l, pos);
                    auto q  = it;
                    if(st.op == INS_GEN)
                        q = st.a & 1 ? x.l->insert_after(it, src.first(), src.last()) : x.l->insert_after(it, src.range());
                    else
                        q = st.a & 1 ? x.l->insert_after(it, src.once(), src.end()) : x.l->insert_after(it, src.once_range());
                    at_pos = q == it;
                    if(!at_pos)
                        ret = q.operator->();
                });
                if(r.failed) {
                    if(!after_range_failure(x, pos, vals, old, nm))
                        return false;
                    break;
                }
                if(st.op == INS_STREAM)
                    src.all_read(nm);
                model_insert(x, pos, vals);
                if(vals.empty() ? !at_pos : nth_returned(x, ret) != pos + vals.size() - 1)
                    violate("iterator", "%s returns a wrong position", nm);
                break;
            }
            case ER_A: {
                if(n == 0)
                    return true;
                std::size_t pos = st.b % n;
                auto r = guarded(st, nm, "except", [&] { x.l->erase_after(nth(*x.l, pos)); });
                if(r.failed)
                    return false;
                x.m.erase(x.m.begin() + pos);
                x.at.erase(x.at.begin() + pos);
                break;
            }
            case ER_R: {
                std::size_t f = st.b % (n + 1), k = st.c % (n - f + 1);  // erases k elements after position f
                auto r = guarded(st, nm, "except", [&] {
                    auto it = nth(*x.l, f);
                    auto e  = it;
                    for(std::size_t i = 0; i <= k; ++i)
                        ++e;
                    x.l->erase_after(it, e);
                });
                if(r.failed)
                    return false;
                x.m.erase(x.m.begin() + f, x.m.begin() + f + k);
                x.at.erase(x.at.begin() + f, x.at.begin() + f + k);
                break;
            }
            case CLEAR: {
                guarded(st, nm, "except", [&] { x.l->clear(); });
                model_new(x, {});
                break;
            }
            case REV: {
                guarded(st, nm, "except", [&] { x.l->reverse(); });
                std::reverse(x.m.begin(), x.m.end());
                std::reverse(x.at.begin(), x.at.end());
                break;
            }
            case A_SELF: if constexpr(CP) {
                auto r = guarded(st, nm, "except", [&] { *x.l = const_cast<const L&>(*x.l); });
                if(r.failed) {
                    if(!adopt(x, nm))
                        return false;
                }
                else
                    x.at.assign(x.m.size(), nullptr);
            }
                break;
            case A_SELFM: {
                guarded(st, nm, "except", [&] { *x.l = std::move(*x.l); });
                if(!adopt(x, nm))
                    return false;
                if(!x.m.empty() && x.m != old)
                    violate("sequence", "self move assignment leaves neither the old contents nor nothing");
                break;
            }
            case READ: full_read(x); break;
            case SET: if constexpr(CP) {
                if(n == 0)
                    return true;
                std::size_t i = st.b % n;
                T src(next++);
                u64 v  = val(src);
                auto r = guarded(st, nm, "except", [&] { *nth(*x.l, i + 1) = const_cast<const T&>(src); });
                if(!r.failed)
                    x.m[i] = v;
            }
                break;
        }
        if(!check(x, nm))
            return false;
        if(&y != &x && !check(y, nm))
            return false;
        std::size_t total = 0;
        for(auto& z : s)
            total += z.m.size();
        if constexpr(has_life<T>)
            if(live_objects() != total) {
                violate("life", "%s: %zu objects are alive, the lists hold %zu", nm, live_objects(), total);
                return false;
            }
        if(!std::is_base_of_v<Own, T> && live_blocks() > total) {
            violate("leak", "%s: %zu blocks for %zu elements", nm, live_blocks(), total);
            return false;
        }
        u64 sh = 0;
        for(auto& z : s)
            sh = sh * 31 + std::min<std::size_t>(z.m.size(), 30);
        cover(sh * 64 + st.op + sizeof(T) * (1ull << 40));
        return true;
    }

    void go(const Plan& p) {
        for(auto& x : s) {
            void* q = root_alloc(sizeof(L), alignof(L));
            sut([&] { new(q) L(); });
            x.l = (L*)q;
        }
        for(auto& st : p.thr[0])
            if(!step(st))
                return;
        for(auto& x : s) {
            if(!check(x, "at the end"))
                return;
            full_read(x);
        }
        for(auto& x : s) {
            sut([&] { x.l->~L(); });
            root_free(x.l);
        }
        check_no_leaks();
    }
};

void run(const Plan& p) {
    switch(p.cfg[0]) {
        case 0: { Run<Tok, SimAlloc<Tok, true, true, true>> r; r.go(p); break; }
        case 1: { Run<NTok, std::allocator<NTok>> r; r.go(p); break; }
        case 2: { Run<Own, std::allocator<Own>> r; r.go(p); break; }
        case 4: { Run<Uniq, SimAlloc<Uniq, true, true, true>> r; r.go(p); break; }
        case 3: { Run<Over, std::allocator<Over>> r; r.go(p); break; }
        default: { Run<u64, SimAlloc<u64, true, true, true>> r; r.go(p); break; }
    }
}
}  // namespace

const sim::Harness sim::harness{"list", op_name, gen, run, relevant, false};
