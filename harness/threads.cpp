// C18: several threads, each with objects of its own, all reading shared constant objects. Every thread's program is
// run concurrently and, afterwards, alone; results must agree and no data race may occur.
#include "common.hpp"
#include <cmath>
#include <map>
#include <span>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/hal/platform.hpp>
#include <xme/hal/shared_library.hpp>
#include <xme/math/math.hpp>
#include <xme/ranges/uninitialized.hpp>

using namespace sim;
using namespace el;
namespace xm = xme::math;

namespace {
enum : u32 {
    // own objects
    A_PUSH, A_INSERT, A_ERASE, A_RANGE, A_RESIZE, A_COPY, A_MOVE, A_READ,
    H_PUSH, H_POP, H_READ, L_PUSH, L_POP, L_INSERT, L_ASSIGN, L_REVERSE, L_READ,
    D_SET_SMALL, D_SET_BIG, D_SET_FN, D_COPY, D_CALL, D_SWAP, D_HANDLE, SCOPED, Q_PUSH, Q_POP, Q_CONSUME,
    TUPLE, BIND, BULK, FIND, REVERSE, MATH, VECTORS, MATRICES, PROJECT, QUAT, LIB, VIEW_PART,
    // shared constant objects
    S_ARRAY, S_ARRAY_COPY, S_ARRAY_REV, S_HEAP, S_HEAP_COPY, S_LIST, S_LIST_COPY, S_CALL, S_CALL_COPY, S_HANDLE, S_TUPLE, S_VIEW,
    S_MATH, S_FIND, S_BIND, S_LIB, S_ENV, NOPS_
};
const char* names[] = {
    "array push", "array insert", "array erase", "array range insert", "array resize", "array copy", "array move", "array read",
    "heap push", "heap pop", "heap read", "list push", "list pop", "list insert", "list assign", "list reverse", "list read",
    "delegate = small functor", "delegate = large functor", "delegate = function", "delegate copy", "delegate call", "delegate swap",
    "delegate handle", "scoped delegate", "queue push", "queue pop", "queue consume",
    "pair and tuple", "bind", "bulk construction", "find", "reverse", "transformation", "vectors", "matrices", "scalars and projections", "quaternion", "library", "part of a view",
    "read shared array", "copy shared array", "read shared array backwards", "read shared heap", "copy shared heap", "read shared list", "copy shared list",
    "call shared delegate", "copy and call shared delegate", "handle of shared delegate", "read shared tuple", "read shared view",
    "shared matrix", "find in shared array", "call shared binding", "symbol of shared library", "read environment"};
static_assert(sizeof names / sizeof *names == NOPS_);
const char* op_name(u32 o) { return o < NOPS_ ? names[o] : "?"; }

void gen(Rng& r, Plan& p) {
    p.cfg[0] = r.below(24);          // size of the shared containers
    p.cfg[1] = r.below(3);           // kind of shared delegate
    u32 nt   = r.below(5) ? r.range(2, 3) : r.range(2, NTHR);
    u32 fpm  = r.below(3) * 12;
    u32 focus = r.below(4) ? r.below(NOPS_) : NOPS_;  // most runs make all threads do related things
    for(u32 t = 0; t < nt; ++t) {
        u32 n = r.range(1, r.chance(1, 4) ? 14 : 5);
        for(u32 i = 0; i < n; ++i) {
            Step s;
            s.op = r.below(NOPS_);
            if(focus < NOPS_ && r.chance(2, 3)) {
                u32 lo = focus > 3 ? focus - 3 : 0, hi = focus + 3 < NOPS_ ? focus + 3 : NOPS_ - 1;
                s.op   = r.range(lo, hi);
            }
            s.a = r.below(64);
            s.b = r.below(1 << 16);
            s.c = r.below(64);
            random_fault(r, s, fpm, 5);
            p.thr[t].push_back(s);
        }
    }
    if(r.chance(1, 3)) {
        u32 t = 1 + r.below(nt);
        p.stalls.push_back({t, r.below(150), r.range(20, 600)});
    }
}
bool relevant(const char* prop, const char* cls) {
    return is(prop, "C18") && (is(cls, "race") || is(cls, "result") || is(cls, "outside") || is(cls, "except") || memory_class(cls));
}

// ---- loader and environment: thread-safe stubs
std::string chars(const char* p) {
    std::string s;
    for(std::size_t i = 0; i < 256 && p && p[i]; ++i)
        oracle([&] { s.push_back(p[i]); });
    return s;
}
u64 hash(const std::string& s) {
    u64 h = 7;
    for(char c : s)
        h = h * 131 + u8(c);
    return h;
}
char env_value[] = "some value";
}  // namespace
extern "C" {
// what the system sees is read like any other memory of the thread
void* sim_dlopen(const char* n, int) {
    std::string s = chars(n);
    return oracle([&]() -> void* { return fault_point(F_SYS) ? nullptr : (void*)(0x70000 + 16 * (hash(s) % 4000)); });
}
int sim_dlclose(void* h) {
    return oracle([&] { return fault_point(F_SYS) || !h ? -1 : 0; });
}
void* sim_dlsym(void* h, const char* n) {
    std::string s = chars(n);
    return oracle([&]() -> void* { return (void*)(0x100000 + (u64)h * 64 + hash(s) % 1024); });
}
char* sim_dlerror() { return nullptr; }
char* sim_secure_getenv(const char* n) {
    std::string s = chars(n);
    return oracle([&]() -> char* { return hash(s) % 3 ? env_value : nullptr; });
}
char* sim_getenv(const char* n) { return sim_secure_getenv(n); }
int sim_setenv(const char*, const char*, int) { return -1; }
int sim_unsetenv(const char*) { return -1; }
int sim_putenv(char*) { return -1; }
int sim_clearenv() { return -1; }
}

namespace {
struct Dig {
    u64 h = 0x1234567;
    template<std::integral I>
    void operator()(I x) { h = (h ^ u64(x)) * 0x9E3779B97F4A7C15ull + (h >> 29); }
    void operator()(float f) {
        u32 x;
        std::memcpy(&x, &f, 4);
        (*this)(u64(x));
    }
    void operator()(double f) {
        u64 x;
        std::memcpy(&x, &f, 8);
        (*this)(x);
    }
    template<class T, std::size_t N>
    void operator()(const xm::Vector<T, N>& v) {
        for(std::size_t i = 0; i < N; ++i)
            (*this)(v[i]);
    }
    template<class T, std::size_t C, std::size_t R>
    void operator()(const xm::Matrix<T, C, R>& m) {
        for(std::size_t i = 0; i < C; ++i)
            (*this)(m[i]);
    }
    void operator()(const xm::Quaternion<float>& q) {
        for(std::size_t i = 0; i < 4; ++i)
            (*this)(q[i]);
    }
};
// callables
u64 plain(u64 a, const Own& o) { return a * 3 + val(o); }
u64 plain2(u64 a, const Own& o) { return a * 5 ^ val(o); }
struct Small {
    u64 k;
    u64 operator()(u64 a, const Own& o) const {
        maybe_throw(F_CALL);
        return a * k + val(o);
    }
};
struct Large {
    Own k;
    u64 w[6];
    explicit Large(u64 x) : k(x), w{x, x + 1, x + 2, x + 3, x + 4, x + 5} {}
    Large(const Large& o) : k((maybe_throw(F_COPY), o.k)), w{o.w[0], o.w[1], o.w[2], o.w[3], o.w[4], o.w[5]} {}
    u64 operator()(u64 a, const Own& o) const {
        u64 s = val(k);
        for(u64 x : w)
            s = s * 7 + x;
        return s * a + val(o);
    }
};
using Del  = xme::Delegate<u64(u64, const Own&)>;
using Mat  = xm::Matrix<float, 4, 4>;
using Vec3 = xm::Vector<float, 3>;
using Vec4 = xm::Vector<float, 4>;
using Quat = xm::Quaternion<float>;
float fl(u32 x) { return float(int(x % 401) - 200) / 16.f; }
Mat matrix(u32 x) {
    return Mat{Vec4{fl(x), fl(x * 3), fl(x * 5 + 1), fl(x * 7)}, Vec4{fl(x * 11), fl(x * 13), fl(x * 17), fl(x + 2)},
               Vec4{fl(x * 19), fl(x * 23 + 3), fl(x * 29), fl(x * 31)}, Vec4{fl(x * 37), fl(x * 41), fl(x * 43 + 9), 1}};
}

// every vector operation, on N elements of type T
template<class T, std::size_t N>
void vectors(Dig& g, u32 a, u32 b, u32 c) {
    using V = xm::Vector<T, N>;
    V v(T(0)), w(T(0)), n(T(0));
    for(std::size_t i = 0; i < N; ++i) {
        v[i] = T(int((a + i * 7) % 41) - 20);
        w[i] = T(int((b + i * 5) % 37) + 1);
        n[i] = T(int((c + i * 3) % 31) - 15);
    }
    V r = v + w - n * w / w;
    g(r);
    r = (v + T(3)) * T(2) - T(1);
    r = r / T(2);
    g(r);
    r += v, r -= w, r *= n, r /= w;
    g(r);
    r += T(5), r -= T(2), r *= T(3), r /= T(2);
    g(r);
    g(u64(r == v));
    g(u64(v < w));
    g(xm::dot(v, w));
    if constexpr(std::is_signed_v<T>) {
        g(-r);
        g(xm::sign(n));
        g(xm::faceforward(v, w, n));
        g(xm::reflect(v, w));
        if constexpr(N == 3)
            g(xm::cross(v, n));
    }
    if constexpr(std::is_floating_point_v<T>) {
        g(w.length());
        g(xm::length(w));
        g(w.normalize());
        g(xm::normalize(w));
        g(xm::lerp(v, w, T(c) / 64));
        g(xm::lerp(v, w, n));
        g(xm::lerp(v, w, bool(a & 1)));
        if constexpr(requires { xm::distance(v, w); })
            g(xm::distance(v, w));
    }
}
// every operation on matrices of C columns and R rows
template<class T, std::size_t C, std::size_t R>
void matrices(Dig& g, u32 a, u32 b) {
    using M = xm::Matrix<T, C, R>;
    M m(T(0)), k(T(0));
    xm::Matrix<T, R, C> q(T(0));
    xm::Vector<T, C> v(T(1));
    xm::Vector<T, R> w(T(2));
    for(std::size_t i = 0; i < C; ++i)
        for(std::size_t j = 0; j < R; ++j) {
            m[i][j] = T(int((a + i * 7 + j * 3) % 41) - 20) / 4;
            k[i][j] = T(int((b + i * 5 + j) % 37) + 1);
            q[j][i] = T(int((a * 3 + b + i + j * 9) % 29) - 9);
            v[i]    = T(int((a + i * i) % 13) - 5);
            w[j]    = T(int((b + j * j) % 11) - 5);
        }
    M r = m + k - m;
    g(r + T(2));
    g(r - T(1));
    g(-(r * T(3)) / T(4));
    r = m;
    r += k, r -= m, r += T(2), r -= T(1), r *= T(3), r /= T(2);
    g(r);
    g(m * v);
    g(m * q);
    g(q * m);
    g(u64(m == k));
    g(u64(m < k));
    g(m.row(a % R));
    g(m.column(b % C));
    g(xm::transpose(m));
    g(xm::hadamard_product(m, k));
    g(xm::outer_product(v, w));
    if constexpr(C == R) {
        g(xm::determinant(m));
        if constexpr(requires { m.transpose(); }) {
            g(m.transpose());
            g(k.determinant());
        }
    }
}
template<class T>
void scalars(Dig& g, u32 a, u32 b) {
    T x = T(int(a % 63) - 31) / 32, y = T(b % 255 + 1) / 64;
    g(xm::sign(x));
    g(xm::radians(y * 40));
    g(xm::degrees(x));
    g(xm::sec(x));
    g(xm::csc(y));
    g(xm::cot(y));
    g(xm::sin(y) + xm::cos(y) + xm::tan(y));
    g(xm::arcsin(x));
    g(xm::arccos(x));
    g(xm::arctan(y));
    g(xm::perspective(y, x + 2, T(0.25), y + 1));
    g(xm::perspective_lh(y, x + 2, T(0.25), y + 1));
    g(xm::perspective_rh(y, x + 2, T(0.25), y + 1));
    T l = x - 1, r = y + 1, lo = x - 2, hi = y + 3;
    g(xm::perspective(l, r, lo, hi, T(0.5), y + 4));
    g(xm::perspective_lh(l, r, lo, hi, T(0.5), y + 4));
    g(xm::perspective_rh(l, r, lo, hi, T(0.5), y + 4));
    g(xm::ortho(l, r, lo, hi, T(0.5), y + 4));
    g(xm::ortho_lh(l, r, lo, hi, T(0.5), y + 4));
    g(xm::ortho_rh(l, r, lo, hi, T(0.5), y + 4));
}

struct Shared {
    xme::Array<Own> arr;
    xme::Array<u8> bytes;
    xme::Array<u16> words;
    xme::Array<u32> ints;
    xme::Array<u64> longs;
    xme::Heap<u64> heap;
    xme::LinkedList<Own> list;
    Del del;
    xme::Tuple<u64, u32, u8> tup;
    xme::Pair<u64, Own> pair;
    xme::Array<u64> parts;  // each thread writes its part through a view
    Mat m;
    Quat q;
    Vec3 v;
    xme::hal::SharedLibrary lib;
    decltype(xme::bind_front(Large(1), u64(0))) bound{Large(5), u64(11)};
};
constexpr u32 PART = 8;

struct Own_ {  // what one thread owns
    xme::Array<NTok> a;
    xme::Array<Own> a2;
    xme::Array<u8> raw;
    xme::Array<u16> raw2;
    xme::Array<u32> raw4;
    xme::Array<u64> raw8;
    xme::Heap<NTok> h;
    xme::LinkedList<Own> l;
    xme::LinkedList<NTok> l2;
    Del d, e;
    xme::SPSCQueue<Own, xme::Capacity<8>> q{};
    xme::SPSCQueue<u64> dq{8};
    Mat m = matrix(3);
    Quat qt{1, 2, 3, 4};
    xme::hal::SharedLibrary lib, lib2;
};

struct Program {
    const Plan& p;
    u32 t;
    Own_& o;
    Shared& sh;         // only its part of `parts` is written
    const Shared& s;
    std::vector<u64>& out;

    void one(const Step& st, Dig& g) {
        const u32 a = st.a, b = st.b, c = st.c;
        switch(st.op) {
            case A_PUSH:
                for(u32 i = 0; i <= a % 4; ++i)
                    o.a.push_back(NTok(b + i));
                o.a2.emplace_back(b);
                g(o.a.size());
                break;
            case A_INSERT: {
                std::size_t n = o.a.size();
                auto it       = o.a.insert(o.a.begin() + a % (n + 1), NTok(b));
                g(it - o.a.begin());
                g(val(*it));
                break;
            }
            case A_ERASE: {
                std::size_t n = o.a.size();
                if(n) {
                    auto it = o.a.erase(o.a.begin() + a % n);
                    g(it - o.a.begin());
                }
                break;
            }
            case A_RANGE: {
                Own src[4] = {b, b + 1, b + 2, b + 3};
                std::size_t n = o.a2.size();
                o.a2.insert(o.a2.begin() + a % (n + 1), src, src + c % 5);
                g(o.a2.size());
                break;
            }
            case A_RESIZE:
                o.a.resize(a % 12);
                o.a2.reserve(c % 20);
                o.raw.resize(c + 64);
                while(o.raw.size() < c)
                    o.raw.push_back(u8(o.raw.size() * 7));
                while(o.raw2.size() < c)
                    o.raw2.push_back(u16(o.raw2.size() * 7));
                while(o.raw4.size() < c / 2)
                    o.raw4.push_back(u32(o.raw4.size() * 7));
                while(o.raw8.size() < c / 2)
                    o.raw8.push_back(u64(o.raw8.size() * 7));
                g(o.a.size());
                break;
            case A_COPY: {
                xme::Array<Own> x(o.a2);
                x.emplace_back(b);
                o.a2 = x;
                g(o.a2.size());
                break;
            }
            case A_MOVE: {
                xme::Array<Own> x(std::move(o.a2));
                xme::Array<Own> y;
                y    = std::move(x);
                o.a2 = std::move(y);
                g(o.a2.size());
                break;
            }
            case A_READ: {
                for(auto& x : o.a)
                    g(val(x));
                for(auto& x : o.a2)
                    g(val(x));
                if(o.a2.size() > 0) {
                    g(val(o.a2.front()));
                    g(val(o.a2.back()));
                    g(val(o.a2[a % o.a2.size()]));
                }
                break;
            }
            case H_PUSH:
                for(u32 i = 0; i <= a % 3; ++i)
                    o.h.push(NTok(b * (i + 1) % 97));
                break;
            case H_POP:
                if(o.h.size()) {
                    g(val(o.h.front()));
                    o.h.pop();
                }
                break;
            case H_READ:
                g(o.h.size());
                while(o.h.size() > 1) {
                    g(val(o.h.front()));
                    o.h.pop();
                }
                break;
            case L_PUSH:
                o.l.push_front(Own(b));
                o.l.emplace_front(b + 1);
                o.l2.emplace_front(a);
                break;
            case L_POP:
                if(o.l.begin() != o.l.end())
                    o.l.pop_front();
                break;
            case L_INSERT: {
                Own src[3] = {b, b + 1, b + 2};
                auto it    = o.l.insert_after(o.l.before_begin(), src, src + a % 4);
                if(it != o.l.before_begin())
                    g(val(*it));
                o.l2.insert_after(o.l2.before_begin(), NTok(c));
                break;
            }
            case L_ASSIGN: {
                Own src[3] = {b, b + 1, b + 2};
                o.l.assign(src, src + a % 4);
                xme::LinkedList<NTok> x(o.l2);
                o.l2 = std::move(x);
                break;
            }
            case L_REVERSE:
                o.l.reverse();
                o.l2.reverse();
                break;
            case L_READ:
                for(auto& x : o.l)
                    g(val(x));
                for(auto& x : o.l2)
                    g(val(x));
                break;
            case D_SET_SMALL: o.d = Small{a}; break;
            case D_SET_BIG: o.d = Large(a); break;
            case D_SET_FN: o.d = a & 1 ? plain : plain2; break;
            case D_COPY:
                if(a & 1)
                    o.e = o.d;
                else {
                    Del x(o.d);
                    o.e = std::move(x);
                }
                break;
            case D_CALL: {
                Own y(b);
                if(o.d)
                    g(o.d(a, y));
                if(o.e)
                    g(o.e(a, y));
                if(!o.d)
                    try {
                        o.d(a, y);
                    } catch(const std::bad_function_call&) {
                        g(7);
                    }
                break;
            }
            case D_SWAP: o.d.swap(o.e); break;
            case D_HANDLE: {
                auto* x = o.d.handle<Large>();
                g(x ? val(x->k) : 3);
                auto* y = o.d.handle<Small>();
                g(y ? y->k : 4);
                break;
            }
            case SCOPED: {
                u64 n = 0;
                {
                    xme::ScopedDelegate x{[&n, b] { n += b; }};
                    xme::ScopedDelegate y{[&n] { n *= 3; }};
                    n += a;
                }
                g(n);
                break;
            }
            case Q_PUSH:
                g(o.q.push(Own(b)));
                g(o.q.emplace(b + 1));
                g(o.dq.push(u64(b)));
                g(o.q.write_available());
                break;
            case Q_POP:
                g(o.q.read_available());
                if(o.q.read_available())
                    o.q.pop();
                if(o.dq.read_available())
                    o.dq.pop();
                break;
            case Q_CONSUME:
                while(o.q.read_available())
                    o.q.consume([&](Own&& x) { g(val(x)); });
                while(o.dq.read_available())
                    o.dq.consume([&](u64 x) { g(x); });
                break;
            case TUPLE: {
                auto x = xme::make_tuple(Own(a), u64(b), u32(c));
                xme::Tuple<Own, u64, u32> y{Own(1), 2u, 3u};
                x.swap(y);
                g(val(xme::get<0>(x)));
                g(val(xme::get<0>(y)));
                g(xme::apply([](const Own& p, u64 q, u32 r) { return val(p) + q * r; }, y));
                auto z1 = xme::make_tuple(u64(a));
                auto z2 = xme::make_tuple(u32(c));
                auto z  = xme::tuple_cat(z1, z2);
                g(xme::get<0>(z) + xme::get<1>(z));
                auto k = xme::make_pair(u64(a), Own(b));
                auto k2 = k;
                k.swap(k2);
                g(val(xme::get<1>(k)));
                break;
            }
            case BIND: {
                auto f = xme::bind_front(plain, u64(a));
                auto h = xme::bind_back(plain2, Own(c));
                g(f(Own(b)));
                g(h(u64(b)));
                break;
            }
            case BULK: {
                std::allocator<Own> al;
                Own* m = al.allocate(6);
                try {
                    Own* e = xme::ranges::uninitialized_fill_n_a(m, a % 4, Own(b), al);
                    try {
                        Own src[2] = {c, c + 1};
                        auto r = xme::ranges::uninitialized_copy_a(src, src + 2, e, m + 6, al);
                        e = xme::get<1>(r);
                    } catch(...) {
                        xme::ranges::destroy_a(m, e, al);
                        throw;
                    }
                    for(Own* x = m; x != e; ++x)
                        g(val(*x));
                    xme::ranges::destroy_a(m, e, al);
                } catch(...) {
                    al.deallocate(m, 6);
                    throw;
                }
                al.deallocate(m, 6);
                break;
            }
            case FIND: {
                // values that are there, that were there before the last reversal, and that never are
                auto look = [&](auto& x) {
                    using V = std::decay_t<decltype(x[0])>;
                    for(u32 k = 0; k < 3; ++k) {
                        const V v = k < 2 ? V((b / 256 * (k + 1) % 64) * 7 + b % 3) : V(b);
                        g(xme::find(x, v) - x.begin());
                        g(xme::find(x.begin() + x.size() / 2, x.end(), v) - x.begin());
                    }
                };
                c % 4 == 0 ? look(o.raw) : c % 4 == 1 ? look(o.raw2) : c % 4 == 2 ? look(o.raw4) : look(o.raw8);
                break;
            }
            case REVERSE: {
                auto turn = [&](auto& x) {
                    using V = std::decay_t<decltype(x[0])>;
                    for(u32 i = 0; i < x.size(); ++i)
                        x[i] = V(i * 7 + b % 3);
                    xme::reverse(x);
                    for(auto y : x)
                        g(u64(y));
                };
                c % 4 == 0 ? turn(o.raw) : c % 4 == 1 ? turn(o.raw2) : c % 4 == 2 ? turn(o.raw4) : turn(o.raw8);
                break;
            }
            case MATH: {
                Vec3 v{fl(a), fl(b), fl(c) + 20}, w = xm::normalize(v);
                g(xm::dot(v, w));
                g(xm::cross(v, w + 1));
                g(xm::length(v));
                o.m = o.m * matrix(b) * 0.05f;
                o.m = o.m.transpose();
                g(o.m.determinant());
                o.m = xm::rotate(xm::scale(xm::translate(o.m, v), w), fl(c), w);
                g(o.m);
                g(o.m * Vec4{v, 1.f});
                g(xm::perspective(1.f, 1.5f, 0.1f, 10.f + a));
                g(xm::lerp(v, w, 0.25f));
                g(xm::reflect(v, w));
                if(!(std::fabs(o.m[0][0]) < 1e6f) || !(std::fabs(o.m[0][0]) > 1e-6f))
                    o.m = matrix(c);
                break;
            }
            case VECTORS:
                switch(c % 9) {
                    case 0: vectors<float, 2>(g, a, b, c); break;
                    case 1: vectors<float, 3>(g, a, b, c); break;
                    case 2: vectors<float, 4>(g, a, b, c); break;
                    case 3: vectors<float, 5>(g, a, b, c); break;
                    case 4: vectors<int, 2>(g, a, b, c); break;
                    case 5: vectors<int, 3>(g, a, b, c); break;
                    case 6: vectors<double, 4>(g, a, b, c); break;
                    case 7: vectors<double, 3>(g, a, b, c); break;
                    case 8: vectors<u32, 4>(g, a, b, c); break;
                }
                break;
            case MATRICES:
                switch(c % 6) {
                    case 0: matrices<float, 2, 2>(g, a, b); break;
                    case 1: matrices<float, 3, 3>(g, a, b); break;
                    case 2: matrices<float, 4, 4>(g, a, b); break;
                    case 3: matrices<double, 4, 4>(g, a, b); break;
                    case 4: matrices<float, 3, 2>(g, a, b); break;
                    case 5: matrices<double, 2, 4>(g, a, b); break;
                }
                break;
            case PROJECT:
                c & 1 ? scalars<float>(g, a, b) : scalars<double>(g, a, b);
                break;
            case QUAT:
                g(o.qt - Quat{1, fl(a), 0, 1});
                g(o.qt == Quat{fl(b), 1, 2, 3});
                o.qt[a % 4] += 1;
                o.qt = o.qt * Quat{fl(a), fl(b), fl(c), 1} + Quat{1, 0, 0, 0};
                g(o.qt);
                o.qt = Quat{fl(b), 1, 2, 3};
                break;
            case LIB: {
                const std::string n = "lib" + std::to_string(b % 50);
                o.lib.open(n);
                g(o.lib.is_open());
                if(o.lib.is_open()) {
                    const std::string f = "f" + std::to_string(a);
                    g((u64)o.lib.proc_address<void*>(f));
                    o.lib2 = std::move(o.lib);
                }
                if(a & 1) {
                    o.lib2.close();
                    g(o.lib2.is_open());
                }
                break;
            }
            case VIEW_PART: {
                xme::ArrayView<u64> all(sh.parts);
                auto mine = all.subview(t * PART, PART);
                for(u32 i = 0; i < mine.size(); ++i)
                    mine.begin()[i] += b + i;
                auto f = all.first((t + 1) * PART).last(PART);
                g(f[a % PART]);
                auto bytes = xme::as_writable_bytes(mine);
                bytes.begin()[c % bytes.size()] = std::byte(a);
                for(auto x : mine)
                    g(x);
                auto k = std::as_const(sh.parts).data();
                g(k[t * PART]);
                sh.parts[t * PART + 1] = c;
                break;
            }
            // ------------------------------------------------ shared constant objects
            case S_ARRAY:
                g(s.arr.size());
                g(s.arr.capacity());
                for(auto& x : s.arr)
                    g(val(x));
                if(!s.arr.empty()) {
                    g(val(s.arr[a % s.arr.size()]));
                    g(val(s.arr.front()));
                    g(val(s.arr.back()));
                    g(val(s.arr.data()[0]));
                }
                break;
            case S_ARRAY_COPY: {
                xme::Array<Own> x(s.arr);
                for(auto& y : x)
                    g(val(y));
                o.a2 = s.arr;
                g(o.a2.size());
                break;
            }
            case S_ARRAY_REV:
                for(auto it = xme::ReverseIterator(s.arr.end()); it != xme::ReverseIterator(s.arr.begin()); ++it)
                    g(val(*it));
                break;
            case S_HEAP:
                g(s.heap.size());
                if(!s.heap.empty())
                    g(s.heap.front());
                for(auto x : s.heap)
                    g(x);
                break;
            case S_HEAP_COPY: {
                xme::Heap<u64> x(s.heap);
                x.push(u64(b));
                while(!x.empty()) {
                    g(x.front());
                    x.pop();
                }
                break;
            }
            case S_LIST:
                for(auto& x : s.list)
                    g(val(x));
                break;
            case S_LIST_COPY: {
                xme::LinkedList<Own> x(s.list);
                x.reverse();
                for(auto& y : x)
                    g(val(y));
                o.l = s.list;
                break;
            }
            case S_CALL: {
                Own y(b);
                for(u32 i = 0; i <= c % 3; ++i)
                    g(s.del(a + i, y));
                g(bool(s.del));
                break;
            }
            case S_CALL_COPY: {
                Del x(s.del);
                o.e = s.del;
                g(x(a, Own(b)));
                g(o.e(a, Own(c)));
                break;
            }
            case S_HANDLE: {
                auto* x = s.del.handle<Large>();
                g(x ? val(x->k) : 3);
                auto* y = s.del.handle<Small>();
                g(y ? y->k : 4);
                break;
            }
            case S_TUPLE:
                g(xme::get<0>(s.tup) + xme::get<1>(s.tup) + xme::get<2>(s.tup));
                g(xme::apply([](u64 x, u32 y, u8 z) { return x ^ y ^ z; }, s.tup));
                g(xme::get<0>(s.pair) + val(xme::get<1>(s.pair)));
                g((xme::Pair<u64, Own>(s.pair) [std::integral_constant<std::size_t, 0>{}]));
                break;
            case S_VIEW: {
                xme::ArrayView<const u8> v(s.bytes);
                for(auto x : v.subview(v.size() / 3, v.size() / 2))
                    g(u64(x));
                for(auto x : xme::as_bytes(v.first(v.size() / 2)))
                    g(u64(x));
                break;
            }
            case S_MATH:
                g(s.m * matrix(a));
                g(s.m.determinant());
                g(s.m.transpose() * Vec4{s.v, 1.f});
                g(s.q * Quat{fl(a), 1, 2, fl(b)});
                g(xm::normalize(s.v));
                g(s.m.row(a % 4));
                g(s.m == matrix(a));
                break;
            case S_FIND:
                g(xme::find(s.bytes, u8(b)) - s.bytes.begin());
                if(s.bytes.size())
                    g(xme::find(s.bytes.begin() + a % s.bytes.size(), s.bytes.end(), u8(c)) - s.bytes.begin());
                g(xme::find(s.words, u16(b % 120 * 11)) - s.words.begin());
                g(xme::find(s.ints, u32(b % 120 * 11)) - s.ints.begin());
                g(xme::find(s.longs, u64(b % 120 * 11)) - s.longs.begin());
                break;
            case S_BIND: {
                Own y(b);
                g(s.bound(y));
                auto copy = s.bound;
                g(copy(y));
                break;
            }
            case S_LIB: {
                const std::string f = "f" + std::to_string(a);
                g(s.lib.is_open());
                g((u64)s.lib.proc_address<void*>(f));
                break;
            }
            case S_ENV: {
                const std::string n = "V" + std::to_string(a);
                const char* v = xme::hal::get_environment_variable(std::string_view(n).substr(0, 1 + b % n.size()));
                g(v ? hash(v) : 5);
                break;
            }
        }
    }
    void go() {
        for(auto& st : p.thr[t]) {
            Dig g;
            Outcome r = guarded(st, op_name(st.op), "except", [&] { one(st, g); });
            // what was computed before a failure depends on nothing but the thread's own program
            g(u64(r.failed * 64 + r.kind));
            g(r.allocs);
            out.push_back(g.h);
        }
    }
};

void run(const Plan& p) {
    Step none;
    op_begin(&none);
    Shared* sh = (Shared*)root_alloc(sizeof(Shared), alignof(Shared));
    sut([&] {
        new(sh) Shared();
        for(u32 i = 0; i < p.cfg[0]; ++i) {
            sh->arr.push_back(Own(i * 17 + 1));
            sh->heap.push(u64(i * 7919 % 31));
            sh->list.emplace_front(i);
        }
        for(u32 i = 0; i < p.cfg[0] * 5; ++i)
            sh->bytes.push_back(u8(i * 11));
        for(u32 i = 0; i < p.cfg[0] * 3; ++i) {
            sh->words.push_back(u16(i * 11));
            sh->ints.push_back(u32(i * 11));
            sh->longs.push_back(u64(i * 11));
        }
        if(p.cfg[1] == 0)
            sh->del = Small{9};
        else if(p.cfg[1] == 1)
            sh->del = Large(4);
        else
            sh->del = plain;
        sh->tup  = xme::Tuple<u64, u32, u8>{1, 2, 3};
        sh->pair = xme::Pair<u64, Own>{5, Own(6)};
        for(u32 i = 0; i < NTHR * PART; ++i)
            sh->parts.push_back(u64(i));
        sh->m = matrix(77);
        sh->q = Quat{1, 2, 3, 4};
        sh->v = Vec3{1, -2, 3.5f};
        sh->lib.open("libshared");
    });
    op_end();
    u32 nt = 0;
    for(u32 t = 0; t < u32(NTHR); ++t)
        if(!p.thr[t].empty())
            nt = t + 1;
    std::vector<u64> got[NTHR], alone[NTHR];
    Own_* own[NTHR] = {};
    auto make = [&](u32 t) {
        op_begin(&none);
        own[t] = (Own_*)root_alloc(sizeof(Own_), alignof(Own_));
        sut([&] {
            new(own[t]) Own_();
            for(u32 i = 0; i < NTHR * PART; ++i)
                if(i / PART == t)
                    sh->parts[i] = i;
        });
        op_end();
    };
    auto drop = [&](u32 t) {
        op_begin(&none);
        sut([&] { own[t]->~Own_(); });
        op_end();
        root_free(own[t]);
    };
    for(u32 t = 0; t < nt; ++t)
        make(t);
    std::vector<std::function<void()>> bodies;
    for(u32 t = 0; t < nt; ++t)
        bodies.push_back([&, t] { Program{p, t, *own[t], *sh, *sh, got[t]}.go(); });
    if(nt)
        parallel(std::move(bodies));
    for(u32 t = 0; t < nt; ++t)
        drop(t);
    for(u32 t = 0; t < nt; ++t) {
        make(t);
        Program{p, t, *own[t], *sh, *sh, alone[t]}.go();
        drop(t);
        for(std::size_t i = 0; i < p.thr[t].size(); ++i)
            if(got[t][i] != alone[t][i]) {
                violate("result", "%s (operation %zu of thread %u) gives another result than when the thread runs alone",
                        op_name(p.thr[t][i].op), i, t);
                break;
            }
    }
    sut([&] { sh->~Shared(); });
    root_free(sh);
    u64 c = p.cfg[0] * 3 + p.cfg[1];
    for(u32 t = 0; t < nt; ++t)
        for(u64 x : got[t])
            c = (c ^ x) * 0x9E3779B97F4A7C15ull;
    cover(c);
    check_no_leaks();
}
}  // namespace

const sim::Harness sim::harness{"threads", op_name, gen, run, relevant, true};
