// C15: xme::hal::SharedLibrary over a stub loader that counts references and may refuse.
#include "common.hpp"
#include <map>
#include <string_view>
#include <utility>
#include <xme/hal/shared_library.hpp>

using namespace sim;
using namespace el;

namespace {
struct Loader {
    struct Lib {
        std::string name;
        long refs = 0;
        u64 opens = 0;
    };
    std::vector<Lib> libs;  // handle = index + 1
    std::string opened, looked;  // what was last asked
    u64 open_calls = 0, sym_calls = 0;
    bool refused = false;  // the last request was refused
    void* sym_handle = nullptr;
    static void* handle(std::size_t i) { return (void*)(0x7000 + 16 * (i + 1)); }
    Lib* find(void* h) {
        u64 i = ((u64)h - 0x7000) / 16 - 1;
        return i < libs.size() && handle(i) == h ? &libs[i] : nullptr;
    }
};
Loader* loader;
std::string chars(const char* p) {  // reads like the system would; stray reads are reported by the simulated memory
    std::string s;
    for(std::size_t i = 0; i < 70000; ++i) {
        if(in_arena(p) && !heap_ok(p + i, 1)) {
            oracle([&] { violate("chars", "the string given to the system has no end"); });
            break;
        }
        if(!p[i])
            break;
        oracle([&] { s.push_back(p[i]); });
    }
    return s;
}
void* sym_of(void* h, const std::string& s) {
    u64 x = (u64)h * 31;
    for(char c : s)
        x = x * 131 + u8(c);
    return (void*)((x & 0xffffff) + 0x100000);
}
}  // namespace

extern "C" {
void* sim_dlopen(const char* name, int) {
    HarnessScope hs;
    ++loader->open_calls;
    if(!name) {
        violate("chars", "dlopen is given no name");
        return nullptr;
    }
    loader->opened = chars(name);
    loader->refused = fault_point(F_SYS);
    if(loader->refused)
        return nullptr;
    std::size_t i = 0;
    while(i < loader->libs.size() && loader->libs[i].name != loader->opened)
        ++i;
    if(i == loader->libs.size())
        loader->libs.push_back({loader->opened, 0, 0});
    auto& l = loader->libs[i];
    ++l.refs;
    ++l.opens;
    event(300, i, l.refs);
    return Loader::handle(i);
}
int sim_dlclose(void* h) {
    HarnessScope hs;
    if(!h) {
        violate("release", "dlclose is called with nothing");
        return -1;
    }
    auto* l = loader->find(h);
    if(!l || l->refs <= 0) {
        violate("release", "a library is released that is not held");
        return -1;
    }
    --l->refs;
    event(301, (u64)h, l->refs);
    return fault_point(F_SYS) ? -1 : 0;
}
void* sim_dlsym(void* h, const char* name) {
    HarnessScope hs;
    ++loader->sym_calls;
    loader->sym_handle = h;
    loader->looked     = chars(name);
    if(h) {
        auto* l = loader->find(h);
        if(!l || l->refs <= 0) {
            violate("release", "a library is used after its release");
            return nullptr;
        }
    }
    loader->refused = fault_point(F_SYS);
    if(loader->refused)
        return nullptr;
    return sym_of(h, loader->looked);
}
char* sim_dlerror() {
    static char e[] = "injected";
    return e;
}
}

namespace {
using Lib = xme::hal::SharedLibrary;
enum : u32 { C_DEF, C_NAME, C_MOVE, A_MOVE, A_SELFM, OPEN, CLOSE, SYM, SYM_FN, CLOSE2, REOPEN, IS_OPEN, NOPS_ };
const char* names[] = {"ctor()", "ctor(name)", "ctor(move)", "=move", "=move(self)", "open", "close", "proc_address<void*>",
                       "proc_address<function>", "close twice", "close and open", "is_open"};
const char* op_name(u32 o) { return o < NOPS_ ? names[o] : "?"; }
constexpr u32 SLOTS = 3;
void gen(Rng& r, Plan& p) {
    u32 n = r.range(1, 16), fpm = r.below(3) * 20;
    for(u32 i = 0; i < n; ++i) {
        Step s;
        s.op = r.chance(1, 4) ? OPEN : r.below(NOPS_);
        s.a  = r.below(SLOTS * SLOTS);
        s.b  = r.below(64);
        s.c  = r.below(8);
        if(r.chance(1, 8))  // a long name
            s.b += 64 * (1 + some_length(r)), s.c = r.below(8) + 64 * (r.chance(1, 20) ? 0 : 1 + some_length(r));
        if(r.below(100) < fpm) {
            s.fault   = r.chance(2, 3) ? F_SYS : F_ALLOC;
            s.fault_n = r.range(1, 2);
        }
        p.thr[0].push_back(s);
    }
}
bool relevant(const char* prop, const char* cls) {
    return is(prop, "C15") && (is(cls, "release") || is(cls, "open") || is(cls, "chars") || is(cls, "except") || memory_class(cls));
}

u32 name_of(u32 k, u32 len) { return len ? 8 + (len - 1) * 8 + k : k; }

// A view into a block of the simulated heap: at its very end, or followed by other characters.
struct View {
    char* block;
    std::size_t size, len;
    std::string text;
    View(u32 k, u32 how) {
        static const char* pool[] = {"a", "ab", "abc", "libm.so.6", "lib", "./plugins/render_backend.so", "./plugins/render_backend.so.2", ""};
        text = k < 8 ? pool[k] : long_text(k - 8);
        len  = text.size();
        std::string tail = how % 4 == 0 ? "" : how % 4 == 1 ? "c" : how % 4 == 2 ? ".so" : std::string(1, '\0');
        size  = len + tail.size();
        block = (char*)root_alloc(size ? size : 1, 1);
        for(std::size_t i = 0; i < size; ++i)
            block[i] = i < len ? text[i] : tail[i - len];
    }
    ~View() { root_free(block); }
    std::string_view sv() const { return {block, len}; }
};

struct Run {
    struct Slot {
        Lib* l   = nullptr;
        void* h  = nullptr;  // what it holds
    };
    Slot s[SLOTS];
    Loader ld;

    bool is_open(Slot& x) {
        return sut([&] { return const_cast<const Lib*>(x.l)->is_open(); });
    }
    long held(void* h) {
        long n = 0;
        for(auto& x : s)
            n += x.l && x.h == h;
        return n;
    }
    bool check(const char* nm) {
        for(auto& x : s)
            if(x.l && is_open(x) != (x.h != nullptr)) {
                violate("open", "%s: the object reports %s", nm, x.h ? "closed but holds a library" : "open but holds nothing");
                return false;
            }
        for(std::size_t i = 0; i < ld.libs.size(); ++i)
            if(ld.libs[i].refs != held(Loader::handle(i))) {
                violate("release", "%s: library '%s' is referenced %ld times, %ld objects hold it", nm, ld.libs[i].name.c_str(),
                        ld.libs[i].refs, held(Loader::handle(i)));
                return false;
            }
        return true;
    }
    // after the event object x held `old` and asked for `want`; decides from what it reports what it holds
    void settle(Slot& x, const std::string& want, void* old, u64 opens_before, bool failed, const char* nm) {
        u64 asked = ld.open_calls - opens_before;
        if(!failed || asked) {
            if(asked != 1)
                violate("open", "%s asked the system %llu times", nm, (unsigned long long)asked);
            if(ld.opened != want)
                violate("chars", "%s asked for '%s', given '%s'", nm, ld.opened.c_str(), want.c_str());
        }
        void* now = nullptr;
        if(!failed && !fault_sys)
            for(std::size_t i = 0; i < ld.libs.size(); ++i)
                if(ld.libs[i].name == want)
                    now = Loader::handle(i);
        if(now) {
            x.h = now;
            return;
        }
        // nothing was opened: the old library may be kept or released
        x.h = nullptr;
        if(old && is_open(x))
            x.h = old;
    }
    bool fault_sys = false;

    bool step(const Step& st) {
        Slot &x = s[st.a % SLOTS], &y = s[st.a / SLOTS % SLOTS];
        const char* nm = op_name(st.op);
        View v(name_of(st.b % 8, st.b / 64), st.b / 8 % 8);
        void* old      = x.h;
        u64 ob         = ld.open_calls;
        auto close_slot = [&] {
            sut([&] { x.l->~Lib(); });
            root_free(x.l);
            x.l = nullptr;
            x.h = nullptr;
        };
        switch(st.op) {
            case C_DEF: {
                close_slot();
                void* p = root_alloc(sizeof(Lib), alignof(Lib));
                guarded(st, nm, "except", [&] { new(p) Lib(); });
                x.l = (Lib*)p;
                break;
            }
            case C_NAME: {
                close_slot();
                void* p = root_alloc(sizeof(Lib), alignof(Lib));
                auto r  = run_sys(st, nm, [&] { new(p) Lib(v.sv()); });
                if(r) {
                    root_free(p);
                    p = root_alloc(sizeof(Lib), alignof(Lib));
                    sut([&] { new(p) Lib(); });
                    x.l = (Lib*)p;
                }
                else {
                    x.l = (Lib*)p;
                    settle(x, v.text, nullptr, ob, false, nm);
                }
                break;
            }
            case C_MOVE: {
                if(&x == &y)
                    return true;
                close_slot();
                void* p = root_alloc(sizeof(Lib), alignof(Lib));
                sut([&] { new(p) Lib(std::move(*y.l)); });
                x.l = (Lib*)p;
                x.h = y.h;
                y.h = nullptr;
                break;
            }
            case A_MOVE: case A_SELFM: {
                Slot& from = st.op == A_SELFM ? x : y;
                void* theirs = from.h;
                sut([&] { *x.l = std::move(*from.l); });
                if(&from == &x) {
                    if(!is_open(x))
                        x.h = nullptr;
                }
                else {
                    x.h    = theirs;
                    from.h = is_open(from) ? old : nullptr;  // may have received the old library
                }
                break;
            }
            case OPEN: case REOPEN: {
                if(st.op == REOPEN) {
                    sut([&] { x.l->close(); });
                    old = x.h = nullptr;
                    if(!check("close"))
                        return false;
                }
                int r   = run_sys(st, nm, [&] { x.l->open(v.sv()); });
                settle(x, v.text, old, ob, r, nm);
                if(old)
                    probe("opened over another library");
                if(!r && fault_sys)
                    probe("open refused");
                break;
            }
            case CLOSE: case CLOSE2: {
                run_sys(st, nm, [&] { x.l->close(); });
                x.h = nullptr;
                if(!check(nm))
                    return false;
                if(st.op == CLOSE2)
                    sut([&] { x.l->close(); });
                break;
            }
            case SYM: case SYM_FN: {
                void* got = nullptr;
                View w(name_of(st.c % 8, st.c / 64), st.b / 8 % 8);
                u64 sc = ld.sym_calls;
                int r  = run_sys(st, nm, [&] {
                    const Lib& c = *x.l;
                    if(st.op == SYM)
                        got = c.proc_address<void*>(w.sv());
                    else
                        got = (void*)c.proc_address<int (*)(int)>(w.sv());
                });
                if(r || !x.h)
                    break;
                if(ld.sym_calls != sc + 1 || ld.sym_handle != x.h)
                    violate("open", "%s asked another library", nm);
                else if(ld.looked != w.text)
                    violate("chars", "%s looked up '%s', given '%s'", nm, ld.looked.c_str(), w.text.c_str());
                else if(got != (fault_sys ? nullptr : sym_of(x.h, w.text)))
                    violate("open", "%s does not return the symbol's address", nm);
                probe("symbol looked up");
                break;
            }
            case IS_OPEN: break;
        }
        if(!check(nm))
            return false;
        u64 h = 0;
        for(auto& z : s)
            h = h * 40 + (u64(z.h) & 0xff) / 16 + 1;
        cover(h * 16 + st.op + (fault_sys ? 1 << 30 : 0));
        return true;
    }
    int run_sys(const Step& st, const char* nm, std::function<void()> f) {
        op_begin(&st);
        ld.refused = false;
        int r = 0;
        try {
            sut([&] { f(); });
            if(fault_fired() && fault_kind() == F_ALLOC)
                violate("except", "%s hides a failed allocation", nm);
        } catch(const std::bad_alloc&) {
            r = 1;
            if(!fault_fired() || fault_kind() != F_ALLOC)
                violate("except", "%s throws bad_alloc", nm);
        } catch(const std::exception& e) {
            r = 1;
            violate("except", "%s throws %s", nm, e.what());
        }
        fault_sys = fault_fired() && fault_kind() == F_SYS && ld.refused;
        op_end();
        return r;
    }
    void go(const Plan& p) {
        loader = &ld;
        for(auto& x : s) {
            void* q = root_alloc(sizeof(Lib), alignof(Lib));
            sut([&] { new(q) Lib(); });
            x.l = (Lib*)q;
        }
        for(auto& st : p.thr[0])
            if(!step(st))
                return;
        for(auto& x : s) {
            sut([&] { x.l->~Lib(); });
            root_free(x.l);
            x.l = nullptr;
            x.h = nullptr;
            if(!check("destruction"))
                return;
        }
        check_no_leaks();
    }
};
void run(const Plan& p) {
    Run r;
    r.go(p);
}
}  // namespace

const sim::Harness sim::harness{"lib", op_name, gen, run, relevant, false};
