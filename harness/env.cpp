// C16: xme::hal environment access over a stub environment that may refuse changes.
#include "common.hpp"
#include <cerrno>
#include <map>
#include <string_view>
#include <xme/hal/platform.hpp>

using namespace sim;
using namespace el;

namespace {
struct Env {
    std::map<std::string, char*> vars;  // values live in the simulated memory
    bool refused = false;
    u64 changes = 0;
};
Env* env;
std::string chars(const char* p) {
    std::string s;
    if(!p) {
        violate("chars", "the system is given a null pointer");
        return s;
    }
    for(std::size_t i = 0; i < 70000; ++i) {
        if(in_arena(p) && !heap_ok(p + i, 1)) {
            violate("chars", "the string given to the system has no end");
            break;
        }
        if(!p[i])
            break;
        s.push_back(p[i]);
    }
    return s;
}
void put(const std::string& n, const std::string* v) {
    auto it = env->vars.find(n);
    if(it != env->vars.end()) {
        root_free(it->second);
        env->vars.erase(it);
    }
    if(v) {
        char* b = (char*)root_alloc(v->size() + 1, 1);
        for(std::size_t i = 0; i < v->size(); ++i)
            b[i] = (*v)[i];
        b[v->size()] = 0;
        env->vars[n] = b;
    }
    ++env->changes;
}
}  // namespace
extern "C" {
int sim_setenv(const char* name, const char* value, int over) {
    HarnessScope hs;
    std::string n = chars(name), v = chars(value);
    if(n.empty() || n.find('=') != n.npos) {
        errno = EINVAL;
        return -1;
    }
    if(fault_point(F_SYS)) {
        errno = ENOMEM;
        return -1;
    }
    if(!over && env->vars.count(n))
        return 0;
    put(n, &v);
    return 0;
}
int sim_unsetenv(const char* name) {
    HarnessScope hs;
    std::string n = chars(name);
    if(n.empty() || n.find('=') != n.npos) {
        errno = EINVAL;
        return -1;
    }
    if(fault_point(F_SYS)) {
        errno = ENOMEM;
        return -1;
    }
    put(n, nullptr);
    return 0;
}
char* sim_getenv(const char* name) {
    HarnessScope hs;
    std::string n = chars(name);
    auto it       = env->vars.find(n);
    return it == env->vars.end() ? nullptr : it->second;
}
char* sim_secure_getenv(const char* name) { return sim_getenv(name); }
int sim_putenv(char* s) {
    HarnessScope hs;
    std::string t = chars(s);
    auto q        = t.find('=');
    if(q == t.npos)
        return sim_unsetenv(s);
    if(fault_point(F_SYS)) {
        errno = ENOMEM;
        return -1;
    }
    std::string v = t.substr(q + 1);
    put(t.substr(0, q), &v);
    return 0;
}
int sim_clearenv() {
    HarnessScope hs;
    while(!env->vars.empty())
        put(env->vars.begin()->first, nullptr);
    return 0;
}
}

namespace {
enum : u32 { SET, SET_EMPTY, SET_SAME, GET, NOPS_ };
const char* names[] = {"set", "set to empty", "set from own value", "get"};
const char* op_name(u32 o) { return o < NOPS_ ? names[o] : "?"; }
const char* pool[] = {"A", "AB", "ABC", "PATH", "PATH_EXTRA_LONG_VARIABLE_NAME", "X=Y", "", "a", "HOME", "PATH_EXTRA_LONG"};
const char* texts[] = {"1", "12", "/usr/bin", "/usr/bin:/bin:/usr/local/bin:/opt/bin", "a=b", " ", "=", "x y z", "0"};
void gen(Rng& r, Plan& p) {
    u32 n = r.range(1, 16), fpm = r.below(3) * 20;
    for(u32 i = 0; i < n; ++i) {
        Step s;
        s.op = r.chance(1, 3) ? GET : r.below(NOPS_);
        s.a  = r.chance(1, 2) ? r.below(3) : r.below(10);
        s.b  = r.below(9);
        s.c  = r.below(64);
        if(r.chance(1, 8))
            s.b = 9 + r.below(8) + 8 * some_length(r);
        if(r.chance(1, 16))
            s.a = 10 + r.below(8) + 8 * some_length(r);
        if(r.below(100) < fpm) {
            s.fault   = r.chance(2, 3) ? F_SYS : F_ALLOC;
            s.fault_n = r.range(1, 2);
        }
        p.thr[0].push_back(s);
    }
}
bool relevant(const char* prop, const char* cls) {
    return is(prop, "C16") && (is(cls, "env") || is(cls, "chars") || is(cls, "except") || memory_class(cls));
}
struct View {
    char* block;
    std::size_t len;
    View(const std::string& text, u32 how) {
        static const char* tails[] = {"", "C", "_EXTRA", "=", "\0"};
        how %= 6;
        std::string tail = how == 5 ? std::string(1, '\0') : tails[how % 5];
        len   = text.size();
        block = (char*)root_alloc(len + tail.size() + (len + tail.size() == 0), 1);
        for(std::size_t i = 0; i < len + tail.size(); ++i)
            block[i] = i < len ? text[i] : tail[i - len];
    }
    ~View() { root_free(block); }
    std::string_view sv() const { return {block, len}; }
};
struct Run {
    Env e;
    std::map<std::string, std::string> m;
    void check(const char* nm) {
        std::map<std::string, std::string> now;
        for(auto& [k, v] : e.vars)
            now[k] = v;
        if(now != m) {
            for(auto& [k, v] : now)
                if(!m.count(k) || m[k] != v)
                    violate("env", "%s: variable '%s' has value '%s', should %s%s", nm, k.c_str(), v.c_str(),
                            m.count(k) ? "have value " : "not exist", m.count(k) ? m[k].c_str() : "");
            for(auto& [k, v] : m)
                if(!now.count(k))
                    violate("env", "%s: variable '%s' is gone", nm, k.c_str());
        }
    }
    void go(const Plan& p) {
        env = &e;
        std::string h = "/root", pa = "/bin";
        put("HOME", &h);
        put("PATH", &pa);
        m = {{"HOME", h}, {"PATH", pa}};
        for(auto& st : p.thr[0]) {
            const char* nm = op_name(st.op);
            std::string n = st.a < 10 ? pool[st.a] : long_text(st.a - 10), v = st.b < 9 ? texts[st.b] : long_text(st.b - 9);
            if(st.op == SET_EMPTY)
                v = "";
            View nv(n, st.c), vv(v, st.c / 8);
            bool bad_name = n.empty() || n.find('=') != n.npos;
            char* got     = nullptr;
            bool own      = st.op == SET_SAME && m.count(n) && !m[n].empty();
            op_begin(&st);
            bool failed = false;
            try {
                sut([&] {
                    if(st.op == GET)
                        got = xme::hal::get_environment_variable(nv.sv());
                    else if(own) {
                        // the value is a view of the variable's own current value
                        char* cur = xme::hal::get_environment_variable(nv.sv());
                        std::size_t k = 0;
                        while(cur && cur[k])
                            ++k;
                        std::size_t cut = (st.b % 2) && k > 1 ? k - 1 : k;
                        xme::hal::set_environment_variable(nv.sv(), std::string_view(cur, cut));
                        oracle([&] { v = m[n].substr(0, cut); });
                    }
                    else
                        xme::hal::set_environment_variable(nv.sv(), vv.sv());
                });
                if(fault_fired() && fault_kind() == F_ALLOC)
                    violate("except", "%s hides a failed allocation", nm);
            } catch(const std::bad_alloc&) {
                failed = true;
                if(!fault_fired() || fault_kind() != F_ALLOC)
                    violate("except", "%s throws bad_alloc", nm);
            }
            bool refused = fault_fired() && fault_kind() == F_SYS;
            op_end();
            if(!failed && st.op == GET) {
                bool has = m.count(n);
                if(has != (got != nullptr) || (has && m[n] != got))
                    violate("env", "reading '%s' gives %s%s, expected %s%s", n.c_str(), got ? "value " : "nothing", got ? got : "",
                            has ? "value " : "nothing", has ? m[n].c_str() : "");
                probe(has ? "read existing variable" : "read missing variable");
            }
            else if(!failed && !refused && !bad_name) {
                if(v.empty())
                    m.erase(n);
                else
                    m[n] = v;
            }
            if(refused)
                probe("change refused");
            check(nm);
            u64 hh = st.op;
            for(auto& [k, x] : m)
                hh = hh * 31 + std::hash<std::string>()(k + "=" + x);
            cover(hh);
        }
        while(!e.vars.empty())
            put(e.vars.begin()->first, nullptr);
        check_no_leaks();
    }
};
void run(const Plan& p) {
    Run r;
    r.go(p);
}
}  // namespace

const sim::Harness sim::harness{"env", op_name, gen, run, relevant, false};
