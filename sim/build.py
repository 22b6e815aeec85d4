#!/usr/bin/env python3
"""Builds a simulation executable: harness (instrumented, includes /repo's headers) + runtime.

usage: build.py HARNESS VARIANT OUT [REPO]
"""
import hashlib, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NEWDEL = """_Znwm _Znam _ZnwmSt11align_val_t _ZnamSt11align_val_t _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t
_ZnwmSt11align_val_tRKSt9nothrow_t _ZnamSt11align_val_tRKSt9nothrow_t _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm
_ZdlPvSt11align_val_t _ZdaPvSt11align_val_t _ZdlPvmSt11align_val_t _ZdaPvmSt11align_val_t
_ZdlPvRKSt9nothrow_t _ZdaPvRKSt9nothrow_t""".split()
CFUN = "memcpy memmove memset memcmp strlen malloc calloc free dlopen dlsym dlclose dlerror setenv unsetenv putenv getenv secure_getenv clearenv".split()
# compile-time variants of a harness
VARIANTS = {
    "assert": [],
    "ndebug": ["-DNDEBUG"],
    "avx2": ["-mavx2", "-DXME_SIMD_ENABLE_AVX2"],
    "sse": ["-msse4.2", "-DXME_SIMD_ENABLE_SSE42"],
    "avx2nd": ["-mavx2", "-DXME_SIMD_ENABLE_AVX2", "-DNDEBUG"],
}


class DoesNotCompile(Exception):
    """the harness, which uses only the documented interface, does not compile against the tree"""


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout)
        raise SystemExit(2)


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def tree(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]


def build_rt(bdir):
    src = [VERIF + "/sim/rt.cpp", VERIF + "/sim/sim.hpp", VERIF + "/sim/build.py"]
    key = digest(src)
    out, stamp = bdir + "/rt.o", bdir + "/rt.key"
    if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(out):
        return out, key
    sh(["g++", "-std=c++20", "-O2", "-g", "-Wall", "-c", src[0], "-o", bdir + "/rt1.o"])
    sh(["ld", "-r", "--force-group-allocation", bdir + "/rt1.o", "-o", bdir + "/rt2.o"])
    keep = ["main", "sim_*", "__tsan_*", "_ZN3sim*", "_ZTI*", "_ZTS*", "pthread_mutex_*", "sched_yield",
            "nanosleep", "clock_nanosleep", "__cxa_guard_*", "__assert_fail"]
    sh(["objcopy", "-w"] + sum((["--keep-global-symbol=" + k] for k in keep), []) + [bdir + "/rt2.o", out])
    with open(stamp, "w") as f:
        f.write(key)
    return out, key


def build(harness, variant, repo="/repo", bdir=None):
    bdir = bdir or VERIF + "/build"
    os.makedirs(bdir, exist_ok=True)
    with open(bdir + "/lock-" + harness + "-" + variant, "w") as lk, open(bdir + "/lock-rt", "w") as lr:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fcntl.flock(lr, fcntl.LOCK_EX)
        rt, rkey = build_rt(bdir)
        fcntl.flock(lr, fcntl.LOCK_UN)
        srcs = tree(repo + "/include") + tree(repo + "/private") + tree(VERIF + "/harness")
        key = digest(srcs) + rkey + variant
        exe = f"{bdir}/{harness}-{variant}"
        if os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key:
            return exe
        obj = exe + ".o"
        cmd = ["g++", "-std=c++20", "-O1", "-g1", "-w", "-fsanitize=thread"]
        cmd += ["-fno-builtin-" + f for f in ("memcpy", "memmove", "memset", "memcmp", "strlen", "malloc", "calloc", "free")]
        cmd += ["-I" + repo + "/include"] + VARIANTS[variant] + ["-c", f"{VERIF}/harness/{harness}.cpp", "-o", obj]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[:20000])
            infra = ("internal compiler error", "Killed", "No space left", "cannot allocate", "No such file or directory\ncompil")
            if " error: " in r.stdout and not any(x in r.stdout for x in infra):
                at = max(0, r.stdout.index(" error: ") - 4000)
                raise DoesNotCompile(" ".join(cmd) + "\n" + r.stdout[at:at + 20000])
            raise SystemExit(2)
        redef = []
        for n in NEWDEL:
            redef += ["--redefine-sym", f"{n}=sim{n}"]
        for n in CFUN:
            redef += ["--redefine-sym", f"{n}=sim_{n}"]
        sh(["objcopy"] + redef + [obj])
        sh(["g++", "-no-pie", obj, rt, "-o", exe])
        with open(exe + ".key", "w") as f:
            f.write(key)
        return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2], *sys.argv[3:]))
