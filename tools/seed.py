#!/usr/bin/env python3
"""Validates planted bugs and runs the checks against them.

seed.py verify ID...   in a scratch copy: applies, builds, passes the 32 tests, demo 0 without / nonzero with
seed.py catch ID...    applies to /repo, runs the check of the bug's property (or PROPS=...), undoes
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SB = "/tmp/sb"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    if not os.path.exists(SB + "/repo"):
        os.makedirs(SB, exist_ok=True)
        sh(f"git clone -q /repo {SB}/repo")
    sh(f"cd {SB}/repo && git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq -e _build")
    for f in ("configure.sh", "build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", SB + "/repo").replace("/opt/vp/configure.sh", SB + "/configure.sh")
        open(f"{SB}/{f}", "w").write(s)


def build_test():
    b = sh(f"bash {SB}/build.sh")
    if b.returncode:
        return "build fails: " + "\n".join(l for l in b.stdout.split("\n") if "error" in l)[:600]
    t = sh(f"bash {SB}/test.sh {SB}/o.json")
    r = json.load(open(SB + "/o.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = stable - set(r["passed"])
    return f"tests fail: {sorted(miss)[:4]}" if miss else None


def demo(i):
    sh(f"mkdir -p {SB}/demo && find {SB}/demo -mindepth 1 -delete && cp -r {V}/seeded/{i}/. {SB}/demo/ && "
       f"find {SB}/demo -name '*.diff' -delete -o -name meta.json -delete")
    t = time.time()
    r = sh(f"cd {SB}/repo && timeout 300 bash {SB}/demo/demo.sh")
    return r.returncode, r.stdout.strip()[-300:], time.time() - t


def verify(i):
    scratch()
    c0, o0, t0 = demo(i)
    a = sh(f"cd {SB}/repo && git apply {V}/seeded/{i}/patch.diff")
    if a.returncode:
        return f"{i}: patch does not apply: {a.stdout[:200]}"
    bt = build_test()
    c1, o1, t1 = demo(i)
    ok = c0 == 0 and c1 != 0 and not bt
    scratch()
    return f"{i}: {'OK' if ok else 'BAD'} demo {c0}/{c1} {bt or ''} ({t0:.0f}s) {'' if c0 == 0 else o0} | {o1.splitlines()[-1][:150] if o1 else ''}"


def record(i, p, result):
    path = V + "/tools/catch.json"
    d = json.load(open(path)) if os.path.exists(path) else {}
    d.setdefault(i, {})[p] = result
    json.dump(d, open(path, "w"), indent=1, sort_keys=True)


def catch(i):
    props = os.environ.get("PROPS", json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]).split()
    if sh("git -C /repo status --porcelain -uno").stdout.strip():
        return "/repo is not clean"
    sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff")
    try:
        out = []
        for p in props:
            t = time.time()
            r = sh(f"cd {V} && timeout 900 python3 check.py {p}", env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            l = [x for x in r.stdout.strip().split("\n")]
            record(i, p, {0: "MISSED", 1: "CAUGHT"}.get(r.returncode, "ERROR"))
            out.append(f"{i} {p}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR'} "
                       f"{time.time() - t:.0f}s {l[-2][:160] if r.returncode == 1 and len(l) > 1 else l[-1][:300]}")
        return "\n".join(out)
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    for i in sys.argv[2:]:
        print({"verify": verify, "catch": catch}[sys.argv[1]](i), flush=True)
