#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

check.py PROPERTY        search (VERIF_SEED, VERIF_TIER from the environment)
check.py replay FILE     replays a violation with its trace
check.py setup           checks that the tools are there

Exit 0: held on everything explored. 1: violation, with a VIOLATION line. 2: the check itself failed.
"""
import concurrent.futures, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/sim")
import build as B  # noqa: E402

REPO = "/repo"
from plans import PLANS, DOC  # noqa: E402


def err(msg):
    print("CHECK-ERROR " + msg, flush=True)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def known_findings(prop):
    """open findings of this property: (replay file, text)"""
    out, path = [], VERIF + "/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                rest = line.split(" ", 2)[2]
                rep, text = rest.split(" ", 1)
                out.append((rep.split("=", 1)[1], text))
    return out


def replay_exact(exe, path):
    r = run([exe, "replay", path])
    return r.returncode == 1 and "EXACT" in r.stdout, r.stdout.strip()


def does_not_compile(prop, tier, seed, harness, text, wall):
    """The use of the library that the property speaks about is rejected by the compiler: several of the
    repaired defects were of this kind (known_findings.txt), and would be reported here if they came back."""
    rep = f"{VERIF}/replays/{prop}-compile.txt"
    with open(rep, "w") as f:
        f.write(f"harness {harness}\nvariant assert\ncompile\n{text}")
    errors = [l for l in text.split("\n") if " error: " in l]
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration",
                   "coverage": {"evaluations": 0, "distinct_nontrivial": 0,
                                "rule": "the harness does not compile against the tree: nothing was run",
                                "samples": errors[:5]},
                   "assumptions": DOC[harness]["assumptions"], "wall_s": round(wall, 2), "violations": 1}, f, indent=1)
    print("does-not-compile: " + (errors or [text])[0][:300])
    print(f"VIOLATION property={prop} replay={rep}", flush=True)
    sys.exit(1)


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = PLANS[prop]
    jobs = min(8, os.cpu_count() or 1)
    targets = [(h, v) for h, v, *_ in plan]
    os.makedirs(VERIF + "/replays", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            exes = dict(zip(targets, ex.map(lambda t: B.build(t[0], t[1], REPO), targets)))
    except B.DoesNotCompile as e:
        does_not_compile(prop, tier, seed, plan[0][0], str(e), time.time() - t0)
    t_build = time.time() - t0
    results, violation, samples = [], None, []
    for h, v, quick, thorough in plan:
        exe = exes[h, v]
        runs, cap = (quick, 60) if tier == "quick" else (thorough, 780 // len(plan))
        out, rep = f"{exe}-{prop}.json", f"{VERIF}/replays/{prop}-{h}-{v}.txt"
        for again in range(6):  # a crash may come from what earlier runs of the process left behind: try other seeds
            r = run([exe, "search", "--prop", prop, "--seed", str(seed + 1000003 * again), "--runs", str(runs), "--jobs", str(jobs),
                     "--time", str(cap), "--out", out, "--replay", rep, "--variant", v])
            if r.returncode != 2 or "does not reproduce" not in r.stderr:
                break
        if again and r.returncode == 0:  # nothing that one seed repeats
            err(f"search of {h}/{v} reported a run that its seed does not repeat")
        if r.returncode not in (0, 1):
            err(f"search of {h}/{v} ended with {r.returncode}: {r.stdout[-500:]} {r.stderr[-1500:]}")
        res = json.load(open(out))
        results.append(res)
        # the simulator must be deterministic: same seeds in another process, other order, one job
        n = 48
        sums = res["sums"][:n]
        if res["violation"] is None:
            s = run([exe, "sums", "--prop", prop, "--seed", str(seed), "--runs", str(min(n, res["runs"]))])
            again = s.stdout.split()
            if s.returncode or again != sums[:len(again)] or len(again) != min(n, res["runs"]):
                err(f"{h}/{v}: the same seeds gave different executions")
            res["determinism_seeds_rerun"] = len(again)
            for i in range(2):
                t = run([exe, "show", "--prop", prop, "--seed", str(seed), "--from", str(i + 1)])
                samples.append({"harness": h, "variant": v, "run": i + 1, "case": t.stdout.strip().split("\n")[:40]})
        else:
            for _ in range(2):
                ok, text = replay_exact(exe, rep)
                if not ok:  # the code under test depends on something that is not simulated
                    print(f"note: the replay of the violation diverges: {text}")
                    break
            violation = (res["violation"], rep)
            samples.append({"harness": h, "variant": v, "violation": res["violation"],
                            "case": open(rep).read().split("\n")[:60]})
            break
    known = []
    for rep, text in known_findings(prop):
        hv = dict(l.split(" ", 1) for l in open(VERIF + "/" + rep).read().split("\n")
                  if l.startswith(("harness ", "variant ")))
        exe = B.build(hv["harness"].strip(), hv["variant"].strip(), REPO)
        ok, _ = replay_exact(exe, VERIF + "/" + rep)
        if ok:
            known.append(text)
            print(f"KNOWN-FINDING: property={prop} {text}")
    wall = time.time() - t0
    search_wall = sum(r["wall"] for r in results)

    def total(k):
        return sum(r[k] for r in results)

    def dsum(k):
        d = {}
        for r in results:
            for n, x in r[k].items():
                d[n] = d.get(n, 0) + x
        return d
    doc = DOC[plan[0][0]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total("runs"),
            "distinct_nontrivial": total("distinct_nontrivial"),
            "rule": "One evaluation is one complete simulated execution: plan, failures, schedule and load results are "
                    "all drawn from run seed = f(VERIF_SEED, harness, property, index). Distinct: different hash over "
                    "every access, choice, event and result of the execution. Non-trivial: in addition at least one "
                    "injected failure fired, one preemption between threads happened, one load returned a legal older "
                    "value, or one thread was stalled. " + doc["rule"],
            "samples": samples,
            "distinct_executions": total("distinct"),
            "distinct_abstract_states": max((r["states"] for r in results), default=0),
            "abstract_state_measure": doc["states"],
            "runs_per_hour_one_seed_each": int(total("runs") / max(search_wall, 1e-6) * 3600),
            "simulated_time_steps": total("steps"),
            "simulated_time_note": "the library reads no clock; simulated time is counted in scheduler steps "
                                   "(visible memory accesses of the real code)",
            "context_switches": total("switches"), "scheduling_decisions": total("decisions"),
            "atomic_loads": total("loads"), "loads_that_returned_an_older_value": total("stale"),
            "stalls_injected": total("stalls"), "stalls_for_ever": total("forever_stalls"),
            "failures_armed": dsum("faults_armed"), "failures_fired": dsum("faults_fired"),
            "operations": dsum("ops"), "rare_conditions_reached": dsum("probes"),
            "violations_of_other_properties_seen": dsum("ignored"),
            "sut_allocations": total("allocs"),
            "determinism_seeds_rerun_in_another_process": sum(r.get("determinism_seeds_rerun", 0) for r in results),
            "builds": [{k: r[k] for k in ("harness", "variant", "runs", "wall")} for r in results],
            "build_s": round(t_build, 1),
            "real_components": doc["real"], "stub_components": doc["stub"],
            "known_findings_reproduced": known,
        },
        "assumptions": doc["assumptions"],
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {total('runs')} runs, {total('distinct_nontrivial')} distinct non-trivial, "
          f"{sum(dsum('faults_fired').values())} failures injected, {total('switches')} context switches, "
          f"{round(wall, 1)} s (build {round(t_build, 1)} s)")
    if violation:
        print(f"{violation[0]['class']}: {violation[0]['msg']}")
        print(f"VIOLATION property={prop} replay={violation[1]}", flush=True)
        sys.exit(1)
    sys.exit(0)


def replay(path):
    hv = dict(l.split(" ", 1) for l in open(path).read().split("\n") if l.startswith(("harness ", "variant ")))
    try:
        exe = B.build(hv["harness"].strip(), hv["variant"].strip() or "assert", REPO)
    except B.DoesNotCompile:
        print("does not compile")
        sys.exit(1)
    r = subprocess.run([exe, "replay", path, "--trace"])
    sys.exit(r.returncode)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        replay(sys.argv[2])
    if sys.argv[1:] == ["setup"]:
        for t in ("g++", "objcopy", "ld"):
            if run(["which", t]).returncode:
                err(t + " is missing")
        sys.exit(0)
    main(sys.argv[1])
