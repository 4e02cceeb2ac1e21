#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property.

  check.py PROPERTY quick|thorough     (VERIF_SEED selects the seed base, default 1)
  check.py --build                     build everything (setup)

Exit 0: the property held on everything explored.  Exit 1: a violation that was
reproduced from its minimised replay file in fresh processes (line VIOLATION ...).
Exit 2: the check itself could not run.
"""
import fcntl, hashlib, glob, json, os, re, struct, subprocess, sys, time, shutil
sys.stdout.reconfigure(errors="replace")

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build") if REPO == "/repo" else os.path.join(V, ".build", "alt-" + re.sub(r"\W", "_", REPO))
sys.path.insert(0, V)
from props_table import PROPS  # noqa: E402


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(target=None):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = os.path.join(BUILD, "build.log")
        with open(log, "w") as f:
            if not os.path.exists(os.path.join(BUILD, "build.ninja")):
                if subprocess.call(["cmake", "-G", "Ninja", "-DREPO=" + REPO, os.path.join(V, "sim")], cwd=BUILD, stdout=f, stderr=f):
                    die("cmake failed, see " + log + "\n" + open(log, errors="replace").read()[-3000:])
            # ninja goes by modification times: a source that changed without becoming newer
            # than its object (a copied tree) forces a full rebuild
            stamp = os.path.join(BUILD, "sources.json")
            now, old = sources(), {}
            if os.path.exists(stamp):
                old = json.load(open(stamp))
                os.remove(stamp)
            if not old or any(k in old and old[k][0] != v[0] and v[1] <= old[k][2] for k, v in now.items()):
                subprocess.call(["ninja", "-t", "clean"], cwd=BUILD, stdout=f, stderr=f)
            t = time.time()
            if subprocess.call(["ninja"] + ([target] if target else []), cwd=BUILD, stdout=f, stderr=f):
                die("build failed, see " + log + "\n" + open(log, errors="replace").read()[-3000:])
            # per source: hash, modification time, and when an object was last made from it
            json.dump({k: v + [t if k not in old or old[k][0] != v[0] or len(old[k]) < 3 else old[k][2]] for k, v in now.items()}, open(stamp, "w"))


def sources():
    d = {}
    for top in (os.path.join(REPO, "src"), os.path.join(V, "sim")):
        for r, _, fs in os.walk(top):
            for n in fs:
                p = os.path.join(r, n)
                try:
                    d[p] = [hashlib.md5(open(p, "rb").read()).hexdigest(), os.path.getmtime(p)]
                except OSError:
                    pass
    return d


def replay(exe, plan, verbose=False):
    p = subprocess.run([exe, "run", plan], capture_output=True, text=True, errors="replace")
    out = p.stdout.strip().splitlines()
    last = out[-1] if out else ""
    m = re.match(r"(VIOLATED|OK) class=(\S*) hash=([0-9a-f]{16}) ?(.*)", last)
    if not m:
        return None
    return {"violated": m.group(1) == "VIOLATED", "class": m.group(2), "hash": m.group(3), "msg": m.group(4)}


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        build()
        return 0
    if len(sys.argv) < 3 or sys.argv[1] not in PROPS or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    build(P["harness"])
    tb = time.time() - t0
    exe = os.path.join(BUILD, P["harness"])
    out = os.path.join(BUILD, "run", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    rdir = os.path.join(V, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)

    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop]
    kplans = {k["plan"]: k for k in known}
    viol = []      # (plan path, class, message)
    notes = []

    # fixed plans: recorded findings, then the regression corpus
    nfixed = 0
    for plan in sorted(glob.glob(os.path.join(V, "plans", prop, "*.plan"))):
        nfixed += 1
        rel = os.path.relpath(plan, V)
        r = replay(exe, plan)
        if r is None:
            notes.append("no verdict for " + rel)
            continue
        if rel in kplans:
            k = kplans[rel]
            if r["violated"] and r["class"] == k["class"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                continue
            if not r["violated"]:
                print("note: known finding no longer shows: %s" % k["what"])
                continue
        if r["violated"]:
            viol.append((plan, r))

    # seeded search
    nw = P.get("workers", 8)
    count = P[tier]["runs"]
    secs = P[tier]["secs"]
    procs = [subprocess.Popen([exe, "batch", prop, str(seed), str(w), str(nw), str(count), str(secs), out] + (["thorough"] if tier == "thorough" else []),
                              stdout=subprocess.DEVNULL, stderr=open(os.path.join(out, "err-%d" % w), "w")) for w in range(nw)]
    for w, p in enumerate(procs):
        if p.wait() != 0:
            notes.append("worker %d ended with status %d: %s" % (w, p.returncode, open(os.path.join(out, "err-%d" % w), errors="replace").read()[-300:]))
    tot = {"runs": 0, "nontrivial": 0, "violations": 0, "nondet": 0, "rechecks": 0, "ops": 0, "runs_with_fault": 0, "syscalls": 0, "yields": 0, "switches": 0, "crashes": 0, "processes": 0, "sim_ns": 0, "wall": 0.0}
    faults, probes, opk, samples = {}, {}, {}, []
    hs = set()
    for f in sorted(glob.glob(out + "/stats-*.json")):
        d = json.load(open(f, errors="replace"), strict=False)
        for k in tot:
            tot[k] += d[k]
        for src, dst in ((d["faults"], faults), (d["probes"], probes), (d["opkinds"], opk)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        samples += d["samples"][:1]
    for f in glob.glob(out + "/hashes-*.bin"):
        b = open(f, "rb").read()
        hs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    if tot["runs"] == 0:
        die("no simulated run completed: " + "; ".join(notes))

    # gate: the minimised plan must fail the same way in fresh processes, twice
    unrep = len(glob.glob(out + "/unrepro-*.plan"))
    seen = set()
    for plan in sorted(glob.glob(out + "/viol-*.plan")):
        cls = re.search(r"^# class (\S+)", open(plan, errors="replace").read(), re.M).group(1)
        if cls in seen:
            continue
        a, b = replay(exe, plan), replay(exe, plan)
        if a and b and a["violated"] and b["violated"] and a["class"] == b["class"] == cls:
            seen.add(cls)
            dst = os.path.join(rdir, "%s-%s.plan" % (prop, re.sub(r"\W+", "-", cls)))
            shutil.copyfile(plan, dst)
            if a["hash"] != b["hash"]:
                notes.append("replay of %s differs in values read from uninitialised memory; verdict is the same" % dst)
            viol.append((dst, a))
        else:
            unrep += 1
            notes.append("a violation did not reproduce in a fresh process: %s %s" % (plan, cls))
    for plan, r in viol:
        print("VIOLATION property=%s replay=%s" % (prop, plan))
        print("  class %s: %s" % (r["class"], r["msg"]))
        print("  replay: %s run %s   (trace: %s trace %s)" % (exe, plan, exe, plan))
    for n in notes:
        print("note: " + n)
    wall = time.time() - t0
    busy = max(1e-9, wall - tb)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"] + nfixed,
            "distinct_nontrivial": len(hs),
            "rule": P["rule"] + " Distinct means a different hash over every intercepted call, scheduling decision and observed result.",
            "samples": samples[:3] or ["(none)"],
            "simulated_runs_per_hour": int(tot["runs"] / busy * 3600),
            "seeds_per_hour": int(tot["runs"] / busy * 3600),
            "simulated_processes": tot["processes"],
            "simulated_time_s": round(tot["sim_ns"] / 1e9, 3),
            "operations": tot["ops"], "operations_by_kind": opk,
            "intercepted_calls": tot["syscalls"],
            "runs_with_a_fault": tot["runs_with_fault"], "faults_injected": faults, "crashes": tot["crashes"],
            "preemption_points": tot["yields"], "context_switches": tot["switches"],
            "conditions_reached": probes,
            "determinism_rechecks": tot["rechecks"], "determinism_mismatches": tot["nondet"],
            "violations_not_reproduced": unrep,
            "fixed_plans_replayed": nfixed,
            "real_components": P["real"], "stubs": P["stub"],
        },
        "assumptions": P["assumptions"],
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d runs (%d distinct non-trivial), %d with faults %s, %.1f s, %d violation(s)" % (prop, tier, tot["runs"], len(hs), tot["runs_with_fault"], faults, wall, len(viol)))
    return 1 if viol else 0


sys.exit(main())
