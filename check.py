#!/usr/bin/env python3
"""check.py <property>: deterministic simulation of one property against /repo's working tree.

exit 0  the property held in every simulated run
exit 1  "VIOLATION property=<id> replay=<path>": a run broke it; the replay reproduced it in a fresh process
exit 2  the check itself failed (build, simulator, or a failure that does not reproduce)
"""
import json, os, subprocess, sys, time
import build
from props_cfg import PROPS
V = build.V

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def known(pid):
    out = []
    try:
        for l in open(V + "/KNOWN_FINDINGS.txt"):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid): out.append(l.split(" ", 2)[2])
    except FileNotFoundError: pass
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    t0 = time.time()
    exe = build.build(P["kind"])
    tb = time.time() - t0
    secs = int(os.environ.get("DSIM_SECS", P.get("quick_s", 30) if tier == "quick" else P.get("thorough_s", 1500)))
    workers = int(os.environ.get("DSIM_WORKERS", "8"))
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/replay", exist_ok=True)
    rp = "%s/replay/%s-seed%d.replay" % (V, pid, seed)
    out = "%s/build/%s.%d.json" % (V, pid, os.getpid())
    if os.path.exists(rp): os.unlink(rp)
    r = run([exe, "search", "--prop", pid, "--scen", ",".join(P["scen"]), "--seed", str(seed), "--time", str(secs), "--workers", str(workers),
             "--min", "60" if tier == "quick" else "240", "--out", out, "--file", rp])
    if r.returncode not in (0, 1):
        print(r.stdout[-4000:]); print("check %s: the simulator failed (status %d)" % (pid, r.returncode)); return 2
    S = json.load(open(out)); os.unlink(out)
    if not S["runs"]: print(r.stdout[-4000:]); print("check %s: no run was completed" % pid); return 2
    samples = []
    for i in range(len(P["scen"]) * 1):
        q = run([exe, "one", "--prop", pid, "--scen", P["scen"][i], "--seed", str(seed), "--from", str(i)])
        samples.append({"scenario": P["scen"][i], "run": i, "execution": q.stdout[:3000].split("\n")})
    el = S["elapsed_ms"] / 1000.0
    cov = {
        "evaluations": S["runs"], "distinct_nontrivial": S["distinct_interleavings_nontrivial"],
        "rule": "one evaluation is one complete simulated execution: a seeded plan (configuration, operations per thread, fault rates) run under a seeded scheduler. "
                "Distinct and non-trivial: executions with at least one forced preemption or injected fault, counted once per hash of the sequence of (thread, synchronisation operation) pairs together with the scenario",
        "samples": samples,
        "runs_and_seeds_per_hour": int(S["runs"] * 3600 / max(el, 0.001)),
        "simulated_time_s": S["sim_ms"] / 1000.0, "search_s": el, "build_s": round(tb, 1), "workers": S["workers"],
        "scheduling_points": S["steps"], "synchronisation_points": S["sync_steps"], "instrumented_memory_accesses": S["plain_accesses"],
        "context_switches": S["switches"], "preemptions": S["preemptions"], "simulated_threads": S["threads"],
        "runs_ended_by_a_violation_of_another_property": S["runs_ended_by_another_property"],
        "distinct_interleavings": S["distinct_interleavings"], "distinct_executions": S["distinct_executions"],
        "faults_injected": S["faults"], "scenarios": S["scenarios"],
        "determinism": {"runs_executed_twice_and_replayed_from_trace": S["determinism_checked"], "differences": S["determinism_bad"]},
        "components_real": P["real"], "components_simulated": P["stub"],
    }
    kf = known(pid)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": P["assume"], "wall_s": round(time.time() - t0, 1), "violations": S["violations"]}
    def write():
        ev["wall_s"] = round(time.time() - t0, 1)
        json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    write()
    if r.returncode == 1:
        for k in range(2):
            q = run([exe, "replay", "--file", rp])
            if q.returncode != 1:
                print(q.stdout[-3000:]); print("check %s: the failure did not reproduce from %s (status %d)" % (pid, rp, q.returncode)); return 2
        print(q.stdout[-6000:])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: held in %d simulated runs (%d distinct interleavings, %.0f simulated s, %d faults) in %.0f s, seed %d" %
          (pid, S["runs"], S["distinct_interleavings"], S["sim_ms"] / 1000.0, sum(f["fired"] for k, f in S["faults"].items() if k != "scheduler_choice"), el, seed))
    return 0

if __name__ == "__main__":
    try: rc = main()
    except Exception as e:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
