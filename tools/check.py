#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by seeded simulation of the current /repo tree.
VERIF_SEED, VERIF_TIER=quick|thorough.  Exit 0 held, 1 VIOLATION, anything else: error of the check."""
import os, sys, json, time, re, struct, subprocess, shutil, signal, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from checks import CHECKS
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

def die(msg):
    print("ERROR: " + msg); sys.stdout.flush(); sys.exit(3)

def build(group):
    b = os.environ.get("LMS_BUILD", V + "/build") + "/" + group
    r = subprocess.run([sys.executable, V + "/tools/build.py", group, b], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode: die("build of group %s failed:\n%s" % (group, r.stderr[-6000:]))
    return r.stdout.strip().splitlines()[-1]

def symbolise(exe, msg):
    pcs = []
    for p in re.findall(r"0x[0-9a-f]{6,}", msg):
        if p not in pcs: pcs.append(p)
    if not pcs: return []
    r = subprocess.run(["addr2line", "-Cfipe", exe] + pcs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return ["%s %s" % x for x in zip(pcs, r.stdout.splitlines())]

def findings(prop):
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def hashes(paths):
    s = set()
    for p in paths:
        if os.path.exists(p):
            d = open(p, "rb").read(); s.update(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))
    return s

def main():
    prop = sys.argv[1]; C = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"): tier = "quick"
    T = C[tier]; t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="lmsim-%s-" % prop, dir=V + "/build" if os.path.isdir(V + "/build") else None)
    procs = []
    def cleanup():
        for p in procs:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
        shutil.rmtree(tmp, ignore_errors=True)
    try:
        rc = work(prop, C, T, tier, seed, tmp, procs, t0)
    finally:
        cleanup()
    sys.exit(rc)

def merge(a, b):
    for k, v in b.items(): a[k] = a.get(k, 0) + v

def work(prop, C, T, tier, seed, tmp, procs, t0):
    known = findings(prop)
    parts = C["parts"]            # list of dicts: group, scenarios {name: weight}, share
    tot = {"runs": 0, "ok": 0, "giveup": 0, "nontrivial": 0, "steps": 0, "switches": 0, "vtime_ns": 0, "rechecked": 0}
    faults, fault_runs, probes, scen, knownhits, giveups = {}, {}, {}, {}, {}, {}
    samples = []; ih, st, nt = set(), set(), set(); violation = None; vexe = None; internal = []
    simwall = 0.0
    os.makedirs(V + "/build", exist_ok=True)
    exes = {}
    for p in parts:
        if p["group"] not in exes: exes[p["group"]] = build(p["group"])
    share = sum(p.get("share", 1) for p in parts)
    for pi, p in enumerate(parts):
        exe = exes[p["group"]]; s0 = time.time()
        runs = max(8, int(T["runs"] * p.get("share", 1) / share)); cap = T["time"] * p.get("share", 1) / share
        sc = ",".join("%s:%d" % x for x in p["scenarios"].items())
        ws = []
        for w in range(JOBS):
            out = "%s/%d_%d.json" % (tmp, pi, w)
            cmd = [exe, "explore", "--scenario", sc, "--seed", str(seed), "--first", str(w), "--stride", str(JOBS), "--runs", str(runs), "--time", "%.1f" % cap, "--out", out, "--property", prop, "--mintime", str(T.get("mintime", 30))]
            if C.get("opts"): cmd += ["--opts", C["opts"]]
            q = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "wb"), start_new_session=True)
            procs.append(q); ws.append((q, out))
        live = dict((o, q) for q, o in ws); done = {}
        hard = time.time() + cap + T.get("mintime", 30) + 90
        while live:
            time.sleep(0.05)
            for o, q in list(live.items()):
                if q.poll() is not None:
                    del live[o]
                    if q.returncode != 0 or not os.path.exists(o):
                        internal.append("worker exit %s: %s" % (q.returncode, open(o + ".err", errors="replace").read()[-500:])); continue
                    done[o] = json.load(open(o))
            if any(d["violation"] for d in done.values()) or time.time() > hard: break
        if live and time.time() > hard: internal.append("worker overran its time")
        for q in live.values():
            try: os.killpg(q.pid, signal.SIGKILL)
            except OSError: pass
            q.wait()
        for o, d in done.items():
            for k in tot: tot[k] += d[k]
            merge(faults, d["faults"]); merge(fault_runs, d["fault_runs"]); merge(probes, d["probes"]); merge(scen, d["scenarios"]); merge(knownhits, d["known"]); merge(giveups, d["giveups"])
            samples += [x for x in d["samples"] if len(samples) < 6]
            ih |= hashes([o + ".ih"]); st |= hashes([o + ".st"]); nt |= hashes([o + ".nt"])
            if d["internal"]: internal.append(d["internal_msg"])
            if d["violation"] and violation is None: violation = d["violation"]; vexe = exe
        simwall += time.time() - s0
        if violation: break
    rc = 0; lines = []
    if violation:
        os.makedirs(V + "/replays", exist_ok=True)
        dst = "%s/replays/%s-%s-%s.replay" % (V, prop, violation["scenario"], violation["seed"])
        shutil.copy(violation["replay"], dst)
        # gate: a fresh process has to fail the same way, twice
        for i in range(2):
            r = subprocess.run([vexe, "replay", dst], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 1 or "REPRODUCED" not in r.stdout.split("\n"): die("replay of %s in a fresh process does not reproduce it: %s" % (dst, r.stdout[-500:]))
        violation["replay"] = dst; violation["at"] = symbolise(vexe, violation["message"])
        rc = 1
    elif internal:
        die("simulator error: " + "; ".join(internal[:3]))
    elif not nt: die("no run exercised the property")
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if violation else 0,
          "coverage": {
              "evaluations": tot["runs"], "distinct_nontrivial": len(nt),
              "rule": "one evaluation is one simulated run of the scenarios listed, every choice in it drawn from the seed. " + C["rule"] + " Distinct: by hash of the recorded event history and interleaving.",
              "samples": samples or ["(none)"],
              "runs_per_scenario": scen, "runs_ok": tot["ok"], "runs_given_up": giveups,
              "runs_per_hour": int(tot["runs"] / max(simwall, .001) * 3600), "seeds_per_hour": int(tot["runs"] / max(simwall, .001) * 3600),
              "simulated_seconds": round(tot["vtime_ns"] / 1e9, 3), "simulated_steps": tot["steps"], "context_switches": tot["switches"],
              "distinct_interleavings": len(ih), "interleaving_measure": "hash of the sequence (thread switched from, thread switched to, call site) of a run",
              "distinct_states": len(st), "state_measure": C.get("states", "hash of the abstract state the scenario samples (queue fills, positions, registered ids, ...)"),
              "faults_injected": faults, "runs_with_fault": fault_runs, "rare_conditions_reached": probes,
              "determinism_rechecks": tot["rechecked"],
              "real_components": C["real"], "stub_components": C["stub"], "known_findings_hit": knownhits},
          "assumptions": C.get("assumptions", []) + ["sequentially consistent memory: the simulator interleaves accesses but does not reorder them", "sampling, not enumeration: a clean batch is evidence, not proof"]}
    if violation: ev["coverage"]["violation"] = violation
    os.makedirs(V + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (V, prop), "w") as f: json.dump(ev, f, indent=1)
    for fid, what in known: print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s: %d runs (%d distinct non-trivial), %d interleavings, %.1f simulated s, faults %s, %.1f s" % (prop, tot["runs"], len(nt), len(ih), tot["vtime_ns"] / 1e9, json.dumps(faults), wall))
    if violation:
        print("class %s: %s" % (violation["class"], violation["message"]))
        for l in violation["at"]: print("   " + l)
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
    return rc
if __name__ == "__main__": main()
