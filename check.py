#!/usr/bin/env python3
"""check.py PROPERTY TIER  -- decide one property by seeded simulation.

Builds the simulated verifypn from /repo's working tree, replays the committed corpus and the known
findings, then searches over seeds with all cores.  exit 0: held; exit 1 + VIOLATION line: broken;
anything else: error of the check itself."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from sim.spec import QUICK_CASES, SPEC

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = SPEC[prop]
    secs = float(os.environ.get("VERIF_SECONDS", spec.get(tier, 70 if tier == "quick" else 1800)))
    workers = int(os.environ.get("VERIF_WORKERS", str(os.cpu_count() or 4)))
    t0 = time.time()
    flavour = spec.get("flavour", "std")
    out = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(HERE, "build")), flavour)
    r = subprocess.run([sys.executable, os.path.join(HERE, "sim", "build.py"), out, flavour])
    if r.returncode:
        print("ERROR: build failed", flush=True)
        return 2
    t_build = time.time() - t0
    exe = os.path.join(out, "simpn")
    work = tempfile.mkdtemp(prefix="vpsim.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        return run(prop, tier, seed, spec, secs, workers, t0, t_build, exe, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def replay(exe, path, work, n=0):
    """(violation?, class line)"""
    d = os.path.join(work, "replay%d" % n)
    p = subprocess.run([exe, "replay", path, d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    return p.returncode, p.stdout.strip()

def known(prop):
    """replay files of recorded findings that were not repaired"""
    res = []
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS")):
        m = re.match(r"finding: property=(\S+) replay=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            res.append((m.group(2), m.group(3).strip()))
    return res

def report(prop, path, msg):
    print(msg)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)

def run(prop, tier, seed, spec, secs, workers, t0, t_build, exe, work):
    outdir = os.path.join(HERE, "findings_out")
    os.makedirs(outdir, exist_ok=True)
    violation = None
    findings = 0
    for path, what in known(prop):
        rc, line = replay(exe, os.path.join(HERE, path), work)
        if rc == 1:
            print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
            findings += 1
        elif rc != 0:
            print("ERROR: cannot replay " + path)
            return 2
    # committed corpus: past violations, now repaired
    corpus = 0
    cdir = os.path.join(HERE, "corpus", prop)
    if os.path.isdir(cdir):
        for f in sorted(os.listdir(cdir)):
            if not f.endswith(".case"):
                continue
            p = os.path.join(cdir, f)
            rc, line = replay(exe, p, work)
            corpus += 1
            if rc == 1:
                rc2, line2 = replay(exe, p, work, 1)
                if rc2 == 1 and line2 == line:
                    dst = os.path.join(outdir, "%s-corpus-%s" % (prop, f))
                    shutil.copy(p, dst)
                    violation = (dst, "corpus case %s: %s" % (f, line))
                    break
            elif rc != 0:
                print("ERROR: cannot replay " + p)
                return 2
    stats = []
    errors = 0
    if violation is None:
        base = seed * 1000 + (1 if tier == "quick" else 2)
        limit = QUICK_CASES[prop] if tier == "quick" else 10**8
        procs = []
        for i in range(workers):
            pre = os.path.join(work, "w%d" % i)
            cmd = [exe, "search", prop, str(base), str(i), str(workers), str(limit), str(secs), pre + ".dir", pre]
            procs.append((pre, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(pre + ".err", "w"))))
        t_search = time.time()
        live = list(procs)
        grace = None
        while live:
            time.sleep(0.2)
            for x in list(live):
                if x[1].poll() is not None:
                    live.remove(x)
                    if x[1].returncode == 1 and grace is None:
                        grace = time.time() + 3
            if grace is None and time.time() > t_search + secs + 200:          # a worker that does not come back
                grace = 0.0
            if grace is not None and time.time() > grace:
                for x in live:
                    x[1].kill()
                    x[1].wait()
                live = []
        for pre, p in procs:
            if os.path.exists(pre + ".json"):
                stats.append(json.load(open(pre + ".json")))
            elif p.returncode not in (-9,):
                errors += 1
                sys.stderr.write(open(pre + ".err").read()[-2000:])
            if violation is None and p.returncode == 1 and os.path.exists(pre + ".case"):
                head = open(pre + ".case").read().split("\n", 3)
                rc, line = replay(exe, pre + ".case", work, 2)        # a fresh process
                rc2, line2 = replay(exe, pre + ".case", work, 3)
                if rc == 1 and rc2 == 1 and line == line2:
                    s = re.search(r"seed (\d+)", head[0]).group(1)
                    dst = os.path.join(outdir, "%s-%s.case" % (prop, s))
                    shutil.copy(pre + ".case", dst)
                    violation = (dst, head[1].lstrip("# ") + "  [" + line + "]")
                else:
                    errors += 1
                    print("ERROR: a violation did not replay: " + line + " / " + line2)
    write_evidence(prop, tier, seed, spec, stats, time.time() - t0, t_build, corpus, findings, 1 if violation else 0, work, workers)
    if violation:
        report(prop, violation[0], violation[1])
        return 1
    mism = sum(s["mismatch"] for s in stats)
    unconf = sum(s["unconfirmed"] for s in stats)
    n = sum(s["cases"] for s in stats)
    if mism or unconf:                 # never seen so far; not a verdict about the property (evidence: same_seed_differences)
        print("NOTE: nondeterministic=%d unconfirmed=%d" % (mism, unconf))
    if errors or n == 0:
        print("ERROR: errors=%d cases=%d" % (errors, n))
        return 2
    print("%s: held on %d simulated cases (%d processes)" % (prop, n, sum(s["processes"] for s in stats)))
    return 0

def merge(stats, key):
    m = {}
    for s in stats:
        for k, v in s[key].items():
            m[k] = m.get(k, 0) + v
    return dict(sorted(m.items()))

def distinct(work, workers, ext):
    h = set()
    for i in range(workers):
        p = os.path.join(work, "w%d.%s" % (i, ext))
        if os.path.exists(p):
            d = open(p, "rb").read()
            h.update(struct.unpack("<%dQ" % (len(d) // 8), d))
    return len(h)

def write_evidence(prop, tier, seed, spec, stats, wall, t_build, corpus, findings, violations, work, workers):
    tot = lambda k: sum(s[k] for s in stats)
    search_s = max([s["seconds"] for s in stats], default=0)
    cov = {
        "evaluations": tot("cases") + corpus,
        "distinct_nontrivial": distinct(work, workers, "hashes"),
        "rule": spec["rule"],
        "samples": [x for s in stats for x in s["samples"]][:3],
        "simulated_processes": tot("processes"),
        "seeds_per_hour": round(tot("cases") / search_s * 3600) if search_s else 0,
        "simulated_time_s": round(tot("simulated_seconds"), 3),
        "reachable_markings_in_reference_graphs": tot("states"),
        "cases_with_two_or_more_markings": tot("nontrivial"),
        "distinct_inputs": distinct(work, workers, "inputs"),
        "cases_with_environment_decisions": tot("runs_with_faults"),
        "faults_injected": {k: v for k, v in merge(stats, "fired").items() if v},
        "seam_events": {k: v for k, v in merge(stats, "events").items() if v},
        "thread_switches": tot("preemptions"),
        "yield_points": tot("yields"),
        "same_seed_reruns": tot("redo"),
        "same_seed_differences": tot("mismatch"),
        "corpus_replayed": corpus,
        "known_findings_reproduced": findings,
        "skipped_reference_too_large": tot("skipped"),
        "seeds_without_a_case": tot("discarded"),
        "options_drawn": merge(stats, "options"),
        "answer_techniques_reported": merge(stats, "techniques"),
        "rare_conditions_reached": merge(stats, "probes"),
        "real_components": spec.get("real", "all of /repo/src (parsers, reductions, simplification, engines, printers), GLPK, libstdc++"),
        "stubs": spec.get("stubs", "ptrie (interface-compatible set/map), spot/bddx (tableau translator and BDDs); clock, random, allocator, file I/O and solver results are the simulator's seams"),
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

sys.exit(main())
