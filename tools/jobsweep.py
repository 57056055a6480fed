#!/usr/bin/env python3
"""Developer sweep over every workload any check uses: jobsweep.py FIRSTSEED SECONDS_PER_JOB WORKERS: reports every violation outside KNOWN, whatever property it would belong to."""
import sys, os, subprocess, re, collections, concurrent.futures, tempfile, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build, props
first, sec, W = int(sys.argv[1]), float(sys.argv[2]), int(sys.argv[3])
jobs = sorted({j.split("*")[0] for d in props.P.values() for j in d["jobs"].split()})
th = build.tree_hash()
exes = {v: build.build(v, th) for v in {j.split("/")[0] for j in jobs}}
out = tempfile.mkdtemp(prefix="jsweep")
def go(i):
    v, p = jobs[i].split("/")
    r = subprocess.run([exes[v], "batch", p, str(first + i * 1000000), "1000000", "1", str(sec), f"{out}/{v}-{p}", "4"], stdout=subprocess.PIPE, text=True)
    return jobs[i], r.stdout
runs = 0
with concurrent.futures.ThreadPoolExecutor(W) as ex:
    for j, t in ex.map(go, range(len(jobs))):
        for l in t.splitlines():
            if l.startswith("STATS"): runs += json.loads(l[6:])["runs"]
            elif not l.startswith("KNOWN"): print(j, l[:330], flush=True)
print("jobs", len(jobs), "runs", runs)
