#!/usr/bin/env python3
"""Developer sweep: sweep.py VARIANTS PROFILES COUNT [SECONDS] [FIRST]: runs batches in parallel and groups what they report."""
import sys, os, subprocess, re, collections, concurrent.futures, tempfile, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build
vs, ps, n = sys.argv[1].split(","), sys.argv[2].split(","), int(sys.argv[3])
sec = float(sys.argv[4]) if len(sys.argv) > 4 else 60
first = int(sys.argv[5]) if len(sys.argv) > 5 else 1
allp = re.findall(r'^    \{"(\w+)", \d', open(build.SIM + "/gen.c").read(), re.M)
if ps == ["all"]: ps = allp
if vs == ["all"]: vs = list(build.V)
th = build.tree_hash()
exes = {v: build.build(v, th) for v in vs}
W = 8 if len(vs) * len(ps) < 8 else 2
out = tempfile.mkdtemp(prefix="sweep")
jobs = [(v, p, w) for v in vs for p in ps for w in range(W)]
def go(j):
    v, p, w = j
    r = subprocess.run([exes[v], "batch", p, str(first + w), str((n + W - 1 - w) // W), str(W), str(sec), f"{out}/{v}-{p}-{w}", "6"], stdout=subprocess.PIPE, text=True)
    return j, r.stdout
groups = collections.defaultdict(list); runs = collections.Counter(); wall = collections.Counter()
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for (v, p, w), t in ex.map(go, jobs):
        for l in t.splitlines():
            m = re.match(r"VIOL seed=(\d+) kind=(\S+) hash=\S+ file=(\S+) msg=(.*)", l)
            if m: groups[(m[2], re.sub(r"(0x)?\b[0-9a-f]{6,}\b|0x[0-9a-f]+|\b\d+\b", "#", m[4])[:110])].append((v, p, m[1], m[4]))
            elif l.startswith("INTERNAL"): groups[("internal", re.sub(r"\b\d+\b", "#", l)[:100])].append((v, p, l.split()[1][5:], l))
            elif l.startswith("KNOWN"): groups[("known", l.split()[1])].append((v, p, 0, l))
            elif l.startswith("STATS"):
                d = json.loads(l[6:]); runs[(v, p)] += d["runs"]; wall[(v, p)] += d["wall"]
            else: groups[("?", l[:80])].append((v, p, 0, l))
for k in sorted(groups, key=lambda k: -len(groups[k])):
    g = groups[k]; print(f"{len(g):4d} {k[0]}: {g[0][3][:230]}\n       e.g. " + "; ".join(f"{a}/{b}/{c}" for a, b, c, _ in g[:5]))
print("runs", sum(runs.values()), "ms/run", {f"{v}/{p}": round(1000 * wall[(v, p)] / max(1, runs[(v, p)]), 1) for v, p in runs} if len(runs) < 45 else "")
