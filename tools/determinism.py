#!/usr/bin/env python3
"""Same seeds, different worker counts and orders: every (variant, profile, seed) must give the same state hash and interleaving hash."""
import sys, os, subprocess, struct, tempfile, concurrent.futures, shutil, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build
vs = sys.argv[1].split(","); n = int(sys.argv[2])
allp = re.findall(r'^    \{"(\w+)", \d', open(build.SIM + "/gen.c").read(), re.M)
th = build.tree_hash()
out = tempfile.mkdtemp(prefix="det")
def go(j):
    exe, p, first, cnt, step, tag = j
    f = f"{out}/{tag}"
    subprocess.run([exe, "batch", p, str(first), str(cnt), str(step), "600", f, "100000"], stdout=subprocess.DEVNULL)
    b = open(f + ".hash", "rb").read()
    return {first + i * step: b[32 * i:32 * i + 32] for i in range(len(b) // 32)}
bad = tot = 0
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for v in vs:
        exe = build.build(v, th)
        js = []
        for p in allp:
            js.append((p, ex.submit(go, (exe, p, 1, n, 1, f"{v}{p}a")), [ex.submit(go, (exe, p, 1 + w, n // 4, 4, f"{v}{p}b{w}")) for w in range(4)]))
        for p, a, bs in js:
            a = a.result(); b = {}
            for x in bs: b.update(x.result())
            d = [s for s in b if a.get(s) != b[s]]
            tot += len(b); bad += len(d)
            if d: print(v, p, "differ:", d[:10])
shutil.rmtree(out)
print("compared", tot, "seeds:", bad, "differ")
sys.exit(bad != 0)
