#!/usr/bin/env python3
"""check.py run PROPERTY [SECONDS] | replay FILE | measure : decides one property by seeded simulation of /repo's current working tree."""
import sys, os, re, json, time, struct, subprocess, threading, queue, shutil, collections, concurrent.futures, tempfile
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, ROOT)
import build
from props import P, KNOWN
W = max(1, min(8, os.cpu_count() or 1))
COSTS = ROOT + "/tools/costs.json"
REAL = ["src/iso_alloc.c", "src/iso_alloc_big.c (where present)", "every other src/*.c and, in C++ variants, src/*.cpp of /repo's working tree, compiled from source with the variant's configuration"]
STUB = ["kernel memory calls mmap/munmap/mprotect/madvise/mlock (simulated address space over real pages, seeded placement, injected failures)",
        "getrandom (seeded entropy, short reads and failures)", "pthread mutexes, spin locks, threads and sched_yield (cooperative scheduler, one runs at a time)",
        "CPU number (simulated cores and migration)", "environment variables, profiler output file, sigaction, prctl", "process exit and constructors (called by the simulator)"]

def jobs_of(pid, secs):
    costs = json.load(open(COSTS)) if os.path.exists(COSTS) else {}
    js = []
    for w in P[pid]["jobs"].split():
        m = re.fullmatch(r"(\w+)/(\w+)(?:\*([\d.]+))?", w)
        js.append((m[1], m[2], float(m[3] or 1)))
    tot = sum(j[2] for j in js)
    return [(v, p, max(8, int(secs * W * w / tot / (costs.get(f"{v}/{p}", 40) / 1000)))) for v, p, w in js]

def sim(exe, *a, timeout=900):
    return subprocess.run([exe, *map(str, a)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)

def outcome(t):
    m = re.search(r"status=(\w+) kind=(\S+) hash=(\w+)", t); g = re.search(r"^msg=(.*)$", t, re.M)
    return (m[1], m[2], m[3], g[1] if g else "") if m else ("none", "-", "", "")

def gate(exe, pid, v, prof, seed, kind, plan, budget):
    """same plan twice in fresh processes, minimise, and twice again: only then is it a violation"""
    a, b = outcome(sim(exe, "run", plan).stdout), outcome(sim(exe, "run", plan).stdout)
    if a[0] != "violation" or a[:3] != b[:3]:
        return None, f"{v}/{prof} seed {seed}: {kind} did not replay: {a[:3]} {b[:3]}"
    os.makedirs(ROOT + "/replays", exist_ok=True)
    small, out = plan + ".min", f"{ROOT}/replays/{pid}-{v}-{prof}-{seed}.plan"
    use = plan
    try:
        sim(exe, "shrink", plan, small, pid, budget, timeout=150)
        c, d = outcome(sim(exe, "run", small).stdout), outcome(sim(exe, "run", small).stdout)
        if c[0] == "violation" and c[1] == a[1] and c[:3] == d[:3]: use, a = small, c
    except subprocess.TimeoutExpired:
        pass
    body = [l for l in open(use) if not l.startswith("# property") and not l.startswith("# hash")]
    with open(out, "w") as f:
        f.write(f"# property {pid} violation {a[1]}: {a[3]}\n# hash {a[2]}\n# kinds {os.environ['SIM_KINDS']}\n# variant {v} profile {prof} seed {seed}\n# replay: python3 {ROOT}/check.py replay {out}\n"); f.writelines(body)
    return (a[1], a[3], out), None

def run(pid, secs, tier, vseed):
    t0 = time.time(); spec = P[pid]; kinds = set(spec["kinds"].split())
    os.environ["SIM_KINDS"] = " ".join(sorted(kinds))   # a violation of another kind is noted and the run goes on where it can
    first0 = 1 + vseed * 10_000_000_000 + int(pid[1:]) * 10_000_000
    jobs = jobs_of(pid, secs); th = build.tree_hash()
    errors = []
    def b(v):
        return v, build.build(v, th)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        try: exes = dict(ex.map(b, dict.fromkeys(j[0] for j in jobs)))
        except build.BuildError as e:
            print("BUILD FAILED", str(e)[-3000:]); return 2
    tb = time.time() - t0
    names = sim(next(iter(exes.values())), "probes").stdout.split("--\n")
    probes, ops = names[0].split(), names[1].split()
    nt = spec["nontrivial"].split()
    pm = sum(1 << probes.index(x) for x in nt if x in probes); om = sum(1 << ops.index(x) for x in nt if x in ops)
    tmp = tempfile.mkdtemp(prefix="isosim-"); limit = 8 * secs + 120; deadline = time.time() + min(limit, 600 if tier == "quick" else 1e9)
    chunks = []   # every job in parts, in turns, so that every workload is reached early
    for v, p, n in jobs:
        parts = max(1, min(W * 2, n // 8))
        chunks += [((k + .5) / parts, v, p, k, parts, (n + parts - 1 - k) // parts) for k in range(parts)]
    chunks.sort(key=lambda c: c[0])
    stop = threading.Event(); tot = collections.Counter(); faults = collections.Counter(); pr = collections.Counter(); ended = collections.Counter()
    per = collections.Counter(); hashes, ileaves, nontriv = set(), set(), set(); viols, notes, known = [], collections.Counter(), {}
    peak = 0; skipped = 0; simwall = 0.0; lk = threading.Lock()
    def one(c):
        _, v, p, k, parts, n = c
        left = deadline - time.time()
        if stop.is_set() or left < 1: return c, None
        pre = f"{tmp}/{v}-{p}-{k}"
        try: r = sim(exes[v], "batch", p, first0 + k, n, parts, "%.1f" % left, pre, 4, timeout=left + 200)
        except subprocess.TimeoutExpired: return c, ("INTERNAL seed=0 batch timed out\n", b"")
        t = r.stdout
        if "STATS" not in t: t += f"INTERNAL seed=0 the simulator ended with {r.returncode}\n"
        for l in t.splitlines():
            if l.startswith("VIOL "): stop.set()
        h = open(pre + ".hash", "rb").read() if os.path.exists(pre + ".hash") else b""
        return c, (t, h)
    with concurrent.futures.ThreadPoolExecutor(W) as ex:
        for c, got in ex.map(one, chunks):
            _, v, p, k, parts, n = c
            if got is None: skipped += n; continue
            t, h = got
            for a, il, m, o in struct.iter_unpack("<QQQQ", h[:len(h) // 32 * 32]):
                hashes.add(a); ileaves.add(il)
                if m & pm or o & om: nontriv.add(a)
            for l in t.splitlines():
                if l.startswith("STATS "):
                    d = json.loads(l[6:]); per[f"{v}/{p}"] += d["runs"]; peak = max(peak, d["peak_mapped"]); simwall += d["wall"]
                    for x in "runs ops accesses switches preemptions sync_points lock_waits faulted_runs internal".split(): tot[x] += d[x]
                    faults.update(d["faults"]); pr.update(d["probes"]); ended.update(d["ended"])
                elif l.startswith("VIOL "):
                    m = re.match(r"VIOL seed=(\d+) kind=(\S+) hash=\S+ file=(\S+) msg=(.*)", l)
                    viols.append((v, p, int(m[1]), m[2], m[3], m[4]))
                elif l.startswith("NOTE "):
                    m = re.match(r"NOTE seed=(\d+) kind=(\S+) msg=(.*)", l)
                    notes[f"{v}/{p}/{m[1]}: {m[2]}: {m[3][:160]}"] += 1
                elif l.startswith("KNOWN "):
                    m = re.match(r"KNOWN (\S+) (\d+) (.*)", l)
                    if pid in KNOWN.get(m[1], []):
                        known.setdefault(m[1], [0, f"{v}/{p} {m[3]}"])[0] += int(m[2])
                elif l.startswith("INTERNAL"): errors.append(f"{v}/{p} {l}")
    reported, seen = [], set()
    for v, p, s, kind, plan, msg in viols:
        if kind in seen or len(reported) >= 3: continue
        got, err = gate(exes[v], pid, v, p, s, kind, plan, 400)
        if err: errors.append(err); continue
        seen.add(kind); reported.append(got)
    sample = []
    for v, p, n in jobs[:2]:
        g = sim(exes[v], "gen", p, first0).stdout
        sample.append({"variant": v, "workload": p, "seed": first0, "plan_first_lines": g.splitlines()[:40]})
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(reported),
          "coverage": {"evaluations": tot["runs"], "distinct_nontrivial": len(nontriv),
            "rule": "one evaluation is one simulated run: a plan (threads, operations, preemption points, faults, entropy, tuning knobs) generated from one seed, executed on the real allocator. "
                    "Distinct: different hash of the whole execution (every kernel call, result and scheduling decision). Non-trivial: the run reached at least one of: " + ", ".join(nt) + ".",
            "samples": sample, "runs_per_hour": int(tot["runs"] / max(.001, wall - tb) * 3600), "seeds_per_hour": int(tot["runs"] / max(.001, wall - tb) * 3600),
            "simulated_steps": {"operations": tot["ops"], "memory_accesses_scheduled": tot["accesses"], "synchronisation_points": tot["sync_points"], "thread_switches": tot["switches"], "preemptions": tot["preemptions"], "lock_waits": tot["lock_waits"]},
            "simulated_time": "the allocator reads no clock; simulated time is counted in scheduler steps (memory_accesses_scheduled)",
            "faults_injected": dict(faults), "runs_with_faults": tot["faulted_runs"], "distinct_executions": len(hashes), "distinct_interleavings": len(ileaves),
            "interleaving_measure": "hash of the sequence of (thread, step) switches of a run", "runs_ended": dict(ended), "conditions_reached": {k: n for k, n in pr.items() if n}, "conditions_never_reached": [k for k, n in pr.items() if not n],
            "runs_by_workload": dict(per), "seeds_not_run_for_time": skipped if not reported else 0, "first_seed": first0, "peak_simulated_mapping_bytes": peak,
            "build_s": round(tb, 2), "cpu_s_simulating": round(simwall, 1), "workers": W, "real_components": sorted(os.path.relpath(x, build.REPO) for x in __import__("glob").glob(build.REPO + "/src/*.c*")), "stub_components": STUB,
            "other_violations_not_of_this_property": dict(list(notes.items())[:50]), "known_findings_seen": {k: n[0] for k, n in known.items()}},
          "assumptions": ["every shared access of the allocator is a scheduling candidate; the memory model is sequentially consistent", "build variants and bounds listed under runs_by_workload"]}
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    with open(f"{ROOT}/evidence/{pid}.json.tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(f"{ROOT}/evidence/{pid}.json.tmp", f"{ROOT}/evidence/{pid}.json")
    shutil.rmtree(tmp, ignore_errors=True)
    print(f"{pid} {tier} seed {vseed}: {tot['runs']} runs, {len(hashes)} distinct executions, {len(ileaves)} interleavings, {tot['ops']} operations, {sum(faults.values())} faults, build {tb:.1f}s, total {wall:.1f}s")
    for n, c in list(notes.items())[:12]: print(f"NOTE ({c}x) a violation that is not of {pid}: {n}")
    listed = [l for l in open(ROOT + "/known_findings.txt")] if os.path.exists(ROOT + "/known_findings.txt") else []
    for k, (c, first) in known.items():
        if any(l.startswith(f"known: property={pid} {k} ") for l in listed):
            print(f"KNOWN-FINDING: property={pid} {k}: {c} times, first {first}")
        else:
            errors.append(f"unlisted known finding {k}")
    for kind, msg, out in reported:
        print(f"# {kind}: {msg}"); print(f"VIOLATION property={pid} replay={out}")
    if reported: return 1
    for e in errors[:10]: print("ERROR", e)
    if skipped: print(f"note: {skipped} seeds were not reached in time")
    return 2 if errors else 0

def replay(path):
    head = open(path).read(4000)
    m = re.search(r"# variant (\w+)", head); h = re.search(r"# hash (\w+)", head); pid = re.search(r"# property (\w+)", head)
    k = re.search(r"# kinds (.*)", head)
    if k: os.environ["SIM_KINDS"] = k[1]
    exe = build.build(m[1])
    r = sim(exe, "run", path, 1); print(r.stdout, end="")
    o = outcome(r.stdout)
    if o[0] == "violation":
        print(f"reproduced {'exactly (same hash)' if o[2] == h[1] else 'with a different execution hash (the code changed)'}"); print(f"VIOLATION property={pid[1]} replay={path}"); return 1
    return 0 if o[0] == "ok" else 2

def measure():
    js = sorted({(v, p) for d in P.values() for v, p, _ in (re.fullmatch(r"(\w+)/(\w+)(?:\*([\d.]+))?", w).groups() for w in d["jobs"].split())})
    th = build.tree_hash(); exes = {v: build.build(v, th) for v in dict.fromkeys(v for v, _ in js)}; tmp = tempfile.mkdtemp(prefix="isosim-")
    def go(j):
        r = sim(exes[j[0]], "batch", j[1], 500, 60, 1, 100, f"{tmp}/{j[0]}-{j[1]}", 1000)
        d = json.loads(re.search(r"STATS (.*)", r.stdout)[1]); return f"{j[0]}/{j[1]}", max(1, round(1000 * d["wall"] / d["runs"], 1))
    with concurrent.futures.ThreadPoolExecutor(W) as ex: c = dict(ex.map(go, js))
    with open(COSTS, "w") as f: json.dump(c, f, indent=0, sort_keys=True); f.write("\n")
    shutil.rmtree(tmp); print(len(c), "workloads; slowest", sorted(c.items(), key=lambda x: -x[1])[:12])

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["run"]:
        tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
        secs = float(a[2]) if len(a) > 2 else 20 if tier == "quick" else 400
        try: rc = run(a[1], secs, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        except Exception:
            import traceback; traceback.print_exc(); rc = 2
        sys.exit(rc)
    if a[:1] == ["replay"]: sys.exit(replay(a[1]))
    if a[:1] == ["measure"]: measure(); sys.exit(0)
    print(__doc__); sys.exit(2)
