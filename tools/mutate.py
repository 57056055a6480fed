#!/usr/bin/env python3
"""Mutation testing of the simulator itself: mutate.py OUT.jsonl WORKERS COUNT SEED [FILE_REGEX]. Small changes of the allocator, in scratch copies; prints which survive every workload."""
import sys, os, re, json, random, subprocess, shutil, hashlib, concurrent.futures, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
out, workers, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
rx = sys.argv[5] if len(sys.argv) > 5 else r"\.(c|cpp)$"
REPO = os.environ.get("ISO_REPO", "/repo"); SCR = os.environ.get("MUT_DIR", "/tmp/w/mut")
import build
BAT = {"base": "mix:60 bigconc:40 conc:50 small:30 big:50 resize:50 quar:50 zones:50 retire:50 perm:40 leaks:40 strings:40 zeroed:30 misuse:50 corrupt:40 guards:30 foot:24 zero:40 init:40 destroy:40 pair:20 hooks:40 faults:80 benign:30 sizes:40 zonelimit:200 capacity:20",
       "tag": "tags:80 zones:50 mix:50 conc:40 perm:30 foot:10 pair:15 destroy:20 faults:40", "sane": "sample:150 mix:50 conc:40 resize:40 zeroed:30 faults:50 misuse:40 leaks:30 guards:30", "sane_small": "sample:100",
       "sanit": "mix:60 quar:40 conc:30 retire:30 perm:30 zeroed:30", "strong": "mix:60 small:60 strings:40 sizes:40 zones:40 conc:30 foot:10", "cpupin": "cpu:150 conc:40 zones:40 retire:30 foot:10 leaks:20",
       "prof": "prof:150 conc:30 mix:40 zones:30 faults:30", "uaf": "uaf:60 mix:20", "uafsig": "uaf:40 faults:30", "protbig": "big:80 mix:40 conc:30 perm:30 faults:30 guards:20", "guards": "guards:80 big:50 mix:40 faults:40 leaks:20 destroy:20",
       "metaguard": "guards:50 big:40", "bigguard": "guards:50 big:40", "libc": "memory:150 mix:40", "cpp": "hooks:150 mix:30 faults:40", "spin": "conc:60 mix:40 quar:30 retire:30", "nothread": "mix:60 quar:40 zones:40 retire:30 destroy:20",
       "dtor": "destroy:80 sample:30", "dtornoctor": "destroy:40 init:40", "uninit": "uninit:150 conc:30 faults:60", "smallmem": "mix:60 retire:30 zones:30", "permrealloc": "resize:60 perm:30", "vfbs": "mix:60 misuse:40", "nozero": "zero:40 mix:20",
       "named": "mix:40 faults:40", "populate": "mix:40", "abortnull": "sizes:40 hooks:40", "exper": "mix:50", "nomask": "mix:40", "norand": "mix:40", "noctor": "init:40"}
BAT["taguaf"] = "uaf:40"; BAT["tagsanit"] = "tags:40 zeroed:20"
ORDER = list(BAT)
EXTRA = {"iso_alloc_search.c": "uaf taguaf", "iso_alloc_mem_tags.c": "tag tagsanit", "iso_alloc_sanity.c": "sane sane_small libc uninit", "iso_alloc_profiler.c": "prof cpupin", "iso_alloc_signal.c": "uafsig",
         "iso_alloc.cpp": "cpp", "iso_alloc_util.c": "named guards", "iso_alloc_interfaces.c": "tag sane", "malloc_hook.c": "cpp", "iso_alloc_random.c": "cpupin"}
CONST = [(r"(?<![<>=!+\-*/&|])<(?![<=])", "<="), (r"(?<![<>=!\-])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r"(?<![>])>=", ">"), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r"\* 2\b", "* 1"), (r"<< 1\b", "<< 0"), (r" \+ ", " - "), (r" - ", " + "), (r"\+\+", "--"), (r"--", "++"), (r"\+=", "-="), (r"-=", "+="), (r"\bSET_BIT\(", "UNSET_BIT("), (r"\bUNSET_BIT\(", "SET_BIT(")]

def mutants(path):
    L = open(path).read().split("\n"); r = []
    infn = False; incom = False
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith("/*"): incom = True
        if incom:
            if "*/" in s: incom = False
            continue
        if re.match(r"^[A-Za-z_].*\{\s*$", l): infn = True; continue
        if l.startswith("}"): infn = False
        if not infn or s.startswith("#") or not s or s.startswith("//") or "LOG" in s: continue
        if s.endswith(";") and not re.match(r"(return\b.+|break|continue|goto|const|static|struct|int\d*_t|uint\d*_t|size_t|void|char|bool|iso_\w+_t|bit\w*_t|bitmap_index_t|_sane\w+|\w+_t)\b[^()]*;?$", s) and not re.match(r"(const |static |void |int\d*_t |uint\d*_t |size_t |char |bool |iso_\w+ |bit\w+ |u?int )", s) and not s.startswith("}") and not s.startswith("return"):
            if l.count("(") == l.count(")"): r.append((i, l[:len(l) - len(l.lstrip())] + ";", "delete"))
        if s == "break;": r.append((i, l.replace("break;", "continue;"), "continue"))
        m = re.match(r"^(\s*)((?:\} else )?if)\((.*)\) \{$", l)
        if m:
            r.append((i, f"{m[1]}{m[2]}(0 && ({m[3]})) {{", "never")); r.append((i, f"{m[1]}{m[2]}(1 || ({m[3]})) {{", "always"))
        m = re.match(r"^(\s*)return (.+);$", l)
        if m and m[2] not in ("NULL", "false", "0", "ERR", "OK") and "(" not in m[2]: r.append((i, f"{m[1]}return 0;", "return 0"))
        for a, b in CONST:
            for mm in re.finditer(a, l):
                if "include" in l or l[max(0, mm.start() - 1):mm.start()] == "-" and a.startswith("(?<![<>=!\\-])"): continue
                n = l[:mm.start()] + b + l[mm.end():]
                r.append((i, n, f"{mm[0]} to {b}"))
    return L, r

def cflags(variant, cpp):
    d = dict(build.DEF); d.update(build.V[variant]); cp = d.pop("CPP", 0)
    return [f"-D{k}={v}" for k, v in d.items()] + (["-DCPP_SUPPORT=1"] if cp else []), cp
def asm(tree, f, variant):
    fl, cp = cflags(variant, 0); cx = f.endswith(".cpp")
    if cx and not cp: return "skip"
    r = subprocess.run([build.tool("clang++" if cx else "clang"), "-S", "-O1", "-o", "-", f"{tree}/src/{f}", "-std=" + ("c++17" if cx else "c11"), "-w", "-I", tree + "/include", "-I", ROOT + "/sim", "-DISOALLOC_SIM=1", "-D_GNU_SOURCE=1", "-ffile-prefix-map=" + tree + "=/T"] + fl, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if r.returncode: return None
    return re.sub(r'^\s*\.(ident|file).*$', "", r.stdout, flags=re.M)
orig = {}
lk = threading.Lock()
def orig_asm(f, v):
    k = (f, v)
    if k not in orig: orig[k] = asm(REPO, f, v)
    return orig[k]
def one(job):
    w = threading.get_ident() % 100000
    f, i, line, what, L = job
    tree = f"{SCR}/t{w}"
    if not os.path.isdir(tree):
        os.makedirs(tree); shutil.copytree(REPO + "/src", tree + "/src"); shutil.copytree(REPO + "/include", tree + "/include")
    M = list(L); M[i] = line
    p = f"{tree}/src/{f}"
    open(p, "w").write("\n".join(M))
    res = {"file": f, "line": i + 1, "what": what, "old": L[i].strip(), "new": line.strip()}
    try:
        vs = []
        first = EXTRA.get(f, "dtor cpupin guards").split() # a change of the default build is tried in it and in these, another in the first five builds it changes
        for v in ["base"] + first + [v for v in ORDER if v != "base" and v not in first]:
            if vs[:1] == ["base"] and v not in first: break
            a = orig_asm(f, v)
            if a in (None, "skip"): continue
            b = asm(tree, f, v)
            if b is None: res["status"] = "nocompile"; return res
            if a != b:
                vs.append(v)
                if len(vs) >= 5: break
        if not vs: res["status"] = "equivalent"; return res
        res["variants"] = vs
        env = dict(os.environ, ISO_REPO=tree, ISO_BUILD=f"{SCR}/b{w}"); env.pop("SIM_KINDS", None)
        for v in vs:
            r = subprocess.run(["python3", ROOT + "/build.py", v], stdout=subprocess.PIPE, text=True, env=env)
            exe = r.stdout.strip().split("\n")[-1]
            if not os.path.exists(exe): res["status"] = "nobuild"; return res
            for pc in BAT[v].split():
                pf, n = pc.split(":")
                t = subprocess.run([exe, "batch", pf, "900001", n, "1", "120", f"{SCR}/o{w}", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, timeout=400).stdout
                m = re.search(r"VIOL seed=(\d+) kind=(\S+) .*msg=(.*)", t)
                if m: res.update(status="killed", by=f"{v}/{pf}", kind=m[2], msg=m[3][:120]); return res
                if "STATS" not in t or re.search(r"^INTERNAL", t, re.M): res.update(status="killed", by=f"{v}/{pf}", kind="internal", msg=t[:200]); return res
        res["status"] = "survived"
    except Exception as e:
        res["status"] = "error"; res["msg"] = repr(e)[:200]
    finally:
        shutil.copy(f"{REPO}/src/{f}", p)
    return res
jobs = []
for f in sorted(os.listdir(REPO + "/src")):
    if not re.search(rx, f) or f == "iso_alloc_mte.c" or f == "iso_alloc_printf.c": continue
    L, r = mutants(f"{REPO}/src/{f}")
    jobs += [(f, i, l, w, L) for i, l, w in r]
random.Random(seed).shuffle(jobs)
print(len(jobs), "mutants in all")
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
only = os.environ.get("MUT_ONLY") # the file of an earlier run: only its survivors
if only:
    want = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(only)) if d["status"] == "survived"}
    jobs = [j for j in jobs if (j[0], j[1] + 1, j[2].strip()) in want]
jobs = [j for j in jobs if (j[0], j[1] + 1, j[2].strip()) not in done][:count]
with concurrent.futures.ThreadPoolExecutor(workers) as ex, open(out, "a") as fo:
    for r in ex.map(one, jobs):
        fo.write(json.dumps(r) + "\n"); fo.flush()
