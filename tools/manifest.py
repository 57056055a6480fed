#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from props import P
NOTE = ("Seeded search: finds violations within the workloads, variants and bounds in the evidence file, proves nothing beyond them. Trusts the simulated kernel, locks and scheduler "
        "(sequentially consistent, switches at shared accesses and synchronisation) and the reference model in sim/ops.c.")
m = {"version": 1, "setup_cmd": "python3 build.py base",
     "hooks": {"guard": "ISOALLOC_SIM", "enable": "build.py compiles /repo/src with -DISOALLOC_SIM=1 -I sim (isoalloc_sim_knobs.h turns tuning constants into run-time knobs)", "source_commits": ["1047ae6"]},
     "checks": [{"property": i, "quick_cmd": f"python3 check.py run {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py run {i}", "evidence_file": f"evidence/{i}.json",
                 "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": NOTE} for i in P],
     "not_applicable": [
        {"property": "C32", "reason": "Needs ARM memory tagging instructions and hardware tag checks; this machine is x86-64 and no emulator is installed."}],
     "notes": "Replay a violation with: python3 check.py replay FILE. known_findings.txt lists recorded and repaired defects."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1); open(ROOT + "/MANIFEST.json", "a").write("\n")
