#!/usr/bin/env python3
"""The properties and the checks that decide them, in one place.

`python3 sim/catalog.py` rewrites properties.jsonl and MANIFEST.json from it;
sim/run.py reads the run parameters and the evidence texts from it.
"""
import json, os

# sources under /repo/src that do not compile against any MFEM this tree can
# be built with (not part of its build either)
SKIP = [r"fluidflow/euler\.cpp$", r"fluidflow/advection\.cpp$", r"fluidflow/navier_stokes\.cpp$",
        r"common/equation_solver\.cpp$", r"EGADS", r"pyMISO|python"]

SIMMPI = "MPI (sim/core/simmpi.cpp: all of the MPI calls MISO, MFEM and HYPRE make, on fibers under the seeded scheduler)"
SIMFS = "file-system calls (sim/core/simfs.cpp: real files in a scratch directory behind interposed calls that inject faults and crash points)"
CLOCK = "clock (simulated time, advanced by the scheduler)"
REALMFEM = "MFEM 4.5.2 and HYPRE as installed (unmodified binaries)"
ASM_TOL = "Floating-point results of different partitions and orders of summation are compared with tolerances several orders above rounding; a defect smaller than that is not seen."
ASM_SEEDS = "Seeded search: only the schedules, inputs and faults of the seeds that were run are covered."
ASM_HDR = "The sources are compiled against the installed MFEM 4.5.2 with a generated overlay of its headers for the calls that version lacks (sim/tools/mkmfem.py); Adept and tinyspline are replaced by small stand-ins (sim/stubs)."
TECH = "deterministic simulation with fault injection: seeded search over "

P = {}


def prop(pid, title, statement, over, text, why, files, mechanism, driver=None, quick=20, thorough=600, rule="",
         real=(), stub=(), assumptions=(), technique="", note="", level="exploration", na=None, state=None, observe=None, cpu=60, minb=40):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  driver=driver, level=level, quick={"budget": quick, "min_budget": minb}, thorough={"budget": thorough, "min_budget": 200},
                  rule=rule, real=list(real), stub=list(stub), assumptions=list(assumptions), technique=technique, note=note, na=na,
                  state=state, observe=observe, cpu=cpu)


import sys  # noqa: E402
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog_props import define  # noqa: E402
define(prop, globals())


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for pid, p in P.items():
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": w} for n, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": a}) + "\n")
    checks, na = [], []
    for pid, p in P.items():
        if p["na"]:
            na.append({"property": pid, "reason": p["na"]})
        else:
            checks.append({"property": pid, "quick_cmd": "python3 sim/run.py %s --tier quick" % pid,
                           "thorough_cmd": "python3 sim/run.py %s --tier thorough" % pid,
                           "evidence_file": "evidence/%s.json" % pid, "technique": TECH + p["technique"],
                           "level": p["level"], "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 sim/run.py --prepare",
         "hooks": {"guard": "MISO_VERIF_SIM", "enable": "The checks compile /repo/src with -DMISO_VERIF_SIM; no hook in the tree needs it so far: "
                   "MPI, the file system and the heap are reached through link-time interposition, so the shipped sources are what runs.",
                   "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "One simulated parallel job = one process with one fiber per MPI rank; one seed = one exactly repeatable execution. "
                  "A check builds its driver from /repo/src itself (2-40 s), runs seeds on 8 processes for a fixed time, re-runs a sample of them to "
                  "confirm determinism, and on a violation minimises the choices and writes a replay file: python3 sim/run.py ID --replay FILE."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
