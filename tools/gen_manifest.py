#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and sim/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
import props
TECH = "deterministic simulation with fault injection: seeded search over simulated runs of the real library (%s)"
WHAT = {
    "fsworld": "exporters, re-creators and readers of several simulated processes on a simulated disk; reference model = history of complete contents of every name",
    "damage": "damaged, torn and mixed files opened and traversed under the sanitiser with step, memory and fault control",
    "handles": "threads opening, reading, re-opening and dropping shared handles under a controlled schedule; model = what each handle refers to",
    "primvec": "histories of primitive-vector operations with failing allocations, misbehaving iterators and live views; model = a typed list",
    "bitvec": "histories of bit-vector operations with failing allocations and misbehaving iterators; model = a list of booleans",
    "iters": "interleaved and shared iterators under a controlled schedule with failing allocations; model = the container's sequence",
    "leak": "repeated faulted histories with conservation of memory, descriptors, mappings and reference counts",
}
NA = {
    "N01": "agreement of hash and ordering across representations is a pure function of two values: no schedule, clock, I/O or fault enters it, so simulation adds nothing to input generation (lookups of every exported key, which depend on it, are decided in C08)",
    "N02": "evaluating a path expression is a pure function of the expression and the stored value without schedule, I/O or fault",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROFILES and os.path.exists(os.path.join(V, "sim", props.PROFILES[i]["scn"] + ".py")):
        s = props.PROFILES[i]["scn"]
        checks.append({"property": i, "quick_cmd": "python3 sim/check.py --prop %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 sim/check.py --prop %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH % WHAT[s], "level": "exploration",
                       "level_note": "Seeded sampling of schedules, faults, crash and power-loss instants and histories over the real C code under the address sanitiser; a clean search is evidence, not proof. Trusts the simulation kernel's model of POSIX files, the Python oracles, and the interpreter. Every violation is minimised and replayed in fresh processes before it is reported."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is interposed at link time (-Wl,--wrap) on a sanitised rebuild of /repo's working tree. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
