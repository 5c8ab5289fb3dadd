#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, MANIFEST.json and
sim/workloads/meta.json.  Properties live in tools/props/*.json."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
default = json.load(open(os.path.join(HERE, "tools", "default.json")))
props = []
for f in sorted(glob.glob(os.path.join(HERE, "tools", "props", "*.json"))):
    props.append(json.load(open(f)))
meta = {"_default": default}
checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl"), "w") as out:
    for p in props:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        out.write(json.dumps(q) + "\n")
        if "not_applicable" in p:
            na.append({"property": p["id"], "reason": p["not_applicable"]})
            continue
        m = {"workload": p["workload"], "rule": p["rule"]}
        m.update(p.get("meta", {}))
        if m.get("petsc"):
            m["real"] = ["all of src/ and include/ of NESO-Particles with the PETSc interface, compiled from the working tree with memory-access instrumentation"]
            m["stub"] = default["stub"] + ["PETSc (simulated DMPlex topology, labels, distribution, overlap, point location, PetscSF and Vec on the simulated MPI; counts its live objects)"]
            m["assumptions"] = default["assumptions"] + ["the simulated PETSc answers as its documentation says for the calls the library makes"]
        meta[p["id"]] = m
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults",
            "level": "exploration",
            "level_note": p["level_note"] + " Sampled, not exhaustive: a clean batch is evidence over the explored seeds only. Trusts the simulated SYCL, MPI and HDF5 to show only behaviour those standards allow;" + (" The PETSc interface runs against a simulated PETSc." if p.get("meta", {}).get("petsc") else " The PETSc parts are not compiled for this check.")})
json.dump(meta, open(os.path.join(HERE, "sim", "workloads", "meta.json"), "w"), indent=1)
man = {"version": 1, "setup_cmd": "python3 check.py --setup",
       "hooks": {"guard": "NONE", "enable": "No hooks are needed: the checks compile /repo's sources unchanged against simulated SYCL, MPI and HDF5 headers.", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "Every check builds /repo's working tree against the simulator in /verif/sim and runs a seeded campaign; see DESIGN.md."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
