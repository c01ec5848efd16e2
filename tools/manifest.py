#!/usr/bin/env python3
"""Writes MANIFEST.json; run it after a change of the properties or checks."""
import json, os, subprocess, sys
sys.path.insert(0, "/verif")
import check
TECHNIQUE = {
    "C01": ("generated points and boxes; curve axioms at generated refinement levels", "random zooms into the curve at every level, plus edge points and close pairs"),
    "C02": ("generated (near-)singular matrices against exact integer determinants", "exact big-integer oracle; nearly dependent, lifted and random matrices"),
    "C03": ("generated matrices and systems against exact rational arithmetic", "exact residuals and determinants"),
    "C04": ("generated file-size lists against the tiling predicate", "small lists densely covered"),
    "C05": ("generated count lists against the tiling predicate", "small lists densely covered"),
    "C06": ("stateful generated exchange histories on 1-5 MPI ranks against a model of the rounds", "random lengths across the eager/rendezvous limit, random delays"),
    "C07": ("stateful generated call histories on 1-5 MPI ranks against computed results", "several value types, channels and message orders"),
    "C08": ("generated values of every message type, round trip through pack, send and gather on 1-5 ranks", "arbitrary bit patterns"),
    "C09": ("stateful model-based histories against an ordered map", "all operations and constructors"),
    "C10": ("stateful model-based histories against map, list and array models", "all operations; index codec over its whole domain"),
    "C11": ("generated point sets against an independent fold, metamorphic reorderings", "1D, 2D and 3D"),
    "C12": ("generated generator states, matrices and vectors; algebraic and statistical oracles", "orthogonality, determinant, product, isotropy of axes"),
}
extra = "/verif/tools/manifest_full.py"
NOT_APPLICABLE = []
if os.path.exists(extra):
    exec(open(extra).read())
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if "Guarded hooks" in c]
na = {n["property"] for n in NOT_APPLICABLE}
checks = []
for p in props:
    if p in na: continue
    assert p in check.CHECKS, p
    technique, note = TECHNIQUE[p]
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
        technique="property-based testing: " + technique, level="exploration", level_note=note, evidence_file=f"evidence/{p}.json"))
json.dump(dict(version=1, setup_cmd="python3 check.py --build",
    hooks=dict(guard="cfg(subsweep_verif)",
        enable="build scripts of core/subsweep and full/subsweep pass --cfg subsweep_verif and SUBSWEEP_VERIF_HOOKS, the folder of the included hook files",
        source_commits=hooks),
    checks=checks, not_applicable=NOT_APPLICABLE,
    notes="See DESIGN.md. check.py PROPERTY --replay FILE runs one recorded case."), open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
