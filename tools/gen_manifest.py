#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRA = {
    "C01": "The deciding formula is the well-formedness of the production list.",
    "C09": "Also covers solvers that answer; a solver that never moves forward can keep the parser going for ever and is assumed away.",
    "C15": "Hash layouts are the rotations of one probe sequence (all symbols hash alike); counterexamples are replayed under 24 seeds of the real hasher.",
    "C07": "Left recursion is assumed away; the end marker is part of the grammar.",
    "C11": "Left recursion is assumed away; the end marker is part of the grammar.",
}
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "symbolic execution of the compiled crate over SMT symbols, one z3 query per path against a specification formula",
        "level": "model_checking",
        "level_note": ("Every path of the real code over all symbol values of the listed input shapes is executed and decided by z3; a violation is replayed on "
                       "ordinary symbols (dev and release builds) and judged by an independent oracle before it is reported. Bounded: shapes outside the list, "
                       "and hash layouts other than the ones run, are not covered. Trusted: rustc, std, z3. " + EXTRA.get(p, "")).strip(),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the checks use the public API of the unmodified crate. Repaired defects are listed in KNOWN_FINDINGS.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
