#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present and tools/not_applicable.json."""
import ast, json, os, subprocess
V = "/verif"
na = json.load(open(V + "/tools/not_applicable.json"))
checks = []
HOOKS = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if " hook:" in l]
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    f = V + "/checks/%s.py" % i.lower()
    if i in na:
        continue
    if not os.path.exists(f):
        na[i] = "not yet built"
        continue
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE", "LEVEL"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i,
                   "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                   "technique": "symbolic execution of the contracts' compiled LLVM IR; every assertion decided by an SMT solver (z3/cvc5); counterexamples replayed on the real Soroban host",
                   "level": d["LEVEL"], "level_note": "Bounds: %s. Outside: %s." % (d["BOUNDS"], d["OUTSIDE"])})
json.dump({"version": 1, "setup_cmd": "python3 engine/build.py token",
           "hooks": {"guard": "--cfg phoenix_probe (rustc flag; off in every normal build)",
                     "enable": "engine/build.py builds pool_stable with `cargo rustc -- --cfg phoenix_probe` for the variant stable_math (P27)",
                     "source_commits": HOOKS}, "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
           "notes": "See DESIGN.md. Every check builds the contracts from /repo's working tree into /verif/build."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", sorted(na))
