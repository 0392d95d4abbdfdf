#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and tools/props.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V); sys.dont_write_bytecode = True
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = dict(checks.NOT_APPLICABLE)
out = dict(version=1, setup_cmd="python3 check.py setup",
    hooks=dict(guard="cathlamet_verif (a rustc --cfg)",
        enable="RUSTFLAGS='--cfg cathlamet_verif' and CATHLAMET_VERIF_HOOKS=/verif/harness/hooks (check.py sets both): private modules then include the accessors in that directory",
        source_commits=checks.HOOK_COMMITS),
    checks=[], not_applicable=[])
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        out["checks"].append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
            technique="symbolic execution of the compiled code's LLVM IR, decided by Z3", level="model_checking",
            level_note="Holds for every input within the bounds, decided path by path by the solver on the IR of the current source; counterexamples are replayed natively. Bounds: %s. Outside: %s. Assumes: rustc, LLVM, Z3 and the executor's model of the allocator and the few external functions; %s%s" % (
                c["bounds"].replace("\\\\", "\\"), c["outside"] or "nothing", "one thread", "".join("; " + a for a in c["assumptions"]))))
    else:
        out["not_applicable"].append(dict(property=p, reason=NA.get(p, "check not built yet")))
out["notes"] = "See DESIGN.md. Every check rebuilds from /repo's working tree; VERIF_SEED only selects which sample paths are replayed natively."
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
