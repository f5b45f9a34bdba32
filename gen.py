#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from checks.py"""
import json, os
from checks import PROPS, NOT_APPLICABLE, UNCLAIMED
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, p in sorted(list(PROPS.items()) + list(UNCLAIMED.items())):
        assert len(p["title"]) <= 80, pid
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"] or p["bounds"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
TECH = "symbolic execution of the compiled code (LLVM IR of /repo) with an SMT solver (z3) deciding every branch and assertion; counterexamples replayed natively"
NOTE = "Every path within the bounds is explored and every assertion, panic, out-of-bounds access and uninitialised read decided for all values; any solver unknown or cut path is an error. Bounds: %s. Outside: %s. Trusted: the executor in engine/, rustc/LLVM at -O1, z3."
checks = []
for pid, p in sorted(PROPS.items()):
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
                   "technique": TECH, "level": "model_checking", "level_note": NOTE % (p["bounds"], p["outside"] or "-") + (" " + p["level_note"] if p["level_note"] else "")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
     "hooks": {"guard": "cfg(rstsr_verif)", "enable": "RUSTFLAGS='--cfg rstsr_verif' when check.py builds the par configuration (harness_par): kernel switch sizes become small", "source_commits": ["13ffa316f4c5631f2fe77ff00c7b2bbfc3cad722"]},
     "notes": "Harnesses use public items only. known_findings.txt lists repaired defects (fixed:) and recorded ones (known:)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
rows = []
for pid, p in sorted(PROPS.items()):
    ent = {}
    for j in p["jobs"]:
        ent.setdefault(j.get("config", "row"), []).append(j["entry"])
    rows.append("### %s %s\n\n%s\n\n- anchors: %s\n- entries: %s\n- bounds: %s\n- outside: %s\n- why tests cannot: %s\n" % (
        pid, p["title"], p["statement"], ", ".join("`%s`" % f for f in p["files"]), "; ".join("%s: %s" % (c, ", ".join(e)) for c, e in ent.items()), p["bounds"], p["outside"] or "-", p["why"])
        + "".join("- assumption: %s\n" % a for a in p["assumptions"]))
for pid, r in sorted(NOT_APPLICABLE.items()):
    rows.append("### %s %s (not applicable)\n\n%s\n\n- reason: %s\n" % (pid, UNCLAIMED[pid]["title"], UNCLAIMED[pid]["statement"], r))
d = open(os.path.join(V, "DESIGN.md")).read()
a, b = d.index("<!-- properties -->"), d.index("<!-- end -->")
open(os.path.join(V, "DESIGN.md"), "w").write(d[:a] + "<!-- properties -->\n\n" + "\n".join(rows) + "\n" + d[b:])
