#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and spec.py."""
import json, os
import props, spec
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in props.ALL:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in props.ALL:
    s = spec.PROPS.get(p["id"])
    if not s or not s.get("harnesses"):
        na.append({"property": p["id"], "reason": spec.NA.get(p["id"], "no check built yet")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s quick" % p["id"],
        "thorough_cmd": "python3 run.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "bounded model checking of the real C sources (CBMC, SAT) with native replay of counterexamples",
        "level": "other",
        "level_note": s["note"],
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "SC_HAVE_CONFIG_H",
               "enable": "No hook was added: the library's own SC_HAVE_CONFIG_H (config.h found in /verif/lib) routes allocations to the harness; system calls are routed by a header force-included when the sources are compiled for a check.",
               "source_commits": []},
     "notes": "See DESIGN.md. run.py --replay FILE replays a counterexample natively."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
