"""`python3 tools/write.py`: rewrites properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import HERE, P  # noqa

PY = "/opt/venv/bin/python -B -m sim"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["row"]) + "\n")
checks = []
for p in P:
    if p["na"]:
        continue
    i = p["row"]["id"]
    checks.append(
        {
            "property": i,
            "quick_cmd": "{} check {} --tier quick".format(PY, i),
            "thorough_cmd": "{} check {} --tier thorough".format(PY, i),
            "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences",
            "level": "exploration",
            "level_note": p["note"],
        }
    )
doc = {
    "version": 1,
    "setup_cmd": PY + " selftest",
    "hooks": {
        "guard": "none: no hook was added to /repo",
        "enable": "nothing to enable; the seams are the worker library, the clock/signal functions, file functions, and the solver/plant/estimator/model interfaces that the code already has",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": [{"property": p["row"]["id"], "reason": p["na"]} for p in P if p["na"]],
    "notes": "See DESIGN.md. Seeds: VERIF_SEED. Replays: out/replays, run with `{} replay <file>`.".format(PY),
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
for p in P:
    assert len(p["row"]["title"]) <= 80, p["row"]["id"]
    assert p["na"] or p["note"], p["row"]["id"]
print(len(checks), "checks", len(P), "properties")
