"""Writes properties.jsonl and MANIFEST.json from props_data.py and the harness modules that exist."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props_data import P

PY = "/opt/venv/bin/python run.py "
TECH = "symbolic execution of the real Python functions (proxies + path exploration), every fork and assertion decided by z3"
NOTE = ("bounded: holds for every value of the symbolic inputs of the listed configurations (evidence: harnesses.*.bounds); "
        "trusts z3, CPython, and the value proxies of symx/, which are cross-checked by concrete re-runs of sampled paths; "
        "counterexamples are replayed on the unmodified code before being reported")
try:
    from na import NA
except ImportError:
    NA = {}

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P.values():
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for pid in P:
    if os.path.exists(os.path.join(root, "props", pid.lower() + ".py")) and pid not in NA:
        checks.append(dict(property=pid, quick_cmd=PY + pid, thorough_cmd=PY + pid + " --tier thorough",
                           evidence_file="evidence/%s.json" % pid, technique=TECH, level="model_checking",
                           level_note=NOTE))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "no check built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks import /repo's modules and replace values and random sources from outside.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
