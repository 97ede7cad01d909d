"""Regenerates the tables of DESIGN.md (between the markers) from the harness modules, known_findings.json and the
measurements in tools/detected.json.   usage: /opt/venv/bin/python tools/design.py"""
import importlib
import json
import os
import re
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
repo = os.environ.get("VERIF_REPO", "/repo")
os.environ["TZ"] = "UTC"
sys.path[:0] = [here, root, repo]
import symx.core  # noqa
import warnings
warnings.simplefilter("ignore")
from props_data import P


def table():
    out = []
    for pid, p in P.items():
        try:
            m = importlib.import_module("props." + pid.lower())
        except ImportError:
            continue
        out.append("**%s %s**" % (pid, p["title"]))
        out.append("")
        for h in m.HARNESSES:
            doc = (h.fn.__doc__ or "").strip().split("\n\n")[0].replace("\n", " ")
            doc = re.sub(r"\s+", " ", doc)
            out.append("- `%s` (%d configurations%s)%s Bounds: %s." % (
                h.name, len(h.cfgs), ", thorough +%d" % len(h.thorough_cfgs) if h.thorough_cfgs else "",
                ": " + doc + "." if doc else ".", h.bounds or "none besides the concrete configuration"))
        out.append("")
    return "\n".join(out)


def findings():
    out = []
    for e in json.load(open(os.path.join(root, "known_findings.json"))):
        w = re.sub(r"^fixed: property=\S+ \S+ ", "", e["what"])
        out.append("- `%s` (%s): %s" % (e["id"], "fixed in " + e["commit"] if e["status"] == "fixed" else "**known, not repaired**", w))
    return "\n".join(out)


def seeded():
    f = os.path.join(here, "detected.json")
    d = json.load(open(f)) if os.path.exists(f) else {}
    out = ["| seeded change | property | caught by | needs |", "|---|---|---|---|"]
    for i, (by, needs) in sorted(d.items()):
        out.append("| %s | %s | %s | %s |" % (i, i[:3], by, needs))
    return "\n".join(out)


def put(s, name, text):
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + "\n" + text + "\n" + s[j:]


f = os.path.join(root, "DESIGN.md")
s = open(f).read()
s = put(s, "harnesses", table())
s = put(s, "findings", findings())
s = put(s, "seeded", seeded())
open(f, "w").write(s)
