"""kf.py <property> <id> <fixed|known> <commit> <text>: append an entry to known_findings.json (used by hand only)."""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, kid, st, com, what = sys.argv[1:6]
e = dict(property=prop, id=kid, status=st)
if st == "fixed":
    e.update(commit=com, what="fixed: property=%s %s %s" % (prop, com, what))
else:
    e.update(what=what)
d.append(e)
json.dump(d, open(p, "w"), indent=1)
