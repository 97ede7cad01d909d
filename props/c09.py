"""Case priorities."""
from props import scen, simcases as sc
from props.c06 import ATTR, RULES, level
from symx.runner import Harness
from prosimos.case_attributes import AllCaseAttributes, CaseAttribute
from prosimos.prioritisation import CasePrioritisation
from prosimos.prioritisation_parser import PrioritisationParser
from prosimos.control_flow_manager import CustomDatetimeAndSeconds

LOWEST = 2 ** 62


def rules_level(env):
    """most urgent level with a true rule; levels, ranges and values symbolic"""
    c = env.cfg
    js, ref = [], []
    v = {"x": env.flt("vx", -20, c.get("hi", 120)), "y": env.flt("vy", -20, 120), "t": ["gold", "blue"][env.choice("vt", 2)]}
    k = 0
    for i, groups in enumerate(c["levels"]):
        lv = c["numbers"][i] if "numbers" in c else env.int("level%d" % i, 1, c.get("maxlevel", 12))
        orr, forms = [], []
        for g in groups:
            ands, fa = [], []
            for a in g:
                if a in ("x", "y"):
                    lo, hi = env.int("lo%d" % k, -10, 100), env.int("hi%d" % k, -10, 100)
                    ands.append(dict(attribute=a, comparison="in", value=[lo, hi]))
                    fa.append(env.all([lo <= v[a], v[a] <= hi]))
                elif a in ("X", "Y"):
                    lo = env.int("lo%d" % k, -10, 100)
                    ands.append(dict(attribute=a.lower(), comparison="in", value=[lo, "inf"]))
                    fa.append(lo <= v[a.lower()])
                else:
                    ands.append(dict(attribute="t", comparison="=", value=a))
                    fa.append(v["t"] == a)
                k += 1
            orr.append(ands)
            forms.append(env.all(fa))
        js.append(dict(priority_level=lv, rules=orr))
        ref.append((int(lv) if isinstance(lv, str) else lv, env.any(forms)))
    got = PrioritisationParser(js).parse().get_priority(v)
    want = env.minimum([LOWEST] + [env.ite(f, lv, LOWEST) for lv, f in ref])
    env.check(env.any([got == want, env.all([want == LOWEST, got >= 1000000])]), "most-urgent-level")
    env.observe("got", got)


def cases(env):
    """priorities of all cases and their order"""
    n = env.cfg["n"]
    env.dist = lambda e, d: e.flt(e.seq("attr"), 0, 100)
    attrs = AllCaseAttributes([CaseAttribute("amount", "continuous", scen.dist(0, 100)),
                               CaseAttribute("kind", "discrete", [dict(key="a", value=0.25), dict(key="b", value=0.75)])])
    rules = PrioritisationParser(RULES + [dict(priority_level=3, rules=[[dict(attribute="kind", comparison="=",
                                                                              value="b")]])]).parse()
    cp = CasePrioritisation(n, attrs, rules)
    lv = {}
    for k in range(n):
        v = cp.all_case_attributes[k]
        env.check(set(v) == {"amount", "kind"}, "attributes-of-the-case")
        x = v["amount"]
        lv[k] = env.ite(x >= 50, 1, env.ite(env.all([x >= 20, x <= 49]), 2, 3 if v["kind"] == "b" else LOWEST))
        p = cp.get_priority_by_case_id(k)
        env.check(env.any([p == lv[k], env.all([lv[k] == LOWEST, p > 3])]), "priority-of-the-case")
    t = [env.int("t%d" % k, 0, 100) for k in range(n)]
    ids = list(range(n))
    out = cp.get_ordered_case_ids_by_priority([(k, CustomDatetimeAndSeconds(t[k], env.dt(scen.MON9, t[k]))) for k in ids])
    out = [k for k, _ in out]
    env.check(sorted(out) == ids, "ordering-is-a-permutation")
    for a, b in zip(out, out[1:]):
        env.check(env.any([lv[a] < lv[b], env.all([lv[a] == lv[b], t[a] <= t[b]])]), "ordered-by-priority-then-time")
    best = cp.calculate_max_priority([(k, CustomDatetimeAndSeconds(t[k], env.dt(scen.MON9, t[k]))) for k in ids])
    m = env.minimum([lv[k] for k in ids])
    env.check(env.any([best == m, env.all([m == LOWEST, best > 3])]), "batch-priority")
    env.observe("order", out)


def served(env):
    """with everything waiting from the beginning, more urgent cases start first on a single resource"""
    c = env.cfg
    r = sc.run_cfg(env, c)
    env.check(sorted(e.case for e in r.events) == list(range(c["n"])), "every-case-once")
    for e in r.events:
        for f in r.events:
            if e is not f:
                a, b = level(env, e.attrs["amount"]), level(env, f.attrs["amount"])
                env.check(env.implies(a < b, e.start <= f.start), "urgent-first")
    env.observe("log", [(e.case, e.start, e.attrs["amount"]) for e in r.events])


L1 = [[["x"]]]
CFG = [dict(levels=[[["x"]], [["y"]]]), dict(levels=[[["x", "gold"]], [["X"], ["blue"]]]),
       dict(levels=[[["X"]]], hi=10 ** 19), dict(levels=[[["gold"]], [["x"]], [["blue"]]]),
       dict(levels=[[["x"], ["y", "gold"]], [["Y"]]])] + \
      [dict(levels=[[["x"]], [["y"]], [["X"]]], numbers=n) for n in ((10, 2, 9), (3, 20, 100), ("12", "7", "100"))]
MORE = [dict(levels=[[["x"]], [["y"]], [["X"]]]), dict(levels=[[["x", "y"]], [["x"], ["y"]], [["gold", "X"]]])]
SV = dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": (0, 5000)}}, cal={"c": sc.DAYLONG}, n=3,
          extra=dict(case_attributes=ATTR, prioritisation_rules=RULES))
HARNESSES = [
    Harness("rules_level", rules_level, CFG, "<= 3 levels (symbolic numbers 1..12, and three sets of given numbers of one to three digits), ranges with symbolic bounds in "
            "[-10, 100], open ranges up to 10^19, text equality", MORE),
    Harness("cases", cases, [dict(n=2)], "2 (3) cases, 4 levels, enabling times 0..100", [dict(n=3)]),
    Harness("served", served, [SV], "3 cases waiting together on one resource"),
]
