"""Meaning of branch conditions."""
from symx.runner import Harness
from prosimos.branch_condition_parser import BranchConditionParser

BIG = 10 ** 19


def ref(env, op, v, x, y=None):
    if op == "in":
        return env.all([x <= v, v <= y] if y is not None else [x <= v])
    return {"<": lambda: v < x, "<=": lambda: v <= x, ">": lambda: v > x, ">=": lambda: v >= x, "=": lambda: v == x,
            "!=": lambda: env.no(v == x)}[op]()


def number(env, name, c):
    hi = c.get("hi", 1000)
    return env.flt(name, -hi, hi, c.get("den", 1)) if c.get("float", True) else env.int(name, -hi, hi)


def build(env, structure, c):
    """structure: OR list of AND lists of (attribute, comparison); -> (json rules, list of lists of reference formulas)"""
    rules, truth = [], []
    k = 0
    for g in structure:
        jg, tg = [], []
        for attr, op in g:
            x = number(env, "x%d" % k, c)
            if op == "in":
                y = number(env, "y%d" % k, c)
                jg.append(dict(attribute=attr, comparison="in", value=[x, y]))
                tg.append((attr, op, x, y))
            elif op == "in-inf":
                jg.append(dict(attribute=attr, comparison="in", value=[x, "inf"]))
                tg.append((attr, "in", x, None))
            else:
                jg.append(dict(attribute=attr, comparison=op, value=x))
                tg.append((attr, op, x, None))
            k += 1
        rules.append(jg)
        truth.append(tg)
    return rules, truth


def conditions(env):
    c = env.cfg
    rules, truth = build(env, c["s"], c)
    other = [[dict(attribute="a", comparison="=", value=0.5)]]
    parsed = BranchConditionParser([dict(id="other", rules=other), dict(id="cond", rules=rules)]).parse()
    vals = {a: number(env, "v_" + a, c) for a in sorted({a for g in c["s"] for a, _ in g}) if a not in c.get("absent", ())}
    got = parsed.get_branch_condition_by_id("cond").is_true(vals)
    want = env.any([env.all([ref(env, op, vals[a], x, y) if a in vals else False for a, op, x, y in g]) for g in truth])
    env.check(env.iff(got, want), "condition-value")
    env.check(parsed.get_branch_condition_by_id("nope") is None, "unknown-id")
    env.observe("got", bool(got))


def text(env):
    """text equality and inequality; all combinations of three texts"""
    words = ["Regular", "regular", ""]
    w, v = words[env.choice("w", 3)], words[env.choice("v", 3)]
    for op, want in (("=", w == v), ("!=", w != v)):
        p = BranchConditionParser([dict(id="c", rules=[[dict(attribute="a", comparison=op, value=w)]])]).parse()
        env.check(bool(p.get_branch_condition_by_id("c").is_true({"a": v})) == want, "text-" + op)


def numbers(env):
    """numbers given as text (options of discrete attributes, thresholds) are compared as the numbers they stand for"""
    c = env.cfg
    texts = ["5", "10", "100", "-3", "2.5"]
    t = texts[env.choice("text", len(texts))]
    x = env.flt("x", -200, 200, 8)
    v, th = (t, x) if c["side"] == "attribute" else (x, t)
    p = BranchConditionParser([dict(id="c", rules=[[dict(attribute="a", comparison=c["op"], value=th)]])]).parse()
    got = p.get_branch_condition_by_id("c").is_true({"a": v})
    want = ref(env, c["op"], float(t), x) if c["side"] == "attribute" else ref(env, c["op"], x, float(t))
    env.check(env.iff(got, want), "number-as-text")
    env.observe("got", bool(got))


OPS = ["<", "<=", ">", ">=", "=", "!=", "in", "in-inf"]
CFG = [dict(s=[[("a", o)]]) for o in OPS] + [dict(s=[[("a", o)]], float=False) for o in OPS] \
    + [dict(s=[[("a", "in-inf")]], hi=BIG, float=False), dict(s=[[("a", "in")]], hi=1000, den=8)] \
    + [dict(s=[[("a", "<"), ("b", ">")], [("a", "="), ("b", "in")]]),
       dict(s=[[("a", "<=")], [("b", ">=")], [("c", "in-inf")]]),
       dict(s=[[("a", "in"), ("b", "!="), ("c", "<")]]),
       dict(s=[[("a", "<"), ("z", ">")], [("b", "=")]], absent=("z",)),
       dict(s=[[("z", "<")]], absent=("z",)), dict(s=[[("z", "in")]], absent=("z",)),
       dict(s=[[("z", "!=")]], absent=("z",))]
MORE = [dict(s=[[("a", o), ("b", p)], [("a", p), ("c", o)]]) for o in OPS for p in OPS]
HARNESSES = [
    Harness("conditions", conditions, CFG, "1-3 AND groups of 1-3 rules over <= 3 attributes; attribute values and "
            "thresholds arbitrary in [-1000, 1000] (up to 10^19 for the open range; eighths in one configuration)", MORE),
    Harness("numbers", numbers, [dict(op=o, side=d) for o in ("<", "<=", ">", ">=", "!=") for d in ("attribute", "threshold")],
            "five texts against any multiple of 1/8 in [-200, 200]"),
    Harness("text", text, [{}], "three texts"),
]
