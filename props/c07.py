"""Gateway decisions."""
import itertools

from props import scen, simcases as sc
from symx.runner import Harness
from prosimos.control_flow_manager import CustomDatetimeAndSeconds

T = ["B", "C", "D"]


def graph(kind, n, nested=None):
    nodes = {"s": "start", "A": "task", "g": kind}
    flows = [("f0", "s", "A"), ("f1", "A", "g")]
    for t in T[:n]:
        nodes[t] = "task"
        flows.append(("g" + t, "g", t))
    nodes["j"] = kind
    nodes["e"] = "end"
    for t in T[:n]:
        flows.append((t + "j", t, "j"))
    flows.append(("f9", "j", "e"))
    return nodes, flows


def rule(attr, lo, hi):
    return [[dict(attribute=attr, comparison="in", value=[lo, hi])]]


def drawn_with(env, among, prob):
    """the last draw between flows (if the decision was made by one) weighs the flows as configured"""
    flows = {"g" + t for t in prob}
    if "n" in env.cfg:          # a whole simulation decides more than once
        return True
    picks = [p for p in env.picks if len(p) > 1 and all(isinstance(x, str) and x in flows for x, _ in p)]
    if not picks:
        return True
    w = {t: sum(v for f, v in picks[-1] if f == "g" + t) for t in prob}
    total, share = sum(w.values()), sum(prob[t] for t in among)
    want = {t: (prob[t] if share > 0 else 1) if t in among else 0 for t in prob}
    share = share if share > 0 else len(among)
    return env.all([env.close(w[t] * share, want[t] * total) for t in prob])


def spec(env, c, got, vals):
    """got: set of activated tasks; c['flows']: {task: (prob, (attr, lo, hi) or None)}"""
    kind, fl = c["kind"], c["flows"]
    if kind == "and":
        env.check(got == set(fl), "parallel-activates-all")
        return
    env.check(len(got) >= 1, "at-least-one-flow")
    if kind == "xor":
        env.check(len(got) == 1, "exclusive-one-flow")
    prob = {t: p for t, (p, _) in fl.items()}
    cond = {t: r for t, (_, r) in fl.items() if r is not None}

    def by_probability(label):
        """formula: the choice is one the probabilities permit"""
        ok = all(prob[t] > 0 for t in got)
        if kind == "or":
            ok = ok and all(t in got for t in prob if prob[t] >= 1)
        return ok
    if not cond:
        env.check(by_probability(""), "allowed-by-probabilities")
        if kind == "xor":
            env.check(drawn_with(env, list(prob), prob), "probabilities-of-the-draw")
        return
    true = {t: env.all([vals[a] >= lo, vals[a] <= hi]) if a in vals else False for t, (a, lo, hi) in cond.items()}
    some = env.any(true.values())
    if kind == "xor":
        t = next(iter(got))
        ok_true = true.get(t, False)
        env.check(env.implies(some, ok_true), "true-condition-taken")
        # among several true ones a flow of probability zero is not taken
        for n in range(len(true) + 1):
            for among in itertools.combinations(true, n):
                if n != 1 and not (n == 0 and c.get("default")):
                    only = env.all([true[u] if u in among else env.no(true[u]) for u in true])
                    env.check(env.implies(only, drawn_with(env, among or prob, prob)), "probabilities-of-the-draw")
        if prob[t] == 0:
            better = env.any([true[u] for u in true if prob[u] > 0])
            env.check(env.implies(env.all([some, better]), False), "zero-probability-not-preferred")
    else:
        env.check(env.implies(some, env.all([env.iff(t in got, true.get(t, False)) for t in prob])),
                  "exactly-the-true-conditions")
    if c.get("default"):
        env.check(env.implies(env.no(some), got == {c["default"]}), "default-flow")
    else:
        env.check(env.implies(env.no(some), by_probability("")), "fallback-to-probabilities")


def js_for(c):
    rules, gw = [], {}
    for t, (p, r) in c["flows"].items():
        gw["g" + t] = p
        if r is not None:
            rules.append(dict(id="r" + t, rules=rule(*r)))
            gw["g" + t] = (p, "r" + t)
    res = {"r": ("c", 1)}
    n = len(c["flows"])
    return scen.sim_json(res, {t: {"r": c.get("dur", (0, 100))} for t in ["A"] + T[:n]}, {"c": sc.DAYLONG},
                         gateways={} if c["kind"] == "and" else {"g": gw}, branch_rules=rules, **c.get("extra", {}))


def decide(env):
    """one decision of one gateway, through the parser and the state update"""
    c = env.cfg
    env.shuffles("all")
    nodes, flows = graph(c["kind"], len(c["flows"]))
    s = scen.setup(nodes, flows, js_for(c), 2, defaults={"g": "g" + c["default"]} if c.get("default") else None)
    g = s.bpmn_graph
    hi = c.get("hi", 40)
    own = {a: env.flt("own_" + a, 0, hi) for a in c.get("own", ())}
    glob = {a: env.flt("glob_" + a, 0, hi) for a in c.get("glob", ())}
    other = {a: env.flt("other_" + a, 0, hi) for a in c.get("own", ())}
    g.all_attributes = {"global": glob, 0: own, 1: other}
    p = s.initial_state()
    at = CustomDatetimeAndSeconds(0, s.start_datetime)
    first, _ = s.update_process_state(0, "s", p, at)
    env.check([x.task_id for x in first] == ["A"], "first-task")
    en, _ = s.update_process_state(0, "A", p, at)
    ids = [x.task_id for x in en]
    env.check(len(ids) == len(set(ids)), "each-flow-once")
    env.check(set(ids) <= set(c["flows"]), "only-successors")
    spec(env, c, set(ids), {**glob, **own})
    marked = {f for f, n in p.tokens.items() if n}
    env.check(marked == {"g" + t for t in ids} and all(p.tokens[f] == 1 for f in marked), "one-token-per-flow")
    env.observe("got", sorted(ids))


def engine(env):
    """branches taken in a simulation follow the attributes in the log"""
    c = env.cfg
    env.shuffles("identity")
    nodes, flows = graph(c["kind"], len(c["flows"]))
    r = sc.simulate(env, (nodes, flows, {}), js_for(c), c["n"],
                    defaults={"g": "g" + c["default"]} if c.get("default") else None)
    for k in range(c["n"]):
        evs = [e for e in r.events if str(e.case) == str(k)]
        got = {e.act for e in evs} - {"A"}
        env.check(len(evs) == len(got) + 1, "each-activated-task-once")
        vals = {a: evs[0].attrs[a] for a in ("x", "y") if a in evs[0].attrs}
        spec(env, c, got, vals)


X, Y = ("x", 0, 10), ("y", 20, 30)
XO = ("x", 10, 25)
Z = ("z", 0, 10)      # an attribute that does not exist
PROB = [
    dict(kind=k, flows=f) for k in ("xor", "or") for f in (
        {"B": (0.25, None), "C": (0.75, None)}, {"B": (0, None), "C": (1, None)},
        {"B": (0.5, None), "C": (0.5, None), "D": (0, None)}, {"B": (0.2, None), "C": (0.3, None), "D": (0.5, None)})]
COND = [
    dict(kind=k, flows=f, own=o, glob=gl, default=d) for k in ("xor", "or") for d in (None, "C")
    for f, o, gl in (
        ({"B": (0.25, X), "C": (0.75, Y)}, ("x", "y"), ()),
        ({"B": (0.5, X), "C": (0.5, XO)}, ("x",), ()),
        ({"B": (0.5, X), "C": (0.5, XO)}, (), ("x",)),
        ({"B": (0.2, X), "C": (0.3, Y), "D": (0.5, XO)}, ("x", "y"), ("x",)),
        ({"B": (0, X), "C": (1, Y)}, ("x", "y"), ()),
        ({"B": (0, X), "C": (0, XO), "D": (1, Y)}, ("x", "y"), ()),
        ({"B": (0.5, X), "C": (0.5, Z)}, ("x",), ()),
        ({"B": (0.5, None), "C": (0, X), "D": (0.5, XO)}, ("x",), ()),
        ({"B": (0.5, X), "C": (0.2, None), "D": (0.3, XO)}, ("x",), ()),
        ({"B": (0.1, X), "C": (0.3, XO), "D": (0.6, None)}, ("x",), ()),
    )] + [dict(kind=k, flows={"B": (0.5, X), "C": (0.5, None)}, own=("x",), default="C") for k in ("xor", "or")]
CATTR = [dict(name="x", type="continuous", values=scen.dist(0, 40)), dict(name="y", type="continuous", values=scen.dist(0, 40))]
ENG = [dict(kind=k, flows={"B": (0.25, X), "C": (0.75, Y), "D": (0, XO)}, n=2, default=d, dur=(5, 5), extra=dict(case_attributes=CATTR))
       for k, d in (("xor", None), ("xor", "D"), ("or", "C"))]
HARNESSES = [
    Harness("decide", decide, PROB + COND + [dict(kind="and", flows={t: (1, None) for t in T[:n]}) for n in (2, 3)],
            "splits with 2-3 flows; attribute values arbitrary in 0..40, every outcome of the draws and of the shuffles; "
            "probabilities and rule ranges concrete per configuration"),
    Harness("engine", engine, ENG, "2 cases, one split with 3 conditioned flows, case attributes arbitrary in [0, 40]",
            [dict(ENG[0], n=3), dict(ENG[2], n=3)]),
]
