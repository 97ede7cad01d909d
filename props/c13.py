"""Case, event and global attributes."""
import ast

from props import scen, simcases as sc
from symx.runner import Harness
from prosimos import case_attributes as ca, event_attributes as ea, global_attributes as ga
from prosimos.exceptions import (InvalidCaseAttributeException, InvalidEventAttributeException,
                                 InvalidGlobalAttributeException)


def make(kind, typ, values):
    if kind == "case":
        return ca.CaseAttribute("a", typ, values)
    if kind == "global":
        return ga.GlobalAttribute("a", typ, values)
    return ea.EventAttribute("A", "a", typ, values)


def discrete(env):
    """accepted iff the probabilities sum to 1 up to 1e-6; a drawn option has a positive probability"""
    c = env.cfg
    den = 2 ** 22
    ps = [env.flt("p%d" % i, 0, den + 8, den) for i in range(c["n"])]
    vals = [{"key": "o%d" % i, "value": p} for i, p in enumerate(ps)]
    tot = env.total(ps)
    ok = env.all([tot >= 1 - 1e-6, tot <= 1 + 1e-6])
    try:
        a = make(c["kind"], "discrete", vals)
    except (InvalidCaseAttributeException, InvalidEventAttributeException, InvalidGlobalAttributeException):
        env.check(env.no(ok), "valid-probabilities-rejected")
        return
    env.check(ok, "invalid-probabilities-accepted")
    v = a.get_next_value({}) if c["kind"] == "event" else a.get_next_value()
    env.check(any(v == "o%d" % i for i in range(c["n"])), "an-option")
    for i, p in enumerate(ps):
        if v == "o%d" % i:
            env.check(p > 0, "positive-probability")
    env.observe("v", v)


def markov(env):
    """Markov-chain attribute: next state is a successor with positive probability; unknown states stay"""
    tr = {"x": {"x": 0.5, "y": 0.5, "z": 0}, "y": {"z": 1.0}, "z": {"z": 0.25, "x": 0.75}}
    a = make("event", "discrete", tr)
    cur = ["x", "y", "z", "other", None][env.choice("state", 5)]
    seen = {} if cur is None else {"a": cur}
    for i in range(3):
        nxt = a.get_next_value(dict(seen))
        if cur in tr:
            env.check(tr[cur].get(nxt, 0) > 0, "markov-step")
        else:
            env.check(nxt == cur, "no-transition")
        cur = nxt
        seen["a"] = nxt
    env.observe("v", cur)


def continuous(env):
    c = env.cfg
    a = make(c["kind"], "continuous", scen.dist(3, 500))
    v = a.get_next_value({}) if c["kind"] == "event" else a.get_next_value()
    env.check(env.all([v >= 3, v <= 500]), "inside-the-distribution")


def expression(env):
    """expressions have the meaning Python gives them; a division by zero yields 0"""
    c = env.cfg
    vs = {"x": env.flt("x", -1000, 1000, c.get("den", 1)), "y": env.flt("y", -1000, 1000, c.get("den", 1))}
    if "z" in c["e"]:
        vs["z"] = env.flt("z", -1000, 1000, 1)
    got = make("event", "expression", c["e"]).get_next_value(dict(vs))
    want = c["w"](env, **vs)
    if isinstance(want, (bool,)) or type(want).__name__ == "SymBool":
        env.check(env.iff(truth(env, got), want), "expression-condition")
    else:
        env.check(env.close(got, want), "expression-value")
    env.observe("v", got)


def truth(env, v):
    if type(v).__name__ == "SymBool" or isinstance(v, bool):
        return v
    return v != 0


def dtree(env):
    """the first row whose conditions all hold decides"""
    x, y = env.flt("x", -1000, 1000), env.flt("y", -1000, 1000)
    rows = [[["x > 10", "y <= 3"], "x + y"], [["x > 10"], "x - y"], [["0 <= x <= 5", "y == 7"], "100"],
            [["y < x < 10"], "2 * x"]]
    if env.cfg["default"]:
        rows.append([True, "y + 1"])
    got = make("event", "dtree", rows).get_next_value({"x": x, "y": y})
    want = env.ite(env.all([x > 10, y <= 3]), x + y, env.ite(
        x > 10, x - y, env.ite(env.all([x >= 0, x <= 5, y == 7]), 100,
                               env.ite(env.all([y < x, x < 10]), 2 * x, y + 1 if env.cfg["default"] else 0))))
    env.check(env.close(got, want), "decision-table")
    env.observe("v", got)


EXPR = [
    dict(e="x + 2 * y", w=lambda env, x, y: x + 2 * y),
    dict(e="(x - y) * 3 - x", w=lambda env, x, y: (x - y) * 3 - x),
    dict(e="-x + y", w=lambda env, x, y: y - x),
    dict(e="x / 4", w=lambda env, x, y: x / 4),
    dict(e="x < y", w=lambda env, x, y: x < y),
    dict(e="x <= y", w=lambda env, x, y: x <= y),
    dict(e="x > 3", w=lambda env, x, y: x > 3),
    dict(e="x >= 3", w=lambda env, x, y: x >= 3),
    dict(e="x == y", w=lambda env, x, y: x == y),
    dict(e="x != y", w=lambda env, x, y: x != y),
    dict(e="0 < x < 10", w=lambda env, x, y: env.all([x > 0, x < 10])),
    dict(e="x <= y < z", w=lambda env, x, y, z: env.all([x <= y, y < z])),
    dict(e="x > 1 and y > 1", w=lambda env, x, y: env.all([x > 1, y > 1])),
    dict(e="x > 1 or y > 1", w=lambda env, x, y: env.any([x > 1, y > 1])),
    dict(e="not x > 1", w=lambda env, x, y: x <= 1),
    dict(e="x > 1 and (y > 1 or x == 5)", w=lambda env, x, y: env.all([x > 1, env.any([y > 1, x == 5])])),
    dict(e="x / 0", w=lambda env, x, y: 0),
    dict(e="unknown + x", w=lambda env, x, y: 0),
    dict(e="x // 7", w=lambda env, x, y: x // 7),
    dict(e="x % 7", w=lambda env, x, y: x % 7),
]


def engine(env):
    """attribute columns of the log, row by row"""
    c = env.cfg
    r = sc.run_cfg(env, c)
    rows = r.events
    caseattr, glob = c["case"], c["glob"]
    state = {}
    g = None
    started = set()
    for e in rows:
        at = e.attrs
        new = e.case not in started
        started.add(e.case)
        st = state.setdefault(e.case, {})
        for n, (lo, hi) in caseattr.items():
            v = at[n]
            if n in glob:
                continue
            env.check(env.all([v >= lo, v <= hi]), "case-attribute-range")
            if n in st:
                env.check(v == st[n], "case-attribute-constant")
            st[n] = v
        if g is None:
            g = {n: at[n] for n in glob if n not in c["upd"].get(e.act, {})}
            for n, v in g.items():
                env.check(env.all([v >= glob[n][0], v <= glob[n][1]]), "global-range")
            for n in glob:
                if n not in g:
                    g[n] = c["init"][n]
        elif new:
            for n in glob:
                if n in caseattr and n not in c["upd"].get(e.act, {}):
                    env.check(env.all([at[n] >= caseattr[n][0], at[n] <= caseattr[n][1]]), "redrawn-at-case-start")
                    g[n] = at[n]
        before = dict(g)
        before.update(st)
        for n, f in c["upd"].get(e.act, {}).items():
            (g if n in glob else st)[n] = f(before)
        for n in c["columns"]:
            want = g[n] if n in glob else st.get(n, "")
            if isinstance(want, str) or isinstance(at[n], str):
                env.check(isinstance(want, str) and isinstance(at[n], str) and at[n] == want, "attribute-column")
            else:
                env.check(env.close(at[n], want), "attribute-column")
    env.check(len(rows) == c["rows"], "all-activities")
    env.observe("log", [(e.case, e.act, e.attrs) for e in rows])


def attr(name, lo, hi):
    return dict(name=name, type="continuous", values=scen.dist(lo, hi))


def ev(task, **kv):
    return dict(event_id=task, attributes=[dict(name=n, type="expression", values=v) for n, v in kv.items()])


def cfg(graph, tasks, case=None, glob=None, evs=(), upd=None, init=None, n=2, rows=None, extra=None, cols=None, rids=("r1", "r2")):
    case, glob = case or {}, glob or {}
    x = dict(extra or {})
    x["case_attributes"] = [attr(k, *v) for k, v in case.items()]
    x["global_attributes"] = [attr(k, *v) for k, v in glob.items()]
    x["event_attributes"] = list(evs)
    upd = upd or {}
    cols = sorted(set(case) | set(glob) | {k for u in upd.values() for k in u})
    return dict(graph=graph, res={r: ("c", 1) for r in rids}, cal={"c": sc.DAYLONG}, n=n, arrival=(0, 3000),
                tasks=tasks, extra=x, case=case, glob=glob, upd=upd, init=init or {}, columns=cols, rows=rows or n * len(tasks))


TT = {"A": {"r1": (0, 3000)}, "B": {"r2": (0, 3000)}}
BATCH = dict(batch_processing=[dict(task_id="B", type="Parallel", size_distrib=[{"key": "1", "value": 0},
             {"key": "2", "value": 1}], duration_distrib=[],
             firing_rules=[[{"attribute": "size", "comparison": "=", "value": 2}]])])
ENG = [
    cfg(sc.SEQ, TT, case={"amount": (0, 900)}, evs=[ev("A", w="amount * 2"), ev("B", w="w + amount", v="w - 1")],
        upd={"A": {"w": lambda s: s["amount"] * 2}, "B": {"w": lambda s: s["w"] + s["amount"], "v": lambda s: s["w"] - 1}}),
    cfg(sc.SEQ, TT, case={"amount": (0, 900)}, glob={"stock": (50, 60)}, evs=[ev("A", n="stock + amount")],
        upd={"A": {"n": lambda s: s["stock"] + s["amount"]}}),
    cfg(sc.SEQ, TT, glob={"stock": (50, 50)}, init={"stock": 50}, evs=[ev("A", stock="stock - 1"), ev("B", m="stock * 2")],
        upd={"A": {"stock": lambda s: s["stock"] - 1}, "B": {"m": lambda s: s["stock"] * 2}}),
    cfg(sc.SEQ, TT, case={"level": (3, 9)}, glob={"level": (3, 9)}, evs=[ev("B", m="level + 1")],
        upd={"B": {"m": lambda s: s["level"] + 1}}),
    cfg(sc.SEQ, TT, case={"amount": (0, 900)}, evs=[ev("B", w="amount * 2")], extra=BATCH,
        upd={"B": {"w": lambda s: s["amount"] * 2}}),
    # one activity changes two attributes of all cases and two of its case
    cfg(sc.SEQ, TT, glob={"stock": (50, 50), "cash": (0, 0)}, init={"stock": 50, "cash": 0},
        evs=[ev("A", stock="stock - 1", cash="cash + 2", m="stock", k="cash"), ev("B", cash="cash - 1")],
        upd={"A": {"stock": lambda s: s["stock"] - 1, "cash": lambda s: s["cash"] + 2, "m": lambda s: s["stock"],
                   "k": lambda s: s["cash"]}, "B": {"cash": lambda s: s["cash"] - 1}}),
]
ENG_T = [
    cfg(sc.PAR0, {"B": {"r1": (0, 3000)}, "C": {"r2": (0, 3000)}, "D": {"r1": (0, 3000)}}, case={"amount": (0, 900)},
        glob={"stock": (50, 50)}, init={"stock": 50}, evs=[ev("B", stock="stock - 1"), ev("C", w="amount + stock"),
                                                          ev("D", w="w * 2")],
        upd={"B": {"stock": lambda s: s["stock"] - 1}, "C": {"w": lambda s: s["amount"] + s["stock"]},
             "D": {"w": lambda s: s["w"] * 2}}),
    cfg(sc.SEQ, TT, n=3, glob={"stock": (50, 50)}, init={"stock": 50},
        evs=[ev("A", stock="stock - 1"), ev("B", stock="stock * 2")],
        upd={"A": {"stock": lambda s: s["stock"] - 1}, "B": {"stock": lambda s: s["stock"] * 2}}),
]
KINDS = ("case", "event", "global")
HARNESSES = [
    Harness("discrete", discrete, [dict(kind=k, n=n) for k in KINDS for n in (1, 2, 3)],
            "1-3 options, every probability a multiple of 2^-22 in [0, 1]", [dict(kind=k, n=5) for k in KINDS]),
    Harness("markov", markov, [{}], "3 steps of a 3-state chain from every state"),
    Harness("continuous", continuous, [dict(kind=k) for k in KINDS], "every draw"),
    Harness("expression", expression, EXPR, "x, y, z any whole number in [-1000, 1000]; the listed expressions"),
    Harness("dtree", dtree, [dict(default=d) for d in (True, False)], "x, y whole numbers in [-1000, 1000]"),
    Harness("engine", engine, ENG, "2 (thorough 3) cases, every draw, every whole-second duration/arrival in [0, 3000]",
            ENG_T),
]
