"""Execution statistics and the warnings a run reports."""
import os
import re
import shutil
import tempfile

import prosimos.simulation_engine as engine
from prosimos.warning_logger import warning_logger
from props import scen, simcases as sc
from props.c07 import CATTR, X, Y, XO, graph as choice_graph, js_for
from props.c18 import Net, Oracle, g as listed
from symx.runner import Harness

ASSUMPTIONS = ["the case counts of a run are concrete per configuration; a flow that no token ever took is not named by the "
               "simulator, so only flows taken at least once are compared"]
ELEMENT = re.compile(r"^(\S+) '(.*)' \(ID: (\w+)\) is used (less|more) frequently.*?(\d+) out of (\d+) cases \(([\d.]+)%\)\.$")
FLOW = re.compile(r"^Flow (\w+) from (\S+) '(.*)' \(ID: (\w+)\) is used (less|more) frequently.*?(\d+) out of (\d+) cases "
                  r"\(([\d.]+)%\)\.$")


def usage(lines):
    """usage warnings -> ({element: (sense, uses, cases)}, {(flow, element): ...}, number of usage lines, other lines)"""
    el, fl, n, rest = {}, {}, 0, []
    for x in lines:
        m, f = ELEMENT.match(x), FLOW.match(x)
        if f:
            n += 1
            fl[(f.group(1), f.group(4))] = (f.group(5), int(f.group(6)), int(f.group(7)), f.group(8))
        elif m:
            n += 1
            el[m.group(3)] = (m.group(4), int(m.group(5)), int(m.group(6)), m.group(7))
        else:
            rest.append(x)
    return el, fl, n, rest


def expected(uses, total):
    """{key: times} -> the usage warnings that are due"""
    out = {}
    for k, n in uses.items():
        if 100 * n < total:
            out[k] = ("less", n, total, "%.2f" % (100 * n / total))
        elif n > total:
            out[k] = ("more", n, total, "%.2f" % (100 * n / total))
    return out


def judge(env, lines, el_uses, fl_uses, total):
    el, fl, n, rest = usage(lines)
    want_el, want_fl = expected(el_uses, total), expected({k: v for k, v in fl_uses.items() if v}, total)
    env.check(el == want_el, "elements-reported", info="%s instead of %s" % (el, want_el))
    env.check(fl == want_fl, "flows-reported", info="%s instead of %s" % (fl, want_fl))
    env.check(n == len(el) + len(fl), "reported-once")
    return rest


def simulated(env, s, log=True):
    """run the prepared setup through run_simulation; -> (log rows, lines of the warnings file)"""
    d = tempfile.mkdtemp(prefix="symx_")
    old, old_run = engine.SimDiffSetup, engine.run_simpy_simulation
    rows = scen.Rows()
    try:
        engine.SimDiffSetup = lambda *a, **k: s()
        out = dict(log_out_path=os.path.join(d, "log.csv"))
        with scen._RawTimes(env.symbolic), scen._NoStats():
            engine.run_simpy_simulation = lambda info, st, lg, fx=None: old_run(info, None, rows, fx)
            engine.run_simulation("unused", "unused", 1, starting_at=scen.MON9.isoformat(), **out)
        with open(os.path.join(d, "simulation_warnings.txt")) as f:
            return rows.rows, f.read().splitlines()
    finally:
        engine.SimDiffSetup, engine.run_simpy_simulation = old, old_run
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------------- thresholds
def thresholds(env):
    """any number of uses of an element and of a flow, in runs of any of the configured sizes"""
    c = env.cfg
    nodes, flows = dict(s="start", A="task", B="task", e="end"), [("f0", "s", "A"), ("f1", "A", "B"), ("f2", "B", "e")]
    js = scen.sim_json({"r": ("c", 1)}, {"A": {"r": (0, 1)}, "B": {"r": (0, 1)}}, {"c": sc.DAYLONG})
    s = scen.setup(nodes, flows, js, 1)
    gr = s.bpmn_graph
    st = gr.simulation_execution_stats
    n = env.cfg["cases"]
    uses = env.int("uses", 0, c["max"])
    extra = env.int("extra", 0, c["extra"])
    for k in range(n):
        st.update_element_execution(k, gr.element_info["s"], [("f0", None)])
    k = 0
    while k < c["max"] and uses > k:
        # `extra` uses do not take the flow
        took = k >= c["extra"] or bool(extra <= k)
        st.update_element_execution(k % n, gr.element_info["A"], [("f1", None)] if took else [])
        k += 1
    took = k - env.minimum([extra, k])
    total_flow = 0
    while total_flow < k and took > total_flow:
        total_flow += 1
    rest = judge(env, st.find_issues(), {"s": n, "A": k, "B": 0, "e": 0}, {("f0", "s"): n, ("f1", "A"): total_flow}, n)
    env.check(not rest, "nothing-else-reported", info=str(rest))


# ---------------------------------------------------------------------------------------------------------- engine runs
class Counting(Net):
    """token game that counts how often elements and flows are used"""

    def __init__(self, env, nodes, flows, oracles, el, fl):
        super().__init__(env, nodes, flows, oracles)
        self.el, self.fl = el, fl

    def emit(self, n, t):
        before = {f: len(self.marking[f]) for f in self.out[n]}
        super().emit(n, t)
        if self.problem is None:
            self.el[n] += 1
            for f in self.out[n]:
                self.fl[(f, n)] += len(self.marking[f]) - before[f]

    def step(self, now):
        before = self.ended
        r = super().step(now)
        if self.ended > before:
            for n in self.nodes:
                if self.nodes[n] == "end":
                    self.el[n] += 1
        return r

    def start(self, t):
        for n, kind in self.nodes.items():
            if kind == "start":
                self.el[n] += 1
                for f in self.out[n]:
                    self.fl[(f, n)] += 1
        super().start(t)

    def complete(self, task, tk, end):
        self.el[task] += 1
        for f in self.out[task]:
            self.fl[(f, task)] += 1
        super().complete(task, tk, end)


def runs(env):
    """the usage warnings of a run are those of an independent token game over its log; two runs in the same process"""
    c = env.cfg
    nodes, flows, n = c["nodes"], c["flows"], c["n"]
    tasks = [t for t, k in nodes.items() if k == "task"]
    events = [t for t, k in nodes.items() if k == "event"]
    gws = {x: {f: 0.5 for f, a, b in flows if a == x} for x, k in nodes.items()
           if k in ("xor", "or") and sum(a == x for f, a, b in flows) > 1}
    hi = c.get("hi", 0)

    def model(hi):
        return scen.sim_json({"r" + t: ("c", 1) for t in tasks}, {t: {"r" + t: (0, hi)} for t in tasks}, {"c": sc.DAYLONG},
                             gateways=gws, arrival=(60, 60),
                             **({"event_distribution": [dict(event_id=e, **scen.dist(0, hi)) for e in events]}
                                if events else {}))
    env.shuffles("identity")
    warning_logger.clear_warnings()
    for run in range(2):
        js = model(0 if run else hi)
        made = {}

        def prepare():
            s = scen.setup(nodes, flows, js, n, events_in_log=True)
            env.dist = sc.Sampler(s)
            for x, fl in gws.items():
                made[x] = Oracle(env, x, nodes[x], list(fl), c.get("exits", {}).get(x), c.get("rounds", 3))
                s.bpmn_graph.element_probability[x] = made[x]
            made["setup"] = s
            return s
        rows, lines = simulated(env, prepare)
        s = made.pop("setup")
        evs = [scen.Ev(r, rows[0], s.start_datetime, s) for r in rows[1:]]
        el, fl = {x: 0 for x in nodes}, {(f, a): 0 for f, a, b in flows}
        if n == 1 or not gws:
            for k in range(n):
                net = Counting(env, nodes, flows, made, el, fl)
                mine = [e for e in evs if str(e.case) == str(k)]
                env.check(len(mine) > 0, "case-executed")
                net.start(mine[0].enabled)
                for e in mine:
                    ws = net.waiting(e.act)
                    env.check(bool(ws), "token", info=e.act)
                    if not ws:
                        return
                    net.complete(e.act, ws[0], e.end)
                env.check(net.problem is None, "decisions", info=net.problem)
                if net.problem:
                    return
        else:
            # decisions are shared by the cases: count what the log and the recorded decisions determine
            count_shared(env, c, nodes, flows, evs, made, el, fl, n)
        rest = judge(env, lines, el, fl, n)
        env.check(not rest, "only-warnings-of-this-run", info=str(rest))
        env.observe("run%d" % run, sorted(lines))


def count_shared(env, c, nodes, flows, evs, made, el, fl, n):
    """sequential graphs (one token per case): uses follow from the decisions alone"""
    dst = {f: b for f, a, b in flows}
    out = {x: [f for f, a, b in flows if a == x] for x in nodes}
    for e in evs:
        el[e.act] += 1
    for x in nodes:
        if nodes[x] == "start":
            el[x] = n
    for x, o in made.items():
        el[x] = len(o.made)
        for d in o.made:
            for f in d:
                fl[(f, x)] += 1
    for _ in nodes:
        for x, k in nodes.items():
            if x not in made:
                if k in ("xor", "end"):
                    el[x] = sum(fl[(f, a)] for f, a, b in flows if b == x)
                for f in out[x]:
                    fl[(f, x)] = el[x]
    for f, a, b in flows:
        env.check(True, "counted")


# ----------------------------------------------------------------------------------------------------- gateway warnings
def conditions(env):
    """the notes about undecided conditions: one per decision in which the situation really occurred"""
    c = env.cfg
    env.shuffles("identity")
    nodes, flows = choice_graph(c["kind"], len(c["flows"]))
    made = {}

    def prepare():
        s = scen.setup(nodes, flows, js_for(c), c["n"], defaults={"g": "g" + c["default"]} if c.get("default") else None)
        env.dist = sc.Sampler(s)
        made["setup"] = s
        return s
    warning_logger.clear_warnings()
    rows, lines = simulated(env, prepare)
    s = made["setup"]
    evs = [scen.Ev(r, rows[0], s.start_datetime, s) for r in rows[1:]]
    rest = usage(lines)[3]
    none = many = 0
    for k in range(c["n"]):
        mine = [e for e in evs if str(e.case) == str(k)]
        env.check(len(mine) > 0, "case-executed")
        vals = mine[0].attrs
        true = [env.all([vals[a] >= lo, vals[a] <= hi]) for (p, r) in c["flows"].values() if r for a, lo, hi in [r]]
        cnt = sum(env.ite(t, 1, 0) for t in true)
        none = none + env.ite(cnt == 0, 1, 0)
        many = many + env.ite(cnt > 1, 1, 0)
    n_none = sum("all conditions evaluated to false" in x for x in rest)
    n_def = sum("Using default path" in x for x in rest)
    n_many = sum("more than 1 XOR gateway conditions" in x for x in rest)
    env.check(none == n_none, "reported-when-no-condition-holds", info=str(rest))
    env.check(n_def == (n_none if c.get("default") else 0), "default-named", info=str(rest))
    env.check((many if c["kind"] == "xor" else 0) == n_many, "reported-when-several-hold", info=str(rest))
    lacking = ["g" + t for t, (p, r) in c["flows"].items() if not r]
    n_lack = sum("conditions, but some are missing" in x and x.startswith("Gateway g ") and x.endswith(": " + ", ".join(lacking))
                 for x in rest)
    env.check(n_lack == (1 if lacking else 0), "missing-conditions-reported", info=str(rest))
    n_auto = sum(x.startswith("Gateway g has auto-assigned") for x in rest)
    env.check(n_auto == 0, "no-probability-was-assigned", info=str(rest))
    env.check(len(rest) == n_none + n_many + n_lack, "nothing-else-reported", info=str(rest))


def runaway(env):
    """a loop that is never left is cut after the configured number of gateway executions, in every affected case only"""
    c = env.cfg
    nodes = dict(s="start", j="xor", A="task", x="xor", B="task", e="end")
    flows = [("f0", "s", "j"), ("f1", "j", "A"), ("f2", "A", "x"), ("f3", "x", "j"), ("f4", "x", "B"), ("f5", "B", "e")]
    js = scen.sim_json({"rA": ("c", 1), "rB": ("c", 1)}, {"A": {"rA": (1, c["hi"])}, "B": {"rB": (1, 1)}}, {"c": sc.DAYLONG},
                       gateways={"x": {"f3": 0.5, "f4": 0.5}}, arrival=(0, 0), gateway_execution_limit=c["limit"])
    env.shuffles("identity")
    n, lim = c["n"], c["limit"]
    made = {}

    def prepare():
        s = scen.setup(nodes, flows, js, n)
        env.dist = sc.Sampler(s)
        made["x"] = s.bpmn_graph.element_probability["x"] = Oracle(env, "x", "xor", ["f3", "f4"], None)
        return s
    warning_logger.clear_warnings()
    rows, lines = simulated(env, prepare)
    acts = {}
    for r in rows[1:]:
        acts.setdefault(str(r[0]), []).append(r[1])
    rest = usage(lines)[3]
    cut = []
    for k in range(n):
        a = acts.get(str(k), [])
        na, nb = a.count("A"), a.count("B")
        env.check(na <= lim + 1, "cut-after-the-limit", info="%d" % na)
        env.check(nb == 1 or (nb == 0 and na == lim + 1), "only-endless-cases-are-cut", info="%s" % a)
        if nb == 0:
            cut.append(k)
    env.check(len(rest) == len(cut) and all(any(("#%d " % k) in x and "element x" in x for x in rest) for k in cut),
              "cut-cases-reported", info="%s %s" % (cut, rest))
    env.check(sum(len(o) for o in made["x"].made) == sum(min(acts[str(k)].count("A"), lim) for k in range(n)),
              "decisions-per-execution")


XORG = listed(dict(A="task", x="xor", B="task", C="task", j="xor", D="task"),
              "s>A", "A>x", "x>B", "x>C", "B>j", "C>j", "j>D", "D>e")
LOOP = listed(dict(j="xor", A="task", x="xor"), "s>j", "j>A", "A>x", "x>j", "x>e", exits={"x": "f4"})
ORG = listed(dict(a="or", A="task", B="task", j="or", D="task"), "s>a", "a>A", "a>B", "A>j", "B>j", "j>D", "D>e")
ANDG = listed(dict(a="and", A="task", E="event", j="and", D="task"), "s>a", "a>A", "a>E", "A>j", "E>j", "j>D", "D>e")
IMPL = listed(dict(A="task", B="task", C="task", j="and"), "s>A", "A>B", "A>C", "B>j", "C>j", "j>e")
RUNS = [dict(XORG, n=1), dict(LOOP, n=1), dict(ORG, n=1, hi=4), dict(ANDG, n=2, hi=4), dict(IMPL, n=1, hi=4), dict(XORG, n=2)]
RUNS_T = [dict(XORG, n=3), dict(LOOP, n=2, rounds=9), dict(ANDG, n=3, hi=8)]
CONDS = [dict(kind=k, flows={"B": (0.25, X), "C": (0.75, XO)}, n=2, default=d, dur=(5, 5), extra=dict(case_attributes=CATTR))
         for k in ("xor", "or") for d in (None, "C")] + \
        [dict(kind="xor", flows={"B": (0.25, X), "C": (0.25, None), "D": (0.5, XO)}, n=2, default="C", dur=(5, 5),
              extra=dict(case_attributes=CATTR))]
HARNESSES = [
    Harness("thresholds", thresholds, [dict(cases=n, max=m, extra=3) for n, m in ((1, 3), (50, 52), (100, 102), (101, 103))],
            "1, 50, 100 or 101 cases; an element used any number of times from never to more often than there are cases, up to "
            "3 of the uses not taking the flow (thorough: 199, 200 and 201 cases)",
            [dict(cases=n, max=n + 2, extra=3) for n in (199, 200, 201)]),
    Harness("runs", runs, RUNS, "two successive runs of six graphs with XOR, loop (at most 3 rounds), OR, AND with an event, "
            "implicit split; 1-2 cases, all decisions, all durations 0..4 s for the concurrent ones", RUNS_T),
    Harness("conditions", conditions, CONDS, "XOR and OR with two conditions over a symbolic case attribute, with and without a "
            "default flow, 2 cases"),
    Harness("runaway", runaway, [dict(limit=1, n=2, hi=3), dict(limit=3, n=1, hi=3)],
            "a loop with an execution limit of 1 or 3, all decisions, 1-2 cases, durations 1..3 s (thorough: limit 2 with 2 cases, "
            "6 with 1)", [dict(limit=2, n=2, hi=3), dict(limit=6, n=1, hi=2)]),
]
