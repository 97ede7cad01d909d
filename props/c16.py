"""The configured maximum number of executions of a gateway per case."""
from props import c18, scen, simcases as sc
from symx.runner import Harness

ASSUMPTIONS = ["listed loop graphs in which no other token exists when the limit is hit"]


class Limited(c18.Net):
    """token game in which the (limit + 1)-th execution of a split ends the case"""

    def __init__(self, env, nodes, flows, oracles, limit):
        super().__init__(env, nodes, flows, oracles)
        self.limit, self.count, self.stopped = limit, {}, None

    def emit(self, n, t):
        if len(self.out[n]) > 1:
            if self.count.get(n, 0) >= self.limit:
                self.stopped = n
                return
            self.count[n] = self.count.get(n, 0) + 1
        super().emit(n, t)


def run(env, c, n):
    nodes, flows = c["nodes"], c["flows"]
    tasks = [t for t, k in nodes.items() if k == "task"]
    gws = {g: {f: 0.5 for f, a, b in flows if a == g} for g, k in nodes.items()
           if k in ("xor", "or") and sum(a == g for f, a, b in flows) > 1}
    extra = dict(gateway_execution_limit=c["limit"]) if c["limit"] else {}
    js = scen.sim_json({"r" + t: ("c", 1) for t in tasks}, {t: {"r" + t: (0, 3)} for t in tasks},
                       {"c": sc.DAYLONG}, gateways=gws, arrival=(0, 3), **extra)
    env.shuffles("identity")
    s = scen.setup(nodes, flows, js, n)
    env.dist = sc.Sampler(s)
    return s, gws


def limited(env):
    """one case against the limited token game"""
    c = env.cfg
    s, gws = run(env, c, 1)
    oracles = {g: c18.Oracle(env, g, c["nodes"][g], list(fl), None) for g, fl in gws.items()}
    for g in oracles:
        s.bpmn_graph.element_probability[g] = oracles[g]
    rows, _ = scen.run_log(env, s)
    env.observe("log", [(r.case, r.act, r.enabled, r.end) for r in rows])
    net = Limited(env, c["nodes"], c["flows"], oracles, c["limit"])
    net.start(0)
    for i, r in enumerate(rows):
        ws = net.waiting(r.act)
        env.check(len(ws) > 0 and not net.stopped, "executed-within-the-limit", info="%s (row %d)" % (r.act, i))
        if not ws:
            return
        net.complete(r.act, ws[0], r.end)
        env.check(net.problem is None, "not-restricted-below-the-limit", info=net.problem)
        if net.problem:
            return
    env.check(not net.pending(), "not-restricted-below-the-limit", info=str(net.pending()))
    for g, o in oracles.items():
        env.check(len(o.made) <= c["limit"], "at-most-the-limit", info=g)
        env.check(net.used[g] == len(o.made), "every-decision-followed", info=g)
    env.check(net.stopped is not None or net.ended == 1, "case-ends")


def per_case(env):
    """the limit counts per case: a case that hits it does not affect the others"""
    c = env.cfg
    s, gws = run(env, c, c["n"])
    rows, _ = scen.run_log(env, s)
    env.observe("log", [(r.case, r.act) for r in rows])
    for k in range(c["n"]):
        a = [r for r in rows if r.case == k and r.act == "A"]
        b = [r for r in rows if r.case == k and r.act == "B"]
        env.check(1 <= len(a) <= c["limit"] + 1, "at-most-the-limit")
        env.check(len(b) == (0 if len(a) == c["limit"] + 1 else 1), "leaves-the-loop-or-hits-the-limit")


def default(env):
    """without a configured limit, a loop may be taken as often as the decisions say (here: up to `rounds`)"""
    c = dict(env.cfg, limit=None)
    s, gws = run(env, c, 1)
    oracles = {g: c18.Oracle(env, g, c["nodes"][g], list(fl), c["exit"], c["rounds"]) for g, fl in gws.items()}
    for g in oracles:
        s.bpmn_graph.element_probability[g] = oracles[g]
    rows, _ = scen.run_log(env, s)
    made = sum(len(o.made) for o in oracles.values())
    env.check(len([r for r in rows if r.act == "A"]) == made, "one-execution-per-decision")
    env.check(len([r for r in rows if r.act == "B"]) == 1, "case-completes")
    env.observe("log", [(r.case, r.act) for r in rows])


g = c18.g
LOOP = g(dict(j="xor", A="task", x="xor", B="task"), "s>j", "j>A", "A>x", "x>j", "x>B", "B>e")
AND = g(dict(j="xor", a="and", A="task", B="task", k="and", x="xor", C="task"),
        "s>j", "j>a", "a>A", "a>B", "A>k", "B>k", "k>x", "x>j", "x>C", "C>e")
SKIP = g(dict(j="xor", p="xor", A="task", q="xor", B="task", x="xor"),
         "s>j", "j>p", "p>A", "p>q", "A>q", "q>B", "B>x", "x>j", "x>e")
NEST = g(dict(j="xor", i="xor", A="task", y="xor", B="task", x="xor"),
         "s>j", "j>i", "i>A", "A>y", "y>i", "y>B", "B>x", "x>j", "x>e")
ORS = g(dict(j="xor", o="or", A="task", B="task", k="or", x="xor", C="task"),
        "s>j", "j>o", "o>A", "o>B", "A>k", "B>k", "k>x", "x>j", "x>C", "C>e")
CFG = [dict(LOOP, limit=1), dict(LOOP, limit=2), dict(LOOP, limit=4), dict(AND, limit=1), dict(AND, limit=2),
       dict(SKIP, limit=2), dict(NEST, limit=1), dict(NEST, limit=2), dict(ORS, limit=2)]
CFG_T = [dict(LOOP, limit=8), dict(NEST, limit=4), dict(SKIP, limit=4), dict(AND, limit=3), dict(ORS, limit=3)]
HARNESSES = [
    Harness("limited", limited, CFG, "five loop graphs (with XOR, AND, OR blocks inside, nested loops), limits 1..4 "
            "(thorough 8), every sequence of decisions", CFG_T),
    Harness("per_case", per_case, [dict(LOOP, limit=1, n=2), dict(LOOP, limit=2, n=2)],
            "two cases (thorough three) in a loop, limits 1..3, all flow draws", [dict(LOOP, limit=1, n=3), dict(LOOP, limit=3, n=2)]),
    Harness("default", default, [dict(LOOP, rounds=6, exit="f4")], "no limit configured, up to 6 (thorough 40) rounds",
            [dict(LOOP, rounds=40, exit="f4")]),
]
