"""Token flow: the log of a simulation against an independent token game.

Gateway decisions are inputs (one recorded oracle per gateway); durations are symbolic, so every processing order that the
event queue can produce is explored; the order in which the flows of a split are followed is an input too.
"""
from props import scen
from symx.runner import Harness

ASSUMPTIONS = ["process graphs: every nesting of the stated blocks up to the stated size, plus the listed unstructured "
               "ones; gateways are either a split or a join; tasks have one incoming flow; safe nets only"]


class Oracle:
    """the decisions of one gateway, any the gateway kind permits"""

    def __init__(self, env, gid, kind, flows, loop_exit=None, rounds=2):
        self.env, self.gid, self.kind, self.flows, self.exit, self.rounds = env, gid, kind, flows, loop_exit, rounds
        self.made = []
        self.candidates_list, self.probability_list = list(flows), [1 / len(flows)] * len(flows)

    def get_outgoing_flow(self):
        if self.exit is not None and len(self.made) + 1 >= self.rounds:
            f = self.exit
        else:
            f = self.flows[self.env.choice(self.env.seq("dec_" + self.gid), len(self.flows))]
        self.made.append([f])
        return f

    def get_multiple_flows(self):
        n = 1 + self.env.choice(self.env.seq("dec_" + self.gid), (1 << len(self.flows)) - 1)
        fs = [f for i, f in enumerate(self.flows) if n >> i & 1]
        self.made.append(fs)
        return [(f, None) for f in fs]


class Token:
    def __init__(self, t):
        self.t = t


class Net:
    """reference token game"""

    def __init__(self, env, nodes, flows, oracles):
        self.env, self.nodes, self.oracles = env, nodes, oracles
        self.src = {f: a for f, a, b in flows}
        self.dst = {f: b for f, a, b in flows}
        self.inc = {n: [f for f, a, b in flows if b == n] for n in nodes}
        self.out = {n: [f for f, a, b in flows if a == n] for n in nodes}
        self.marking = {f: [] for f in self.src}
        self.used = {g: 0 for g in oracles}
        self.ended = 0
        self.problem = None

    def upstream(self, f, stop):
        """flows from which f can be reached without visiting `stop`, f excluded"""
        seen, todo = set(), [f]
        while todo:
            n = self.src[todo.pop()]
            if n == stop:
                continue
            for x in self.inc[n]:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen

    def emit(self, n, t):
        outs = self.out[n]
        kind = self.nodes[n]
        if len(outs) > 1 and kind in ("xor", "or"):
            made, k = self.oracles[n].made, self.used[n]
            if k >= len(made):
                self.problem = "gateway %s was not fired although it has a token" % n
                return
            outs = made[k]
            self.used[n] += 1
        for f in outs:
            self.marking[f].append(Token(t))

    def settle(self, now):
        """pass all tokens on until only tasks and events hold tokens"""
        while self.problem is None:
            if self.step(now):
                continue
            if not self.or_joins(now):
                return

    def step(self, now):
        for n, kind in self.nodes.items():
            inc = self.inc[n]
            if kind == "and" or (kind in ("end", "term")):
                if inc and all(self.marking[f] for f in inc):
                    t = self.env.maximum([self.marking[f].pop(0).t for f in inc])
                    if kind == "and":
                        self.emit(n, t)
                    else:
                        self.ended += 1
                    return True
            elif kind == "xor" or (kind == "or" and len(inc) == 1):
                for f in inc:
                    if self.marking[f]:
                        self.emit(n, self.marking[f].pop(0).t)
                        return True
        return False

    def or_joins(self, now):
        for n, kind in self.nodes.items():
            inc = self.inc[n]
            if kind != "or" or len(inc) < 2:
                continue
            full = [f for f in inc if self.marking[f]]
            if not full:
                continue
            up = set().union(*[self.upstream(f, n) for f in inc if f not in full]) if len(full) < len(inc) else set()
            if any(self.marking[f] for f in up):
                continue
            self.emit(n, self.env.maximum([self.marking[f].pop(0).t for f in full] + [now]))
            return True
        return False

    def start(self, t):
        for n, kind in self.nodes.items():
            if kind == "start":
                for f in self.out[n]:
                    self.marking[f].append(Token(t))
        self.settle(t)

    def waiting(self, task):
        return [tk for f in self.inc[task] for tk in self.marking[f]]

    def complete(self, task, tk, end):
        for f in self.inc[task]:
            if tk in self.marking[f]:
                self.marking[f].remove(tk)
        for f in self.out[task]:
            self.marking[f].append(Token(end))
        self.settle(end)

    def pending(self):
        return sorted(n for n, k in self.nodes.items() if k in ("task", "event") and self.waiting(n))


def play(env, nodes, flows, exits=None, n=1, hi=8, rounds=2, orders="all"):
    """simulate and replay the log on the token game"""
    tasks = [t for t, k in nodes.items() if k == "task"]
    events = [t for t, k in nodes.items() if k == "event"]
    gws = {g: {f: 0.5 for f, a, b in flows if a == g} for g, k in nodes.items()
           if k in ("xor", "or") and sum(a == g for f, a, b in flows) > 1}
    js = scen.sim_json({"r" + t: ("c", 1) for t in tasks}, {t: {"r" + t: (0, hi)} for t in tasks},
                       {"c": [("MONDAY", "SUNDAY", "00:00:00", "23:59:59")]}, gateways=gws, arrival=(0, hi),
                       **({"event_distribution": [dict(event_id=e, **scen.dist(0, hi)) for e in events]} if events else {}))
    from props import simcases as sc
    env.shuffles(orders)
    s = scen.setup(nodes, flows, js, n, events_in_log=True)
    env.dist = sc.Sampler(s)
    oracles = {g: Oracle(env, g, nodes[g], list(fl), (exits or {}).get(g), rounds) for g, fl in gws.items()}
    for g in oracles:
        s.bpmn_graph.element_probability[g] = oracles[g]
    rows, _ = scen.run_log(env, s)
    env.observe("log", [(r.case, r.act, r.enabled, r.end) for r in rows])
    return rows, oracles


def compare(env, nodes, flows, rows, oracles, n=1):
    """one case at a time (the decisions of a gateway are recorded over all cases, so n > 1 only without decisions)"""
    for case in range(n):
        net = Net(env, nodes, flows, oracles)
        mine = [r for r in rows if r.case == case]
        env.check(len(mine) > 0, "case-executed")
        net.start(mine[0].enabled)
        for i, r in enumerate(mine):
            if net.problem:
                break
            ws = net.waiting(r.act)
            env.check(len(ws) > 0, "enabled-only-by-a-token", info="%s (row %d)" % (r.act, i))
            if not ws:
                return
            tk = ws[0]
            env.check(r.enabled == tk.t, "enabled-when-the-token-arrives", info=r.act)
            net.complete(r.act, tk, r.end)
        env.check(net.problem is None, "every-token-is-passed-on", info=net.problem)
        if net.problem:
            return
        env.check(not net.pending(), "every-enabled-activity-is-executed", info=str(net.pending()))
        if n == 1:
            for g, o in oracles.items():
                env.check(net.used[g] == len(o.made), "gateway-fired-once-per-token", info=g)
        env.check(net.ended == 1, "end-reached-once")
        env.check(not any(net.marking.values()), "no-token-left", info=str([f for f in net.marking if net.marking[f]]))


# ----------------------------------------------------------------------------------------------------- graph construction
class Build:
    def __init__(self):
        self.nodes, self.flows, self.exits, self.k, self.m = {"s": "start"}, [], {}, 0, 0

    def flow(self, a, b):
        self.flows.append(("f%d" % len(self.flows), a, b))
        return self.flows[-1][0]

    def gate(self, kind):
        self.k += 1
        self.nodes["g%d" % self.k] = kind
        return "g%d" % self.k

    def block(self, b, entry):
        """append block b after node `entry`; -> its last node"""
        if b == "-":
            return entry
        if b in ("T", "E"):
            self.m += 1
            n = "%s%d" % (b, self.m)
            self.nodes[n] = "task" if b == "T" else "event"
            self.flow(entry, n)
            return n
        op, kids = b[0], b[1:]
        if op == "seq":
            for x in kids:
                entry = self.block(x, entry)
            return entry
        if op == "loop":
            j, sp = self.gate("xor"), None
            self.flow(entry, j)
            last = self.block(kids[0], j)
            sp = self.gate("xor")
            self.flow(last, sp)
            if kids[1:] and kids[1] != "-":
                last = self.block(kids[1], sp)
                self.flow(last, j)
            else:
                self.flow(sp, j)
            # the exit flow is the next one that leaves sp
            self.exits[sp] = "f%d" % len(self.flows)
            return sp
        sp, j = self.gate(op), self.gate(op)
        self.flow(entry, sp)
        for x in kids:
            self.flow(self.block(x, sp), j)
        return j

    def finish(self, last):
        self.nodes["e"] = "end"
        self.flow(last, "e")
        return self


LEAVES = ["T", "-", ("xor", "T", "-"), ("and", "T", "T"), ("or", "T", "T"), ("seq", "T", "T"), ("or", "T", "-"), "E"]


def structured(env):
    c = env.cfg
    kids = [ls[env.choice("kid%d" % i, len(ls))] for i, ls in enumerate(c["kids"])]
    if c["root"] in ("xor", "or", "and") and all(k == "-" for k in kids):
        env.assume(False)
    if c["root"] == "loop":
        env.assume(kids[0] != "-")
    b = Build()
    last = b.block("T", "s") if c.get("pre") else "s"
    last = b.block((c["root"],) + tuple(kids), last)
    last = b.block("T", last)
    b.finish(last)
    rows, oracles = play(env, b.nodes, b.flows, b.exits)
    compare(env, b.nodes, b.flows, rows, oracles)


def listed(env):
    c = env.cfg
    rows, oracles = play(env, c["nodes"], c["flows"], c.get("exits"), c.get("n", 1), c.get("hi", 8), orders=c.get("orders", "all"))
    compare(env, c["nodes"], c["flows"], rows, oracles, c.get("n", 1))


def g(nodes, *flows, **kw):
    fl = [("f%d" % i,) + tuple(f.split(">")) for i, f in enumerate(flows)]
    kinds = dict(s="start", e="end")
    kinds.update(nodes)
    return dict(kw, nodes=kinds, flows=fl)


LISTED = [
    # a branch that may leave the block before the inclusive join
    g(dict(a="and", A="task", B="task", x="xor", j="or", D="task", k="or", C="task"),
      "s>a", "a>A", "a>B", "A>j", "B>x", "x>j", "x>D", "j>k", "D>k", "k>C", "C>e"),
    # task with two outgoing flows (implicit parallel split)
    g(dict(A="task", B="task", C="task", j="and", D="task"), "s>A", "A>B", "A>C", "B>j", "C>j", "j>D", "D>e"),
    # start event with two outgoing flows
    g(dict(B="task", C="task", j="and", D="task"), "s>B", "s>C", "B>j", "C>j", "j>D", "D>e"),
    # three branches joined in two steps
    g(dict(a="and", A="task", B="task", C="task", j="and", k="and", D="task"),
      "s>a", "a>A", "a>B", "a>C", "A>j", "B>j", "j>k", "C>k", "k>D", "D>e"),
    # overlapping inclusive splits and joins
    g(dict(a="or", A="task", B="task", C="task", x="xor", j="or", k="or", D="task"),
      "s>a", "a>A", "a>B", "a>C", "A>j", "B>j", "j>k", "C>k", "k>D", "D>e"),
    # parallel branches that meet in two parallel joins (not block structured)
    g(dict(a="and", A="task", B="task", b="and", c="and", C="task", D="task", j="and", k="and", F="task"),
      "s>a", "a>A", "a>B", "A>b", "B>c", "b>C", "b>j", "c>j", "c>D", "j>F", "C>k", "F>k", "D>k", "k>e"),
    # a loop inside a parallel branch, and one inside a branch of an inclusive block
    g(dict(a="and", l="xor", A="task", x="xor", B="task", j="and", D="task"),
      "s>a", "a>l", "l>A", "A>x", "x>l", "x>j", "a>B", "B>j", "j>D", "D>e", exits={"x": "f5"}),
    g(dict(a="or", l="xor", A="task", x="xor", B="task", j="or", D="task"),
      "s>a", "a>l", "l>A", "A>x", "x>l", "x>j", "a>B", "B>j", "j>D", "D>e", exits={"x": "f5"}),
    # a loop around a parallel block that ends in an inclusive join
    g(dict(l="xor", a="and", A="task", B="task", j="or", x="xor", D="task"),
      "s>l", "l>a", "a>A", "a>B", "A>j", "B>j", "j>x", "x>l", "x>D", "D>e", exits={"x": "f8"}),
    # two cases at once
    g(dict(a="and", A="task", B="task", j="or", D="task"), "s>a", "a>A", "a>B", "A>j", "B>j", "j>D", "D>e", n=2, hi=2, orders="identity"),
    g(dict(a="and", A="task", B="task", j="and", D="task"), "s>a", "a>A", "a>B", "A>j", "B>j", "j>D", "D>e", n=2),
]
SMALL = ["T", "-", ("xor", "T", "-"), ("and", "T", "T"), ("or", "T", "T")]
TINY = ["T", "-"]
CFG = [dict(root="xor", kids=[LEAVES, TINY]), dict(root="and", kids=[LEAVES, TINY]), dict(root="or", kids=[TINY, LEAVES]),
       dict(root="loop", kids=[["T", "-", ("xor", "T", "-"), ("or", "T", "T"), ("and", "T", "T")], TINY])]
CFG_T = [dict(root=r, kids=[LEAVES, LEAVES]) for r in ("xor", "and", "or")] + \
        [dict(root=r, kids=[TINY, TINY, SMALL]) for r in ("xor", "and", "or")] + \
        [dict(root="loop", kids=[LEAVES, LEAVES], pre=True)]
CFG_T = [dict(root=r, kids=[LEAVES, TINY]) for r in ("or",)] + \
        [dict(root=r, kids=[TINY, LEAVES]) for r in ("xor", "and")] + [dict(root="loop", kids=[SMALL, TINY])] + CFG_T
HARNESSES = [
    Harness("structured", structured, CFG,
            "one block (XOR, AND, OR, loop with at most two rounds) around two blocks: one of task, nothing, XOR with a skip, "
            "AND, OR, sequence, OR with a skip, event, the other a task or nothing (thorough: any two of these, or three); all "
            "gateway decisions, all flow orders, durations 0..8", CFG_T),
    Harness("listed", listed, LISTED[:-1], "six graphs that are not block structured, loops inside parallel and inclusive blocks and around one, and two "
            "cases at once (thorough: also with a parallel join); all "
            "decisions, flow orders, durations 0..8", LISTED[-1:]),
]
