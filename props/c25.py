"""Samplers stay inside the support of what they are configured with."""
import pytz  # noqa: F401
from pix_framework.statistics.distribution import DurationDistribution

import prosimos.probability_distributions as pd
from props import scen, simcases as sc
from prosimos.batch_processing_parser import BatchProcessingParser
from prosimos.case_attributes import CaseAttribute
from prosimos.event_attributes import EventAttribute
from prosimos.global_attributes import GlobalAttribute
from prosimos.histogram_distribution import HistogramDistribution
from prosimos.probability_distributions import Choice
from prosimos.simulation_engine import SimBPMEnv
from prosimos.simulation_properties_parser import parse_arrival_branching_probabilities
from symx.core import Infeasible
from symx.runner import Harness

ASSUMPTIONS = ["scipy.stats samplers return arbitrary numbers; generation that rejects its first three draws is not explored "
               "further, except that the fall-back of DurationDistribution after 100 rejected draws is"]
REAL = DurationDistribution.__dict__["generate_sample"]


def histogram(env):
    """the midpoint of the bin whose cumulative range contains the draw"""
    n, den = env.cfg["n"], 64
    cdf, last = [], 0
    for i in range(n):
        last = last + env.int("p%d" % i, 0, den)
        cdf.append(last)
    env.assume(env.all([last <= den, last >= (den - env.cfg["short"])]))
    cdf = [x / den for x in cdf]
    mids = [env.flt("mid%d" % i, 0, 1000) for i in range(n)]
    h = HistogramDistribution.from_dict({"histogram_data": {"cdf": cdf, "bin_midpoints": mids}})
    v = h.generate_value()
    env.check(len(env.draws) == 1, "one-draw")
    u = env.draws[0]
    prev, ok = -1, []
    for i in range(n):
        inside = env.all([u > prev, u <= cdf[i]])
        if i == n - 1:
            inside = u > prev
        ok.append(env.all([inside, v == mids[i]]))
        prev = cdf[i]
    env.check(env.any(ok), "value-of-the-bin")
    env.observe("v", v)


def probabilities(env):
    """given probabilities are kept, missing ones share the rest, ids stay with their probability"""
    c = env.cfg
    arr = {"distribution_name": "fix", "distribution_params": [{"value": 5}]}
    gws, want = [], []
    for g in range(c["gateways"]):
        n = 1 + env.choice("n%d" % g, c["n"])
        rest, missing = 1, 0
        ps = []
        for i in range(n):
            e = {"path_id": "f%d%d" % (g, i)}
            if env.choice("given%d%d" % (g, i), 2):
                v = env.flt("v%d%d" % (g, i), 0, 16, 16)
                e["value"] = v
                rest = rest - v
            else:
                missing += 1
                v = None
            ps.append((e, v))
        env.assume(rest >= 0 if missing else rest == 0)
        gws.append({"gateway_id": "g%d" % g, "probabilities": [e for e, v in ps]})
        want.append([(e["path_id"], v, rest, missing) for e, v in ps])
    got = parse_arrival_branching_probabilities(arr, gws)
    for g in range(c["gateways"]):
        ch = got["g%d" % g]
        env.check(list(ch.candidates_list) == [w[0] for w in want[g]], "flows")
        for (f, v, rest, missing), p in zip(want[g], ch.probability_list):
            env.check(env.close(p, v) if v is not None else env.close(p * missing, rest), "probability")
        env.check(env.close(env.total(ch.probability_list), 1), "sum")
        env.observe("p", list(ch.probability_list))


def choice(env):
    """flows of probability 0 are never taken; the inclusive choice is a non-empty set of distinct flows"""
    n, den = env.cfg["n"], 8
    ps, rest = [], den
    for i in range(n - 1):
        p = env.int("p%d" % i, 0, den)
        ps.append(p)
        rest = rest - p
    env.assume(rest >= 0)
    ps = [p / den for p in ps + [rest]]
    names = ["f%d" % i for i in range(n)]
    ch = Choice(list(names), list(ps))
    one = ch.get_outgoing_flow()
    env.check(one in names and ps[names.index(one)] > 0, "one-flow")
    many = ch.get_multiple_flows()
    ids = [m[0] for m in many]
    env.check(len(ids) >= 1 and len(set(ids)) == len(ids) and all(i in names for i in ids), "flow-set")
    env.check(env.all([ps[names.index(i)] > 0 for i in ids]), "flow-set-zero")
    env.check(env.all([env.any([p < 1, f in ids]) for f, p in zip(names, ps)]), "certain-flow-taken")
    env.observe("r", (one, ids))


def discrete(env):
    """an option of a discrete attribute with probability 0 never occurs; an item is executed alone as often as sizes of 1 do"""
    n, den = 3, 8
    ps, rest = [], den
    for i in range(n - 1):
        p = env.int("p%d" % i, 0, den)
        ps.append(p)
        rest = rest - p
    env.assume(rest >= 0)
    ps = [p / den for p in ps + [rest]]
    what = env.cfg["what"]
    if what == "batch":
        conf = BatchProcessingParser([dict(task_id="A", type="Parallel", duration_distrib=[dict(key="1", value=1)],
                                           size_distrib=[dict(key=str(i + 1), value=p) for i, p in enumerate(ps)],
                                           firing_rules=[[dict(attribute="size", comparison=">=", value=2)]])]).parse()["A"]
        alone = bool(conf.is_batch_exec_alone())
        env.check(ps[0] > 0 if alone else ps[0] < 1, "alone-as-configured")
        env.observe("r", alone)
        return
    names = ["m", "z", "a"]
    spec = [dict(key=k, value=p) for k, p in zip(names, ps)]
    if what == "case":
        v = CaseAttribute("x", "discrete", spec).get_next_value()
    elif what == "global":
        v = GlobalAttribute("x", "discrete", spec).get_next_value()
    else:
        v = EventAttribute("A", "x", "discrete", spec).get_next_value({})
    env.check(v in names and ps[names.index(v)] > 0, "possible-option")
    env.observe("r", v)


class _Rvs:
    def __init__(self, env):
        self.env, self.seen, self.args = env, [], []

    def rvs(self, *a, **k):
        if len(self.seen) == 3:
            raise Infeasible()
        self.args.append((a, k))
        self.seen.append(self.env.flt("raw%d" % len(self.seen), -1000, 1000, 4))
        return [self.seen[-1]]


def truncated(env):
    """the legacy sampler: the first draw inside [min, max] and not negative"""
    k = env.cfg["args"]
    lo = env.flt("lo", -100, 100)
    hi = env.flt("hi", -100, 100)
    env.assume(env.all([lo <= hi, hi >= 0]))
    args = [env.flt("a%d" % i, 0, 9) for i in range(k)]
    stub = _Rvs(env)
    old = pd.st

    class ST:
        named = stub
    pd.st = ST
    try:
        v = pd.generate_number_from("named", args + [5, 7, lo, hi])
    finally:
        pd.st = old
    env.check(env.all([v >= 0, v >= lo, v <= hi]), "inside-limits")
    env.check(v == stub.seen[-1], "is-the-draw")
    env.check(all(list(a) == args and q["loc"] == 5 and q["scale"] == 7 for a, q in stub.args), "parameters")
    env.check(env.all([env.any([x < 0, x < lo, x > hi]) for x in stub.seen[:-1]]), "accepted-at-once")
    env.observe("v", v)


def simple(env):
    a = env.flt("a", 0, 100)
    w = env.flt("w", 0, 100)
    env.check(pd.generate_number_from("fix", [a]) == a, "fix")
    v = pd.generate_number_from("default", [a, a + w])
    env.check(env.all([v >= a, v <= a + w]), "default")
    x = pd.random_uniform(a, a + w)
    env.check(env.all([x >= a, x <= a + w]), "uniform")
    d = pd.create_default_distribution(a, a + w)
    env.check(d["distribution_name"] == "default" and list(d["distribution_params"]) == [a, a + w], "create-default")


KINDS = {"fix": lambda a, b: [(a + b) / 2], "uniform": lambda a, b: [a, b], "expon": lambda a, b: [(a + b) / 2, a, b],
         "norm": lambda a, b: [(a + b) / 2, 3, a, b], "lognorm": lambda a, b: [(a + b) / 2, 9, a, b],
         "gamma": lambda a, b: [(a + b) / 2, 9, a, b]}


class _Raw:
    """DurationDistribution with arbitrary raw draws; after `free` draws the last one repeats"""

    def __init__(self, env, free):
        self.env, self.free, self.seen = env, free, []

    def __enter__(self):
        env, me = self.env, self
        self.old = DurationDistribution.__dict__["_generate_raw_sample"]
        self.real_fix = self.old

        def raw(d, size):
            if d.type.value == "fix":
                return me.old(d, size)
            me.seen.append(env.flt("raw%d" % len(me.seen), -400, 4000, 2) if len(me.seen) < me.free else me.seen[-1])
            return [me.seen[-1]] * size
        DurationDistribution._generate_raw_sample = raw
        env.dist = lambda e, d: REAL(d, 1)[0]
        return self

    def __exit__(self, *a):
        DurationDistribution._generate_raw_sample = self.old


def js_dist(kind, a, b):
    return {"distribution_name": kind, "distribution_params": [{"value": v} for v in KINDS[kind](a, b)]}


def entities(env):
    """durations, arrivals, events and attributes: each from the distribution configured for it, inside its limits"""
    c = env.cfg
    kind = c["kind"]
    lim = dict(Ar=(10, 20), As=(30, 40), Br=(50, 60), ev=(70, 80), arr=(90, 100), ca=(110, 120), ga=(130, 140), ea=(150, 160))
    nodes = dict(s="start", A="task", i="event", B="task", e="end")
    flows = [("f1", "s", "A"), ("f2", "A", "i"), ("f3", "i", "B"), ("f4", "B", "e")]
    js = scen.sim_json({"r": ("c", 1), "q": ("c", 1)}, {"A": {"r": (0, 1), "q": (0, 1)}, "B": {"r": (0, 1)}},
                       {"c": sc.DAYLONG}, arrival=js_dist(kind, *lim["arr"]),
                       event_distribution=[dict(event_id="i", **js_dist(kind, *lim["ev"]))],
                       case_attributes=[dict(name="ca", type="continuous", values=js_dist(kind, *lim["ca"]))],
                       global_attributes=[dict(name="ga", type="continuous", values=js_dist(kind, *lim["ga"]))],
                       event_attributes=[dict(event_id="A", attributes=[
                           dict(name="ea", type="continuous", values=js_dist(kind, *lim["ea"]))])])
    for d in js["task_resource_distribution"]:
        for r in d["resources"]:
            r.update(js_dist(kind, *lim[{"r": "%sr", "q": "%ss"}[r["resource_id"]] % d["task_id"]]))
    s = scen.setup(nodes, flows, js, 1)
    g = s.bpmn_graph
    what = c["what"]
    with _Raw(env, c["free"]):
        if what == "task":
            v = s.ideal_task_duration("A", "r", 0)
            k = "Ar"
        elif what == "task2":
            v = s.ideal_task_duration("A", "q", 0)
            k = "As"
        elif what == "task3":
            v = s.ideal_task_duration("B", "r", 0)
            k = "Br"
        elif what == "event":
            [v] = g.event_duration("i")
            k = "ev"
        elif what == "arrival":
            v = s.next_arrival_time(scen.MON9)
            k = "arr"
        elif what == "case":
            v = s.all_attributes.case_attributes.get_values_calculated()["ca"]
            k = "ca"
        elif what == "global":
            v = s.all_attributes.global_attributes.get_values_calculated()["ga"]
            k = "ga"
        else:
            v = s.all_attributes.event_attributes.attributes["A"]["ea"].get_next_value({})
            k = "ea"
    env.check(env.all([v >= lim[k][0], v <= lim[k][1]]), "inside-limits", info="%s %s" % (k, v))
    env.observe("v", v)


def functions(env):
    """distribution functions inside attribute expressions: inside the given limits, never negative"""
    c = env.cfg
    with _Raw(env, c["free"]) as r:
        v = EventAttribute("A", "x", "expression", c["expr"]).get_next_value({"lo": c["lo"], "hi": c["hi"]})
    env.check(env.all([v >= 0] + ([v >= c["lo"], v <= c["hi"]] if c.get("limits", True) else [])), "inside-limits")
    env.observe("v", v)


WHAT = ["task", "task2", "task3", "event", "arrival", "case", "global", "event-attribute"]
ENT = [dict(kind=k, what=w, free=2) for k in ("uniform", "norm") for w in WHAT] + \
      [dict(kind=k, what=w, free=2) for k in ("fix", "expon", "lognorm", "gamma") for w in ("task2", "arrival", "event")]
FN = [dict(expr=e, lo=7, hi=9, free=2) for e in ("uniform(lo, hi)", "norm(8, 2, lo, hi)", "expon(8, lo, hi)",
                                                 "lognorm(8, 2, lo, hi)", "gamma(8, 2, lo, hi)", "fix(hi)")] + \
     [dict(expr=e, lo=7, hi=9, free=2, limits=False) for e in ("norm(8, 2)", "lognorm(8, 2)", "gamma(8, 2)",
                                                               "0 - 1 + norm(8, 2) + 1")][:3]
HARNESSES = [
    Harness("histogram", histogram, [dict(n=3, short=0), dict(n=1, short=0), dict(n=3, short=2)],
            "histograms of 1..3 bins (thorough 5) with any cumulative probabilities in 1/64 steps; every draw in 1/1024 steps",
            [dict(n=5, short=2)]),
    Harness("probabilities", probabilities, [dict(gateways=1, n=4), dict(gateways=2, n=2)],
            "1-2 gateways, 1..4 flows, any mix of given and missing probabilities in 1/16 steps", [dict(gateways=2, n=3)]),
    Harness("choice", choice, [dict(n=2), dict(n=3)], "2-3 flows (thorough 4), probabilities in 1/8 steps, all draws", [dict(n=4)]),
    Harness("discrete", discrete, [dict(what=w) for w in ("case", "global", "event", "batch")], "three options, probabilities in "
            "1/8 steps, all draws"),
    Harness("truncated", truncated, [dict(args=k) for k in range(8)], "0..7 shape parameters, any limits, up to 3 draws"),
    Harness("simple", simple, [dict()], "any limits, every draw"),
    Harness("entities", entities, ENT, "eight sampled quantities, 6 kinds of distribution, any two raw draws"),
    Harness("functions", functions, FN, "the distribution functions of expressions, any two raw draws"),
]
