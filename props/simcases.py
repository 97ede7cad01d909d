"""Scenario shapes shared by the engine-level properties, and the bookkeeping of sampled durations."""
from props import scen

OFFICE = [("MONDAY", "FRIDAY", "09:00:00", "17:00:00")]
SPLIT = [("MONDAY", "FRIDAY", "09:00:00", "12:00:00"), ("MONDAY", "FRIDAY", "13:00:00", "17:00:00")]
DAYLONG = [("MONDAY", "SUNDAY", "00:00:00", "23:59:59")]
LATE = [("MONDAY", "FRIDAY", "13:00:00", "20:00:00")]

SEQ = ({"s": "start", "A": "task", "B": "task", "e": "end"},
       [("f1", "s", "A"), ("f2", "A", "B"), ("f3", "B", "e")], {"B": ["A"]})
ONE = ({"s": "start", "A": "task", "e": "end"}, [("f1", "s", "A"), ("f2", "A", "e")], {})
PAR = ({"s": "start", "A": "task", "g1": "and", "B": "task", "C": "task", "g2": "and", "D": "task", "e": "end"},
       [("f1", "s", "A"), ("f2", "A", "g1"), ("f3", "g1", "B"), ("f4", "g1", "C"), ("f5", "B", "g2"),
        ("f6", "C", "g2"), ("f7", "g2", "D"), ("f8", "D", "e")], {"B": ["A"], "C": ["A"], "D": ["B", "C"]})
PAR0 = ({"s": "start", "g1": "and", "B": "task", "C": "task", "g2": "and", "D": "task", "e": "end"},
        [("f1", "s", "g1"), ("f3", "g1", "B"), ("f4", "g1", "C"), ("f5", "B", "g2"),
         ("f6", "C", "g2"), ("f7", "g2", "D"), ("f8", "D", "e")], {"D": ["B", "C"]})
XOR = ({"s": "start", "A": "task", "g1": "xor", "B": "task", "C": "task", "g2": "xor", "D": "task", "e": "end"},
       [("f1", "s", "A"), ("f2", "A", "g1"), ("f3", "g1", "B"), ("f4", "g1", "C"), ("f5", "B", "g2"),
        ("f6", "C", "g2"), ("f7", "g2", "D"), ("f8", "D", "e")], {"B": ["A"], "C": ["A"], "D": ["B", "C"]})


class Sampler:
    """env.dist hook: every sample is a symbolic value inside the distribution's support; remembers who asked."""

    def __init__(self, setup, den=1):
        self.den = den
        self.by_dist = {}
        for t, rs in setup.task_resource.items():
            for r, d in rs.items():
                self.by_dist[id(d)] = ("task", t, r)
        for e, d in (setup.event_distibution or {}).items():
            self.by_dist[id(d)] = ("event", e)
        self.by_dist[id(setup.element_probability["arrivalTime"])] = ("arrival",)
        self.samples = {}

    def __call__(self, env, d):
        who = self.by_dist.get(id(d), ("other",))
        lo, hi = int(d.min or 0), int(d.max if d.max is not None else 3600)
        v = env.flt(env.seq("_".join(who)), lo * self.den, hi * self.den, self.den)
        self.samples.setdefault(who, []).append(v)
        return v


class Run:
    pass


def simulate(env, graph, js, n_cases, start=scen.MON9, fixed=None, defaults=None, events_in_log=False, shuffle=None,
             den=1, stats=False):
    """-> Run with .events (log order), .setup, .samples, .preds"""
    if shuffle:
        env.shuffles(shuffle)
    r = Run()
    r.preds = graph[2]
    r.graph, r.js, r.n = graph, js, n_cases
    r.setup = scen.setup(graph[0], graph[1], js, n_cases, start, defaults, events_in_log)
    r.sampler = env.dist = Sampler(r.setup, den)
    r.start = r.setup.start_datetime
    r.events, r.stats = scen.run_log(env, r.setup, fixed, stats)
    r.cal = {c["id"]: [(p["from"], p["to"], p["beginTime"], p["endTime"]) for p in c["time_periods"]]
             for c in js["resource_calendars"]}
    r.rcal = {x["id"]: x["calendar"] for p in js["resource_profiles"] for x in p["resource_list"]}
    seen = {}
    for e in r.events:
        k = ("task", e.act, e.res)
        i = seen.get(k, 0)
        seen[k] = i + 1
        e.duration = r.sampler.samples.get(k, [])[i] if len(r.sampler.samples.get(k, [])) > i else None
    return r


def run_cfg(env, c, **kw):
    js = scen.sim_json(c["res"], c["tasks"], c["cal"], arrival=c.get("arrival", (0, 0)), gateways=c.get("gw"),
                       arrival_calendar=c.get("acal"), **c.get("extra", {}))
    return simulate(env, c["graph"], js, c["n"], shuffle=c.get("shuffle"), **dict(dict(den=c.get("den", 4)), **kw))
