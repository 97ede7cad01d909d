"""A resource never works on two activities at once."""
from props import scen, simcases as sc
from symx.runner import Harness


def exclusive(env):
    c = env.cfg
    r = sc.run_cfg(env, c)
    env.check(len(r.events) >= c["n"], "some-event")
    last = {}
    for e in r.events:
        if e.res in last:
            env.check(e.start >= last[e.res].end, "no-overlap")
        last[e.res] = e
        for f in r.events:
            if f is not e and f.res == e.res:
                env.check(env.any([f.start >= e.end, e.start >= f.end]), "pairwise-disjoint")
    env.observe("log", [(e.case, e.act, e.res, e.start, e.end) for e in r.events])


H = (0, 9000)
CFG = [
    # one shared resource, interleaved cases
    dict(graph=sc.SEQ, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}, "B": {"r1": H}}, cal={"c": sc.DAYLONG},
         arrival=H, n=2),
    # partially shared resources: different queues that must stay in step
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 1)}, tasks={"A": {"r1": H, "r2": H}, "B": {"r1": H}},
         cal={"c": sc.DAYLONG}, arrival=H, n=2),
    # concurrent branches of one case, one resource for both, calendar with a gap
    dict(graph=sc.PAR0, res={"r1": ("c", 36)}, tasks={t: {"r1": H} for t in "BCD"}, cal={"c": sc.SPLIT}, n=1,
         shuffle="all"),
    # two pools, calendars of different length, duration up to several working days
    dict(graph=sc.ONE, res={"r1": ("c", 36), "r2": ("d", 2)}, tasks={"A": {"r1": (0, 60000), "r2": H}},
         cal={"c": sc.OFFICE, "d": sc.LATE}, arrival=H, n=3),
    dict(graph=sc.SEQ, res={"r1": ("c", 36)}, tasks={"A": {"r1": (0, 40000)}, "B": {"r1": (0, 40000)}},
         cal={"c": sc.OFFICE}, arrival=H, n=2),
]
# fractions of seconds; resources that only become available later than the simulation starts
CFG += [
    dict(CFG[0], den=4),
    dict(graph=sc.PAR, res={"r1": ("d", 36), "r2": ("d", 1)}, tasks={"A": {"r2": H}, "B": {"r1": H}, "C": {"r1": H, "r2": H},
         "D": {"r2": H}}, cal={"d": sc.LATE}, n=1, shuffle="all", den=2),
]
THOROUGH = [
    dict(graph=sc.PAR0, res={"r1": ("c", 36), "r2": ("c", 1)}, tasks={"B": {"r1": H, "r2": H}, "C": {"r1": H},
         "D": {"r2": H}}, cal={"c": sc.DAYLONG}, arrival=H, n=2),
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 1)}, tasks={"A": {"r1": H, "r2": H}, "B": {"r1": H, "r2": H}},
         cal={"c": sc.DAYLONG}, arrival=H, n=3),
]
B = ("sequence / AND block / single task, 1-3 cases, 1-2 resources, calendars 24/7, office hours, split day, late shift; "
     "durations and inter-arrival times arbitrary whole seconds in [0, 9000] (up to 60000 where stated)")
HARNESSES = [Harness("exclusive", exclusive, CFG, B, THOROUGH)]
