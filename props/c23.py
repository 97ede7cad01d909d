"""Multitasking: limits of simultaneous activities and the bookkeeping of the workload."""
import datetime

from props import scen, simcases as sc
from props.c03 import first_inside
from prosimos.simulation_properties_parser import parse_multitasking_model
from symx.runner import Harness

ASSUMPTIONS = ["the probabilities of a resource are listed by increasing number of parallel tasks; a resource that becomes fully "
               "occupied takes new activities once all its current ones are completed (the behaviour of the engine)"]
MON0 = datetime.datetime(2024, 1, 1, tzinfo=scen.UTC)


def probs(ps):
    return [{"parallel_tasks": n, "probability": p} for n, p in ps]


def multitask(limits):
    return {"type": "global", "values": [{"resource_id": r, "r_workload": 0.5, "multitask_info": probs(ps)} for r, ps in limits.items()]}


def chance(ps, n):
    """probability of taking an n-th simultaneous activity; None: never"""
    later = [(m, p) for m, p in ps if m >= n]
    return later[0][1] if later else None


def struct(env):
    """every history of starts on one resource: size of the groups and the instants at which they are released"""
    c = env.cfg
    if c["type"] == "global":
        js = multitask({"r": c["probs"][0][-1]})
    else:
        js = {"type": "local", "values": [{"resource_id": "r", "r_workload": 0.5, "weekly_probability": [
            [{"from": d, "to": d, "beginTime": b, "endTime": e, "multitask_info": probs(ps)}] for d, b, e, ps in c["probs"]]}]}
    mt = parse_multitasking_model(js, {"A": {"r": None}})
    ends = []
    done = 0
    for k in range(c["n"]):
        end = env.flt("end%d" % k, c.get("lo", 0), c["hi"])
        mt.allocate_task_to("r", "A", env.dt(MON0, end))
        ends.append(end)
        done += 1
        ps = []
        for p in c["probs"]:
            if c["type"] == "global":
                ps = p[-1]
            else:
                d, b, e, q = p
                lo, hi = [scen.DAYS.index(d) * 86400 + int(x[:2]) * 3600 for x in (b, e)]
                if lo <= end and end < (hi if e != "00:00:00" else lo - int(b[:2]) * 3600 + 86400):
                    ps = q
        before = len(env.draws)
        more = mt.can_get_new_tasks("r", env.dt(MON0, end))
        p = chance(ps, len(ends) + 1)
        if p is None or p == 0:
            env.check(not more, "limit-of-simultaneous-activities", info="%d activities" % len(ends))
        elif p == 1:
            env.check(more, "certain-multitasking")
        else:
            env.check(env.iff(more, env.draws[before] <= p) if p * 1024 != int(p * 1024) else
                      env.any([env.iff(more, env.draws[before] <= p), env.iff(more, env.draws[before] < p)]), "probability")
        if not more:
            rel = mt.release_tasks_from("r", env.dt(MON0, end))
            env.check((rel - MON0).total_seconds() == env.maximum(ends), "released-at-the-last-completion")
            env.check(mt.allocated_tasks["r"] == 0, "workload-back-to-zero")
            ends = []
        else:
            env.check(mt.allocated_tasks["r"] == len(ends), "workload")
    env.check(mt.resource_workload("r", "A") == 1, "share-of-the-workload")
    env.observe("groups", done)


def engine(env):
    c = env.cfg
    r = sc.run_cfg(env, dict(c, extra=dict(c.get("extra", {}), multitask=multitask(c["limits"]))), stats=c.get("stats", False))
    n_tasks = sum(1 for k in c["graph"][0].values() if k == "task")
    env.check(len(r.events) == n_tasks * c["n"], "every-activity-executed")
    groups = {x: [] for x in c["res"]}
    avail = {x: 0 for x in c["res"]}
    for e in r.events:
        ivs = scen.absolute_intervals(r.cal[r.rcal[e.res]], r.start, c["horizon"])
        ps = c["limits"].get(e.res, [(1, 1.0)])
        limit = max(m for m, _ in ps)
        others = [f for f in r.events if f is not e and f.res == e.res]
        env.check(env.implies(e.end > e.start, 1 + env.total([env.ite(env.all([f.start <= e.start, e.start < f.end]), 1, 0) for f in others]) <= limit),
                  "limit-of-simultaneous-activities")
        env.check(scen.working_time(env, ivs, e.start, e.end) == e.duration, "worked-time-is-the-sampled-duration")
        if all(p == 1 for _, p in ps):
            # groups of `limit` activities, each starting once the activities of the previous group are completed
            env.check(e.res in c["tasks"][e.act], "resource-of-the-activity")
            for x in [x for x in c["tasks"][e.act] if all(p == 1 for _, p in c["limits"].get(x, []))]:
                env.check(env.any([avail[e.res] <= e.enabled, avail[e.res] <= avail[x]]), "occupied-while-another-is-idle")
            env.check(e.start == first_inside(env, ivs, env.maximum([e.enabled, avail[e.res]])), "start")
            g = groups[e.res]
            g.append(e.end)
            avail[e.res] = e.start
            if len(g) == limit:
                avail[e.res] = first_inside(env, ivs, env.maximum(g), False)
                groups[e.res] = []
        else:
            env.check(env.all([e.start >= e.enabled, env.any([env.all([e.start >= s, e.start <= t]) for s, t in ivs])]),
                      "starts-in-working-time")
    for row in r.stats:
        if len(row) == 8 and row[0] in c["res"]:
            env.check(row[3] == sum(1 for e in r.events if e.res == row[0]), "tasks-allocated")
    env.observe("log", [(e.case, e.act, e.res, e.enabled, e.start, e.end) for e in r.events])


D = 86400
STEP = [(1, 1.0), (2, 0.5), (3, 0.25)]
LOCAL = [("MONDAY", "08:00:00", "10:00:00", [(1, 1.0), (2, 1.0)]), ("MONDAY", "22:00:00", "00:00:00", [(1, 1.0), (3, 0.5)]),
         ("TUESDAY", "00:00:00", "06:00:00", [(1, 1.0), (3, 1.0)])]
S = [
    dict(type="global", probs=[(STEP,)], n=4, hi=9000),
    dict(type="global", probs=[([(1, 1.0)],)], n=2, hi=9000),
    dict(type="global", probs=[([(1, 1.0), (2, 1.0), (3, 1.0)],)], n=4, hi=9000),
    dict(type="global", probs=[([(1, 1.0), (4, 0.75)],)], n=5, hi=9000),
    dict(type="local", probs=LOCAL, n=3, lo=7 * 3600, hi=11 * 3600),
    dict(type="local", probs=LOCAL, n=3, lo=21 * 3600, hi=25 * 3600),
]
S_T = [dict(S[0], n=6), dict(S[4], hi=26 * 3600)]
H = (0, 5000)
ALWAYS = sc.DAYLONG
ONES = lambda n: [(k, 1.0) for k in range(1, n + 1)]
G = [
    dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}}, cal={"c": ALWAYS}, arrival=H, n=3, limits={"r1": ONES(2)},
         horizon=D),
    dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}}, cal={"c": ALWAYS}, arrival=H, n=3, limits={"r1": [(1, 1.0), (2, 0.5)]},
         horizon=D),
    dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}}, cal={"c": ALWAYS}, arrival=H, n=3, limits={"r1": ONES(1)},
         horizon=D),
    dict(graph=sc.ONE, res={"r1": ("c", 36), "r2": ("c", 36)}, tasks={"A": {"r1": H, "r2": H}}, cal={"c": ALWAYS}, arrival=H, n=3,
         limits={"r1": ONES(2)}, horizon=D),
    dict(den=1, graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 36)}, tasks={"A": {"r1": H, "r2": H}, "B": {"r1": H}}, cal={"c": ALWAYS}, n=2,
         arrival=H, limits={"r1": ONES(3), "r2": [(1, 1.0)]}, horizon=D),
    dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}}, cal={"c": sc.SPLIT}, arrival=(0, 20000), n=2,
         limits={"r1": ONES(2)}, horizon=4 * D),
    dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}}, cal={"c": sc.SPLIT}, arrival=(0, 20000), n=2,
         limits={"r1": ONES(1)}, horizon=4 * D),
    dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}}, cal={"c": ALWAYS}, n=2, limits={"r1": ONES(2)}, horizon=D, stats=True),
]
G_T = [
    dict(G[0], n=4), dict(G[1], tasks={"A": {"r1": (1, 5000)}}, n=4, arrival=(0, 0)), dict(G[5], n=3),
    dict(graph=sc.PAR0, res={"r1": ("c", 36), "r2": ("c", 36)}, tasks={"B": {"r1": H}, "C": {"r1": H, "r2": H}, "D": {"r2": H}},
         cal={"c": ALWAYS}, n=2, arrival=H, limits={"r1": STEP, "r2": ONES(2)}, horizon=D),
]
HARNESSES = [
    Harness("struct", struct, S, "histories of 2-5 starts on one resource, arbitrary completion instants (any order) and draws; global "
            "probabilities with gaps, local probabilities in granules of 60 minutes", S_T),
    Harness("engine", engine, G, "2-3 cases, 1-2 activities, 1-2 resources, arbitrary durations, inter-arrival times and draws", G_T),
]
