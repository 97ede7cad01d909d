"""Allocation: eligible, earliest available, consistent across tasks that share resources."""
from props import scen, simcases as sc
from props.c03 import first_inside
from symx.runner import Harness
from prosimos.simulation_queues_ds import DiffResourceQueue

RS = ["r1", "r2", "r3"]
SUBSETS = [["r1"], ["r2"], ["r3"], ["r1", "r2"], ["r2", "r1"], ["r1", "r3"], ["r2", "r3"], ["r1", "r2", "r3"]]


def queues(env):
    c = env.cfg
    tasks = {"T%d" % i: {r: None for r in SUBSETS[env.choice("set%d" % i, len(SUBSETS))]} for i in range(c["tasks"])}
    avail = {r: env.flt("a_" + r, 0, 36, 4) for r in RS}
    q = DiffResourceQueue(tasks, dict(avail))
    names = sorted(tasks)

    def consistent(t, r, p, how):
        env.check(r in tasks[t], how + "-eligible")
        if r in tasks[t]:
            env.check(p == avail[r], how + "-availability-is-current")
            env.check(env.all([avail[r] <= avail[x] for x in tasks[t]]), how + "-earliest")

    for k in range(c["steps"]):
        t = names[env.choice("task%d" % k, len(names))]
        r, p = q.pop_resource_for(t)
        consistent(t, r, p, "pop")
        avail[r] = env.flt("rel%d" % k, 0, 48, 4)
        q.update_resource_availability(r, avail[r])
        for u in names:
            r, p = q.peek_resource_for(u)
            consistent(u, r, p, "peek")
    if c.get("drain"):
        for u in names[:1]:
            got = []
            for _ in tasks[u]:
                r, p = q.pop_resource_for(u)
                env.check(r in tasks[u] and r not in got, "drain-each-once")
                env.check(p == avail[r], "drain-availability")
                got.append(r)
            env.check(q.pop_resource_for(u) == (None, None), "drained")


def engine(env):
    c = env.cfg
    r = sc.run_cfg(env, c)
    free = {}
    for x in c["res"]:
        ivs = scen.absolute_intervals(r.cal[r.rcal[x]], r.start, 8 * 86400)
        free[x] = first_inside(env, ivs, 0)
    env.check(len(r.events) >= c["n"], "some-event")
    for e in r.events:
        env.check(e.res in c["tasks"][e.act], "eligible")
        env.check(env.all([free[e.res] <= free[x] for x in c["tasks"][e.act]]), "earliest-available")
        free[e.res] = e.end
    env.observe("log", [(e.case, e.act, e.res, e.start, e.end) for e in r.events])


H = (0, 9000)
CFG = [
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 1)}, tasks={"A": {"r1": H, "r2": H}, "B": {"r2": H, "r1": H}},
         cal={"c": sc.DAYLONG}, n=2),
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("d", 1), "r3": ("c", 3)},
         tasks={"A": {"r1": H, "r2": H}, "B": {"r2": H, "r3": H}}, cal={"c": sc.DAYLONG, "d": sc.LATE}, n=2),
    dict(graph=sc.PAR0, res={"r1": ("c", 36), "r2": ("c", 1)}, tasks={"B": {"r1": H, "r2": H}, "C": {"r1": H},
         "D": {"r2": H, "r1": H}}, cal={"c": sc.SPLIT}, n=1, shuffle="all"),
    dict(graph=sc.ONE, res={"r1": ("c", 36), "r2": ("c", 2), "r3": ("d", 2)}, tasks={"A": {"r1": H, "r2": H, "r3": H}},
         cal={"c": sc.OFFICE, "d": sc.LATE}, arrival=(0, 1000), n=3),
]
THOROUGH = [
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 1)}, tasks={"A": {"r1": H, "r2": H}, "B": {"r2": H}},
         cal={"c": sc.DAYLONG}, arrival=(0, 4000), n=3),
]
HARNESSES = [
    Harness("queues", queues, [dict(tasks=2, steps=2, drain=True)], "2 tasks (thorough 3) with every assignment out of 8 "
            "resource sets over 3 resources, 2 (3) allocate/release steps, availability times arbitrary in 0..12",
            [dict(tasks=3, steps=1), dict(tasks=2, steps=3)]),
    Harness("engine", engine, CFG, "1-3 tasks, 1-3 cases, 2-3 resources; durations and inter-arrivals arbitrary in "
            "[0, 9000]", THOROUGH),
]
