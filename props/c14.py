"""Aggregated KPIs are the exact aggregates."""
from props import scen, simcases as sc
from symx.runner import Harness
from prosimos import simulation_stats_calculator as ssc

KPIS = ["waiting_time", "processing_time", "idle_time", "cycle_time", "idle_processing_time", "idle_cycle_time"]


def agg(env, kpi, vals, what):
    env.check(kpi.count == len(vals), what + "-count")
    if vals:
        env.check(env.close(kpi.total, env.total(vals)), what + "-total")
        env.check(env.close(kpi.min, env.minimum(vals)), what + "-min")
        env.check(env.close(kpi.max, env.maximum(vals)), what + "-max")
        env.check(env.close(kpi.avg * len(vals), env.total(vals)), what + "-average")


def accumulator(env):
    env.merge_minmax(env.cfg["merge"])
    k = ssc.KPIInfo()
    vals = [env.flt("v%d" % i, 0, 10 ** 7, 8) for i in range(env.cfg["n"])]
    for i, v in enumerate(vals):
        k.add_value(v)
        agg(env, k, vals[:i + 1], "running")
    k.set_average()
    agg(env, k, vals, "final")
    env.observe("kpi", (k.min, k.max, k.avg, k.total, k.count))


def engine(env):
    """the figures returned by a simulation equal the aggregates of the activities in the event log"""
    c = env.cfg
    env.merge_minmax()
    js = scen.sim_json(c["res"], c["tasks"], c["cal"], arrival=c.get("arrival", (0, 0)), gateways=c.get("gw"), **c.get("extra", {}))
    events = c.get("events", ())
    s = scen.setup(c["graph"][0], c["graph"][1], js, c["n"], events_in_log=bool(events))
    env.dist = sc.Sampler(s, c.get("den", 1))
    log = scen.Rows()
    bpm = scen.SimBPMEnv(s, None, log)
    scen.execute_full_process(bpm)
    bpm.log_writer.force_write()
    rows = [scen.Ev(r, log.rows[0], s.start_datetime, s) for r in log.rows[1:]]
    process, tasks, resources, started, ended = bpm.log_info.compute_process_kpi(bpm)
    t0 = lambda d: (d - s.start_datetime).total_seconds()
    env.check(t0(started) == env.minimum([e.start for e in rows]), "started-at")
    env.check(t0(ended) == env.maximum([e.end for e in rows]), "ended-at")
    cal = {r["id"]: [(p["from"], p["to"], p["beginTime"], p["endTime"]) for k in js["resource_calendars"]
                     if k["id"] == r["calendar"] for p in k["time_periods"]]
           for pool in js["resource_profiles"] for r in pool["resource_list"]}
    ivs = {r: scen.absolute_intervals(p, s.start_datetime, c.get("horizon", 4 * 86400)) for r, p in cal.items()}
    by_task, by_case = {}, {}
    for e in rows:
        e.work = 0 if e.act in events else \
            scen.working_time(env, ivs[e.res], e.start, e.end) if c.get("off") else e.end - e.start
        by_task.setdefault(e.act, []).append(e)
        by_case.setdefault(e.case, []).append(e)
    env.check(set(tasks) == set(by_task), "tasks-reported")
    cost = {r: v[1] for r, v in c["res"].items()}
    for t, es in by_task.items():
        k = tasks[t]
        if t in events:         # recorded, but nobody's work: only counted
            env.check(k.cycle_time.count == len(es), "event-count")
            continue
        agg(env, k.waiting_time, [e.start - e.enabled for e in es], "task-waiting")
        agg(env, k.processing_time, [e.work for e in es], "task-processing")
        agg(env, k.idle_time, [e.end - e.start - e.work for e in es], "task-idle")
        agg(env, k.cycle_time, [e.start - e.enabled + e.work for e in es], "task-cycle")
        agg(env, k.idle_processing_time, [e.end - e.start for e in es], "task-idle-processing")
        agg(env, k.idle_cycle_time, [e.end - e.enabled for e in es], "task-idle-cycle")
        agg(env, k.cost, [e.work * cost[e.res] / 3600 for e in es], "task-cost")
    cyc = []
    for case, es in by_case.items():
        first = env.minimum([e.enabled for e in es])
        cyc.append(env.maximum([e.end for e in es]) - first)
    agg(env, process.idle_cycle_time, cyc, "process-idle-cycle")
    if not events:
        agg(env, process.idle_processing_time, [span(env, [(e.start, e.end) for e in es]) for es in by_case.values()],
            "process-idle-processing")
    agg(env, process.waiting_time, [span(env, [(e.enabled, e.start) for e in es]) for es in by_case.values()],
        "process-waiting")
    if not c.get("off"):
        agg(env, process.processing_time, [span(env, [(e.start, e.end) for e in es if e.act not in events])
                                           for es in by_case.values()], "process-processing")
    if not c.get("off") and not events:
        agg(env, process.cycle_time, cyc, "process-cycle")
    env.observe("kpi", [(t, getattr(k, n).total) for t, k in tasks.items() for n in KPIS])


def span(env, ivs):
    from props.c15 import measure
    return measure(env, ivs)


H = (0, 9000)
C = [
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 18)}, tasks={"A": {"r1": H}, "B": {"r2": H}},
         cal={"c": sc.DAYLONG}, arrival=(0, 3000), n=2),
    dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}}, cal={"c": sc.DAYLONG}, arrival=(0, 3000), n=3),
    dict(graph=sc.PAR0, res={"r1": ("c", 36), "r2": ("c", 9)}, tasks={"B": {"r1": H}, "C": {"r2": H}, "D": {"r1": H}},
         cal={"c": sc.DAYLONG}, n=1),
    dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": (0, 40000)}}, cal={"c": sc.OFFICE}, n=2, off=True,
         arrival=(0, 20000), horizon=5 * 86400),
    dict(graph=sc.XOR, res={"r1": ("c", 36)}, tasks={t: {"r1": (0, 2000)} for t in "ABCD"}, cal={"c": sc.DAYLONG},
         n=2, gw={"g1": {"f3": 0.5, "f4": 0.5}}),
]
C += [dict(C[1], n=1, den=4)]
_E = ({"s": "start", "A": "task", "E": "event", "e": "end"}, [("f1", "s", "A"), ("f2", "A", "E"), ("f3", "E", "e")],
      {"E": ["A"]})
C += [dict(graph=_E, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}}, cal={"c": sc.DAYLONG}, arrival=(0, 3000), n=2,
           events=("E",), extra=dict(event_distribution=[dict(event_id="E", **scen.dist(0, 9000))]))]
CT = [
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 18)}, tasks={"A": {"r1": H, "r2": H}, "B": {"r2": H}},
         cal={"c": sc.DAYLONG}, arrival=(0, 3000), n=3),
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 18)}, tasks={"A": {"r1": (0, 30000)}, "B": {"r2": (0, 30000)}},
         cal={"c": sc.SPLIT}, n=2, off=True, horizon=6 * 86400),
    dict(graph=sc.PAR0, res={"r1": ("c", 36)}, tasks={"B": {"r1": H}, "C": {"r1": H}, "D": {"r1": H}},
         cal={"c": sc.DAYLONG}, n=2, arrival=H),
]
HARNESSES = [
    Harness("accumulator", accumulator, [dict(n=4, merge=False), dict(n=6, merge=True)],
            "up to 6 (thorough 12) arbitrary non-negative values (eighths up to 10^7)", [dict(n=12, merge=True)]),
    Harness("engine", engine, C, "1-3 cases, 1-4 tasks, one configuration with an intermediate event, arbitrary whole-second durations and inter-arrival times in the "
            "stated ranges", CT),
]
