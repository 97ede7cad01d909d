"""The statistics report agrees with the event log it was written with, and is read back unchanged."""
import csv
import os

from props import scen, simcases as sc
from props.c14 import agg, span
from symx import core
from symx.runner import Harness
from prosimos import simulation_stats as ssm

KPIS = ["waiting_time", "processing_time", "cycle_time", "idle_time", "idle_cycle_time", "idle_processing_time", "cost"]


def sections(rows):
    """[(title, header, rows)] of the report"""
    out, cur = [], None
    for r in rows:
        if len(r) < 2:
            if r and r[0]:
                cur = [r[0], None, []]
                out.append(cur)
            continue
        if cur is None or r[0] in ("started_at", "completed_at"):
            out.append([r[0], None, [r]])
        elif cur[1] is None:
            cur[1] = r
        else:
            cur[2].append(r)
    return {t: (h, b) for t, h, b in out}


class K:
    pass


def kpi(lo, hi, avg, total, count):
    k = K()
    k.min, k.max, k.avg, k.total, k.count = lo, hi, avg, total, count
    return k


def report(env):
    c = env.cfg
    env.merge_minmax()
    js = scen.sim_json(c["res"], c["tasks"], c["cal"], arrival=c.get("arrival", (0, 0)), gateways=c.get("gw"),
                       **c.get("extra", {}))
    events = c.get("events", {})
    r = sc.simulate(env, c["graph"], js, c["n"], stats=True, den=c.get("den", 1), events_in_log=bool(events))
    s, rows, rep = r.setup, r.events, r.stats
    sec = sections(rep)
    ivs = {x: scen.absolute_intervals(c["cal"][k[0]], s.start_datetime, c["horizon"]) for x, k in c["res"].items()}
    for e in rows:
        # intermediate events are nobody's work
        e.work = 0 if e.act in events else \
            scen.working_time(env, ivs[e.res], e.start, e.end) if c.get("off") else e.end - e.start
    begin, end = env.minimum([e.start for e in rows]), env.maximum([e.end for e in rows])
    # tasks
    head, body = sec["Individual Task Statistics"]
    col = {h: i for i, h in enumerate(head)}
    env.check(sorted(b[0] for b in body) == sorted({e.act for e in rows}), "one-row-per-activity")
    for b in body:
        es = [e for e in rows if e.act == b[0]]
        if b[0] in events:
            env.check(b[col["Count"]] == len(es), "event-count")
            continue

        def k(name):
            return kpi(*[b[col[p + " " + name]] for p in ("Min", "Max", "Avg", "Total")], b[col["Count"]])
        agg(env, k("Waiting Time"), [e.start - e.enabled for e in es], "waiting")
        agg(env, k("Processing Time"), [e.work for e in es], "processing")
        agg(env, k("Cycle Time"), [e.start - e.enabled + e.work for e in es], "cycle")
        agg(env, k("Idle Time"), [e.end - e.start - e.work for e in es], "idle")
        agg(env, k("Idle Cycle Time"), [e.end - e.enabled for e in es], "idle-cycle")
        agg(env, k("Idle Processing Time"), [e.end - e.start for e in es], "idle-processing")
        agg(env, k("Cost"), [e.work * c["res"][e.res][1] / 3600 for e in es], "cost")
    # resources
    head, body = sec["Resource Utilization"]
    col = {h: i for i, h in enumerate(head)}
    env.check(sorted(b[0] for b in body) == sorted(c["res"]), "one-row-per-resource")
    for b in body:
        mine = [e for e in rows if e.res == b[0]]
        worked, avail = env.total([e.work for e in mine]), scen.working_time(env, ivs[b[0]], begin, end)
        env.check(b[col["Tasks Allocated"]] == len(mine), "tasks-allocated")
        env.check(env.close(b[col["Worked Time (seconds)"]], worked), "worked-time")
        env.check(env.close(b[col["Available Time (seconds)"]], avail), "available-time")
        u = number(b[col["Utilization Ratio"]])
        env.check(env.ite(avail > 0, env.close(u * avail, worked), u == -1), "utilization")
        env.check(b[col["Resource name"]] == b[0] and b[col["Pool ID"]] == "pool", "resource-identity")
    # whole process
    head, body = sec["Overall Scenario Statistics"]
    rowof = {b[0]: b for b in body}
    cases = {}
    for e in rows:
        cases.setdefault(e.case, []).append(e)
    cyc = [env.maximum([e.end for e in es]) - env.minimum([e.enabled for e in es]) for es in cases.values()]
    whole = {"idle_cycle_time": cyc,
             "idle_processing_time": [span(env, [(e.start, e.end) for e in es]) for es in cases.values()],
             "waiting_time": [span(env, [(e.enabled, e.start) for e in es]) for es in cases.values()]}
    if events:
        del whole["idle_processing_time"]
        whole["processing_time"] = [span(env, [(e.start, e.end) for e in es if e.act not in events]) for es in cases.values()]
    elif not c.get("off"):
        whole.update(cycle_time=cyc, processing_time=whole["idle_processing_time"], idle_time=[0 for _ in cases])
    for n, vals in whole.items():
        b = rowof[n]
        agg(env, kpi(*b[1:6]), vals, "process-" + n)
    # dates
    for what, x in (("started_at", begin), ("completed_at", end)):
        d = parse(sec[what][1][0][1])
        env.check(env.close((d - s.start_datetime).total_seconds(), x), what)
    # reading the file back
    got = load(env, rep)
    env.check(env.close((got.started_at - s.start_datetime).total_seconds(), begin, 1.1), "read-started-at")
    env.check(sorted(got.tasks_kpi_map) == sorted({e.act for e in rows}), "read-tasks")
    head, body = sec["Individual Task Statistics"]
    names = {"waiting_time": "Waiting Time", "processing_time": "Processing Time", "cycle_time": "Cycle Time",
             "idle_time": "Idle Time", "idle_cycle_time": "Idle Cycle Time", "idle_processing_time":
             "Idle Processing Time", "cost": "Cost"}
    for b in body:
        for n, title in names.items():
            k2 = getattr(got.tasks_kpi_map[b[0]], n)
            for part, v in (("Min", k2.min), ("Max", k2.max), ("Avg", k2.avg), ("Total", k2.total)):
                env.check(env.close(v, b[head.index(part + " " + title)]), "read-task-" + n)
            env.check(k2.count == b[head.index("Count")], "read-task-count")
    for n in ("cycle_time", "processing_time", "idle_cycle_time", "idle_processing_time", "waiting_time", "idle_time"):
        k2 = getattr(got.process_kpi_map, n)
        for v, w in zip((k2.min, k2.max, k2.avg, k2.total, k2.count), rowof[n][1:6]):
            env.check(env.close(v, w), "read-process-" + n)
    head, body = sec["Resource Utilization"]
    for b in body:
        env.check(env.close(got.resource_utilization[b[0]], number(b[2])), "read-utilization")
        env.check(got.resource_info[b[0]][0] == b[3], "read-allocated")
        env.check(env.close(got.resource_info[b[0]][1], b[4]), "read-worked")
        env.check(env.close(got.resource_info[b[0]][2], b[5]), "read-available")
    env.observe("rows", len(rows))


def number(v):
    from symx.patch import float_shim
    return float_shim(v) if core.CTX is not None else float(v)


def parse(s):
    import datetime
    if "@" in s:
        return scen.cell_time(s)
    return datetime.datetime.fromisoformat(s)


def load(env, rows):
    p = os.path.join(scen._dir(), "stats.csv")
    with open(p, "w", newline="") as f:
        csv.writer(f).writerows(rows)
    if not env.symbolic:
        return ssm.load_diff_simulation_results(p)
    old = ssm.parse_date
    ssm.parse_date = parse
    try:
        return ssm.load_diff_simulation_results(p)
    finally:
        ssm.parse_date = old


H = (0, 9000)
D = 86400
C = [
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 18)}, tasks={"A": {"r1": H}, "B": {"r2": H}},
         cal={"c": sc.DAYLONG}, arrival=(0, 3000), n=2, horizon=2 * D),
    dict(graph=sc.PAR0, res={"r1": ("c", 36), "r2": ("c", 9)}, tasks={"B": {"r1": H}, "C": {"r2": H}, "D": {"r1": H}},
         cal={"c": sc.DAYLONG}, n=1, horizon=2 * D),
    dict(graph=sc.ONE, res={"r1": ("c", 36), "r2": ("d", 7)}, tasks={"A": {"r1": (0, 20000)}}, n=1, off=True,
         cal={"c": sc.OFFICE, "d": sc.LATE}, horizon=5 * D),
]
C += [dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}}, cal={"c": sc.DAYLONG}, arrival=(0, 3000), n=1,
           horizon=2 * D, den=4)]
_E = ({"s": "start", "A": "task", "E": "event", "e": "end"}, [("f1", "s", "A"), ("f2", "A", "E"), ("f3", "E", "e")],
      {"E": ["A"]})
_F = ({"s": "start", "A": "task", "E": "event", "B": "task", "g": "and", "j": "and", "e": "end"},
      [("f1", "s", "g"), ("f2", "g", "A"), ("f3", "g", "E"), ("f4", "A", "j"), ("f5", "E", "j"), ("f6", "j", "B"), ("f7", "B", "e")],
      {"B": ["A", "E"]})
EV = {"E": (0, 9000)}
C += [dict(graph=g, res={"r1": ("c", 36)}, tasks={t: {"r1": H} for t in ts}, cal={"c": sc.DAYLONG}, arrival=(0, 3000), n=n,
           horizon=2 * D, events=EV, extra=dict(event_distribution=[dict(event_id="E", **scen.dist(0, 9000))]))
      for g, ts, n in ((_E, "A", 2), (_F, "AB", 1))]
CT = [
    dict(graph=sc.XOR, res={"r1": ("c", 36)}, tasks={t: {"r1": (0, 2000)} for t in "ABCD"}, cal={"c": sc.DAYLONG},
         n=2, gw={"g1": {"f3": 0.5, "f4": 0.5}}, horizon=2 * D),
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 18)}, tasks={"A": {"r1": (0, 30000)}, "B": {"r2": (0, 30000)}},
         cal={"c": sc.SPLIT}, n=2, off=True, horizon=6 * D),
]
HARNESSES = [Harness("report", report, C, "1-2 cases, 1-4 tasks (two configurations with an intermediate event), arbitrary whole-second durations and "
                     "inter-arrival times in the stated ranges", CT)]
