"""Interval algebra used by the process KPIs."""
from props import scen, simcases as sc
from symx.runner import Harness
from prosimos import simulation_stats_calculator as ssc
from prosimos.simulation_stats_calculator import LogInfo


def measure(env, ivs):
    """measure of the union of (start, end) pairs given in any order: the part of each interval that no interval
    earlier in (start, position) order covers"""
    t = 0
    for i, (s, e) in enumerate(ivs):
        reach = s
        for j, (s2, e2) in enumerate(ivs):
            if j != i:
                before = (s2 < s) if j > i else (s2 <= s)
                reach = env.ite(env.all([before, e2 > reach]), e2, reach)
        t = t + env.ite(e > reach, e - reach, 0)
    return t


def union(env):
    n = env.cfg["n"]
    base = scen.MON9
    pts = []
    for i in range(n):
        s = env.flt("start%d" % i, 0, 10 ** 6, env.cfg["den"])
        d = env.flt("length%d" % i, 0, 10 ** 6, env.cfg["den"])
        pts.append((s, s + d))
    got = ssc.sum_interval_union([ssc.Interval(env.dt(base, s), env.dt(base, e)) for s, e in pts])
    env.check(env.close(got, measure(env, pts)), "covered-time")
    env.observe("got", got)


def empty(env):
    env.check(ssc.sum_interval_union([]) == 0, "empty")
    env.check(ssc.sum_interval_union(None) == 0, "none")


class Trace:
    pass


def case_times(env):
    """the per-case figures of LogInfo.compute_execution_times"""
    c = env.cfg
    js = scen.sim_json(c["res"], {"A": {r: (0, 1) for r in c["res"]}}, c["cal"])
    s = scen.setup(sc.ONE[0], sc.ONE[1], js, 1)
    base = s.start_datetime
    log = LogInfo(s)
    tr = ssc.Trace(0, base)
    rids = list(c["res"])
    proc, wait, work = [], [], 0
    evs = []
    for i in range(c["n"]):
        en = env.flt("enabled%d" % i, 0, c["hi"])
        st = en + env.flt("waiting%d" % i, 0, c["len"])
        en_ = st + env.flt("duration%d" % i, 0, c["len"])
        ev = ssc.TaskEvent(0, "A", rids[i % len(rids)])
        ev.enabled_datetime, ev.started_datetime, ev.completed_datetime = [env.dt(base, x) for x in (en, st, en_)]
        tr.event_list.append(ev)
        tr.completed_at = ev.completed_datetime if i == 0 else max(tr.completed_at, ev.completed_datetime)
        proc.append((st, en_))
        wait.append((en, st))
        evs.append((ev, st, en_))
    horizon = c["hi"] + 2 * c["len"]
    pieces = []
    for i, (ev, st, en_) in enumerate(evs):
        cal = c["cal"][c["res"][ev.resource_id][0]]
        hours = scen.absolute_intervals(cal, base, horizon)
        env.assume(env.all([scen.inside(env, hours, st), scen.inside(env, hours, en_)]))
        for a, b in hours:
            lo, hi = env.maximum([st, a]), env.minimum([en_, b])
            pieces.append((lo, env.maximum([lo, hi])))
    kpi = ssc.KPIMap()
    log.compute_execution_times(tr, kpi)
    last = env.maximum([e for _, _, e in evs])
    env.check(env.close(kpi.idle_cycle_time.total, last), "idle-cycle-time")
    env.check(env.close(kpi.idle_processing_time.total, measure(env, proc)), "idle-processing-time")
    env.check(env.close(kpi.waiting_time.total, measure(env, wait)), "waiting-time")
    env.check(env.close(kpi.processing_time.total, measure(env, pieces)), "processing-time")
    env.check(env.close(kpi.idle_time.total, kpi.idle_processing_time.total - kpi.processing_time.total), "idle-time")
    env.check(env.close(kpi.cycle_time.total, kpi.idle_cycle_time.total - kpi.idle_time.total), "cycle-time")
    env.observe("kpi", [getattr(kpi, k).total for k in ("idle_cycle_time", "idle_processing_time", "waiting_time",
                                                        "processing_time", "idle_time", "cycle_time")])


C = [
    dict(res={"r1": ("c", 1)}, cal={"c": sc.OFFICE}, n=1, hi=30000, len=60000),
    dict(res={"r1": ("c", 1)}, cal={"c": sc.SPLIT}, n=2, hi=20000, len=8000),
    dict(res={"r1": ("c", 1), "r2": ("d", 1)}, cal={"c": sc.OFFICE, "d": sc.LATE}, n=2, hi=9000, len=15000),
]
CT = [
    dict(res={"r1": ("c", 1), "r2": ("d", 1)}, cal={"c": sc.OFFICE, "d": sc.LATE}, n=2, hi=40000, len=40000),
    dict(res={"r1": ("c", 1)}, cal={"c": sc.OFFICE}, n=3, hi=9000, len=9000),
]
HARNESSES = [
    Harness("union", union, [dict(n=1, den=1), dict(n=2, den=8), dict(n=3, den=1), dict(n=4, den=1)],
            "up to 4 (thorough 5) intervals in any order, starts and lengths 0..10^6 s (eighths of a second where marked)",
            [dict(n=5, den=1), dict(n=4, den=8)]),
    Harness("empty", empty, [{}], "empty lists"),
    Harness("case_times", case_times, C, "cases of 1-2 (thorough 3) activities, arbitrary enabling, start and end instants in the stated ranges (start and end at working instants, C03)",
            CT),
]
