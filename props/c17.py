"""Arrivals: number, order, spacing and calendar."""
from props import c28, scen, simcases as sc
from props.c03 import first_inside
from symx.runner import Harness
from prosimos.simulation_engine import SimBPMEnv, execute_full_process
from prosimos.simulation_setup import SimDiffSetup

ASSUMPTIONS = ["an instant that is exactly the end of a working interval may count as inside or outside",
               "when the requested start lies outside the arrival calendar, the first case comes one sampled inter-arrival "
               "time later (at a calendar instant), as the code documents"]


def arrivals(env):
    c = env.cfg
    graph = c.get("graph", sc.ONE)
    tasks = [t for t, k in graph[0].items() if k == "task"]
    cal = c["acal"]
    den = c.get("den", 1)
    rcal = c.get("rcal", {"c": sc.DAYLONG})
    res = {"r" + t: (c.get("of", {}).get(t, "c"), 1) for t in tasks}
    gw = {g: {f: 0.5 for f, a, b in graph[1] if a == g} for g, k in graph[0].items() if k in ("xor", "or")
          and sum(a == g for f, a, b in graph[1]) > 1}
    js = scen.sim_json(res, {t: {"r" + t: (0, 0)} for t in tasks}, rcal, gateways=gw, arrival=c["arr"],
                       arrival_calendar=cal or sc.DAYLONG)
    if cal is None:
        js.pop("arrival_time_calendar")
        cal = [p for k in sorted({v[0] for v in res.values() if v[0] in c["first"]}) for p in rcal[k]]
    base = scen.MON9
    off = env.flt("start", 0, c["smax"] * den, den) if c.get("smax") else 0
    b, j = scen.files(graph[0], graph[1], js)
    s = SimDiffSetup(b, j, False, c["n"])
    smp = env.dist = sc.Sampler(s, den)
    for t in tasks:
        for d in s.task_resource[t].values():
            smp.by_dist[id(d)] = ("zero",)
    draw = lambda e, d: 0.0 if smp.by_dist.get(id(d)) == ("zero",) else smp(e, d)
    env.dist = draw
    s.set_starting_datetime(env.dt(base, off) if c.get("smax") else base)
    pre = list(smp.samples.get(("arrival",), []))
    with scen._RawTimes(env.symbolic), scen._NoAggregates():
        bpm = SimBPMEnv(s, None, None)
        execute_full_process(bpm)
    trs = bpm.log_info.trace_list
    env.check([t.p_case for t in trs] == list(range(c["n"])), "requested-number-of-cases", info=str(len(trs)))
    at = [(t.started_at - base).total_seconds() for t in trs]
    env.observe("arrivals", at)
    ivs = scen.absolute_intervals(cal, base, c["smax"] + (c["n"] + 1) * (c["arr"][1] + 4 * 86400) if c.get("smax") else
                                  (c["n"] + 1) * (c["arr"][1] + 4 * 86400))
    for x in at:
        env.check(scen.inside(env, ivs, x), "inside-the-arrival-calendar")
    follows = lambda x, y: env.any([y == first_inside(env, ivs, x), y == first_inside(env, ivs, x, False)])
    if not pre:
        env.check(scen.inside(env, ivs, off), "start-inside-the-calendar")
        env.check(at[0] == off, "first-case-at-the-start")
    else:
        env.check(len(pre) == 1, "one-sample-for-the-start")
        env.check(env.no(env.any([env.all([off > a, off < e]) for a, e in ivs])), "start-outside-the-calendar")
        env.check(follows(off + pre[0], at[0]), "first-case-after-the-start")
    gaps = smp.samples.get(("arrival",), [])[len(pre):]
    env.check(len(gaps) >= c["n"] - 1, "one-sample-per-arrival")
    for k in range(1, c["n"]):
        env.check(at[k] >= at[k - 1], "arrivals-in-order")
        env.check(follows(at[k - 1] + gaps[k - 1], at[k]), "inter-arrival-time", info="case %d" % k)
    rows = [ev for t in trs for ev in t.event_list]
    env.check(len(rows) >= c["n"] and all(len(t.event_list) == c.get("len", 1) for t in trs), "every-case-executed")
    for t in trs:
        env.check((t.event_list[0].enabled_datetime - base).total_seconds() == at[t.p_case], "enabled-on-arrival")


WEEKEND = [("SATURDAY", "SUNDAY", "10:00:00", "14:00:00")]
HOUR = [("TUESDAY", "TUESDAY", "11:00:00", "12:00:00")]
NIGHT = [("MONDAY", "FRIDAY", "20:00:00", "23:59:59"), ("TUESDAY", "SATURDAY", "00:00:00", "04:00:00")]
EVENT1 = (dict(s="start", E="event", A="task", e="end"), [("f1", "s", "E"), ("f2", "E", "A"), ("f3", "A", "e")])
XOR1 = (dict(s="start", x="xor", A="task", B="task", y="xor", C="task", e="end"),
        [("f1", "s", "x"), ("f2", "x", "A"), ("f3", "x", "B"), ("f4", "A", "y"), ("f5", "B", "y"), ("f6", "y", "C"), ("f7", "C", "e")])
DAY = 86400
CFG = [dict(acal=sc.OFFICE, arr=(0, 3 * DAY), n=2), dict(acal=sc.SPLIT, arr=(0, 40000), n=3),
       dict(acal=sc.DAYLONG, arr=(0, 2000), n=3, den=4), dict(acal=sc.OFFICE, arr=(0, 40000), n=2, smax=7 * DAY),
       dict(acal=NIGHT, arr=(100, 30000), n=2, smax=2 * DAY), dict(acal=WEEKEND, arr=(0, 30000), n=2, smax=DAY),
       dict(acal=HOUR, arr=(0, 90000), n=2, smax=DAY), dict(acal=sc.OFFICE, arr=(0, 60000), n=2, den=4),
       dict(acal=None, first=["c"], rcal={"c": sc.OFFICE}, arr=(0, 60000), n=2),
       dict(acal=None, first=["c", "d"], rcal={"c": sc.SPLIT, "d": sc.LATE, "z": WEEKEND}, graph=XOR1,
            of={"B": "d", "C": "z"}, arr=(0, 40000), n=2, len=2)]
CFG_T = [dict(acal=sc.OFFICE, arr=(0, 14 * DAY), n=3), dict(acal=sc.SPLIT, arr=(0, 3 * DAY), n=3, smax=7 * DAY),
         dict(acal=NIGHT, arr=(0, 3 * DAY), n=3), dict(acal=sc.DAYLONG, arr=(0, 50000), n=5)]
HARNESSES = [
    Harness("arrivals", arrivals, CFG, "2-3 cases, inter-arrival times from 0 to three days (thorough 14 days), requested starts "
            "anywhere in a week; office, split, night, weekend, one-hour calendars and no arrival calendar at all", CFG_T),
]
