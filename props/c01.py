"""Timeline of every executed activity."""
from props import scen, simcases as sc
from symx.runner import Harness

ASSUMPTIONS = ["flow objects are concrete graphs of <= 4 tasks; 1-2 cases; durations/arrivals arbitrary within bounds"]


def timeline(env):
    c = env.cfg
    js = scen.sim_json(c["res"], c["tasks"], c["cal"], arrival=c.get("arrival", (0, 0)), gateways=c.get("gw"),
                       arrival_calendar=c.get("acal"))
    r = sc.simulate(env, c["graph"], js, c["n"], shuffle=c.get("shuffle"), den=c.get("den", 4))
    env.check(len(r.events) >= 1, "some-event")
    arrivals = {}
    ends = {}
    for e in r.events:
        env.check(e.enabled >= 0, "not-before-simulation-start")
        env.check(e.enabled <= e.start, "enabled<=start")
        env.check(e.start <= e.end, "start<=end")
        ends[(e.case, e.act)] = e.end
    for e in r.events:
        preds = [p for p in r.preds.get(e.act, []) if (e.case, p) in ends]
        if preds:
            env.check(e.enabled == env.maximum([ends[(e.case, p)] for p in preds]), "enabled-at-completion-of-cause")
        else:
            arrivals.setdefault(e.case, e.enabled)
            env.check(e.enabled == arrivals[e.case], "case-start")
    for a in sorted(arrivals):
        if a and a - 1 in arrivals:
            env.check(arrivals[a] >= arrivals[a - 1], "arrival-order")
    env.observe("log", [(e.case, e.act, e.res, e.enabled, e.start, e.end) for e in r.events])


def accounting(env):
    """reported per-event figures"""
    c = env.cfg
    js = scen.sim_json(c["res"], c["tasks"], c["cal"], arrival=c.get("arrival", (0, 0)))
    s = scen.setup(c["graph"][0], c["graph"][1], js, c["n"])
    env.dist = sc.Sampler(s, c.get("den", 4))
    log_info = scen.run_traces(env, s)
    seen = {}
    for tr in log_info.trace_list:
        for ev in tr.event_list:
            t0 = lambda d: (d - s.start_datetime).total_seconds()
            env.check(env.all([t0(ev.enabled_datetime) == ev.enabled_at, t0(ev.started_datetime) == ev.started_at,
                               t0(ev.completed_datetime) == ev.completed_at]), "clock-and-calendar-time-agree")
            env.check(ev.waiting_time == ev.started_at - ev.enabled_at, "waiting")
            env.check(ev.idle_cycle_time == ev.completed_at - ev.enabled_at, "idle-cycle")
            env.check(ev.idle_processing_time == ev.completed_at - ev.started_at, "idle-processing")
            env.check(ev.processing_time + ev.idle_time == ev.idle_processing_time, "processing+idle")
            env.check(ev.cycle_time == ev.waiting_time + ev.processing_time, "cycle=waiting+processing")
            env.check(env.all([ev.waiting_time >= 0, ev.processing_time >= 0, ev.idle_time >= 0]), "non-negative")
            ivs = scen.absolute_intervals([(p["from"], p["to"], p["beginTime"], p["endTime"]) for p in
                                           js["resource_calendars"][0]["time_periods"]], s.start_datetime, 9 * 86400)
            env.check(ev.processing_time == scen.working_time(env, ivs, ev.started_at, ev.completed_at),
                      "processing-is-worked-time")
            env.check(t0(tr.completed_at) >= ev.completed_at, "case-end")
        env.check(t0(tr.completed_at) == env.maximum([ev.completed_at for ev in tr.event_list]), "case-end-exact")


H5 = (0, 20000)
CFG = [
    dict(graph=sc.SEQ, res={"r1": ("c", 36)}, tasks={"A": {"r1": H5}, "B": {"r1": H5}}, cal={"c": sc.OFFICE},
         arrival=(0, 20000), n=2),
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("d", 1)}, tasks={"A": {"r1": H5, "r2": H5}, "B": {"r2": H5}},
         cal={"c": sc.OFFICE, "d": sc.LATE}, n=1, acal=sc.OFFICE),
    dict(graph=sc.PAR, res={"r1": ("c", 36), "r2": ("c", 1)}, tasks={"A": {"r1": H5}, "B": {"r1": H5}, "C": {"r2": H5},
         "D": {"r2": H5}}, cal={"c": sc.DAYLONG}, n=1, shuffle="all"),
    dict(graph=sc.PAR0, res={"r1": ("c", 36)}, tasks={t: {"r1": (0, 9000)} for t in "BCD"}, cal={"c": sc.DAYLONG},
         arrival=(0, 9000), n=2, den=1),
    dict(graph=sc.XOR, res={"r1": ("c", 36)}, tasks={t: {"r1": (0, 5000)} for t in "ABCD"}, cal={"c": sc.DAYLONG},
         n=1, gw={"g1": {"f3": 0.5, "f4": 0.5}}),
]
THOROUGH = [
    dict(graph=sc.XOR, res={"r1": ("c", 36)}, tasks={t: {"r1": (0, 5000)} for t in "ABCD"}, cal={"c": sc.DAYLONG},
         arrival=(0, 5000), n=2, gw={"g1": {"f3": 0.5, "f4": 0.5}}),
    dict(graph=sc.SEQ, res={"r1": ("c", 36)}, tasks={"A": {"r1": (0, 40000)}, "B": {"r1": (0, 40000)}},
         cal={"c": sc.SPLIT}, arrival=(0, 40000), n=2),
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 5)}, tasks={"A": {"r1": H5, "r2": H5}, "B": {"r1": H5}},
         cal={"c": sc.DAYLONG}, arrival=(0, 5000), n=3),
    dict(graph=sc.PAR, res={"r1": ("c", 36), "r2": ("c", 1)}, tasks={"A": {"r1": H5}, "B": {"r1": H5}, "C": {"r2": H5},
         "D": {"r2": H5}}, cal={"c": sc.OFFICE}, n=1, shuffle="all"),
]
B = ("sequence / AND block / XOR block, 1-3 cases, 1-2 resources, every duration and inter-arrival time an arbitrary "
     "whole second in [0, 20000] (9000/5000 where marked; thorough 40000)")
HARNESSES = [Harness("timeline", timeline, CFG, B, THOROUGH),
             Harness("accounting", accounting, [dict(CFG[0], den=1), dict(CFG[0], cal={"c": sc.DAYLONG}), CFG[2]], B, [THOROUGH[0]])]
