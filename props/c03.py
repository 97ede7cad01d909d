"""Calendar compliance: instants of work and worked time."""
from props import scen, simcases as sc
from symx.runner import Harness


def first_inside(env, ivs, x, closed=True):
    """first instant >= x inside one of the sorted intervals (closed, or open on the right)"""
    r = None
    for s, e in reversed(ivs):
        here = env.ite(x > s, x, s)
        r = here if r is None else env.ite(x <= e if closed else x < e, here, r)
    return r


def calendar_queries(env):
    """the calendar arithmetic that the engine uses, over every instant of more than a week"""
    c = env.cfg
    js = scen.sim_json({"r1": ("c", 1)}, {"A": {"r1": (0, 1)}}, {"c": c["cal"]})
    s = scen.setup(sc.ONE[0], sc.ONE[1], js, 1)
    t = env.flt("instant", c.get("lo", 0), c["hi"])
    d = env.flt("duration", 1, c["dur"])
    ivs = scen.absolute_intervals(c["cal"], s.start_datetime, c["hi"] + c["horizon"])
    wait = s.next_resting_time("r1", env.dt(s.start_datetime, t))
    begin = first_inside(env, ivs, t, False)
    env.check(t + wait == begin, "next-working-instant")
    env.observe("wait", wait)
    real = s.real_task_duration(d, "r1", env.dt(s.start_datetime, begin))
    env.check(scen.working_time(env, ivs, begin, begin + real) == d, "worked-time-is-the-duration")
    env.observe("real", real)


def engine(env):
    c = env.cfg
    r = sc.run_cfg(env, c)
    free = {}
    for e in r.events:
        ivs = scen.absolute_intervals(r.cal[r.rcal[e.res]], r.start, c["horizon"])
        low = e.enabled if e.res not in free else env.maximum([e.enabled, free[e.res]])
        env.check(e.start == first_inside(env, ivs, low), "starts-at-first-working-instant")
        env.check(scen.working_time(env, ivs, e.start, e.end) == e.duration, "worked-time-is-the-sampled-duration")
        env.check(env.implies(e.duration == 0, e.end == e.start), "zero-duration")
        free[e.res] = e.end
    env.observe("log", [(e.case, e.act, e.res, e.enabled, e.start, e.end) for e in r.events])


DAY = 86400
Q = [
    dict(cal=sc.OFFICE, hi=8 * DAY, dur=30000, horizon=6 * DAY),
    dict(cal=sc.SPLIT, hi=3 * DAY, dur=20000, horizon=5 * DAY),
    dict(cal=[("SATURDAY", "MONDAY", "22:00:00", "23:30:00")], hi=7 * DAY, dur=6000, horizon=8 * DAY),
    dict(cal=[("TUESDAY", "TUESDAY", "08:00:00", "12:00:00"), ("FRIDAY", "SATURDAY", "00:00:00", "06:00:00")],
         hi=8 * DAY, dur=40000, horizon=8 * DAY),
]
QT = [
    dict(cal=sc.OFFICE, hi=15 * DAY, dur=200000, horizon=14 * DAY),
    dict(cal=sc.SPLIT, hi=8 * DAY, dur=100000, horizon=10 * DAY),
    dict(cal=[("MONDAY", "MONDAY", "10:00:00", "11:00:00"), ("MONDAY", "MONDAY", "11:00:00", "12:00:00"),
              ("WEDNESDAY", "SUNDAY", "18:00:00", "23:59:59")], hi=8 * DAY, dur=90000, horizon=10 * DAY),
]
H = (0, 9000)
CFG = [
    dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": (0, 40000)}}, cal={"c": sc.OFFICE}, arrival=(0, 90000),
         n=2, horizon=8 * DAY),
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("d", 1)}, tasks={"A": {"r1": (0, 30000)}, "B": {"r2": (0, 30000)}},
         cal={"c": sc.SPLIT, "d": sc.LATE}, n=1, horizon=8 * DAY),
    dict(graph=sc.SEQ, res={"r1": ("c", 36)}, tasks={"A": {"r1": (0, 20000)}, "B": {"r1": (0, 20000)}},
         cal={"c": sc.LATE}, arrival=H, n=2, horizon=8 * DAY),
]
ENG_T = [
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("d", 1)}, tasks={"A": {"r1": (0, 40000), "r2": (0, 40000)},
         "B": {"r2": (0, 20000)}}, cal={"c": sc.SPLIT, "d": sc.LATE}, arrival=(0, 40000), n=2, horizon=12 * DAY),
]
HARNESSES = [
    Harness("calendar_queries", calendar_queries, Q, "every whole-second instant in [0, hi] after Monday 09:00 and every "
            "duration in [1, dur] seconds, per weekly calendar", QT),
    Harness("engine", engine, CFG, "1-2 tasks, 1-2 cases, durations/inter-arrival times arbitrary in the stated ranges",
            ENG_T),
]
