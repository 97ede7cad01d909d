"""Probabilistic (fuzzy) calendars: worked time, waiting for availability, expected availability."""
import datetime

from props import scen, simcases as sc
from props.c03 import first_inside
from prosimos.fuzzy_engine.fuzzy_calendar import FuzzyModel, WeeklyFuzzyCalendar
from prosimos import simulation_stats_calculator as ssc
from prosimos.execution_info import TaskEvent, Trace
from prosimos.simulation_properties_parser import parse_fuzzy_calendar
from symx import dt
from symx.core import Infeasible
from symx.runner import Harness

ASSUMPTIONS = ["granule sizes that divide a day; whether a granule is worked is drawn when the granule is reached (draws are "
               "arbitrary where the probability is neither 0 nor 1), also again for the granule in which a task starts"]
MON0 = datetime.datetime(2024, 1, 1, tzinfo=scen.UTC)
DAYS = scen.DAYS


def calendar(c, env=None):
    """the parsed model of a configuration; periods: (from, to, begin, end, probability)"""
    def per(ps):
        return [{"from": a, "to": b, "beginTime": x, "endTime": y, "probability": p} for a, b, x, y, p in ps]
    js = {"granule_size": {"value": c["granule"], "time_unit": "MINUTES"}, "resource_calendars": [
        {"id": "c", "time_periods": per(c["avail"]), "workload_ratio": per(c.get("load", [("MONDAY", "SUNDAY", "00:00:00", "00:00:00", 0.0)]))}]}
    return js


def chance(c, periods, day, i):
    """probability of a granule, from the periods of the configuration (later periods override)"""
    g, p = c["granule"], 0.0
    for a, b, x, y, q in periods:
        days = [(DAYS.index(a) + k) % 7 for k in range((DAYS.index(b) - DAYS.index(a)) % 7 + 1)]
        lo, hi = [int(t[:2]) * 60 + int(t[3:5]) for t in (x, y)]
        if day in days and lo <= i * g and (i + 1) * g <= (hi or 1440):
            p = q
    return p


class Draws:
    """records the outcome for each granule that is asked for"""

    def __init__(self, env, model, limit):
        self.model, self.seen, self.limit = model, [], limit
        self.old = model.is_available
        model.is_available = self.ask

    def ask(self, day, i):
        if len(self.seen) >= self.limit:
            raise Infeasible()
        r = bool(self.old(day, i))
        self.seen.append((day, i, r))
        return r


def granule(env, c, t, day, i):
    """the (absolute) granule that the code looked at first; it must be the one of t"""
    g, per_day = c["granule"] * 60, 1440 // c["granule"]
    ks = [k for k in range(int(c["lo"] // g) - 1, int(c["hi"] // g) + 2) if k % per_day == i and (k // per_day) % 7 == day]
    k0 = ks[0] if ks else -1
    env.check(len(ks) == 1 and env.all([k0 * g <= t, t < (k0 + 1) * g]), "first-granule", info=str((day, i)))
    return k0


def worked(env):
    """the worked time inside [t, t + real duration] is the requested one and lies in available granules only"""
    c = env.cfg
    den = c.get("den", 1)
    model = parse_fuzzy_calendar(calendar(c))["c"]
    t = env.flt("instant", c["lo"] * den, c["hi"] * den, den)
    want = env.flt("duration", 0, c["dur"] * den, den)
    if want == 0:
        env.check(model.find_idle_time(env.dt(MON0, t), want, []) == 0, "nothing-to-do")
        return
    rec = Draws(env, model, c["limit"])
    ivs = []
    real = model.find_idle_time(env.dt(MON0, t), want, ivs)
    g = c["granule"] * 60
    # the granules in which work can happen: consecutive ones starting with the one of t
    k0 = granule(env, c, t, *rec.seen[0][:2])
    ok, end = 0, t
    left = want
    for j, (day, i, r) in enumerate(rec.seen):
        k = k0 + j
        per_day = 1440 // c["granule"]
        env.check(i == k % per_day and day == (k // per_day) % 7, "granules-in-order", info=str(rec.seen))
        p = chance(c, c["avail"], day, i)
        q = chance(c, c.get("load", []), day, i)
        if 1 in (p, q):
            env.check(r, "certain-granule-is-worked")
        if p == q == 0:
            env.check(not r, "impossible-granule-is-not-worked")
        if not r:
            continue
        lo, hi = env.maximum([t, k * g]), (k + 1) * g
        part = env.minimum([hi - lo, left])
        end = lo + part
        left = left - part
        if len(ivs) <= ok:
            env.check(part == 0, "available-granule-is-worked")
            continue
        a, b = [(x - MON0).total_seconds() for x in (ivs[ok].start, ivs[ok].end)]
        env.check(env.all([a == lo, b == end]), "worked-interval", info="granule %d" % j)
        ok += 1
    env.check(ok == len(ivs), "worked-only-in-available-granules")
    env.check(left == 0, "worked-time-is-the-duration")
    env.check(t + real == end, "ends-with-the-last-work")
    env.observe("real", real)


def waiting(env):
    """the delay to the first available granule"""
    c = env.cfg
    den = c.get("den", 1)
    model = parse_fuzzy_calendar(calendar(c))["c"]
    t = env.flt("instant", c["lo"] * den, c["hi"] * den, den)
    rec = Draws(env, model, c["limit"])
    d = model.next_available_time(env.dt(MON0, t))
    g, per_day = c["granule"] * 60, 1440 // c["granule"]
    no = [r for r in rec.seen if not r[2]]
    env.check(len(rec.seen) > 0, "asks-for-the-current-granule")
    k0 = granule(env, c, t, *rec.seen[0][:2])
    for j, (day, i, r) in enumerate(rec.seen):
        env.check(i == (k0 + j) % per_day and day == ((k0 + j) // per_day) % 7, "granules-in-order")
        env.check(r == (j >= len(no)), "stops-at-the-first")
        if not r:
            env.check(chance(c, c["avail"], day, i) < 1 and chance(c, c.get("load", []), day, i) < 1, "certain-granule-is-available")
    k = k0 + len(no)
    if not no:
        env.check(d == 0, "no-delay-when-available")
    else:
        env.check(t + d == k * g, "start-of-the-first-available-granule")
    if not rec.seen[-1][2]:
        # ended without a draw: only in a granule that is certainly available
        day, i = (k // per_day) % 7, k % per_day
        env.check(1 in (chance(c, c["avail"], day, i), chance(c, c.get("load", []), day, i)), "certain-granule")
    env.observe("d", d)


def expected(env):
    """expected availability of a period: probability of each granule times its part inside the period"""
    c = env.cfg
    den = c.get("den", 1)
    model = parse_fuzzy_calendar(calendar(c))["c"]
    a = env.flt("from", c["lo"] * den, c["hi"] * den, den)
    b = a + env.flt("span", 0, c["span"] * den, den)
    got = model.estimate_available_time(env.dt(MON0, a), env.dt(MON0, b))
    g, per_day = c["granule"] * 60, 1440 // c["granule"]
    want = []
    for k in range(c["lo"] // g, (c["hi"] + c["span"]) // g + 1):
        p = chance(c, c["avail"], (k // per_day) % 7, k % per_day)
        part = env.maximum([0, env.minimum([b, (k + 1) * g]) - env.maximum([a, k * g])])
        if p:
            want.append(part * p)
    env.check(env.close(got, env.total(want)), "expected-availability")
    env.observe("e", got)


def engine(env):
    """a simulation with fuzzy calendars whose granules are certainly worked or certainly not"""
    c = env.cfg
    env.merge_minmax()
    js = scen.sim_json(c["res"], c["tasks"], {}, arrival=c.get("arrival", (0, 0)), **c.get("extra", {}))
    js["model_type"] = "FUZZY"
    js["granule_size"] = {"value": c["granule"], "time_unit": "MINUTES"}
    js["resource_calendars"] = [dict(calendar(dict(granule=c["granule"], avail=[p + (1.0,) for p in ps]))["resource_calendars"][0],
                                     id=n) for n, ps in c["cal"].items()]
    s = scen.setup(c["graph"][0], c["graph"][1], js, c["n"], start=c.get("start", scen.MON9), events_in_log=c.get("events", False))
    env.dist = sc.Sampler(s, c.get("den", 1))
    log = scen.Rows()
    bpm = scen.SimBPMEnv(s, None, log)
    scen.execute_full_process(bpm)
    bpm.log_writer.force_write()
    rows = [scen.Ev(r, log.rows[0], s.start_datetime, s) for r in log.rows[1:]]
    resources = {}
    if c.get("kpi"):
        _, _, resources, _, _ = bpm.log_info.compute_process_kpi(bpm)
    begin, end = env.minimum([e.start for e in rows]), env.maximum([e.end for e in rows])
    free, done = {}, {}
    samples = {k: list(v) for k, v in env.dist.samples.items()}
    for e in rows:
        if e.res not in c["res"]:
            continue
        ps = [(a, b, x, "24:00:00" if y == "00:00:00" else y) for a, b, x, y in c["cal"][c["res"][e.res][0]]]
        ivs = scen.absolute_intervals(ps, s.start_datetime, c["horizon"])
        low = e.enabled if e.res not in free else env.maximum([e.enabled, free[e.res]])
        env.check(e.start == first_inside(env, ivs, low, False), "starts-at-first-available-instant")
        w = scen.working_time(env, ivs, e.start, e.end)
        env.check(w == samples[("task", e.act, e.res)].pop(0), "worked-time-is-the-sampled-duration")
        free[e.res] = e.end
        done.setdefault(e.res, []).append(w)
    env.check(not c.get("kpi") or set(resources) == set(c["res"]), "every-resource-reported")
    for r in resources:
        calid = c["res"][r][0]
        ps = [(a, b, x, "24:00:00" if y == "00:00:00" else y) for a, b, x, y in c["cal"][calid]]
        available = scen.working_time(env, scen.absolute_intervals(ps, s.start_datetime, c["horizon"]), begin, end)
        w = env.total(done.get(r, [0]))
        env.check(env.close(bpm.sim_resources[r].available_time, available), "available-time")
        u = resources[r].utilization
        env.check(env.ite(available > 0, env.close(u * available, w), u == -1), "utilization")
    env.observe("log", [(e.case, e.act, e.res, e.enabled, e.start, e.end) for e in rows])


def overlapping(env):
    """the available time of a resource that worked on overlapping activities counts every instant once"""
    c = env.cfg
    js = scen.sim_json({"r1": ("c", 36)}, {"A": {"r1": (1, 1)}}, {})
    js["model_type"] = "FUZZY"
    js["granule_size"] = {"value": c["granule"], "time_unit": "MINUTES"}
    js["resource_calendars"] = calendar(dict(granule=c["granule"], avail=[p + (1.0,) for p in c["cal"]]))["resource_calendars"]
    s = scen.setup(sc.ONE[0], sc.ONE[1], js, 1)
    s.start_datetime = scen.MON9
    bpm = scen.SimBPMEnv(s, None, None)
    s.calendars_map.update(parse_fuzzy_calendar(calendar(dict(granule=c["granule"], avail=[p + (c.get("p", 1.0),) for p in c["cal"]]))))
    ivs = scen.absolute_intervals(c["cal"], scen.MON9, 2 * DAY)
    spans = []
    for i in range(c["n"]):
        a, b = ivs[c["in"][i]]
        x = max(a, 0) + (0 if "p" in c and not i else env.flt("from%d" % i, 0, c["hi"]))
        y = x + env.flt("len%d" % i, 0, c["hi"])
        env.assume(y <= b)
        if "p" in c and spans:
            env.assume(spans[-1][0] <= x)
        spans.append((x, y))
        tr = Trace(i, scen.MON9)
        ev = TaskEvent(i, "A", "r1", enabled_at=0)
        ev.worked_intervals = [ssc.Interval(env.dt(scen.MON9, x), env.dt(scen.MON9, y))]
        tr.event_list.append(ev)
        bpm.log_info.trace_list.append(tr)
    lead, trail = (0, 600) if "p" in c else (env.flt("lead", 0, c["hi"]), env.flt("trail", 0, c["hi"]))
    begin = env.minimum([x for x, _ in spans]) - lead
    end = env.maximum([y for _, y in spans]) + trail
    bpm.log_info.started_at, bpm.log_info.ended_at = env.dt(scen.MON9, begin), env.dt(scen.MON9, end)
    ssc.compute_fuzzy_availability(bpm)
    want = scen.working_time(env, [(a, b) for a, b in scen.absolute_intervals(c["cal"], scen.MON9 - datetime.timedelta(days=1),
                                                                              4 * DAY)], begin + DAY, end + DAY)
    if "p" in c:
        # an instant of work counts fully, any other instant of working time counts with the probability of the calendar
        work, done = 0, spans[0][0]
        for x, y in spans:
            new = env.maximum([done, y])
            work, done = work + new - env.minimum([env.maximum([done, x]), new]), new
        want = work + c["p"] * (want - work)
    env.check(env.close(bpm.sim_resources["r1"].available_time, want), "every-instant-once")
    env.observe("available", bpm.sim_resources["r1"].available_time)


HOUR, DAY = 3600, 86400
OFFICE = [("MONDAY", "FRIDAY", "09:00:00", "12:00:00", 1.0), ("MONDAY", "FRIDAY", "13:00:00", "17:00:00", 1.0)]
MIX = [("MONDAY", "SUNDAY", "00:00:00", "00:00:00", 0.5)]
PART = [("MONDAY", "MONDAY", "08:00:00", "10:00:00", 0.25), ("MONDAY", "TUESDAY", "10:00:00", "12:00:00", 1.0),
        ("MONDAY", "SUNDAY", "18:00:00", "00:00:00", 0.75)]
LOAD = [("MONDAY", "SUNDAY", "12:00:00", "18:00:00", 0.5)]
W = [
    dict(granule=60, avail=OFFICE, lo=0, hi=DAY, dur=9 * HOUR, limit=60),
    dict(granule=60, avail=MIX, lo=20 * HOUR, hi=26 * HOUR, dur=3 * HOUR, limit=6),
    dict(granule=60, avail=PART, load=LOAD, lo=6 * HOUR, hi=13 * HOUR, dur=3 * HOUR, limit=8),
    dict(granule=15, avail=[("SUNDAY", "MONDAY", "23:00:00", "00:00:00", 0.5), ("SUNDAY", "MONDAY", "00:00:00", "02:00:00", 1.0)],
         lo=7 * DAY - 1200, hi=7 * DAY + 300, dur=2700, limit=8, den=4),
    dict(granule=240, avail=[("MONDAY", "FRIDAY", "08:00:00", "16:00:00", 1.0), ("SATURDAY", "SUNDAY", "08:00:00", "16:00:00", 1.0)], lo=4 * DAY, hi=7 * DAY, dur=30 * HOUR, limit=60),
    dict(granule=60, avail=[("MONDAY", "FRIDAY", "08:00:00", "10:00:00", 0.5)], load=[("MONDAY", "FRIDAY", "09:00:00", "12:00:00", 1.0)],
         lo=7 * HOUR, hi=11 * HOUR, dur=2 * HOUR, limit=36),
]
W_T = [dict(granule=60, avail=OFFICE, lo=0, hi=7 * DAY, dur=20 * HOUR, limit=130), dict(W[1], limit=10), dict(W[2], hi=22 * HOUR, limit=12)]
A = [dict(w, dur=None) for w in W]
E = [
    dict(granule=60, avail=OFFICE, lo=7 * HOUR, hi=12 * HOUR, span=8 * HOUR),
    dict(granule=60, avail=PART, lo=8 * HOUR, hi=11 * HOUR, span=3 * HOUR, den=4),
    dict(granule=240, avail=MIX, lo=6 * DAY, hi=7 * DAY, span=DAY // 2),
    dict(granule=240, avail=[("MONDAY", "MONDAY", "00:00:00", "00:00:00", 0.25), ("TUESDAY", "TUESDAY", "00:00:00", "00:00:00", 0.75)],
         lo=18 * HOUR, hi=24 * HOUR, span=DAY // 3),
]
DAYTIME = [("MONDAY", "FRIDAY", "09:00:00", "12:00:00"), ("MONDAY", "FRIDAY", "13:00:00", "17:00:00")]
NIGHT = [("SUNDAY", "TUESDAY", "20:00:00", "00:00:00"), ("MONDAY", "WEDNESDAY", "00:00:00", "04:00:00")]
DAYTIME4 = [("MONDAY", "FRIDAY", "08:00:00", "12:00:00"), ("MONDAY", "FRIDAY", "16:00:00", "20:00:00")]
ALL = [("MONDAY", "SUNDAY", "00:00:00", "00:00:00")]
EV = ({"s": "start", "A": "task", "W": "event", "B": "task", "e": "end"},
      [("f1", "s", "A"), ("f2", "A", "W"), ("f3", "W", "B"), ("f4", "B", "e")], {"B": ["A"]})
G = [
    dict(graph=sc.ONE, granule=60, res={"r1": ("c", 36)}, tasks={"A": {"r1": (0, 9000)}}, cal={"c": DAYTIME}, n=2,
         arrival=(0, 12000), horizon=2 * DAY),
    dict(graph=sc.SEQ, granule=240, res={"r1": ("c", 36), "r2": ("d", 1)}, tasks={"A": {"r1": (0, 20000)}, "B": {"r2": (0, 20000)}},
         cal={"c": ALL, "d": NIGHT}, n=1, horizon=2 * DAY, den=4),
    dict(graph=EV, granule=60, res={"r1": ("c", 36)}, tasks={"A": {"r1": (0, 9000)}, "B": {"r1": (0, 9000)}},
         cal={"c": DAYTIME}, n=1, horizon=2 * DAY, events=True,
         extra=dict(event_distribution=[dict(event_id="W", **scen.dist(0, 9000))])),
]
K = [
    dict(graph=sc.ONE, granule=60, res={"r1": ("c", 36), "r2": ("d", 1)}, tasks={"A": {"r1": (0, 20000)}}, kpi=True,
         cal={"c": DAYTIME, "d": [("MONDAY", "MONDAY", "10:00:00", "11:00:00"), ("MONDAY", "MONDAY", "15:00:00", "18:00:00")]},
         n=1, horizon=2 * DAY),
    dict(graph=EV, granule=240, res={"r1": ("c", 36)}, tasks={"A": {"r1": (0, 3000)}, "B": {"r1": (3000, 3000)}}, kpi=True,
         cal={"c": DAYTIME4}, n=1, horizon=2 * DAY, events=True,
         extra=dict(event_distribution=[dict(event_id="W", **scen.dist(0, 14000))])),
]
OV = [dict(granule=240, cal=DAYTIME4, n=2, hi=3600, **{"in": (0, 0)}),
      dict(granule=240, cal=DAYTIME4, n=3, hi=3600, p=0.5, **{"in": (0, 0, 0)})]
HARNESSES = [
    Harness("worked", worked, W, "five calendars (granules of 15, 60, 240 min; probabilities 0, 1/4, 1/2, 3/4, 1; with workload ratios), "
            "instants in ranges of up to 3 days, durations up to 30 h, up to 6-12 uncertain granules", W_T),
    Harness("waiting", waiting, A, "the same calendars and instants"),
    Harness("expected", expected, E, "three calendars, periods of up to 24 h starting in a range of up to 24 h",
            [dict(granule=60, avail=PART, lo=0, hi=DAY, span=DAY)]),
    Harness("overlapping", overlapping, OV, "three activities of one resource, each anywhere inside a working period, overlapping "
            "in every way", [dict(OV[1], cal=DAYTIME, granule=60)]),
    Harness("engine", engine, G + K, "simulations of 1-2 cases, 1-2 tasks, an intermediate event, an idle resource; granules of 60 "
            "and 240 min; durations and inter-arrival times arbitrary in the stated ranges"),
]
