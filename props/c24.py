"""Weekdays, calendar periods, granules and the simulation clock convert consistently."""
import datetime

from props import scen, simcases as sc
from symx.runner import Harness
from prosimos.fuzzy_engine.fuzzy_calendar import WeeklyFuzzyCalendar
from prosimos.simulation_engine import SimBPMEnv
from prosimos.simulation_properties_parser import (convert_to_fuzzy_time_periods, int_week_days, parse_arrival_calendar,
                                                   parse_resource_calendars)
from prosimos.weekday_helper import get_nearest_abs_day, get_nearest_past_day
from pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar import str_week_days

ASSUMPTIONS = ["weekday() and timedelta arithmetic of datetime are trusted (modelled exactly)"]
DAYS = scen.DAYS


def nearest(env):
    """the next / the most recent given weekday, same time of day"""
    c = env.cfg
    d = env.choice("day", 7)
    t = env.dt(c["base"], env.flt("secs", 0, c["span"] * c["den"], c["den"]))
    nxt, past = get_nearest_abs_day(DAYS[d], t), get_nearest_past_day(DAYS[d], t)
    for x, label in ((nxt, "next"), (past, "past")):
        env.check(x.weekday() == d, label + "-weekday")
    up, down = (nxt - t).total_seconds(), (t - past).total_seconds()
    env.check(env.any([up == k * 86400 for k in range(1, 8)]), "next-is-1-to-7-days-later")
    env.check(env.any([down == k * 86400 for k in range(7)]), "past-is-0-to-6-days-earlier")
    env.observe("d", (nxt, past))


def names(env):
    d = env.choice("day", 7)
    env.check(str_week_days[DAYS[d]] == d and int_week_days[DAYS[d]] == d, "weekday-index")
    env.check(datetime.date(2024, 1, 1 + d).weekday() == int_week_days[DAYS[d]], "calendar-weekday")


def clock(env):
    """simulation seconds and instants are inverse to each other"""
    c = env.cfg
    js = scen.sim_json({"r": ("c", 1)}, {"A": {"r": (0, 1)}}, {"c": sc.DAYLONG})
    s = scen.setup(sc.ONE[0], sc.ONE[1], js, 1, start=c["start"])
    bpm = SimBPMEnv(s, None, None)
    x = env.flt("x", 0, c["hi"] * c["den"], c["den"])
    d = bpm.simulation_datetime_from(x)
    env.check((d - s.start_datetime).total_seconds() == x, "clock")
    env.check(bpm.simulation_at_from_datetime(d) == x, "clock-inverse")
    env.check(bpm._datetime_from(None) is None, "none")
    env.observe("d", d)


def periods(env):
    """a calendar read from JSON works exactly in the periods written there, also over the end of the week"""
    c = env.cfg
    a, b = env.choice("from", 7), env.choice("to", 7)
    t0, t1 = c["times"][env.choice("time", len(c["times"]))]
    ps = [(DAYS[a], DAYS[b], t0, t1)] + c.get("more", [])
    js = [{"from": f, "to": t, "beginTime": x, "endTime": y} for f, t, x, y in ps]
    if c.get("arrival"):
        cal = parse_arrival_calendar({"arrival_time_calendar": js})
    else:
        cal = parse_resource_calendars([{"id": "c", "name": "c", "time_periods": js}])["c"]
    x = env.flt("secs", 0, 7 * 86400 - 1)
    got = cal.is_working_datetime(env.dt(scen.MON9.replace(hour=0), x))[0]
    ivs = scen.week_intervals(ps)
    env.check(env.iff(got, scen.inside(env, ivs, x)), "inside")
    env.observe("got", bool(got))


def granule(env):
    """granule index and offsets of an instant"""
    size = env.cfg["size"]
    cal = WeeklyFuzzyCalendar(size)
    x = env.flt("secs", 0, 86399)
    t = env.dt(scen.MON9.replace(hour=0), x)
    i = cal.interval_index(t)
    env.check(env.all([i * size * 60 <= x, x < (i + 1) * size * 60, i >= 0, i < 1440 // size]), "granule-contains-instant")
    env.check(i * size * 60 + cal.duration_from_interval_start(t) == x, "offset-from-start")
    env.check(x + cal.duration_to_interval_end(t) == (i + 1) * size * 60, "offset-to-end")
    env.observe("i", i)


def granules_of_period(env):
    """a probabilistic period covers exactly the granules between its bounds, on each of its days"""
    size = env.cfg["size"]
    n = 1440 // size
    a, b = env.choice("from", 7), env.choice("to", 7)
    i0 = env.choice("begin", env.cfg["cut"]) * n // env.cfg["cut"]
    i1 = env.choice("end", env.cfg["cut"] + 1) * n // env.cfg["cut"]
    env.assume(i0 < i1)
    text = lambda i: "%02d:%02d:00" % (i * size // 60 % 24, i * size % 60)
    got = convert_to_fuzzy_time_periods({"from": DAYS[a], "to": DAYS[b], "beginTime": text(i0), "endTime": text(i1),
                                         "probability": 0.5})
    want = [a + k for k in range((b - a) % 7 + 1)]
    env.check([int_week_days[p["weekDay"]] for p in got] == [w % 7 for w in want], "days", info=str(got))
    env.check(all(p["beginTime"] == text(i0) and p["endTime"] == text(i1) and p["probability"] == 0.5 for p in got), "copied")
    cal = WeeklyFuzzyCalendar(size)
    base = datetime.datetime(2024, 1, 1)
    for p in got:
        cal.add_weekday_intervals(int_week_days[p["weekDay"]], base + datetime.timedelta(minutes=i0 * size),
                                  base + datetime.timedelta(minutes=i1 * size), p["probability"])
    for d in range(7):
        on = d in [w % 7 for w in want]
        env.check(cal.probability_intervals[d] == [0.5 if on and i0 <= k < i1 else 0.0 for k in range(n)], "granules",
                  info="day %d" % d)


TIMES = [("00:00:00", "23:59:59"), ("09:00:00", "17:00:00"), ("22:30:00", "23:30:00"), ("00:00:00", "00:00:30")]
HARNESSES = [
    Harness("nearest", nearest, [dict(base=scen.MON9, span=14 * 86400, den=1),
                                 dict(base=datetime.datetime(2024, 2, 26, 0, 0, tzinfo=scen.UTC), span=8 * 86400, den=4)],
            "every weekday, every instant of two weeks (also over a leap day and the end of a month)"),
    Harness("names", names, [dict()], "all weekday names"),
    Harness("clock", clock, [dict(start=scen.MON9, hi=10 ** 8, den=1), dict(start=scen.MON9, hi=10 ** 6, den=64)],
            "all simulation times 0..1e8 s"),
    Harness("periods", periods, [dict(times=TIMES), dict(times=TIMES[:2], arrival=True),
                                 dict(times=[TIMES[1]], more=[("MONDAY", "FRIDAY", "18:00:00", "20:00:00")])],
            "all pairs of weekdays, 4 time ranges, every second of a week"),
    Harness("granule", granule, [dict(size=s) for s in (1, 5, 15, 30, 60)], "every second of a day, granules of 1..60 min"),
    Harness("granules-of-period", granules_of_period, [dict(size=60, cut=4), dict(size=15, cut=3)],
            "all weekday ranges, bounds at 4 times of day"),
]
