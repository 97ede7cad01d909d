"""Discovery of arrival times, resources and durations from an event log."""
import csv
import datetime
import itertools
import json
import os
import shutil
import tempfile

from pix_framework.discovery.resource_calendar_and_performance.crisp.factory import CalendarFactory
from pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar import RCalendar

from bpdfr_discovery import log_parser
from prosimos.exceptions import InvalidLogFileException
from prosimos.execution_info import TaskEvent
from prosimos.fuzzy_engine import event_log_analyser
from prosimos.simulation_setup import SimDiffSetup
from props import c30, scen, simcases as sc
from symx.runner import Harness

ASSUMPTIONS = ["distribution fitting and the mining of weekly calendars are the pix framework's: the data given to the fit are "
               "observed, the calendars are given except in the harness `calendars`",
               "two executions of one activity in one case neither overlap nor touch"]
NODES = dict(s="start", A="task", B="task", e="end")
FLOWS = [("f0", "s", "A"), ("f1", "A", "B"), ("f2", "B", "e")]
DAY = datetime.timedelta(days=1)


def calendar(name, periods):
    if periods is None:
        return None
    c = RCalendar(name)
    for a, b, t0, t1 in periods:
        c.add_calendar_item(a, b, t0, t1)
    return c


class Fitted:
    """a fitted distribution that remembers its data"""

    def __init__(self, data):
        self.data = data

    def to_prosimos_distribution(self):
        return {"distribution_name": "fix", "distribution_params": [{"value": 60}, {"value": 0}, {"value": 1}]}


class Mined:
    """CalendarFactory with given calendars"""
    def __init__(self, cals, coverage, seen):
        self.cals, self.coverage, self.seen = cals, coverage, seen

    def __call__(self, minutes):
        outer = self

        class Kpi:
            def __getattr__(self, n):
                return lambda *a, **k: (1, 1)

        class F:
            kpi_calendar = Kpi()

            def __init__(self):
                self.names = []

            def check_date_time(self, resource, task, at, is_joint=False):
                if resource not in self.names:
                    self.names.append(resource)
                outer.seen.append((resource, task, at, is_joint))

            def build_weekly_calendars(self, *a):
                return {n: calendar(n, outer.cals.get(n, outer.cals.get("*"))) for n in self.names}

            def build_unrestricted_resource_calendar(self, r, t):
                return calendar(r, [("MONDAY", "SUNDAY", "00:00:00", "23:59:59.999")])

            def task_coverage(self, t):
                return outer.coverage
        return F()


class Patched:
    def __init__(self, **new):
        self.new = new

    def __enter__(self):
        self.old = {n: log_parser.__dict__.get(n) for n in self.new}
        for n, v in self.new.items():
            setattr(log_parser, n, v)

    def __exit__(self, *a):
        for n, v in self.old.items():
            if v is None:
                delattr(log_parser, n)
            else:
                setattr(log_parser, n, v)


def numbers(env):
    import builtins

    def pick(real, ite):
        def f(*a, **k):
            return ite(a) if len(a) > 1 and all(isinstance(x, (int, float, scen.core.SymInt, scen.core.SymFloat)) for x in a) else real(*a, **k)
        return f
    return dict(min=pick(builtins.min, env.minimum), max=pick(builtins.max, env.maximum))


def mine(env, rows, cals, coverage=1, fit=False, min_bin=50, nodes=NODES, flows=FLOWS, factory=None, sup=1.0, conf=0.0):
    """-> (result list of preprocess_xes_log, written JSON, timestamps seen by the calendar factory, path of BPMN and JSON)"""
    d = tempfile.mkdtemp(prefix="symx_")
    seen = []
    try:
        with open(os.path.join(d, "log.csv"), "w", newline="") as f:
            csv.writer(f).writerows([["case_id", "activity", "start_time", "end_time", "resource"]] + rows)
        bpmn = scen.files(nodes, flows, {})[0]
        new = dict(numbers(env), get_best_fitting_distribution=lambda x, *a, **k: Fitted(list(x)), print=lambda *a, **k: None,
                   CalendarFactory=factory or Mined(cals, coverage, seen))
        with c30._Read(log_parser), Patched(**new):
            res = log_parser.preprocess_xes_log(os.path.join(d, "log.csv"), bpmn, os.path.join(d, "out.json"), 60, conf, sup, 0.0,
                                                fit, is_csv=True, min_bin=min_bin)
        with open(os.path.join(d, "out.json")) as f:
            js = json.load(f)
        setup = SimDiffSetup(bpmn, os.path.join(d, "out.json"), False, 1)
        return res, js, seen, setup
    finally:
        shutil.rmtree(d, ignore_errors=True)


def log_rows(env, c, hi=7200):
    """cases of the sequence A, B with the configured resources and arbitrary times -> CSV rows, activities"""
    rows, acts = [], []
    for k, (ra, rb) in enumerate(c["who"]):
        base = scen.MON9 + k * c.get("gap", DAY) + c.get("shift", datetime.timedelta())
        t = env.flt("arrive%d" % k, 0, hi)
        for name, r in (("A", ra), ("B", rb)):
            d = env.flt("dur%d%s" % (k, name), 1, hi)
            s, e = env.dt(base, t), env.dt(base, t + d)
            off = (base - scen.MON9).total_seconds()
            acts.append(dict(case=str(k), task=name, res=r, start=t + off, end=t + off + d, dur=d))
            rows.append([str(k), name, str(s), str(e), r])
            t = t + d + 1
    if c.get("reverse"):
        rows = rows[::-1]
    return rows, acts


def same_data(env, got, want, label, info=None):
    """equal as multisets: every value occurs equally often"""
    if not env.check(len(got) == len(want), label + "-count", info="%s: %d %d" % (info, len(got), len(want))):
        if len(got) != len(want):
            return
    for v in want:
        env.check(env.total(env.ite(v == x, 1, 0) for x in got) == env.total(env.ite(v == x, 1, 0) for x in want), label, info=info)


def durations(env):
    """data given to the fits, resources per activity, profiles"""
    c = env.cfg
    rows, acts = log_rows(env, c, c.get("hi", 7200))
    res, js, seen, setup = mine(env, rows, c["cals"], fit=c["fit"], min_bin=c["min"])
    fitted, resources = res[4], res[5]
    ids = sorted({a["res"] for a in acts})
    for t in ("A", "B"):
        of = [a for a in acts if a["task"] == t]
        rs = sorted({a["res"] for a in of})
        env.check(sorted(resources[t]) == rs, "resources-of-the-activity", info="%s %s" % (resources[t], rs))
        env.check(sorted(fitted[t]) == rs, "distribution-per-resource")

        def span(a):
            if not c["fit"]:
                return a["dur"]
            ivs = scen.absolute_intervals(c["cals"].get(a["res"], c["cals"].get("*")), scen.MON9, 20 * 86400)
            return scen.working_time(env, ivs, a["start"], a["end"])
        for r in rs:
            own = [span(a) for a in of if a["res"] == r]
            data = own if len(own) >= c["min"] else [span(a) for a in of]
            same_data(env, fitted[t][r].data, data, "durations-of-the-resource", "%s %s" % (t, r))
    # the instants the calendars are mined from
    want = [(a["res"], a["task"], x) for a in acts for x in (a["start"], a["end"])]
    got = [(r, t, (at - scen.MON9).total_seconds()) for r, t, at, joint in seen if r != "arrival"]
    for key in {(r, t) for r, t, x in want}:
        same_data(env, [x for r, t, x in got if (r, t) == key], [x for r, t, x in want if (r, t) == key], "calendar-instants", str(key))
    env.check({(r, t) for r, t, x in got} == {(r, t) for r, t, x in want}, "calendar-resources")
    first = [env.minimum([a["start"] for a in acts if a["case"] == str(k)]) for k in range(len(c["who"]))]
    same_data(env, [(at - scen.MON9).total_seconds() for r, t, at, j in seen if r == "arrival"], first, "arrival-instants")
    # the written file
    prof = {p["name"]: {r["id"]: sorted(r["assigned_tasks"]) for r in p["resource_list"]} for p in js["resource_profiles"]}
    for t in ("A", "B"):
        rs = {a["res"] for a in acts if a["task"] == t}
        env.check(set(prof[t]) == rs, "profile-resources")
        for r in rs:
            env.check(prof[t][r] == sorted({a["task"] for a in acts if a["res"] == r}), "profile-tasks")
    env.check({x["task_id"]: {r["resource_id"] for r in x["resources"]} for x in js["task_resource_distribution"]} ==
              {t: {a["res"] for a in acts if a["task"] == t} for t in ("A", "B")}, "written-distributions")
    # and the simulator reads the same allocation from it
    env.check({t: set(rs) for t, rs in setup.task_resource.items()} ==
              {t: {a["res"] for a in acts if a["task"] == t} for t in ("A", "B")}, "simulated-allocation")
    env.check(set(setup.resources_map) == set(ids), "simulated-resources")
    env.observe("resources", {t: sorted(v) for t, v in resources.items()})


def arrival_data(env):
    c = env.cfg
    starts, cal = {}, calendar("arrival", c["arrival"])
    xs = []
    for k in range(c["n"]):
        x = env.flt("start%d" % k, 0, c["hi"])
        xs.append(x)
        starts["c%d" % k] = env.dt(scen.MON9, x)
    with Patched(get_best_fitting_distribution=lambda x, *a, **k: Fitted(list(x))):
        got = log_parser.discover_arrival_time_distribution(starts, cal).data
    ivs = scen.absolute_intervals(c["arrival"], scen.MON9, c["hi"])
    inn = [scen.inside(env, ivs, x) for x in xs]
    n_in = env.total(env.ite(b, 1, 0) for b in inn)
    env.check(len(got) == env.ite(n_in > 0, n_in - 1, 0), "one-interval-per-successor")
    # the i-th interval ends at the (i+1)-th smallest start inside the calendar
    for i, v in enumerate(got):
        ok = []
        for x, bx in zip(xs, inn):
            for y, by in zip(xs, inn):
                if x is y:
                    continue
                below = env.total(env.ite(env.all([b, z < y]), 1, 0) for z, b in zip(xs, inn))
                upto = env.total(env.ite(env.all([b, z <= y]), 1, 0) for z, b in zip(xs, inn))
                below_x = env.total(env.ite(env.all([b, z < x]), 1, 0) for z, b in zip(xs, inn))
                upto_x = env.total(env.ite(env.all([b, z <= x]), 1, 0) for z, b in zip(xs, inn))
                ok.append(env.all([bx, by, below <= i + 1, upto >= i + 2, below_x <= i, upto_x >= i + 1, v == y - x]))
        env.check(env.any(ok), "difference-of-successive-starts", info=str(i))
    env.observe("n", len(got))


def joint(env):
    """resources without a calendar of their own are replaced by joint ones that never do two things at once"""
    c = env.cfg
    n = c["n"]
    evs, pts = [], []
    for i in range(n):
        s = env.flt("start%d" % i, 0, c["hi"])
        d = env.flt("dur%d" % i, 1, c["hi"])
        ev = TaskEvent("c%d" % i, "A", "r%d" % i)
        ev.started_at, ev.completed_at = env.dt(scen.MON9, s), env.dt(scen.MON9, s + d)
        ev.nr = i
        evs.append(ev)
        pts.append((s, s + d))
    seen = []
    f = Mined({"*": None if c.get("rare") else [("MONDAY", "SUNDAY", "00:00:00", "23:59:59")], **{"r%d" % i: None for i in range(n)}},
              0 if c.get("rare") else 1, seen)(60)
    f.names = ["r%d" % i for i in range(n)]
    cals, tasks, groups, pools, cover = log_parser.discover_resource_calendars(
        f, {"A": {"r%d" % i: [evs[i]] for i in range(n)}}, 0.1, 0.5, 0.1)
    gs = {k: [e.nr for e in v] for k, v in groups.items()}
    used = [i for g in gs.values() for i in g]
    env.check(len(used) == len(set(used)), "one-joint-resource-per-execution", info=str(gs))
    env.check(sorted(tasks["A"]) == sorted(gs) == sorted(cals), "joint-resources-only", info="%s %s" % (tasks, gs))
    env.check(sorted(r["id"] for r in pools["A"]["resource_list"]) == sorted(gs), "joint-pool")
    for g in gs.values():
        for a, b in itertools.combinations(g, 2):
            env.check(env.any([pts[a][1] <= pts[b][0], pts[b][1] <= pts[a][0]]), "joint-executions-do-not-overlap", info=str(gs))
    # no set of executions that do not overlap is larger than the largest group
    if n == 1:
        env.check(len(used) == 1, "single-execution-kept")
    big = max([len(g) for g in gs.values()] + [1])
    for k in range(big + 1, n + 1):
        for sub in itertools.combinations(range(n), k):
            apart = env.all([env.any([pts[a][1] <= pts[b][0], pts[b][1] <= pts[a][0]]) for a, b in itertools.combinations(sub, 2)])
            env.check(env.no(apart), "largest-group-first", info=str((gs, sub)))
    with Patched(get_best_fitting_distribution=lambda x, *a, **k: Fitted(list(x))):
        fits = log_parser.discover_resource_task_duration_distribution(
            {"A": {"r%d" % i: [evs[i]] for i in range(n)}}, cals, tasks, groups, False, 1)["A"]
    env.check(sorted(fits) == sorted(gs), "joint-distributions")
    for r, g in gs.items():
        same_data(env, fits[r].data, [pts[i][1] - pts[i][0] for i in g], "joint-durations", r)
    env.check(len([x for x in seen if x[3]]) == 2 * len(used), "joint-instants")
    env.observe("groups", sorted(gs.items()))


def starting(env):
    """fixed arrival times taken from a log"""
    c = env.cfg
    rows, first = [], []
    for k in range(c["n"]):
        own = []
        for i in range(c["acts"]):
            s = env.flt("start%d_%d" % (k, i), 0, c["hi"])
            own.append(s)
            rows.append([str(k), "A%d" % i, str(env.dt(scen.MON9, s)), str(env.dt(scen.MON9, s + 1)), "r"])
        first.append(env.minimum(own))
    d = tempfile.mkdtemp(prefix="symx_")
    try:
        with open(os.path.join(d, "log.csv"), "w", newline="") as f:
            csv.writer(f).writerows([["case_id", "activity", "start_time", "end_time", "resource"]] + rows[::-1])
        with c30._Read(log_parser):
            times, at = event_log_analyser.get_starting_datetimes(os.path.join(d, "log.csv"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    zero = env.minimum(first)
    env.check((at - scen.MON9).total_seconds() == zero, "first-arrival")
    env.check(times[0] == 0, "starts-at-zero")
    same_data(env, times, [x - zero for x in first], "arrival-times")
    for a, b in zip(times, times[1:]):
        env.check(a <= b, "in-order")


def filtered(env):
    """rows of unknown activities and of the start and end event do not count; more than half of them make the log invalid"""
    c = env.cfg
    rows, kept = [], []
    kinds = ["A", "B", "s", "e", "unknown"]
    for i in range(c["n"]):
        k = kinds[env.choice("kind%d" % i, len(kinds))]
        s = env.flt("start%d" % i, 0, 1000)
        rows.append(["c%d" % i, k, str(env.dt(scen.MON9, s)), str(env.dt(scen.MON9, s + 60 * (i + 1))), "r%d" % (i % 2)])
        if k in ("A", "B"):
            kept.append((k, "r%d" % (i % 2), 60 * (i + 1)))
    try:
        res, js, seen, setup = mine(env, rows, {"*": [("MONDAY", "SUNDAY", "00:00:00", "23:59:59")]}, min_bin=1)
    except InvalidLogFileException:
        env.check(2 * len(kept) < c["n"], "rejected-although-half-is-usable", info=str(kept))
        return
    env.check(2 * len(kept) >= c["n"], "accepted-although-most-is-unusable", info=str(kept))
    want = {}
    for t, r, d in kept:
        want.setdefault(t, {}).setdefault(r, []).append(d)
    got = {t: {r: sorted(float(v) for v in x.data) for r, x in rs.items()} for t, rs in res[4].items()}
    env.check(got == {t: {r: sorted(map(float, v)) for r, v in rs.items()} for t, rs in want.items()}, "only-activities-count", info=str(got))


def calendars(env):
    """with full support demanded every observed instant lies in the calendar of its resource"""
    c = env.cfg
    rows, acts = log_rows(env, c, c.get("hi", 7200))
    res, js, seen, setup = mine(env, rows, {}, factory=CalendarFactory, sup=1.0, conf=c["conf"], min_bin=1)
    cals = res[6]
    for a in acts:
        env.check(a["res"] in cals, "resource-has-a-calendar")
        for x in (a["start"], a["end"]):
            at = env.dt(scen.MON9, x)
            env.check(cals[a["res"]].is_working_datetime(at)[0], "observed-instant-in-calendar", info="%s %s" % (a["task"], a["res"]))
    # the simulator gets the same calendars
    for r, cal in cals.items():
        env.check(setup.calendars_map[r + "_timetable"].intervals_to_json() == cal.intervals_to_json(), "same-calendar-simulated")
    env.observe("cal", sorted((r, str(cal.intervals_to_json())) for r, cal in cals.items()))


FULLCAL = {"*": [("MONDAY", "SUNDAY", "00:00:00", "23:59:59")]}
HALF = {"*": [("MONDAY", "FRIDAY", "09:00:00", "11:00:00"), ("MONDAY", "FRIDAY", "12:00:00", "17:00:00")]}
DUR = [dict(who=[("r", "r"), ("q", "r")], cals=FULLCAL, fit=False, min=1),
       dict(who=[("r", "r"), ("q", "r"), ("r", "q")], cals=FULLCAL, fit=False, min=2, reverse=True),
       dict(who=[("r", "q")], cals=HALF, fit=True, min=1, hi=20000),
       dict(who=[("r", "r"), ("r", "r")], cals=FULLCAL, fit=False, min=3),
       dict(who=[("r", "r")] * 3 + [("q", "r")], cals=FULLCAL, fit=False, min=2, hi=60)]
DUR_T = [dict(who=[("r", "q"), ("q", "r")], cals=HALF, fit=True, min=1, hi=40000),
         dict(who=[("r", "q"), ("q", "r"), ("p", "r")], cals=FULLCAL, fit=False, min=2, gap=DAY * 3)]
HARNESSES = [
    Harness("durations", durations, DUR, "CSV logs of 1-4 cases of two activities, 1-2 resources; arbitrary times (0..2 h each, 0..5.5 h "
            "with calendars), minimal sample sizes 1-3, durations in clock or calendar time", DUR_T),
    Harness("arrival_data", arrival_data, [dict(n=3, hi=40000, arrival=HALF["*"]), dict(n=3, hi=10 ** 6, arrival=FULLCAL["*"])],
            "3 case starts within 11 h of a calendar with a break, or 11 days with a calendar for all days (thorough: 4 starts)",
            [dict(n=4, hi=40000, arrival=HALF["*"])]),
    Harness("joint", joint, [dict(n=n, hi=1000) for n in (1, 2, 3)] + [dict(n=2, hi=1000, rare=True)], "1-3 executions of one activity by resources without a calendar, "
            "all times 0..1000 s (thorough: 4)", [dict(n=4, hi=100)]),
    Harness("starting", starting, [dict(n=1, acts=2, hi=10 ** 6), dict(n=3, acts=1, hi=10 ** 6), dict(n=2, acts=2, hi=10 ** 6)],
            "logs of 1-3 cases with 1-2 activities, all start times within 11 days", [dict(n=3, acts=2, hi=10 ** 5)]),
    Harness("filtered", filtered, [dict(n=n) for n in (1, 2, 3)], "1-3 rows, each of a known or unknown activity or the start or end event "
            "(thorough: 4)", [dict(n=4)]),
    Harness("calendars", calendars, [dict(who=[("r", "q")], conf=0.0, hi=1800), dict(who=[("r", "r")], conf=0.9, hi=1800),
                                     dict(who=[("r", "q"), ("q", "r")], conf=0.5, hi=2400)],
            "logs of 1-2 cases with two activities, times within two hours, granules of 60 min, the real calendar mining (thorough: more)",
            [dict(who=[("r", "q"), ("q", "r")], conf=0.5, hi=5400), dict(who=[("r", "q"), ("r", "r")], conf=0.9, hi=900)]),
]
