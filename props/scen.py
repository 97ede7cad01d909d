"""Small complete scenarios (BPMN file + JSON file) run through the real parser and the real simulation engine.

Everything random (durations, inter-arrival times, flow choices, shuffles) is a symbolic input; calendars, the process
graph and the rules are concrete per configuration.
"""
import atexit
import datetime
import hashlib
import json
import os
import shutil
import tempfile
from fractions import Fraction

import pytz

from symx import core, dt
from prosimos.simulation_engine import SimBPMEnv, execute_full_process, run_simpy_simulation
from prosimos.simulation_setup import SimDiffSetup

UTC = pytz.utc
MON9 = datetime.datetime(2024, 1, 1, 9, 0, 0, tzinfo=UTC)  # a Monday

_KIND = {"task": "task", "start": "startEvent", "end": "endEvent", "term": "endEvent", "xor": "exclusiveGateway",
         "and": "parallelGateway", "or": "inclusiveGateway", "ebg": "eventBasedGateway",
         "event": "intermediateCatchEvent"}
FULL = [("MONDAY", "SUNDAY", "00:00:00", "24:00:00")]


def bpmn_xml(nodes, flows, defaults=None):
    """nodes: {id: kind}; flows: [(id, src, dst)]"""
    out = ['<?xml version="1.0" encoding="UTF-8"?>',
           '<definitions xmlns="http://www.omg.org/spec/BPMN/20100524/MODEL"><process id="p">']
    for n, k in nodes.items():
        d = ' default="%s"' % defaults[n] if defaults and n in defaults else ""
        inner = "<terminateEventDefinition/>" if k == "term" else ("<timerEventDefinition/>" if k == "event" else "")
        out.append('<%s id="%s" name="%s"%s>%s</%s>' % (_KIND[k], n, n, d, inner, _KIND[k]))
    for f, a, b in flows:
        out.append('<sequenceFlow id="%s" sourceRef="%s" targetRef="%s"/>' % (f, a, b))
    out.append("</process></definitions>")
    return "\n".join(out)


def dist(lo, hi):
    """a distribution whose samples are arbitrary in [lo, hi] (uniform's support)"""
    return {"distribution_name": "uniform", "distribution_params": [{"value": lo}, {"value": hi}]}


def fixed(v):
    return {"distribution_name": "fix", "distribution_params": [{"value": v}, {"value": v}, {"value": v}]}


def sim_json(resources, tasks, calendars, gateways=None, arrival=(0, 0), arrival_calendar=None, **extra):
    """resources: {rid: (calendar, cost)}; tasks: {tid: {rid: (lo, hi)}}; gateways: {gid: {flow: prob | (prob, cond)}}"""
    def periods(ps):
        return [{"from": a, "to": b, "beginTime": c, "endTime": d} for a, b, c, d in ps]
    gw = []
    for g, fl in (gateways or {}).items():
        probs = []
        for f, p in fl.items():
            e = {"path_id": f}
            if isinstance(p, tuple):
                e["value"], e["condition_id"] = p
            else:
                e["value"] = p
            probs.append(e)
        gw.append({"gateway_id": g, "probabilities": probs})
    d = {
        "resource_profiles": [{"id": "pool", "name": "pool", "resource_list": [
            {"id": r, "name": r, "cost_per_hour": c, "amount": 1, "calendar": cal,
             "assignedTasks": []} for r, (cal, c) in resources.items()]}],
        "arrival_time_distribution": dist(*arrival) if isinstance(arrival, tuple) else arrival,
        "arrival_time_calendar": periods(arrival_calendar or [("MONDAY", "SUNDAY", "00:00:00", "23:59:59")]),
        "gateway_branching_probabilities": gw,
        "task_resource_distribution": [{"task_id": t, "resources": [dict(resource_id=r, **dist(*lh))
                                                                    for r, lh in rs.items()]}
                                       for t, rs in tasks.items()],
        "resource_calendars": [{"id": c, "name": c, "time_periods": periods(ps)} for c, ps in calendars.items()],
    }
    d.update(extra)
    return d


_TMP = None
_PID = None


def _dir():
    global _TMP, _PID
    if _TMP is None or _PID != os.getpid():
        _PID = os.getpid()
        _TMP = tempfile.mkdtemp(prefix="symx_")
        import multiprocessing.util as mu
        mu.Finalize(None, shutil.rmtree, args=(_TMP,), kwargs={"ignore_errors": True}, exitpriority=1)
    return _TMP


_FILES = {}


def files(nodes, flows, js, defaults=None):
    key = hashlib.sha1(repr((os.getpid(), nodes, flows, sorted(js), json.dumps(js), defaults)).encode()).hexdigest()
    if key not in _FILES:
        d = _dir()
        b, j = os.path.join(d, key + ".bpmn"), os.path.join(d, key + ".json")
        with open(b, "w") as f:
            f.write(bpmn_xml(nodes, flows, defaults))
        with open(j, "w") as f:
            json.dump(js, f)
        _FILES[key] = (b, j)
    return _FILES[key]


def setup(nodes, flows, js, n_cases, start=MON9, defaults=None, events_in_log=False):
    b, j = files(nodes, flows, js, defaults)
    s = SimDiffSetup(b, j, events_in_log, n_cases)
    s.set_starting_datetime(start)
    return s


class Rows:
    """stand-in for csv.writer"""

    def __init__(self):
        self.rows = []

    def writerow(self, r):
        self.rows.append(list(r))

    def writerows(self, rs):
        for r in rs:
            self.writerow(r)


def cell_time(v):
    """a timestamp cell of the log -> datetime (real or symbolic)"""
    if isinstance(v, str):
        t = dt._from_text(v) if core.CTX is not None else None
        if t is not None:
            return t
        if v[:1] == "@":
            raise ValueError(v)
        return datetime.datetime.strptime(v, "%Y-%m-%d %H:%M:%S.%f%z")
    return v


class Ev:
    """one row of the produced log, instants in seconds since `start`"""

    def __init__(self, row, header, start, setup):
        self.case, self.act, self.res = row[0], row[1], row[5]
        self.enabled, self.start, self.end = [(cell_time(c) - start).total_seconds() for c in row[2:5]]
        self.attrs = dict(zip(header[6:], row[6:]))


class _RawTimes:
    """Symbolic mode only: the log receives the instants themselves. Writing them as text (verify_miliseconds) depends on
    whether each instant is a whole second, which doubles the paths per cell; C19 decides the text on its own."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        import prosimos.simulation_engine as m
        self.old = getattr(m, "verify_miliseconds", None)
        if self.on and self.old is not None:
            m.verify_miliseconds = lambda row: row

    def __exit__(self, *a):
        import prosimos.simulation_engine as m
        if self.old is not None:
            m.verify_miliseconds = self.old


class _NoAggregates:
    """While active, activities are recorded but the aggregates per task are not updated"""

    def __enter__(self):
        import prosimos.simulation_stats_calculator as m
        self.cls = m.LogInfo
        self.old = m.LogInfo.__dict__.get("_update_global_task_stats")
        if self.old is not None:
            m.LogInfo._update_global_task_stats = lambda *a, **k: None

    def __exit__(self, *a):
        if self.old is not None:
            self.cls._update_global_task_stats = self.old


class _NoStats:
    """While active, the running statistics (which never influence the simulation) are not accumulated: their min/max
    updates would only split paths. Used by the properties that observe the event log alone."""

    def __enter__(self):
        import prosimos.simulation_stats_calculator as m
        self.cls = getattr(m, "LogInfo", None)
        self.old = getattr(self.cls, "__dict__", {}).get("_update_global_task_stats")
        if self.old is not None:
            self.cls._update_global_task_stats = lambda *a, **k: None
        self.old2 = getattr(self.cls, "__dict__", {}).get("add_event_info")
        if self.old2 is not None:
            self.cls.add_event_info = lambda *a, **k: None

    def __exit__(self, *a):
        if self.old is not None:
            self.cls._update_global_task_stats = self.old
        if self.old2 is not None:
            self.cls.add_event_info = self.old2


def run_log(env, s, fixed_arrivals=None, stats=False, text=False):
    """simulate; -> list of Ev in log order (uses the production entry point)"""
    log, stat = Rows(), Rows()
    with _RawTimes(env.symbolic and not text):
        if stats:
            run_simpy_simulation(s, stat, log, fixed_arrivals)
        else:
            with _NoStats():
                run_simpy_simulation(s, None, log, fixed_arrivals)
    header = log.rows[0]
    return [Ev(r, header, s.start_datetime, s) for r in log.rows[1:]], stat.rows


def run_traces(env, s, fixed_arrivals=None):
    """simulate; -> LogInfo with the per-event figures (without the running aggregates)"""
    with _RawTimes(env.symbolic), _NoAggregates():
        bpm = SimBPMEnv(s, None, None)
        execute_full_process(bpm, fixed_arrivals)
    return bpm.log_info


# --------------------------------------------------------------------- an independent model of weekly calendars (seconds)
DAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]


def week_intervals(periods):
    out = []
    for a, b, t0, t1 in periods:
        i = DAYS.index(a)
        while True:
            p = lambda t: sum(int(float(x)) * m for x, m in zip(t.split(":"), (3600, 60, 1)))
            out.append((i * 86400 + p(t0), i * 86400 + p(t1)))
            if DAYS[i] == b:
                break
            i = (i + 1) % 7
    out.sort()
    merged = []
    for a, b in out:
        if merged and a <= merged[-1][1] and a // 86400 == merged[-1][0] // 86400:
            merged[-1] = (merged[-1][0], max(b, merged[-1][1]))
        else:
            merged.append((a, b))
    return merged


def absolute_intervals(periods, start, horizon):
    """working intervals in seconds since `start`, covering [0, horizon]"""
    off = start.weekday() * 86400 + start.hour * 3600 + start.minute * 60 + start.second
    out = []
    w = 0
    while w * 604800 - off <= horizon:
        for a, b in week_intervals(periods):
            out.append((w * 604800 + a - off, w * 604800 + b - off))
        w += 1
    return [(a, b) for a, b in out if b >= 0 and a <= horizon]


def working_time(env, ivs, a, b):
    """working seconds inside [a, b] (a <= b), as a formula"""
    t = 0
    for s, e in ivs:
        lo = env.ite(a > s, a, s)
        hi = env.ite(b < e, b, e)
        t = t + env.ite(hi > lo, hi - lo, 0)
    return t


def inside(env, ivs, x):
    return env.any([env.all([x >= s, x <= e]) for s, e in ivs])
