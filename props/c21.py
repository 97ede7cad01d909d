"""Branching probabilities discovered from logs."""
import csv
import datetime
import json
import os
import shutil
import tempfile

import prosimos.probability_distributions as pd
from bpdfr_discovery import log_parser
from pix_framework.discovery.resource_calendar_and_performance.crisp.resource_calendar import RCalendar
from pix_framework.statistics.distribution import DurationDistribution
from prosimos.simulation_properties_parser import parse_arrival_branching_probabilities, parse_simulation_model
from props import c30, scen
from props.blocks import Model, Run
from symx import core
from symx.runner import Harness

ASSUMPTIONS = ["block-structured models; discovery of calendars, arrival and duration distributions is replaced by stand-ins",
               "floating point rounding is not modelled: quotients are exact"]
ARR = {"distribution_name": "fix", "distribution_params": [{"value": 5}]}


def splits(nodes, flows):
    return {n: [f for f, a, b in flows if a == n] for n, k in nodes.items() if k in ("xor", "or")
            and sum(a == n for f, a, b in flows) > 1}


def same(env, got, want):
    """got: the discovered probabilities, want: {split: {flow: number of times taken}}"""
    env.check(set(got) == set(want), "which-splits", info=str(sorted(got)))
    for g, fl in want.items():
        env.check(set(got[g]) == set(fl), "which-flows")
        total = env.total(fl.values())
        for f, n in fl.items():
            p = got[g][f]
            env.check(env.all([p >= 0, p <= 1]), "range")
            if total == 0:
                env.check(p == 0, "never-executed")
            else:
                env.check(env.close(p * total, n), "relative-frequency", info="%s %s" % (g, f))
        if total > 0:
            env.check(env.close(env.total(got[g].values()), 1), "sums-to-one")


def frequencies(env):
    """any observed frequencies, also of flows the frequency table does not know"""
    c = env.cfg
    m = Model(c["block"])
    g = parse_simulation_model(scen.files(m.nodes, m.flows, {})[0])
    want, freq = {}, {"elsewhere": 3}
    for s, fl in splits(m.nodes, m.flows).items():
        want[s] = {}
        for f in fl:
            if env.choice("known_" + f, 2):
                freq[f] = want[s][f] = env.int("n_" + f, 0, 10 ** 6)
            else:
                want[s][f] = 0
    got = g.compute_branching_probability(freq)
    same(env, got, want)
    js = log_parser.gateway_branching_to_json(got)
    env.check([x["gateway_id"] for x in js] == list(got), "json-splits")
    for x in js:
        env.check([p["path_id"] for p in x["probabilities"]] == list(got[x["gateway_id"]]), "json-flows")
        for p in x["probabilities"]:
            env.check(p["value"] == got[x["gateway_id"]][p["path_id"]], "json-value")
    used(env, js, want)


class _Np:
    """records the weights numpy is asked to choose with"""

    def __init__(self):
        self.calls = []

    def choice(self, a, size=None, p=None, **k):
        self.calls.append((list(a), list(p)))
        return OLD.choice(a, size, p=p, **k)


OLD = pd.random


def used(env, js, want):
    """the simulator chooses with the discovered weights"""
    global OLD
    executed = [g for g, fl in want.items() if env.total(fl.values()) > 0]
    ch = parse_arrival_branching_probabilities(ARR, [x for x in js if x["gateway_id"] in executed])
    OLD, pd.random = pd.random, _Np()
    try:
        for g in executed:
            pd.random.calls.clear()
            f = ch[g].get_outgoing_flow()
            (names, weights), = pd.random.calls
            env.check(set(names) == set(want[g]), "chooses-among")
            total = env.total(want[g].values())
            for n, w in zip(names, weights):
                env.check(env.close(w * total, want[g][n]), "chosen-in-proportion")
            env.check(want[g][f] > 0, "never-observed-flow-taken", info=str(f))
    finally:
        pd.random = OLD


def discover(env):
    """the whole discovery on a CSV log"""
    c = env.cfg
    m = Model(c["block"])
    d = tempfile.mkdtemp(prefix="symx_")
    rows, want = [], {g: dict.fromkeys(fl, 0) for g, fl in splits(m.nodes, m.flows).items()}
    try:
        for k in range(c["n"]):
            run = Run(m, lambda n, j: env.choice(env.seq("c%d%s" % (k, n)), j))
            tr, enabled, started = c30.trace_of(env, run, tag=str(k), wait=c.get("wait", 1), base=scen.MON9 + k * datetime.timedelta(days=1))
            for ev in tr.event_list:
                rows.append([str(k), ev.task_id, str(ev.started_at), str(ev.completed_at), "r"])
            for g, fl in want.items():
                for f in fl:
                    fl[f] += run.flow_counts().get(f, 0)
        if c.get("shuffled"):
            rows = rows[::-1]
        with open(os.path.join(d, "log.csv"), "w", newline="") as f:
            csv.writer(f).writerows([["case_id", "activity", "start_time", "end_time", "resource"]] + rows)
        bpmn = scen.files(m.nodes, m.flows, {})[0]
        with c30._Read(log_parser), _Stand(env):
            res = log_parser.preprocess_xes_log(os.path.join(d, "log.csv"), bpmn, os.path.join(d, "out.json"), 15, 0.1, 0.1, 0.1,
                                                True, is_csv=True)
        same(env, res[3], want)
        with open(os.path.join(d, "out.json")) as f:
            js = json.load(f)["gateway_branching_probabilities"]
        same(env, {x["gateway_id"]: {p["path_id"]: p["value"] for p in x["probabilities"]} for x in js}, want)
        env.observe("p", sorted((g, sorted(x.items())) for g, x in res[3].items()))
    finally:
        shutil.rmtree(d, ignore_errors=True)


class _Stand:
    """the parts of the discovery that are statistics of times, not of decisions"""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        import builtins

        def pick(real, ite):  # minimum and maximum of numbers as one term
            def f(*a):
                return ite(a) if all(isinstance(x, (int, float, core.SymInt, core.SymFloat)) for x in a) else real(*a)
            return f

        class Factory:
            kpi_calendar = None

            def __init__(self, *a):
                pass

            def check_date_time(self, *a, **k):
                pass

        new = dict(CalendarFactory=Factory, discover_resource_calendars=lambda *a, **k: ({}, {}, {}, {}, {}),
                   discover_arrival_calendar=lambda *a, **k: RCalendar("arrival"), discover_arrival_time_distribution=lambda *a, **k: DurationDistribution("fix", 60, 0, 60, 60),
                   discover_resource_task_duration_distribution=lambda *a, **k: {}, print=lambda *a, **k: None,
                   min=pick(builtins.min, self.env.minimum), max=pick(builtins.max, self.env.maximum))
        self.old = {n: getattr(log_parser, n, None) for n in new}
        for n, v in new.items():
            setattr(log_parser, n, v)

    def __exit__(self, *a):
        for n, v in self.old.items():
            if v is None:
                delattr(log_parser, n)
            else:
                setattr(log_parser, n, v)


B = c30.B
FR = [dict(block=B[k]) for k in ("XOR", "LOOP", "OR2", "ANDX", "AND")] + [dict(block=("seq", ("xor", "A", "B", "C"), "D"))]
DI = [dict(block=B[k], n=2) for k in ("XOR", "XX", "LOOP")] + [dict(block=B[k], n=1) for k in ("OR2", "ANDX", "XAND", "LL")] + \
     [dict(block=b, n=1) for b in (c30.ORX[0], c30.ORX[2], c30.ORX[6])] + \
     [dict(block=B["XX"], n=2, shuffled=True), dict(block=B["LOOP"], n=1, wait=0)]
HARNESSES = [
    Harness("frequencies", frequencies, FR, "6 models with up to two splits of 2-3 flows, frequencies 0..10^6 or unknown"),
    Harness("discover", discover, DI, "CSV logs of 1-2 cases of 10 models, all runs, times 0..1000 s (mostly with waiting times of at least 1 s)",
            [dict(block=B["XX"], n=3), dict(block=c30.MORE["OR3"], n=1), dict(block=B["OR2"], n=2), dict(block=B["LL"], n=2),
             dict(block=B["XAND"], n=1, wait=0), dict(block=B["XX"], n=2, wait=0)]),
]
