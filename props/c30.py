"""Replay of a trace on the process model: enabling instants, fit and flow frequencies."""
import csv
import os
import shutil
import tempfile

from bpdfr_discovery import log_parser
from bpdfr_discovery.log_comparison_metrics import compute_enabling_processing_times
from prosimos.execution_info import Trace
from prosimos.simulation_engine import run_simpy_simulation
from prosimos.simulation_properties_parser import parse_simulation_model
from props import scen, simcases as sc
from props.blocks import Model, Run, explanations
from symx.core import Infeasible
from symx.runner import Harness

ASSUMPTIONS = ["block-structured models; the start of a case is the earliest start of its activities; an activity lasts longer "
               "than 0 s, so that sorting by time keeps causes before their effects"]


def trace_of(env, run, names=lambda t: t, hi=1000, tag="", base=scen.MON9, wait=0):
    """a log trace of the run with arbitrary waiting and processing times; -> trace, true enabling seconds per instance"""
    en, st, en_ = [], [], []
    tr = Trace("case" + tag)
    for i, (t, causes) in enumerate(run.inst):
        e = env.maximum([en_[c] for c in causes]) if causes else None
        w, d = env.flt("wait%s_%d" % (tag, i), wait, hi), env.flt("dur%s_%d" % (tag, i), 0, hi)
        s = w if e is None else e + w
        env.assume(d > 0)
        en.append(e)
        st.append(s)
        en_.append(s + d)
        k = tr.start_event(names(t), names(t), env.dt(base, s), "r")
        tr.complete_event(k, env.dt(base, s + d))
        tr.event_list[k].index = i
    first = env.minimum(st)
    return tr, [first if e is None else e for e in en], st


def replay(env):
    c = env.cfg
    m = Model(c["block"])
    b, _ = scen.files(m.nodes, m.flows, {})
    g = parse_simulation_model(b)
    run = Run(m, lambda n, k: env.choice(env.seq(n), k))
    tr, enabled, started = trace_of(env, run, hi=c.get("hi", 1000))
    seq = log_parser.sort_by_completion_times(tr)
    env.check(seq == [e.task_id for e in tr.event_list], "sequence-of-the-trace")
    freq = {}
    ok, fired, pending, enabling = g.reply_trace(seq, freq, True, tr.event_list)
    # known: the completion of a sibling is propagated through the join and a repeated loop without activities
    # known: tokens put speculatively on the flows of an inclusive split that were not taken stay there in the next repetition
    known = [("C30-parallel-block-in-silent-loop", bool(c.get("silent_loop")) and len(seq) > 3),
             ("C30-inclusive-block-in-loop", bool(c.get("or_loop")) and seq.count("C") > 0)]
    env.check(ok and all(fired), "valid-trace-replays", info=str((seq, fired)), known=known)
    env.check(pending == [], "no-tokens-left", info=str(pending), known=known)
    for ev, e in zip(tr.event_list, enabling):
        at = (e - scen.MON9).total_seconds()
        sib = [(o.completed_at - scen.MON9).total_seconds() for o in tr.event_list if o is not ev]
        env.check(at == enabled[ev.index], "enabled-at-completion-of-cause", info="%s in %s" % (ev.task_id, seq),
                  known=known + [("C30-parallel-block-in-silent-loop",
                                  bool(c.get("silent_loop")) and env.any([at == x for x in sib]))])
    for f, n in run.flow_counts().items():
        env.check(freq.get(f, 0) == n, "flow-frequency", info="%s %s: %s of %s" % (seq, f, freq.get(f, 0), n), known=known)
    env.observe("seq", (seq, [(e - scen.MON9).total_seconds() for e in enabling], sorted(freq.items())))


def silent(env):
    """where branches without activities leave open which way a case went, the replay reports one of the possible ways"""
    c = env.cfg
    m = Model(c["block"])
    g = parse_simulation_model(scen.files(m.nodes, m.flows, {})[0])
    run = Run(m, lambda n, k: env.choice(env.seq(n), k))
    tr, enabled, started = trace_of(env, run, hi=c.get("hi", 1000))
    seq = log_parser.sort_by_completion_times(tr)
    freq = {}
    ok, fired, pending, enabling = g.reply_trace(seq, freq, True, tr.event_list)
    known = [(k, seq == list(q)) for k, q in c.get("known", ())]
    env.check(ok and all(fired), "valid-trace-replays", info=str((seq, fired)), known=known)
    env.check(pending == [], "no-tokens-left", info=str((seq, pending)), known=known)
    why = explanations(m, seq)
    env.check(any(all(freq.get(f, 0) == n for f, n in fl.items()) for fl, _ in why), "flows-of-some-run",
              info=str((seq, sorted(freq.items()))), known=known)
    end = [(ev.completed_at - scen.MON9).total_seconds() for ev in tr.event_list]
    at = [(e - scen.MON9).total_seconds() for e in enabling]
    first = env.minimum(started)
    env.check(env.any([env.all([a == (env.maximum([end[x] for x in cs]) if cs else first) for a, cs in zip(at, causes)])
                       for _, causes in why]), "enabled-as-in-some-run", info=str(seq), known=known)
    env.observe("seq", (seq, at, sorted(freq.items())))


def kpis(env):
    """waiting and processing times per activity computed from a CSV log without enabling times"""
    c = env.cfg
    m = Model(c["block"])
    b, _ = scen.files(m.nodes, m.flows, {})
    g = parse_simulation_model(b)
    rows, want = [], {}
    for k in range(c["n"]):
        run = Run(m, lambda n, j: env.choice(env.seq("c%d%s" % (k, n)), j))
        tr, enabled, started = trace_of(env, run, tag=str(k))
        for ev in tr.event_list:
            w = want.setdefault(ev.task_id, [0, 0, 0])
            w[0] += started[ev.index] - enabled[ev.index]
            w[1] += (ev.completed_at - ev.started_at).total_seconds()
            w[2] += 1
            rows.append([str(k), ev.task_id, str(ev.started_at), str(ev.completed_at), "r"])
    if c.get("shuffled"):
        rows = rows[::2] + rows[1::2]
    d = tempfile.mkdtemp(prefix="symx_")
    try:
        with open(os.path.join(d, "log.csv"), "w", newline="") as f:
            csv.writer(f).writerows([["case_id", "activity", "start_time", "end_time", "resource"]] + rows)
        with _Read(log_parser):
            got = log_parser.compute_kpi_times_from_csv_log(os.path.join(d, "log.csv"), g)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    env.check(set(got) == set(want), "activities")
    for t in want:
        for i, label in enumerate(("waiting", "processing", "count")):
            env.check(got[t][i] == want[t][i], label, info=t)
    env.observe("kpi", sorted((t, list(v)) for t, v in got.items()))


class _Read:
    """pandas reads the tokens that stand for symbolic instants"""

    def __init__(self, mod):
        self.mod = mod

    def __enter__(self):
        self.old = old = self.mod.pd

        class Pd:
            def __getattr__(self, n):
                return getattr(old, n)

            @staticmethod
            def to_datetime(v, *a, **k):
                t = scen.dt._from_text(v) if scen.core.CTX is not None and isinstance(v, str) else None
                return t if t is not None else old.to_datetime(v, *a, **k)
        self.mod.pd = Pd()

    def __exit__(self, *a):
        self.mod.pd = self.old


def roundtrip(env):
    """the enabling times found by replaying a simulated log are those the simulation had"""
    c = env.cfg
    m = Model(c["block"])
    gw = {g_: {f: 1 / len(fl) for f in fl} for g_, fl in m.gateways().items()}
    js = scen.sim_json({"r" + t: ("c", 1) for t in m.tasks()}, {t: {"r" + t: (1, 100)} for t in m.tasks()},
                       {"c": sc.DAYLONG}, gateways=gw, arrival=(0, 0))
    s = scen.setup(m.nodes, m.flows, js, 1)
    env.dist = sc.Sampler(s)
    log = scen.Rows()
    with scen._RawTimes(env.symbolic), scen._NoStats():
        run_simpy_simulation(s, None, log, None)
    evs = [scen.Ev(r, log.rows[0], s.start_datetime, s) for r in log.rows[1:]]
    if len(evs) > c["max"]:
        raise Infeasible()
    tr = Trace("0")
    for i, r in enumerate(evs):
        k = tr.start_event(r.act, r.act, env.dt(s.start_datetime, r.start), r.res)
        tr.complete_event(k, env.dt(s.start_datetime, r.end))
        tr.event_list[k].index = i
    g = parse_simulation_model(scen.files(m.nodes, m.flows, js)[0])
    seq = log_parser.sort_by_completion_times(tr)
    ok, fired, pending, enabling = g.reply_trace(seq, {}, True, tr.event_list)
    env.check(ok and pending == [], "simulated-trace-replays", info=str(seq))
    for ev, e in zip(tr.event_list, enabling):
        env.check((e - s.start_datetime).total_seconds() == evs[ev.index].enabled, "enabled-as-simulated", info=ev.task_id)
    env.observe("n", len(evs))


def metrics(env):
    """log_comparison_metrics computes the same waiting and processing times"""
    c = env.cfg
    m = Model(c["block"])
    g = parse_simulation_model(scen.files(m.nodes, m.flows, {})[0])
    run = Run(m, lambda n, k: env.choice(env.seq(n), k))
    tr, enabled, started = trace_of(env, run)
    tr.sort_by_completion_date(True)
    mw, mp = {}, {}
    compute_enabling_processing_times(tr, g, mw, mp)
    for ev in tr.event_list:
        env.check(ev.waiting_time == started[ev.index] - enabled[ev.index], "waiting", info=ev.task_id)
        env.check(ev.processing_time == (ev.completed_at - ev.started_at).total_seconds(), "processing")
    for t in m.tasks():
        mine = [ev for ev in tr.event_list if ev.task_id == t]
        if mine:
            env.check(mw[t] == env.maximum([0] + [ev.waiting_time for ev in mine]), "longest-waiting")
            env.check(mp[t] == env.maximum([0] + [ev.processing_time for ev in mine]), "longest-processing")
    env.observe("w", [ev.waiting_time for ev in tr.event_list])


B = dict(
    SEQ=("seq", "A", "B", "C"),
    XOR=("seq", "A", ("xor", "B", ("seq", "C", "D"), ("skip",)), "E"),
    AND=("seq", "A", ("and", "B", ("seq", "C", "D")), "E"),
    LOOP=("seq", "A", ("loop", "B", "C", 2), "D"),
    LOOP0=("seq", ("loop", "A", ("skip",), 2), "B"),
    ANDX=("and", ("seq", ("xor", "A", "B"), "C"), ("xor", "D", ("skip",))),
    XAND=("seq", ("xor", ("and", "A", "B"), "C"), "D"),
    LAND=("seq", ("loop", ("and", "A", "B"), "C", 1), "D"),
    ANDL=("seq", ("and", ("loop", "A", ("skip",), 1), "B"), "C"),
    AA=("seq", ("and", ("and", "A", "B"), "C"), "D"),
    OR2=("seq", "A", ("or", "B", "C"), "D"),
    LL=("seq", ("loop", ("loop", "A", "B", 1), "C", 1), "D"),
    XX=("seq", ("xor", ("xor", "A", "B"), "C"), ("xor", "D", "E")),
    ANDS=("seq", ("and", ("seq", "A", "B"), ("seq", "C", "D")), "E"),
    ANDXL=("seq", ("and", ("xor", "A", "B"), "C"), ("xor", "D", ("skip",)), "E"))
MORE = dict(
    OR3=("seq", "A", ("or", "B", "C", "D"), "E"),
    ORS=("seq", ("or", ("seq", "A", "B"), "C"), "D"),
    AND3=("seq", ("and", "A", "B", "C"), "D"),
    DEEP=("seq", "A", ("and", ("xor", "B", ("seq", "C", "D")), ("loop", "E", "F", 1)), "G"),
    LX=("seq", ("loop", ("xor", "A", ("seq", "B", "C")), ("xor", "D", "E"), 2), "F"),
    AAA=("seq", ("and", ("and", "A", "B"), ("seq", "C", ("and", "D", "E"))), "F"))
ORX = [
    ("seq", ("or", ("or", "A", "B"), "C"), "D"),
    ("seq", ("and", ("or", "A", "B"), "C"), "D"),
    ("seq", ("or", ("and", "A", "B"), "C"), "D"),
    ("seq", ("xor", ("or", "A", "B"), "C"), "D"),
    ("seq", ("or", ("xor", "A", "B"), "C"), "D"),
    ("seq", ("or", ("loop", "A", "B", 1), "C"), "D"),
    ("seq", ("or", "A", ("seq", "B", ("or", "C", "F"))), "D"),
    ("seq", "A", ("or", "B", "C"), ("or", "D", "E"), "F"),
    ("seq", ("or", ("seq", "A", "B"), ("seq", "C", "F")), "D"),
    ("or", "A", "B"),
    ("seq", ("or", ("or", ("or", "A", "B"), "C"), "F"), "D"),
    ("seq", ("or", ("or", "A", "B"), ("or", "C", "F")), "D"),
    ("seq", ("xor", ("or", ("or", "A", "B"), "C"), "F"), "D"),
    ("seq", ("and", ("or", "A", "B"), ("or", "C", "F")), "D"),
    ("seq", ("or", ("xor", ("or", "A", "B"), "C"), "F"), "D"),
    ("seq", ("or", ("and", ("or", "A", "B"), "C"), "F"), "D"),
    ("seq", ("or", ("or", "A", "B"), "C"), ("or", "D", "F"), "G"),
]
OR_CFG = [dict(block=b) for b in ORX] + [dict(block=("seq", ("loop", ("or", "A", "B"), "C", 1), "D"), or_loop=True)]
CFG = [dict(block=b) for b in B.values()] + OR_CFG + \
      [dict(block=("seq", ("loop", ("and", "A", "B"), ("skip",), 1), "D"), silent_loop=True)]
CFG_T = [dict(block=b) for b in MORE.values()]
_ = ("skip",)
SILENT = [
    dict(block=("seq", ("or", ("xor", "A", _), "B"), "D")),
    dict(block=("seq", ("or", ("xor", "A", _), ("xor", "B", _)), "D")),
    dict(block=("seq", ("or", _, "B"), "D")),
    dict(block=("seq", ("xor", ("and", ("xor", "A", _), "B"), "C"), "D")),
    dict(block=("seq", ("xor", _, ("xor", "A", _)), "D")),
    dict(block=("seq", ("or", ("seq", ("xor", "A", _), "B"), "C"), "D")),
    # known: a parallel block on a branch that is not taken is entered through its silent branch
    dict(block=("seq", ("or", ("and", ("xor", "A", _), "B"), "C"), "D"),
         known=[("C30-silent-branch-in-untaken-parallel-block", "CD")]),
    dict(block=("seq", ("and", ("or", _, "A"), "B"), "D")),
    dict(block=("seq", ("or", ("seq", "A", ("xor", "B", _)), "C"), "D")),
    dict(block=("seq", ("or", ("loop", "A", _, 1), "C"), "D")),
    dict(block=("seq", ("or", ("seq", ("xor", "A", _), ("xor", "B", _)), "C"), "D")),
    dict(block=("seq", ("xor", "A", _), ("xor", "B", _), "D")),
    dict(block=("seq", ("and", ("xor", "A", _), ("xor", "B", _)), "D")),
    # known: a parallel block executed without any of its activities
    dict(block=("seq", ("xor", ("and", ("xor", "A", _), ("xor", "B", _)), "C"), "D"),
         known=[("C30-silent-parallel-block", "D")]),
]
KP = [dict(block=B[k], n=2) for k in ("SEQ", "XOR")] + [dict(block=B[k], n=1) for k in ("AND", "ANDX", "LOOP", "XAND", "AA")] + \
     [dict(block=B["SEQ"], n=2, shuffled=True)]
KP_T = [dict(block=B[k], n=2) for k in ("AND", "LOOP", "XAND")]
RT = [dict(block=B[k], max=7) for k in ("SEQ", "XOR", "AND", "ANDX", "XAND", "AA", "OR2", "XX", "ANDS")]
RT_T = [dict(block=MORE[k], max=9) for k in ("OR3", "AND3", "AAA")]
ME = [dict(block=B[k]) for k in ("SEQ", "XOR", "AND", "LOOP", "ANDX", "XAND", "AA", "ANDS")]
HARNESSES = [
    Harness("replay", replay, CFG, "34 block-structured models with sequences, choices, parallel blocks, loops (up to 2 repetitions) "
            "and inclusive blocks, nested in each other and in all other blocks (thorough: 6 more); every run, every interleaving, times 0..1000 s", CFG_T),
    Harness("silent", silent, SILENT, "14 models with optional activities in choices, parallel, inclusive blocks and loops; every "
            "run, every interleaving, times 0..1000 s; the runs a sequence of activities stands for are enumerated"),
    Harness("kpis", kpis, KP, "CSV logs of one or two cases of 6 models", KP_T),
    Harness("metrics", metrics, ME, "one case of 8 models"),
    Harness("roundtrip", roundtrip, RT, "one simulated case of 9 models, durations 1..100 s, up to 7 activities", RT_T),
]
