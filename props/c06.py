"""Order in which waiting work is served."""
import datetime

from props import scen, simcases as sc
from symx.runner import Harness
from prosimos.execution_info import EnabledEvent
from prosimos.simulation_queues_ds import EventQueue

UTC = datetime.timezone.utc


def _least(env, live, e):
    p, t, n = live[e]
    return env.all([env.any([p < q, env.all([p == q, env.any([t < u, env.all([t == u, n < m])])])])
                    for f, (q, u, m) in live.items() if f is not e])


def queue(env):
    """append (A arrival / E enabled), serve (p), look (k): reference order = (priority, enabled time, insertion)"""
    q = EventQueue()
    live, n = {}, 0
    for k, op in enumerate(env.cfg["ops"]):
        if op in "AE":
            t = env.flt("t%d" % n, 0, 200, 4)
            e = EnabledEvent(n, None, "T%d" % n, t, env.dt(scen.MON9, t))
            p = env.int("prio%d" % n, 0, 3)
            (q.append_arrival_event if op == "A" else q.append_enabled_event)(e, p)
            live[e] = (p, t, n)
            n += 1
        else:
            e = q.pop_next_event() if op == "p" else q.peek()
            if not live:
                env.check(e is None, "empty")
                continue
            env.check(e in live, "known-item")
            if e in live:
                env.check(_least(env, live, e), "served-in-order" if op == "p" else "peek-in-order")
                if op == "p":
                    del live[e]
    while live:
        e = q.pop_next_event()
        env.check(e in live, "none-lost")
        if e not in live:
            return
        env.check(_least(env, live, e), "served-in-order")
        del live[e]
    env.check(q.pop_next_event() is None, "nothing-left")


RULES = [dict(priority_level=1, rules=[[dict(attribute="amount", comparison="in", value=["50", "inf"])]]),
         dict(priority_level=2, rules=[[dict(attribute="amount", comparison="in", value=["20", "49"])]])]
ATTR = [dict(name="amount", type="continuous", values=scen.dist(0, 100))]


def level(env, v):
    return env.ite(v >= 50, 1, env.ite(env.all([v >= 20, v <= 49]), 2, 9))


def served(env):
    """single-task process: all cases wait from the start, so the log must be in (priority, arrival, case) order"""
    c = env.cfg
    r = sc.run_cfg(env, c)
    env.check(sorted(e.case for e in r.events) == list(range(c["n"])), "every-case-once")
    am = {e.case: e.attrs["amount"] for e in r.events}
    for i, e in enumerate(r.events):
        for f in r.events[i + 1:]:
            a, b = level(env, am[e.case]), level(env, am[f.case])
            tie = env.all([a == b, env.any([e.enabled < f.enabled, env.all([e.enabled == f.enabled, e.case < f.case])])])
            env.check(env.any([a < b, tie]), "served-in-order")
    env.observe("log", [(e.case, e.enabled, e.start) for e in r.events])


def steps(env):
    """two tasks in sequence: whenever two items were waiting together, the one with the smaller key is served first"""
    c = env.cfg
    r = sc.run_cfg(env, c)
    pos = {(e.case, e.act): i for i, e in enumerate(r.events)}
    am = {e.case: (level(env, e.attrs["amount"]) if "amount" in e.attrs else 0) for e in r.events}
    env.check(sorted(pos) == [(k, a) for k in range(c["n"]) for a in "AB"], "every-item-once")
    for i, e in enumerate(r.events):
        for j, f in enumerate(r.events):
            if j <= i or e.case == f.case:
                continue
            waiting = f.act == "A" or pos[(f.case, "A")] < i     # f was already enqueued when e was served
            if waiting:
                a, b = am[e.case], am[f.case]
                env.check(env.any([a < b, env.all([a == b, e.enabled <= f.enabled])]), "not-overtaken")
    env.observe("log", [(e.case, e.act, e.enabled, e.start) for e in r.events])


H = (0, 5000)
EXTRA = dict(case_attributes=ATTR, prioritisation_rules=RULES)
ONE3 = dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}}, cal={"c": sc.DAYLONG}, arrival=H, n=3,
            extra=EXTRA)
SEQ2 = dict(graph=sc.SEQ, res={"r1": ("c", 36)}, tasks={"A": {"r1": H}, "B": {"r1": H}}, cal={"c": sc.DAYLONG},
            arrival=H, n=2, extra=EXTRA)
HARNESSES = [
    Harness("queue", queue, [dict(ops=o) for o in ("AAEp", "AEpEpk", "EEkpA", "AEAkpp", "pkEkpp")],
            "up to 4 items, every priority in 0..3 and every enabling time in 0..50, fixed operation shapes",
            [dict(ops=o) for o in ("AAAAE", "AEAEpEp")]),
    Harness("served", served, [dict(ONE3, n=2), ONE3], "3 waiting cases, attribute-based priorities of 3 levels, arrivals in [0,5000]"),
    Harness("steps", steps, [dict(SEQ2, extra={}), SEQ2], "2 cases x 2 tasks, one resource, with and without priorities",
            [dict(SEQ2, n=3, extra={})]),
]
