"""Batching: every case once, in one batch; shape of sequential and parallel batches."""
from props import scen, simcases as sc
from symx.runner import Harness
from prosimos.batch_processing import OrFiringRule

H = (0, 4000)


def batch(task="B", type="Parallel", rules=None, one=0, dd=((2, 1),), size=None):
    return [dict(task_id=task, type=type, size_distrib=[dict(key="1", value=one), dict(key=str(size or 2), value=1 - one)],
                 duration_distrib=[dict(key=str(k), value=v) for k, v in dd], firing_rules=rules if rules is not None else [])]


def size(op, n):
    return [[dict(attribute="size", comparison=op, value=n)]]


def wt(kind, lo, hi):
    return [[dict(attribute=kind, comparison=">=", value=lo), dict(attribute=kind, comparison="<=", value=hi)]]


def batched(env):
    c = env.cfg
    r = sc.run_cfg(env, c)
    env.observe("log", [(e.case, e.act, e.res, e.enabled, e.start, e.end) for e in r.events])
    btask = c["extra"]["batch_processing"][0]["task_id"]
    kind = c["extra"]["batch_processing"][0]["type"]
    tasks = [t for t, k in c["graph"][0].items() if k == "task"]
    for k in range(c["n"]):
        for t in tasks:
            m = [e for e in r.events if str(e.case) == str(k) and e.act == t]
            env.check(len(m) == 1, "each-case-once-%s" % ("batched" if t == btask else "other"))
    rows = [e for e in r.events if e.act == btask]
    groups = {}
    for e in rows:
        b = e.attrs["batch_id"]
        env.check(b is not None, "has-batch")
        env.check(env.all([e.enabled <= e.start, e.start <= e.end]), "timeline")
        if b != "None":
            groups.setdefault((b, e.res), []).append(e)
    for e in rows:      # enabled at completion of the predecessors
        pre = [x for x in r.events if x.case == e.case and x.act in r.preds.get(btask, [])]
        if pre:
            env.check(e.enabled == env.maximum([x.end for x in pre]), "enabled-when-caused")
    for g in groups.values():
        for i, a in enumerate(g):
            for b in g[:i]:
                apart = env.any([a.start >= b.end, b.start >= a.end])
                if kind == "Parallel":
                    env.check(env.any([env.all([a.start == b.start, a.end == b.end]), apart]), "parallel-members-together")
                else:
                    env.check(apart, "sequential-members-apart")
    if kind == "Sequential":     # without gaps while the resource works: one starts when the previous one ends
        for g in groups.values():
            for a, b in zip(g, g[1:]):
                env.check(b.start >= a.end, "sequential-in-order")
    # different batches of a resource do not overlap
    ks = sorted(groups, key=str)
    for i, x in enumerate(ks):
        for y in ks[:i]:
            if x[1] == y[1]:
                for a in groups[x]:
                    for b in groups[y]:
                        env.check(env.any([a.start >= b.end, b.start >= a.end]), "batches-of-one-resource-apart")
    sizes = sorted(len(g) for g in groups.values())
    lim = c.get("sizes")
    if lim:
        for s in sizes:
            env.check(s in lim, "size-within-rule")


def fired_together(env):
    """a rule that fires several batches at once: the waiting items are split as the rule says"""
    c = env.cfg
    env.shuffles("identity")
    split = [1 + env.choice("size%d" % i, c["max"]) for i in range(c["batches"])]
    n = sum(split)

    class Rule(OrFiringRule):
        def is_true(self, spec):
            return (True, list(split), spec["curr_enabled_at"]) if spec["size"] >= n else (False, None, None)

    js = scen.sim_json({"rA": ("c", 1), "rB": ("c", 1)}, {"A": {"rA": (10, 10)}, "B": {"rB": (100, 100)}}, {"c": sc.DAYLONG},
                       arrival=(1, 1), batch_processing=batch(type=c["type"], rules=size("=", 2)))
    s = scen.setup(sc.SEQ[0], sc.SEQ[1], js, n)
    s.bpmn_graph.batch_info["B"].firing_rules = Rule(s.bpmn_graph.batch_info["B"].firing_rules.rules)
    env.dist = sc.Sampler(s, 1)
    rows = [e for e in scen.run_log(env, s)[0] if e.act == "B"]
    env.observe("rows", [(e.case, e.start, e.end) for e in rows])
    env.check(sorted(int(e.case) for e in rows) == list(range(n)), "each-item-once")
    by_case = {int(e.case): e for e in rows}
    cut, last, end = 0, 0, None
    for k in split:
        items = [by_case[i] for i in range(cut, cut + k)]
        if end is not None:
            env.check(env.all([e.start >= end for e in items]), "batch-after-batch")
        if c["type"] == "Parallel":
            env.check(env.all([env.all([e.start == items[0].start, e.end == items[0].end]) for e in items]), "items-of-the-batch")
        end = env.maximum([e.end for e in items])
        cut += k


ALWAYS = {"c": sc.DAYLONG}
R2 = {"r1": ("c", 1), "r2": ("c", 2)}
PRI = [dict(name="x", type="continuous", values=scen.dist(0, 10))]
PRULE = [dict(priority_level=1, rules=[[dict(attribute="x", comparison="in", value=["0", "3"])]])]


def cfg(n, b, ra=("r1", "r2"), rb=("r1",), arrival=(0, 0), res=R2, graph=sc.SEQ, da=H, db=(100, 100), cal=ALWAYS, **extra):
    return dict(graph=graph, res=res, tasks={"A": {x: da for x in ra}, "B": {x: db for x in rb}}, cal=cal, n=n,
                arrival=arrival, extra=dict(batch_processing=b, **extra))


CFG = [cfg(n, batch(type=t, rules=r)) for t in ("Parallel", "Sequential") for n, r in (
    (3, size("=", 2)), (3, size(">=", 2)), (3, size("<=", 3)), (3, size("<", 3)), (3, size(">", 2)))]
CFG += [cfg(3, batch(type=t, rules=wt(k, 600, 1200))) for t in ("Parallel", "Sequential") for k in ("ready_wt", "large_wt")]
CFG += [cfg(3, batch(type=t, rules=size("=", 2)), db=(100, 3000)) for t in ("Parallel", "Sequential")]
CFG += [cfg(3, batch(type=t, rules=size("=", 2)), da=(0, 1000), case_attributes=PRI, prioritisation_rules=PRULE)
        for t in ("Parallel", "Sequential")]
CFG += [cfg(3, batch(type="Parallel", rules=[], size=2)), cfg(3, batch(type="Parallel", rules=[], size=3)),
        cfg(2, batch(type="Parallel", rules=size("=", 2), one=0.5))]


def sub(*rules):
    return [[dict(attribute=a, comparison=o, value=v) for a, o, v in g] for g in rules]


EXTRA = [cfg(2, batch(type="Parallel", rules=r), da=(0, 200000)) for r in (
    sub([("week_day", "=", "Tuesday")]), sub([("daily_hour", ">=", "12")]), sub([("daily_hour", "<", "10")]),
    sub([("daily_hour", "=", "12")]),
    sub([("week_day", "=", "Tuesday"), ("size", ">=", 2)]), sub([("week_day", "=", "Tuesday"), ("daily_hour", "=", "12")]),
    sub([("size", ">=", 3)], [("daily_hour", ">=", "12")]), sub([("size", "=", 3)], [("ready_wt", "<", 3600)]),
    sub([("ready_wt", "<", 100000)]), sub([("large_wt", "<", 100000)]), sub([("large_wt", "=", 100000)]),
    sub([("ready_wt", "=", 100000)]),
    sub([("ready_wt", "<=", 3600), ("large_wt", "<=", 7200)]), sub([("ready_wt", "<=", 3600), ("week_day", "=", "Tuesday")]),
    sub([("ready_wt", "<=", 3600), ("size", ">=", 3)]), sub([("large_wt", "<=", 3600), ("size", ">", 3)]),
    sub([("daily_hour", ">=", "12"), ("daily_hour", "<", "18")]),
    )]
QUICK = [CFG[i] for i in (0, 4, 7, 10, 11, 13, 14, 18, 19, 20)]
SMALL = [dict(CFG[i], n=2) for i in (15, 16, 17)]
HARNESSES = [Harness("batched", batched, QUICK + SMALL + EXTRA,
                     "sequence A -> B with B batched, 3 cases (2 for rules on hours and days), two resources; durations "
                     "arbitrary in [0, 4000] s ([0, 200000] s for rules on hours and days), all shuffles; rule shapes "
                     "concrete per configuration", [c for c in CFG if c not in QUICK]),
             Harness("fired_together", fired_together, [dict(type=t, batches=b, max=3) for t in ("Parallel", "Sequential") for b in (2, 3)],
                     "a firing rule (a stand-in) that fires 2-3 batches of 1-3 items at once, every split",
                     [dict(type="Parallel", batches=4, max=3)])]
