"""Durations of activities executed in batches."""
from props import scen, simcases as sc
from props.c10 import batch, cfg as bcfg, size
from symx.runner import Harness
from prosimos.batch_processing_parser import BatchProcessingParser


def coef(table, n):
    """the coefficient configured for the largest size that is not larger than n; 1 for single items / smaller batches"""
    if n == 1:
        return 1
    ks = [k for k in table if k <= n]
    return table[max(ks)] if ks else 1


def scaling(env):
    c = env.cfg
    table = c["table"]
    js = batch(type=c["type"], dd=tuple(table.items()))
    conf = BatchProcessingParser(js).parse()["B"]
    d = env.flt("duration", 0, 10 ** 6)
    n = env.choice("size", c.get("n", 12)) + 1
    got = conf.calculate_ideal_duration(d, n)
    want = d * coef(table, n) * (n if c["type"] == "Parallel" else 1)
    env.check(env.close(got, want), "scaled-duration")
    env.observe("got", got)


def engine(env):
    c = env.cfg
    r = sc.run_cfg(env, c)
    b = c["extra"]["batch_processing"][0]
    table = {int(x["key"]): x["value"] for x in b["duration_distrib"]}
    rows = [e for e in r.events if e.act == "B"]
    env.observe("log", [(e.case, e.res, e.start, e.end, e.attrs["batch_id"]) for e in rows])
    groups, order = {}, []
    for e in rows:
        k = e.attrs["batch_id"], e.res
        if e.attrs["batch_id"] == "None":
            k = (k, len(order))
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append(e)
    used = {}
    for k in order:
        g = groups[k]
        n = len(g)
        alone = n == 1
        f = 1 if alone else coef(table, n)
        s = r.sampler.samples[("task", "B", g[0].res)]
        if b["type"] == "Parallel":
            i = used.get(g[0].res, 0)
            used[g[0].res] = i + 1
            for e in g:
                env.check(env.close(e.end - e.start, s[i] * f * n), "parallel-duration")
        else:
            for e in g:
                i = used.get(e.res, 0)
                used[e.res] = i + 1
                env.check(env.close(e.end - e.start, s[i] * f), "sequential-duration")
    for res, i in used.items():
        env.check(i == len(r.sampler.samples[("task", "B", res)]), "one-sample-per-execution")
    for e in r.events:
        if e.act == "A":
            env.check(env.close(e.end - e.start, e.duration), "not-batched-not-scaled")


TABLES = [{3: 0.5}, {1: 1.0, 10: 0.5}, {2: 0.5, 4: 0.25, 9: 0.125}, {5: 2.0}, {1: 1.0, 3: 0.75, 7: 0.5}, {}]
CFG = [dict(table=t, type=k) for t in TABLES for k in ("Parallel", "Sequential")]
DD = (((2, 0.5), (3, 0.25)), ((3, 0.5),))
ENG = [bcfg(3, batch(type=t, rules=r, dd=d), ra=("r1",), rb=("r2",), da=(10, 10), arrival=a, db=(0, 5000))
       for t in ("Parallel", "Sequential") for d in DD for r, a in ((size("=", 2), (0, 0)), (size(">=", 3), (0, 300)))]
ENG += [bcfg(2, batch(type=t, rules=size("=", 2), dd=DD[0], one=0.5), ra=("r1",), rb=("r2",), da=(10, 10), db=(0, 5000))
        for t in ("Parallel", "Sequential")]
HARNESSES = [
    Harness("scaling", scaling, CFG, "durations 0..10^6, batch sizes 1..12, the listed tables", [dict(c, n=40) for c in CFG]),
    Harness("engine", engine, ENG, "2-3 cases, durations of the batched activity 0..5000 s, size rules",
            [bcfg(4, batch(type=t, rules=size("=", 2), dd=d), ra=("r1",), rb=("r2", "r1"), da=(0, 500), db=(0, 5000))
             for t in ("Parallel", "Sequential") for d in DD]),
]
