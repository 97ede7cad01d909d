"""Resource utilization and cost."""
from props import scen, simcases as sc
from symx.runner import Harness
from prosimos import simulation_stats_calculator as ssc


def engine(env):
    c = env.cfg
    env.merge_minmax()
    js = scen.sim_json(c["res"], c["tasks"], c["cal"], arrival=c.get("arrival", (0, 0)), **c.get("extra", {}))
    s = scen.setup(c["graph"][0], c["graph"][1], js, c["n"])
    env.dist = sc.Sampler(s, c.get("den", 1))
    log = scen.Rows()
    bpm = scen.SimBPMEnv(s, None, log)
    scen.execute_full_process(bpm)
    bpm.log_writer.force_write()
    rows = [scen.Ev(r, log.rows[0], s.start_datetime, s) for r in log.rows[1:]]
    _, tasks, resources, _, _ = bpm.log_info.compute_process_kpi(bpm)
    begin, end = env.minimum([e.start for e in rows]), env.maximum([e.end for e in rows])
    env.check(set(resources) == set(c["res"]), "every-resource-reported")
    for r, (calid, cost) in c["res"].items():
        k = resources[r]
        ivs = scen.absolute_intervals(c["cal"][calid], s.start_datetime, c["horizon"])
        mine = [e for e in rows if e.res == r]
        if c.get("parallel"):
            groups = {}
            for e in mine:
                groups.setdefault(e.attrs["batch_id"] if e.attrs["batch_id"] != "None" else ("one", e.case, e.act),
                                  []).append(e)
            worked = env.total([scen.working_time(env, ivs, g[0].start, g[0].end) for g in groups.values()])
        else:
            worked = env.total([scen.working_time(env, ivs, e.start, e.end) for e in mine])
        available = scen.working_time(env, ivs, begin, end)
        sim = bpm.sim_resources[r]
        env.check(sim.allocated_tasks == len(mine), "tasks-allocated")
        env.check(env.close(sim.worked_time, worked), "worked-time")
        env.check(env.close(sim.available_time, available), "available-time")
        u = k.utilization
        env.check(env.ite(available > 0, env.close(u * available, worked), u == -1), "utilization")
        env.check(env.implies(available > 0, env.all([u >= 0, u <= 1 + (0 if env.symbolic else 1e-9)])), "utilization-in-0-1")
        env.observe("util", (r, worked, available, u))
    for t in {e.act for e in rows}:
        es = [e for e in rows if e.act == t]
        hours = env.total([scen.working_time(env, scen.absolute_intervals(
            c["cal"][c["res"][e.res][0]], s.start_datetime, c["horizon"]), e.start, e.end) * c["res"][e.res][1] for e in es])
        env.check(env.close(tasks[t].cost.total * 3600, hours), "task-cost")
    env.observe("log", [(e.case, e.act, e.res, e.start, e.end) for e in rows])


H = (0, 9000)
D = 86400
PB = [dict(task_id="B", type="Parallel", size_distrib=[{"key": "1", "value": 0}, {"key": "2", "value": 1}],
           duration_distrib=[{"key": "2", "value": 2}],
           firing_rules=[[{"attribute": "size", "comparison": "=", "value": 2}]])]
SB = [dict(PB[0], type="Sequential")]
C = [
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("d", 18)}, tasks={"A": {"r1": (0, 20000)}, "B": {"r2": (0, 20000)}},
         cal={"c": sc.OFFICE, "d": sc.LATE}, n=1, horizon=5 * D),
    dict(graph=sc.ONE, res={"r1": ("c", 36)}, tasks={"A": {"r1": (0, 20000)}}, cal={"c": sc.SPLIT}, n=2,
         arrival=(0, 20000), horizon=5 * D),
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 0), "r3": ("c", 5)}, tasks={"A": {"r1": H, "r2": H}, "B": {"r2": H}},
         cal={"c": sc.DAYLONG}, n=2, arrival=(0, 3000), horizon=2 * D),
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 18)}, tasks={"A": {"r1": H}, "B": {"r2": H}},
         cal={"c": sc.DAYLONG}, n=2, arrival=(0, 0), horizon=2 * D, parallel=True, extra=dict(batch_processing=PB)),
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("c", 18)}, tasks={"A": {"r1": H}, "B": {"r2": H}},
         cal={"c": sc.DAYLONG}, n=2, arrival=(0, 0), horizon=2 * D, extra=dict(batch_processing=SB)),
]
C += [dict(C[1], cal={"c": sc.DAYLONG}, den=4)]
CT = [
    dict(graph=sc.SEQ, res={"r1": ("c", 36), "r2": ("d", 18)}, tasks={"A": {"r1": (0, 30000)}, "B": {"r2": (0, 30000)}},
         cal={"c": sc.SPLIT, "d": sc.LATE}, n=2, horizon=8 * D),
    dict(graph=sc.SEQ, res={"r1": ("c", 36)}, tasks={"A": {"r1": (0, 30000)}, "B": {"r1": (0, 30000)}},
         cal={"c": sc.OFFICE}, n=2, arrival=(0, 30000), horizon=9 * D),
    dict(graph=sc.PAR0, res={"r1": ("c", 36), "r2": ("c", 9)}, tasks={"B": {"r1": H}, "C": {"r2": H}, "D": {"r1": H}},
         cal={"c": sc.DAYLONG}, n=2, horizon=2 * D),
]
HARNESSES = [Harness("engine", engine, C, "1-2 cases, 1-3 resources, arbitrary whole-second durations and inter-arrival "
                     "times in the stated ranges, crisp calendars; with and without batches", CT)]
