"""Every simulation of a valid model ends, without an error, with all cases finished."""
from props import c10, c11, c28, scen, simcases as sc
from symx.runner import Harness
from prosimos.simulation_engine import SimBPMEnv, execute_full_process

ASSUMPTIONS = ["the listed models, which together contain every element kind and every section of the parameter file"]


def terminates(env):
    c = env.cfg
    nodes, flows = c["nodes"], c["flows"]
    tasks = [t for t, k in nodes.items() if k == "task"]
    events = [t for t, k in nodes.items() if k == "event"]
    gw = dict({g: {f: 0.5 for f, a, b in flows if a == g} for g, k in nodes.items()
               if k in ("xor", "or") and sum(a == g for f, a, b in flows) > 1}, **c.get("gw", {}))
    res = c.get("res") or {"r" + t: ("c", 1) for t in tasks}
    js = scen.sim_json(res, c.get("tasks") or {t: {"r" + t: (0, c["hi"])} for t in tasks}, {"c": c["cal"]}, gateways=gw,
                       arrival=(0, c.get("ahi", c["hi"])),
                       **dict(dict(event_distribution=[dict(event_id=e, **scen.dist(0, c["hi"])) for e in events]),
                              **c.get("extra", {})))
    if c.get("drop"):
        for k in c["drop"]:
            js.pop(k)
    env.shuffles(c.get("shuffle", "identity"))
    s = scen.setup(nodes, flows, js, c["n"], defaults=c.get("defaults"), events_in_log=True)
    env.dist = sc.Sampler(s)
    log = scen.Rows()
    stat = scen.Rows() if c.get("stats") else None
    import prosimos.simulation_engine as se
    with scen._RawTimes(env.symbolic):
        if stat is not None:
            se.run_simpy_simulation(s, stat, log)
        else:
            with scen._NoStats():
                se.run_simpy_simulation(s, None, log)
    rows = [scen.Ev(r, log.rows[0], s.start_datetime, s) for r in log.rows[1:]]
    env.observe("log", [(r.case, r.act) for r in rows])
    for k in range(c["n"]):
        mine = "".join(sorted(r.act for r in rows if r.case == k))
        env.check(mine in ["".join(sorted(x)) for x in c["runs"]], "case-finished", info="case %d: %s" % (k, mine))
    env.check(all(0 <= r.case < c["n"] for r in rows), "only-requested-cases")
    if stat is not None:
        env.check(any(r and r[0] == "Overall Scenario Statistics" for r in stat.rows), "statistics-written")


G = c28.graph
D = dict(cal=sc.DAYLONG, hi=8)
TERM = dict(G(dict(g="and", A="task", B="task", j="xor", e="term"), "s>g", "g>A", "g>B", "A>j", "B>j", "j>e"),
            runs=["AB", "A", "B"])
TERM2 = dict(G(dict(g="and", A="task", B="task", C="task", j="xor", e="term"), "s>g", "g>A", "g>B", "A>C", "C>j", "B>j", "j>e"),
             runs=["ABC", "AB", "B", "AC", "A"])
MERGE = dict(G(dict(x="xor", A="task", B="task", E="event", C="task"), "s>x", "x>A", "x>B", "A>E", "B>E", "E>C", "C>e"),
             runs=["AEC", "BEC"])
TMERGE = dict(G(dict(x="xor", A="task", B="task", C="task"), "s>x", "x>A", "x>B", "A>C", "B>C", "C>e"), runs=["AC", "BC"])
EMERGE = dict(G(dict(x="xor", A="task", B="task"), "s>x", "x>A", "x>B", "A>e", "B>e"), runs=["A", "B"])
OMERGE = dict(G(dict(x="or", A="task", B="task"), "s>x", "x>A", "x>B", "A>e", "B>e"), runs=["A", "B", "AB"])
IMPL = dict(G(dict(A="task", B="task", C="task", j="and"), "s>A", "A>B", "A>C", "B>j", "C>j", "j>e"), runs=["ABC"])
ESPLIT = dict(G(dict(E="event", B="task", C="task", j="and"), "s>E", "E>B", "E>C", "B>j", "C>j", "j>e"), runs=["EBC"])
MIXED = dict(G(dict(x="xor", A="task", B="task", m="xor", C="task", F="task", k="xor"), "s>x", "x>A", "x>B", "A>m", "B>m",
               "m>C", "m>F", "C>k", "F>k", "k>e"), runs=["AC", "BC", "AF", "BF"])
MIXAND = dict(G(dict(x="and", A="task", B="task", m="and", C="task", F="task", k="and"), "s>x", "x>A", "x>B", "A>m", "B>m",
                "m>C", "m>F", "C>k", "F>k", "k>e"), runs=["ABCF"])
EMPTY = dict(G(dict(A="task"), "s>A", "A>e"), runs=["A"])
NONE = dict(G(dict(x="xor", A="task", k="xor"), "s>x", "x>A", "x>k", "A>k", "k>e"), runs=["A", ""])
AB = dict(G(dict(A="task", B="task"), "s>A", "A>B", "B>e"), runs=["AB"])
BXOR = dict(G(dict(A="task", x="xor", B="task", C="task", k="xor"), "s>A", "A>x", "x>B", "x>C", "B>k", "C>k", "k>e"),
            runs=["AB", "AC"])
BPAR = dict(G(dict(g="and", A="task", B="task", k="and", C="task"), "s>g", "g>A", "g>B", "A>k", "B>k", "k>C", "C>e"),
            runs=["ABC"])
BB = dict(G(dict(A="task", B="task", C="task"), "s>A", "A>B", "B>C", "C>e"), runs=["ABC"])


def bat(task, type="Parallel", n=2, rules=None):
    return c10.batch(task, type, c10.size(">=", n) if rules is None else rules)[0]


ATTR = [dict(name="amount", type="continuous", values=scen.dist(0, 100)),
        dict(name="kind", type="discrete", values=[dict(key="a", value=0.25), dict(key="b", value=0.75)])]
PRIO = [dict(priority_level=1, rules=[[dict(attribute="amount", comparison="in", value=["50", "inf"])]])]
COND = [dict(id="c1", rules=[[dict(attribute="amount", comparison=">", value="40")]]),
        dict(id="c2", rules=[[dict(attribute="kind", comparison="=", value="a")]])]
CGW = {"x": {"f1": (0.5, "c1"), "f2": (0.5, "c2")}}
EVA = [dict(event_id="A", attributes=[dict(name="x", type="expression", values="x + amount"),
                                      dict(name="y", type="discrete", values=[dict(key="p", value=0.5), dict(key="q", value=0.5)])])]
CFG = [
    dict(TERM, **D, n=1), dict(TERM, **D, n=2), dict(TERM2, **D, n=1), dict(MERGE, **D, n=1), dict(MERGE, **D, n=2),
    dict(TMERGE, **D, n=2), dict(EMERGE, **D, n=2), dict(OMERGE, **D, n=1), dict(IMPL, **D, n=1, shuffle="all"),
    dict(ESPLIT, **D, n=1, shuffle="all"), dict(MIXED, **D, n=1), dict(MIXAND, **D, n=1), dict(NONE, **D, n=2),
    # statistics of small simulations
    dict(EMPTY, **D, n=1, stats=True), dict(AB, **D, n=1, stats=True, cal_=1), dict(c28.SEQ, **D, n=1, stats=True),
    # batches that never reach their size, batches everywhere
    dict(AB, **D, n=3, extra=dict(batch_processing=[bat("B", n=2)])),
    dict(AB, **D, n=3, extra=dict(batch_processing=[bat("A", n=2)])),
    dict(AB, **D, n=2, extra=dict(batch_processing=[bat("A", n=2), bat("B", "Sequential", n=2)])),
    dict(AB, **D, n=2, extra=dict(batch_processing=[bat("A", n=3), bat("B", n=3)])),
    dict(BXOR, **D, n=2, extra=dict(batch_processing=[bat("B", n=2), bat("C", "Sequential", n=2)])),
    dict(BPAR, **D, n=2, extra=dict(batch_processing=[bat("A", n=2), bat("B", "Sequential", n=2)])),
    dict(BPAR, **D, n=2, extra=dict(batch_processing=[bat("C", n=2)])),
    dict(BB, **D, n=2, extra=dict(batch_processing=[bat("B", rules=c10.wt("ready_wt", 5, 100))])),
    dict(BB, **D, n=2, extra=dict(batch_processing=[bat("B", rules=c10.wt("large_wt", 5, 100))])),
    # attributes, conditions, priorities
    dict(TMERGE, **D, n=2, gw=CGW, extra=dict(case_attributes=ATTR, branch_rules=COND, prioritisation_rules=PRIO)),
    dict(OMERGE, **D, n=1, gw=CGW, extra=dict(case_attributes=ATTR, branch_rules=COND)),
    dict(OMERGE, **D, n=1, gw=CGW, extra=dict(case_attributes=ATTR, branch_rules=COND), defaults={"x": "f1"}),
    dict(TMERGE, **D, n=1, gw=CGW, extra=dict(case_attributes=ATTR, branch_rules=COND, event_attributes=EVA)),
]
for _c in CFG:
    _c.pop("cal_", None)
CFG_T = [dict(TERM2, **D, n=2), dict(OMERGE, **D, n=2), dict(MIXED, **D, n=2), dict(MIXAND, **D, n=2),
         dict(AB, **D, n=4, extra=dict(batch_processing=[bat("B", n=2)])), dict(AB, **D, n=2, stats=True),
         dict(BB, **D, n=3, extra=dict(batch_processing=[bat("B", rules=c10.wt("ready_wt", 5, 100))]))]
HARNESSES = [
    Harness("terminates", terminates, CFG, "29 models: terminate end events, merges at tasks, events and end events, implicit "
            "splits, mixed gateways, all kinds of batches with incomplete batches, conditions, priorities, attributes; 1-3 "
            "cases, all draws, durations 0..8 s", CFG_T),
]
