"""Intermediate events and event-based gateways."""
from props import scen, simcases as sc
from symx.runner import Harness
from prosimos.simulation_engine import SimBPMEnv, execute_full_process

ASSUMPTIONS = ["concrete graphs with up to four events; every flow leaving an event-based gateway leads to an intermediate "
               "event (BPMN); events are timers with a distribution in the parameters"]
NOBODY = "No assigned resource"


def run(env, c):
    """simulate through the engine; -> rows of the log, LogInfo, sampler"""
    nodes, flows = c["nodes"], c["flows"]
    tasks = [t for t, k in nodes.items() if k == "task"]
    events = [t for t, k in nodes.items() if k == "event"]
    gw = {g: {f: 0.5 for f, a, b in flows if a == g} for g, k in nodes.items()
          if k in ("xor", "or") and sum(a == g for f, a, b in flows) > 1}
    js = scen.sim_json({"r" + t: ("c", 1) for t in tasks}, {t: {"r" + t: (0, c["hi"])} for t in tasks},
                       {"c": c["cal"]}, gateways=gw, arrival=(0, c["hi"]),
                       event_distribution=[dict(event_id=e, **scen.dist(0, c["ehi"])) for e in events], **c.get("extra", {}))
    s = scen.setup(nodes, flows, js, c["n"], events_in_log=c.get("in_log", True))
    sampler = env.dist = sc.Sampler(s, c.get("den", 1))
    log = scen.Rows()
    with scen._RawTimes(env.symbolic), scen._NoAggregates():
        bpm = SimBPMEnv(s, None, log)
        execute_full_process(bpm)
        bpm.log_writer.force_write()
    rows = [scen.Ev(r, log.rows[0], s.start_datetime, s) for r in log.rows[1:]]
    return rows, bpm.log_info, sampler, s


def events(env):
    c = env.cfg
    rows, info, sampler, s = run(env, c)
    kinds = {n: k for n, k in c["nodes"].items() if k in ("task", "event")}
    env.observe("log", [(r.case, r.act, r.res, r.enabled, r.start, r.end) for r in rows])
    end_of = {(r.case, r.act): r.end for r in rows}
    traces = {tr.p_case: tr.event_list for tr in info.trace_list}
    if not c.get("in_log", True):
        env.check(all(kinds[r.act] == "task" for r in rows), "events-not-in-the-log-unless-asked-for")
    sec = lambda d: (d - s.start_datetime).total_seconds()
    for case in range(c["n"]):
        mine = [r for r in rows if r.case == case]
        recorded = [(ev.task_id, sec(ev.enabled_datetime), sec(ev.started_datetime), sec(ev.completed_datetime))
                    for ev in traces[case]]
        if c.get("in_log", True):
            env.check(len(recorded) == len(mine), "every-event-recorded-once")
            env.check(env.all([env.all([a[0] == b.act, a[1] == b.enabled, a[2] == b.start, a[3] == b.end])
                               for a, b in zip(recorded, mine)]), "recorded-as-logged")
        ends = {a[0]: a[3] for a in recorded}
        begins = {a[0]: a[1] for a in recorded}
        env.check(sorted(ends) in [sorted(x) for x in c["runs"]], "one-of-the-possible-runs", info=str(sorted(ends)))
        for a in recorded:
            if kinds[a[0]] == "event":
                got = sampler.samples.get(("event", a[0]), [])
                env.check(env.any([a[3] - a[1] == v for v in got]), "delay-is-a-sampled-duration", info=a[0])
                env.check(a[2] == a[1], "starts-when-enabled", info=a[0])
            preds = [p for p in c["preds"].get(a[0], []) if p in ends]
            if preds:
                env.check(a[1] == env.maximum([ends[p] for p in preds]), "enabled-at-completion-of-cause", info=a[0])
        for r in mine:
            if kinds[r.act] == "event":
                env.check(r.res == NOBODY, "needs-no-resource")
        for g in c.get("race", []):
            won = [e for e in g if e in ends]
            if not won:
                continue
            w = won[0]
            mw = sampler.samples.get(("event", w), [])
            lost = [sampler.samples.get(("event", e), []) for e in g if e != w]
            env.check(len(won) == 1, "only-one-event-of-a-gateway")
            env.check(env.any([env.all([ends[w] - begins[w] == mw[i]] + [mw[i] <= l[i] for l in lost if i < len(l)])
                               for i in range(len(mw))]), "the-first-event-wins")
            env.check(all(len(l) == len(mw) for l in lost), "one-duration-per-event-and-gateway", info=str(w))


def graph(nodes, *flows):
    kinds = dict(s="start", e="end")
    kinds.update(nodes)
    return dict(nodes=kinds, flows=[("f%d" % i,) + tuple(f.split(">")) for i, f in enumerate(flows)])


SEQ = dict(graph(dict(A="task", E="event", B="task"), "s>A", "A>E", "E>B", "B>e"),
           preds={"E": ["A"], "B": ["E"]}, runs=["AEB"])
TWO = dict(graph(dict(E="event", F="event", B="task"), "s>E", "E>F", "F>B", "B>e"),
           preds={"F": ["E"], "B": ["F"]}, runs=["EFB"])
PAR = dict(graph(dict(A="task", g="and", E="event", B="task", F="event", j="and", D="task"),
                 "s>A", "A>g", "g>E", "g>B", "g>F", "E>j", "B>j", "F>j", "j>D", "D>e"),
           preds={"E": ["A"], "F": ["A"], "B": ["A"], "D": ["E", "F", "B"]}, runs=["ABEFD"])
RACE = dict(graph(dict(A="task", g="ebg", E="event", F="event", B="task", C="task", j="xor", D="task"),
                  "s>A", "A>g", "g>E", "g>F", "E>B", "F>C", "B>j", "C>j", "j>D", "D>e"),
            preds={"E": ["A"], "F": ["A"], "B": ["E"], "C": ["F"], "D": ["B", "C"]}, runs=["AEBD", "AFCD"],
            race=[("E", "F")])
RACE3 = dict(graph(dict(g="ebg", E="event", F="event", G="event", j="xor", D="task"),
                   "s>g", "g>E", "g>F", "g>G", "E>j", "F>j", "G>j", "j>D", "D>e"),
             preds={"D": ["E", "F", "G"]}, runs=["ED", "FD", "GD"], race=[("E", "F", "G")])
RACE2 = dict(graph(dict(g="ebg", E="event", F="event", j="xor"), "s>g", "g>E", "g>F", "E>j", "F>j", "j>e"),
             preds={}, runs=["E", "F"], race=[("E", "F")])
OFFICE = dict(cal=sc.OFFICE, hi=20000, ehi=200000)
DAY = dict(cal=sc.DAYLONG, hi=100, ehi=300)
CFG = [dict(SEQ, **OFFICE, n=1), dict(SEQ, **DAY, n=1, den=4), dict(RACE, **DAY, n=1, den=4), dict(SEQ, **DAY, n=2), dict(TWO, **DAY, n=2), dict(PAR, **DAY, n=1),
       dict(SEQ, **DAY, n=2, in_log=False), dict(PAR, **dict(OFFICE, hi=2000), n=1), dict(RACE, **DAY, n=1),
       dict(RACE2, **DAY, n=2), dict(RACE3, **DAY, n=1), dict(RACE, **OFFICE, n=1)]
CFG_T = [dict(SEQ, **DAY, n=2, den=4), dict(RACE, **DAY, n=2), dict(SEQ, **DAY, n=3), dict(PAR, **DAY, n=2), dict(RACE3, **DAY, n=2), dict(PAR, **OFFICE, n=1)]
HARNESSES = [
    Harness("events", events, CFG,
            "sequences, parallel blocks and event-based gateways with up to three events; one or two cases (thorough: three); "
            "event durations 0..300 s (also fractions), or 0..200000 s around office hours; activities up to 20000 s", CFG_T),
]
