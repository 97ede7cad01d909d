"""The parsed model and parameters are those of the files."""
import json

from pix_framework.statistics.distribution import DurationDistribution

import prosimos.simulation_properties_parser as spp
from prosimos.control_flow_manager import BPMN
from prosimos.simulation_properties_parser import parse_json_sim_parameters, parse_simulation_model
from props import c18, scen, simcases as sc
from symx.runner import Harness

ASSUMPTIONS = ["XML and JSON syntax is read by the standard library (concrete documents; wiring, kinds and numbers are chosen "
               "symbolically)", "one process per file, one start and one end event"]
KINDS = {"task": BPMN.TASK, "start": BPMN.START_EVENT, "end": BPMN.END_EVENT, "term": BPMN.END_EVENT, "xor": BPMN.EXCLUSIVE_GATEWAY,
         "and": BPMN.PARALLEL_GATEWAY, "or": BPMN.INCLUSIVE_GATEWAY, "ebg": BPMN.EVENT_BASED_GATEWAY, "event": BPMN.INTERMEDIATE_EVENT}
EXPL = {"task": ("xor", "and"), "event": ("xor", "and"), "end": ("or", None), "term": ("or", None)}


def explicit(nodes, flows):
    """the model in which implicit joins and splits are gateways of their own"""
    ns, src, dst, extra = dict(nodes), {}, {}, []
    for n, k in nodes.items():
        i, o = [f for f, a, b in flows if b == n], [f for f, a, b in flows if a == n]
        join, split = EXPL.get(k, (None, None))
        if k in ("xor", "and", "or", "ebg") and len(i) > 1 and len(o) > 1:
            join = k
        if join and len(i) > 1:
            ns["join of " + n] = join
            dst.update({f: "join of " + n for f in i})
            extra.append(("to " + n, "join of " + n, n))
        if split and len(o) > 1:
            ns["split of " + n] = split
            src.update({f: "split of " + n for f in o})
            extra.append(("from " + n, n, "split of " + n))
    return ns, [(f, src.get(f, a), dst.get(f, b)) for f, a, b in flows] + extra


def shape(nodes, kinds, flows):
    """kinds and connections up to the names of the added gateways and flows"""
    def name(n):
        if n in nodes:
            return n
        i, o = sorted(f for f, a, b in flows if b == n and f in ORIG), sorted(f for f, a, b in flows if a == n and f in ORIG)
        return "added(%s|%s)" % (",".join(i), ",".join(o))
    ORIG = shape.flows
    return sorted((name(n), str(k)) for n, k in kinds.items()), sorted((f if f in ORIG else "-", name(a), name(b)) for f, a, b in flows)


def structure(env):
    """every element and flow of the document, in any order, of any kind and wiring"""
    c = env.cfg
    mids = ["m%d" % i for i in range(c["n"])]
    nodes = {"s": "start"}
    for m in mids:
        nodes[m] = c["kinds"][env.choice("kind_" + m, len(c["kinds"]))]
    nodes["e"] = ["end", "term"][env.choice("end", 2)]
    flows = [("f_s", "s", mids[0])]
    for i, m in enumerate(mids):
        targets = [t for t in mids[:] + ["e"] if t != m]
        w = 1 + env.choice("out_" + m, 2 ** len(targets) - 1)
        for j, t in enumerate(targets):
            if w >> j & 1:
                flows.append(("f_%s_%s" % (m, t), m, t))
    if env.choice("reversed", 2):
        nodes = dict(reversed(nodes.items()))
        flows = flows[::-1]
    b, _ = scen.files(nodes, flows, {})
    if c.get("noise"):
        # artifacts that are not part of the process flow
        with open(b) as f:
            x = f.read()
        x = x.replace("</process>", '<dataObject id="d1"/><textAnnotation id="n1"><text>x</text></textAnnotation>'
                      '<association id="a1" sourceRef="n1" targetRef="m0"/></process>')
        b = b + ".noise.bpmn"
        with open(b, "w") as f:
            f.write(x)
    g = parse_simulation_model(b)
    ns, fl = explicit(nodes, flows)
    shape.flows = {f for f, _, _ in flows}
    got = shape(nodes, {i: e.type for i, e in g.element_info.items()}, [(f, a, t) for f, (a, t) in g.flow_arcs.items()])
    want = shape(nodes, {i: KINDS[k] for i, k in ns.items()}, fl)
    env.check(got[0] == want[0], "elements-and-types", info="%s instead of %s" % (got[0], want[0]))
    env.check(got[1] == want[1], "flows", info="%s instead of %s" % (got[1], want[1]))
    for i, e in g.element_info.items():
        env.check(e.id == i and sorted(e.incoming_flows) == sorted(f for f, (a, t) in g.flow_arcs.items() if t == i), "incoming")
        env.check(sorted(e.outgoing_flows) == sorted(f for f, (a, t) in g.flow_arcs.items() if a == i), "outgoing")
    env.check(g.starting_event == "s" and g.end_event == "e", "start-and-end")
    for n in nodes:
        env.check(g.from_name.get(n) == n, "found-by-name")
    for bits, what in ((g.arcs_bitset, set(g.flow_arcs)), (g.nodes_bitset, set(g.element_info))):
        env.check(set(bits) == what and len(set(bits.values())) == len(what) and
                  all(v > 0 and v & (v - 1) == 0 for v in bits.values()), "distinct-bits")
    env.observe("m", (sorted(g.element_info), sorted(g.flow_arcs)))


def implicit(env):
    """a model with implicit joins and splits behaves like the one with explicit gateways"""
    c = env.cfg
    rows, oracles = c18.play(env, c["nodes"], c["flows"], c.get("exits"))
    ns, fl = explicit(c["nodes"], c["flows"])
    c18.compare(env, ns, fl, rows, oracles)


def limits(env, d, want, label):
    """the distribution object of the library has the configured parameters"""
    kind, vals = want
    env.check(isinstance(d, DurationDistribution) and d.type.value == kind, label + "-kind")
    got = dict(fix=lambda: [d.mean], uniform=lambda: [d.min, d.max], norm=lambda: [d.mean, d.std, d.min, d.max])[kind]()
    env.check(env.all([a == b for a, b in zip(got, vals)]), label)


def parameters(env):
    """numbers of the parameter file arrive where they belong"""
    c = env.cfg
    n = {}

    def num(name, lo=0, hi=10 ** 6):
        n[name] = env.flt(name, lo, hi)
        return n[name]

    amounts = {"r1": 1 + env.choice("amount1", c["amount"]), "r2": 1 + env.choice("amount2", c["amount"])}
    pools = [{"id": "P" + r, "name": "pool " + r, "resource_list": [
        {"id": r, "name": "name " + r, "amount": str(k) if c.get("text") else k, "calendar": "c" + r, "assignedTasks": [],
         "cost_per_hour": num("cost_" + r)}]} for r, k in amounts.items()]

    dists = {}

    def dist(name, kind):
        vals = [num("%s_%d" % (name, i)) for i in range(dict(fix=1, uniform=2, norm=4)[kind])]
        dists[name] = (kind, vals)
        return {"distribution_name": kind, "distribution_params": [{"value": v} for v in vals]}
    who = {"A": ["r1"], "B": ["r2", "r1"]}
    limit = env.int("limit", 1, 10 ** 6)
    p = env.flt("p", 0, 16, 16)
    js = {
        "resource_profiles": pools,
        "resource_calendars": [{"id": "c" + r, "name": "x", "time_periods": [
            {"from": "MONDAY", "to": "MONDAY" if r == "r1" else "FRIDAY", "beginTime": "09:00:00", "endTime": "17:00:00"}]} for r in amounts],
        "arrival_time_distribution": dist("arr", c["kinds"][0]),
        "arrival_time_calendar": [{"from": "TUESDAY", "to": "THURSDAY", "beginTime": "10:00:00", "endTime": "12:00:00"}],
        "gateway_branching_probabilities": [{"gateway_id": "g", "probabilities": [{"path_id": "f1", "value": p},
                                                                                  {"path_id": "f2", "value": 1 - p}]}],
        "task_resource_distribution": [{"task_id": t, "resources": [dict(resource_id=r, **dist("d%s%s" % (t, r), c["kinds"][r == "r1"]))
                                                                    for r in rs]} for t, rs in who.items()],
        "event_distribution": [dict(event_id="ev", **dist("event", c["kinds"][2]))],
        "gateway_execution_limit": limit,
    }
    if c.get("nolimit"):
        del js["gateway_execution_limit"]
    old = spp.json

    class J:
        @staticmethod
        def load(f):
            return js
    spp.json = J
    try:
        b, f = scen.files({"s": "start", "e": "end"}, [("f", "s", "e")], {})
        (resources, calendars, element, tasks, arrival, events, batches, prio, rules, conds, attrs, gl, model,
         multi) = parse_json_sim_parameters(f)
    finally:
        spp.json = old
    ids = {r: [r] if k == 1 else ["%s_%d" % (r, i) for i in range(k)] for r, k in amounts.items()}
    env.check(set(resources) == set(ids["r1"] + ids["r2"]), "resources", info=str(sorted(resources)))
    for r, names in ids.items():
        for i, x in enumerate(names):
            pr = resources[x]
            env.check(pr.cost_per_hour == n["cost_" + r], "cost", info=x)
            env.check(pr.calendar_id == "c" + r and pr.resource_amount == 1 and pr.resource_id == x, "profile", info=x)
            env.check(pr.resource_name == ("name " + r if len(names) == 1 else "name %s_%d" % (r, i)), "resource-name")
            env.check((pr.pool_info.pool_id, pr.pool_info.pool_name) == ("P" + r, "pool " + r), "pool")
    env.check(set(calendars) == {"cr1", "cr2"}, "calendars")
    for k, (cal, days, h0, h1) in enumerate(((calendars["cr1"], range(0, 1), 9, 17), (calendars["cr2"], range(0, 5), 9, 17),
                                              (arrival, range(1, 4), 10, 12))):
        for d in range(7):
            got = cal.work_intervals.get(d, [])
            want = 1 if d in days else 0
            env.check(len(got) == want and all((i.start.hour, i.end.hour, i.start.minute, i.end.minute) == (h0, h1, 0, 0) for i in got),
                      "calendar-periods")
    env.check(set(tasks) == {"A", "B"}, "tasks")
    for t, rs in who.items():
        env.check(set(tasks[t]) == {x for r in rs for x in ids[r]}, "task-resources", info=t)
        for r in rs:
            for x in ids[r]:
                limits(env, tasks[t][x], dists["d%s%s" % (t, r)], "task-duration")
    limits(env, element["arrivalTime"], dists["arr"], "arrival")
    env.check(list(element["g"].candidates_list) == ["f1", "f2"], "gateway-flows")
    env.check(env.all([element["g"].probability_list[0] == p, element["g"].probability_list[1] == 1 - p]), "gateway-probabilities")
    env.check(set(events) == {"ev"}, "events")
    limits(env, events["ev"], dists["event"], "event-duration")
    env.check(gl == (1000 if c.get("nolimit") else limit), "gateway-limit")
    env.check(batches == {} and multi is None, "absent-sections")


g = c18.g
IMPL = [
    g(dict(x="xor", A="task", B="task", C="task"), "s>x", "x>A", "x>B", "A>C", "B>C", "C>e"),
    g(dict(A="task", x="xor", B="task"), "s>A", "A>x", "x>A", "x>B", "B>e", exits=dict(x="f3")),
    g(dict(a="and", A="task", B="task"), "s>a", "a>A", "a>B", "A>e", "B>e"),
    g(dict(a="xor", A="task", B="task"), "s>a", "a>A", "a>B", "A>e", "B>e"),
    g(dict(a="or", A="task", B="task", C="task"), "s>a", "a>A", "a>B", "a>C", "A>e", "B>e", "C>e"),
    g(dict(A="task", B="task", C="task"), "s>A", "A>B", "A>C", "B>e", "C>e"),
    g(dict(A="task", m="xor", B="task"), "s>A", "A>m", "m>B", "B>m", "m>e", exits=dict(m="f4")),
    g(dict(a="and", A="task", B="task", m="and", C="task", D="task", j="and", F="task"),
      "s>a", "a>A", "a>B", "A>m", "B>m", "m>C", "m>D", "C>j", "D>j", "j>F", "F>e"),
    g(dict(a="or", A="task", B="task", m="or", C="task", D="task", j="or", F="task"),
      "s>a", "a>A", "a>B", "A>m", "B>m", "m>C", "m>D", "C>j", "D>j", "j>F", "F>e"),
    g(dict(x="xor", A="task", B="task", E="event", C="task", D="task", j="and"),
      "s>x", "x>A", "x>B", "A>E", "B>E", "E>C", "E>D", "C>j", "D>j", "j>e"),
    # two implicit joins and splits in a row
    g(dict(x="xor", A="task", B="task", C="task", D="task"), "s>x", "x>C", "x>A", "A>C", "C>B", "C>D", "B>e", "D>e"),
]
ST = [dict(n=2, kinds=list(KINDS)[:1] + ["xor", "and", "or", "event"]), dict(n=3, kinds=["task", "or"]), dict(n=3, kinds=["xor", "event"]),
      dict(n=2, kinds=["task", "ebg"], noise=True)]
ST_T = [dict(n=3, kinds=["task", "xor", "and", "or", "event", "ebg"])]
KD = ["fix", "uniform", "norm"]
HARNESSES = [
    Harness("structure", structure, ST, "all wirings of 2 nodes of 5 kinds and of 3 nodes of 2 kinds between start and end, both "
            "document orders (thorough: 3 nodes of 6 kinds)", ST_T),
    Harness("implicit", implicit, IMPL, "11 models with implicit joins and splits; all decisions, flow orders, durations 0..8"),
    Harness("parameters", parameters, [dict(amount=2, kinds=KD), dict(amount=1, text=True, nolimit=True, kinds=KD[::-1])], "amounts 1..2 (thorough 4), all numbers of "
            "the parameter file arbitrary", [dict(amount=4, kinds=KD)]),
]
