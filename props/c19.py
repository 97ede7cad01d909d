"""The event log: every executed activity once, in the documented columns, with readable instants."""
import csv
import datetime
import io
import os
import re
import shutil
import tempfile

from props import c10, c28, scen, simcases as sc
from symx import core, dt
from symx.runner import Harness
import prosimos.simulation_engine as se
from prosimos.file_manager import FileManager

ASSUMPTIONS = ["formatting of a date by strftime/isoformat itself is trusted; csv quoting is the csv module's"]
COLUMNS = ["case_id", "activity", "enable_time", "start_time", "end_time", "resource"]


def buffer(env):
    """rows come out once, in order, whatever the buffer size"""
    c = env.cfg
    w = scen.Rows()
    fm = FileManager(env.int("chunk", 1, c["rows"] + 2), w, list(c["cols"]))
    n = env.choice("n", c["rows"] + 1)
    mid = env.choice("flush_after", n + 1)
    for i in range(n):
        fm.add_csv_row(["row", i])
        if i + 1 == mid:
            fm.force_write()
    fm.force_write()
    fm.force_write()
    env.check(w.rows[0] == COLUMNS + c["cols"], "header")
    env.check(w.rows[1:] == [["row", i] for i in range(n)], "every-row-once-in-order", info=str(len(w.rows)))
    env.observe("rows", len(w.rows))


def complete(env):
    """whole simulations with any buffer size: the log has one row per recorded activity, nothing else"""
    c = env.cfg
    nodes, flows = c["nodes"], c["flows"]
    tasks = [t for t, k in nodes.items() if k == "task"]
    events = [t for t, k in nodes.items() if k == "event"]
    gw = {g: {f: 0.5 for f, a, b in flows if a == g} for g, k in nodes.items()
          if k in ("xor", "or") and sum(a == g for f, a, b in flows) > 1}
    js = scen.sim_json({"r" + t: ("c", 1) for t in tasks}, {t: {"r" + t: (0, c["hi"])} for t in tasks}, {"c": c["cal"]},
                       gateways=gw, arrival=(0, c["hi"]),
                       **dict(dict(event_distribution=[dict(event_id=e, **scen.dist(0, c["hi"])) for e in events]),
                              **c.get("extra", {})))
    s = scen.setup(nodes, flows, js, c["n"], events_in_log=c.get("in_log", True))
    env.dist = sc.Sampler(s)
    chunk = env.int("chunk", 1, c["chunks"])
    fixed = None
    if c.get("fixed"):
        fixed, t = [], 0
        for k in range(c["n"]):
            t = t + env.int("arr%d" % k, 0, c["hi"])
            fixed.append(t)
    old, real = se.FileManager, FileManager

    def manager(size, *a, **k):
        env.check(size >= 1, "buffer-size")
        return real(chunk, *a, **k)
    recorded = []
    log_cls = se.LogInfo
    add = log_cls.__dict__["add_event_info"]

    def record(self, case, ev, *a, **k):
        recorded.append((case, ev.task_id, ev.enabled_datetime, ev.started_datetime, ev.completed_datetime,
                         getattr(ev, "resource_id", None)))
        if c.get("stats"):
            return add(self, case, ev, *a, **k)
    log, stat = scen.Rows(), scen.Rows() if c.get("stats") else None
    with scen._RawTimes(env.symbolic):
        se.FileManager, log_cls.add_event_info = manager, record
        try:
            se.run_simpy_simulation(s, stat, log, fixed)
        finally:
            se.FileManager, log_cls.add_event_info = old, add
    want = [r for r in recorded if nodes[r[1]] == "task" or c.get("in_log", True)]
    extra = c.get("cols", [])
    env.check(log.rows[0][:6] == COLUMNS and sorted(log.rows[0][6:]) == sorted(extra), "header", info=str(log.rows[0]))
    env.check(len(log.rows) - 1 == len(want), "one-row-per-activity", info="%d of %d" % (len(log.rows) - 1, len(want)))
    for row, r in zip(log.rows[1:], want):
        env.check(len(row) == len(log.rows[0]), "row-as-wide-as-the-header")
        cells = [scen.cell_time(x) for x in row[2:5]]
        env.check(env.all([row[0] == r[0], row[1] == r[1]] + [a == b for a, b in zip(cells, r[2:5])]), "row-of-the-activity")
        env.check(row[5] == (r[5] if r[5] is not None else "No assigned resource"), "resource-column")
    for k in range(c["n"]):
        mine = "".join(sorted(r[1] for r in recorded if r[0] == k))
        env.check(mine in ["".join(sorted(x)) for x in c["runs"]], "activities-of-the-case", info=mine)
        if fixed:
            first = [r for r in recorded if r[0] == k][0]
            env.check((first[2] - s.start_datetime).total_seconds() == fixed[k], "given-arrival-time")
    if stat is not None:
        env.check(any(r and r[0] == "Individual Task Statistics" for r in stat.rows), "statistics-written")
    env.observe("rows", [(r[0], r[1]) for r in log.rows[1:]])


SHAPE = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{6}\+00:00")
SAMPLE = datetime.datetime(2024, 2, 3, 4, 5, 6, 789000)


def readable(env, v):
    """does csv write this cell as YYYY-MM-DD HH:MM:SS.ffffff+00:00?"""
    if env.symbolic:
        m = re.match(r"^@(\d+)@(.*)$", v) if isinstance(v, str) else None
        if m:
            fmt = core.CTX.fmts[int(m.group(1))]
            inst = core.CTX.tokens[int(m.group(1))]
            if isinstance(fmt, tuple):
                ok = SHAPE.fullmatch(SAMPLE.isoformat(*fmt[1], **fmt[2]) + m.group(2)) is not None
                full = fmt[2].get("timespec") == "microseconds" or "microseconds" in fmt[1]
                return ok and (full or inst.microsecond != 0)
            return SHAPE.fullmatch(SAMPLE.strftime(fmt or "") + m.group(2)) is not None
        if type(v) is dt.SymDatetime:      # csv writes str()
            return v.microsecond != 0
    return SHAPE.fullmatch(str(v)) is not None


def timestamps(env):
    """the three instants of a row are written with microseconds and zone, and read back as the same instants"""
    c = env.cfg
    js = scen.sim_json({"r": ("c", 1)}, {"A": {"r": (0, c["hi"])}}, {"c": c["cal"]})
    s = scen.setup(sc.ONE[0], sc.ONE[1], js, 1, start=c.get("start", scen.MON9))
    sampler = env.dist = sc.Sampler(s, c["den"])
    log = scen.Rows()
    rec = []
    add = se.LogInfo.__dict__["add_event_info"]
    se.LogInfo.add_event_info = lambda self, case, ev, *a: rec.append(ev)
    try:
        se.run_simpy_simulation(s, None, log, [env.flt("arr", 0, c["hi"] * c["den"], c["den"])])
    finally:
        se.LogInfo.add_event_info = add
    env.check(len(log.rows) == 2, "one-row")
    for v, t in zip(log.rows[1][2:5], (rec[0].enabled_datetime, rec[0].started_datetime, rec[0].completed_datetime)):
        env.check(readable(env, v), "timestamp-format", info=str(v))
        env.check(scen.cell_time(v) == t, "timestamp-reads-back")
    env.observe("cells", [scen.cell_time(v) for v in log.rows[1][2:5]])


def files(env):
    """the two files written by run_simulation, with awkward names, read back by csv"""
    c = env.cfg
    nodes, flows = c["nodes"], c["flows"]
    names = c["names"]
    js = scen.sim_json({"r,1": ("c", 1)}, {t: {"r,1": (0, 0)} for t, k in nodes.items() if k == "task"}, {"c": sc.DAYLONG},
                       gateways={"x": {f: 0.5 for f, a, b in flows if a == "x"}})
    js["resource_profiles"][0]["resource_list"][0]["name"] = names.get("r", "r,1")
    js["task_resource_distribution"] = [dict(d, resources=[dict(d["resources"][0], **scen.fixed(60))])
                                        for d in js["task_resource_distribution"]]
    b, j = scen.files(nodes, flows, js)
    d = tempfile.mkdtemp(prefix="symx_")
    try:
        bp = os.path.join(d, "m.bpmn")
        with open(b) as f:
            text = f.read()
        from xml.sax.saxutils import quoteattr
        for t in names:
            text = text.replace('name="%s"' % t, "name=%s" % quoteattr(names[t]))
        with open(bp, "w") as f:
            f.write(text)
        env.dist = lambda e, dd: dd.mean if dd.mean is not None else 0
        ps, pl = os.path.join(d, "s.csv"), os.path.join(d, "l.csv")
        start = "2024-01-01T09:00:00+00:00"
        se.run_simulation(bp, j, c["n"], ps if c["stat"] else None, pl if c["log"] else None, start, False,
                          [0] * c["n"] if c.get("fixed") else None)
        if c["log"]:
            with open(pl, newline="", encoding="utf-8") as f:
                rows = list(csv.reader(f))
            env.check(rows[0] == COLUMNS, "header")
            for k in range(c["n"]):
                acts = [r[1] for r in rows[1:] if r[0] == str(k)]
                env.check(len(acts) == 2 and acts[0] in (names["A"], names["B"]) and acts[1] == names["C"], "case-complete",
                          info=str(acts))
            env.check(all(r[5] == names.get("r", "r,1") for r in rows[1:]), "resource-name")
            env.check(all(SHAPE.fullmatch(x) for r in rows[1:] for x in r[2:5]), "timestamp-format")
            env.observe("acts", [r[:2] for r in rows])
        if c["stat"]:
            with open(ps, newline="", encoding="utf-8") as f:
                rows = list(csv.reader(f))
            env.check(any(r and r[0] == "Overall Scenario Statistics" for r in rows), "statistics-written")
    finally:
        shutil.rmtree(d, ignore_errors=True)


D = dict(cal=sc.DAYLONG, hi=5)
AB = dict(c28.graph(dict(A="task", B="task"), "s>A", "A>B", "B>e"), runs=["AB"])
XOR = dict(c28.graph(dict(x="xor", A="task", B="task", k="xor", C="task"), "s>x", "x>A", "x>B", "A>k", "B>k", "k>C", "C>e"),
           runs=["AC", "BC"])
ATTR = [dict(name="kind", type="discrete", values=[dict(key="a", value=0.25), dict(key="b", value=0.75)])]
BATCH = c10.batch("B", "Parallel", c10.size(">=", 2))
EVAT = [dict(event_id="A", attributes=[dict(name="x", type="discrete", values=[dict(key="p", value=1)])])]
SIM = [dict(AB, **D, n=2, chunks=5), dict(AB, **D, n=2, chunks=5, fixed=True), dict(XOR, **D, n=2, chunks=5, fixed=True),
       dict(c28.PAR, **D, n=1, chunks=6), dict(c28.PAR, **D, n=1, chunks=6, in_log=False), dict(c28.RACE, **D, n=1, chunks=3),
       dict(AB, **D, n=2, chunks=3, extra=dict(batch_processing=BATCH), cols=["batch_id"]),
       dict(AB, **D, n=2, chunks=3, extra=dict(batch_processing=BATCH, case_attributes=ATTR, event_attributes=EVAT),
            cols=["batch_id", "kind", "x"], fixed=True),
       dict(AB, **D, n=1, chunks=2, stats=True, fixed=True), dict(AB, **D, n=1, chunks=2, stats=True)]
SIM_T = [dict(AB, **D, n=3, chunks=7), dict(AB, **D, n=3, chunks=7, fixed=True), dict(c28.PAR, **D, n=2, chunks=11),
         dict(AB, **D, n=2, chunks=2, stats=True, fixed=True)]
NAMES = dict(A='receive, "check"', B="line\nbreak; 1", C="Übung,")
F = [dict(XOR, names=dict(A="A", B="B", C="C"), n=3, stat=True, log=True),
     dict(XOR, names=NAMES, n=2, stat=False, log=True, fixed=True),
     dict(XOR, names=dict(A="A", B="B", C="C"), n=2, stat=True, log=True, fixed=True),
     dict(XOR, names=dict(A="A", B="B", C="C"), n=2, stat=True, log=False)]
F[1]["names"] = dict(A='receive, "check"', B="line; 1", C="Übung,")
TS = [dict(cal=sc.DAYLONG, hi=100, den=8), dict(cal=sc.OFFICE, hi=40000, den=4), dict(cal=sc.DAYLONG, hi=100, den=1)]
HARNESSES = [
    Harness("buffer", buffer, [dict(rows=8, cols=[]), dict(rows=3, cols=["a", "batch_id"])],
            "0..8 rows (thorough 20), every buffer size, a flush at any point", [dict(rows=20, cols=[])]),
    Harness("complete", complete, SIM, "simulations of 1-2 cases (thorough 3) with a symbolic buffer size; generated and given "
            "arrival times; events, batches, attributes; all durations 0..5", SIM_T),
    Harness("timestamps", timestamps, TS, "instants at eighths or quarters of a second in 0..100 s or 0..40000 s"),
    Harness("files", files, F, "run_simulation with real files, 2-3 cases, all flow draws, names with quotes, commas and "
            "non-ASCII letters"),
]
