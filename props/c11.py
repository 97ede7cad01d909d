"""Firing rules: a batch fires exactly when its rule is satisfied."""
from props import scen, simcases as sc
from props.c10 import batch, cfg as bcfg, size, sub
from symx.runner import Harness
from prosimos.batch_processing_parser import BatchProcessingParser

DAY = 86400


def ref_wt(kind, lo, hi, e, cur):
    """first batch of a waiting-time rule on sorted enabling times e at instant cur -> (items, firing instant) or None"""
    nxt = list(e[1:]) + [cur]
    if kind == "ready_wt":
        for i in range(1, len(e) + 1):
            gap = nxt[i - 1] - e[i - 1]
            if gap < lo:
                continue
            if i >= 2:
                return i, e[i - 1] + lo
            if gap > hi:
                return 1, e[0] + hi
        return None
    for i in range(1, len(e) + 1):
        d = nxt[i - 1] - e[0]
        if i == 1:
            if d > hi:
                return 1, e[0] + hi + 1
            continue
        if d >= lo and (d > lo or i == len(e)):
            return i, (e[0] + lo if e[i - 1] <= e[0] + lo else e[i - 1])
    return None


def ref_size(op, v, k):
    """number of items of the first batch when k items wait"""
    if k < 2:
        return 0
    return {"=": v if k >= v else 0, ">=": k if k >= v else 0, ">": k if k > v else 0, "<": min(k, v - 1),
            "<=": min(k, v)}[op]


def bounds(rules):
    lo, hi = None, None
    for _, o, v in rules:
        if o == "=":
            lo = hi = v
        elif o == "<":
            lo, hi = lo or 0, v - 1
        elif o == "<=":
            lo, hi = lo or 0, v
        elif o == ">":
            lo = v + 1
        else:
            lo = v
    return lo, hi


def parsed(rules):
    return BatchProcessingParser(batch(rules=sub(*rules))).parse()["B"].firing_rules


def spec_for(env, e, cur, base):
    return dict(size=len(e), waiting_times=[cur - x for x in e], enabled_datetimes=[env.dt(base, x) for x in e],
                curr_enabled_at=env.dt(base, cur), is_triggered_by_batch=True, is_only_one_batch_return=False)


def concrete(env, rules):
    """rule values given as (lo, hi) are inputs"""
    out = [(a, o, env.int("value%d" % i, *v) if isinstance(v, tuple) else v) for i, (a, o, v) in enumerate(rules)]
    if len(out) == 2:
        env.assume(out[0][2] <= out[1][2])
    return out


def times(env, k, hi):
    out, t = [], 0
    for i in range(k):
        t = env.int("gap%d" % i, 0, hi) + t
        out.append(t)
    return out


def waiting_rule(env):
    """one AND rule over waiting times or sizes"""
    c = env.cfg
    rules = concrete(env, c["rule"])
    e = times(env, c["k"], c["hi"])
    cur = e[-1] + env.int("after", 0, c["hi"])
    fire, sizes, start = parsed([rules]).is_true(spec_for(env, e, cur, scen.MON9))
    env.observe("out", (fire, sizes, None if start is None else env.secs(scen.MON9, start)))
    kind = rules[0][0]
    want = []
    rest = e
    first = None
    while rest:
        if kind == "size":
            n = ref_size(rules[0][1], rules[0][2], len(rest))
            r = (n, cur) if n >= 2 else None
        else:
            r = ref_wt(kind, *bounds(rules), rest, cur)
            # the future is handled later
            if r is not None and r[1] > cur:
                r = None
        if r is None:
            break
        want.append(r[0])
        first = first if first is not None else r[1]
        rest = rest[r[0]:]
    env.check(bool(fire) == bool(want), "fires-iff-the-rule-holds")
    if want and fire:
        env.check(list(sizes) == want, "items-of-the-batch")
        env.check(env.secs(scen.MON9, start) == first, "firing-instant")


def calendar_rule(env):
    """week_day and daily_hour rules: the batch starts on the day / at the hour the rule names, not in the future"""
    c = env.cfg
    e = times(env, c["k"], c["hi"])
    cur = e[-1] + env.int("after", 0, c["hi"])
    fire, sizes, start = parsed([c["rule"]]).is_true(spec_for(env, e, cur, scen.MON9))
    off = 9 * 3600          # MON9 is Monday 09:00
    if fire:
        s = env.secs(scen.MON9, start)
        env.check(s <= cur, "not-in-the-future")
        n = sizes[0]
        env.check(2 <= n <= len(e), "two-items-at-least")
        # known: with daily_hour '<' an item enabled after midnight (the first hour of the rule) joins the batch of that instant
        opens = max([int(v) * 3600 for a, o, v in c["rule"] if a == "daily_hour" and o == ">="], default=0)
        late = env.all([s + off >= DAY, (s + off) % DAY == opens, any(o in ("<", "<=") for _, o, _ in c["rule"])])
        env.check(e[n - 1] <= s, "items-enabled-before-the-batch", known=[("C11-after-midnight", late)])
        env.check(holds(env, c["rule"], s + off), "start-satisfies-the-rule")
        env.observe("out", (sizes, s))
    first = first_instant(env, c["rule"], e[1] + off) - off
    # the rule is evaluated whenever an item is enabled: no such evaluation before `cur` fired the batch
    asap = env.all([first <= cur, env.any([first > e[-1], cur == e[-1]]), first > e[-2] if len(e) > 2 else True])
    # known: the second item came on the right day before the hours of the rule, and the next evaluation is after the rule held on that day
    missed = env.all([len({a for a, _, _ in c["rule"]}) > 1, (e[1] + off) // DAY == (first + off) // DAY,
                      env.no(holds(env, c["rule"], cur + off))])
    env.check(env.implies(asap, bool(fire)), "fires-once-the-rule-held", known=[("C11-day-missed", missed)])
    if fire:
        # (the batch is not executed before its items are enabled)
        env.check(env.implies(asap, env.maximum([s, e[n - 1]]) == first), "starts-at-the-first-instant",
                  {"first": first, "start": s, "sizes": sizes}, known=[("C11-after-midnight", late)])
        if len(c["rule"]) == 1:
            env.check(env.implies(env.all([asap, e[-1] < first]), n == len(e)), "all-waiting-items")
    # holds right now (and the items waited for it): the batch does not wait any longer
    env.check(env.implies(holds(env, c["rule"], cur + off), bool(fire)), "fires-when-the-rule-holds")


def first_instant(env, rules, t):
    """the first instant from t on at which the rule holds"""
    week = [scen.DAYS.index(v.upper()) for a, o, v in rules if a == "week_day"]
    lo, hi, closed = 0, DAY, False
    for a, o, v in rules:
        if a == "daily_hour":
            h = int(v) * 3600
            if o in (">=", "="):
                lo = h
            if o in ("<", "<=", "="):
                hi, closed = h, o != "<"
    mid = t // DAY * DAY
    x = t - mid
    wait = (week[0] - t // DAY) % 7 if week else 0
    after = (x > hi) if closed else (x >= hi)
    today = env.ite(x < lo, mid + lo, env.ite(after, mid + (7 if week else 1) * DAY + lo, t))
    return env.ite(wait == 0, today, mid + wait * DAY + lo)


def holds(env, rules, t):
    """does the absolute instant t (seconds since Monday 00:00) satisfy the rules"""
    cs = []
    for a, o, v in rules:
        if a == "week_day":
            cs.append((t // DAY) % 7 == scen.DAYS.index(v.upper()))
        elif a == "daily_hour":
            h, d = int(v) * 3600, t % DAY
            cs.append({"<": d < h, "<=": d <= h, ">": d > h, ">=": d >= h, "=": d == h}[o])
    return env.all(cs)


def engine(env):
    """the batched activity comes first: the rule is evaluated at every arrival"""
    c = env.cfg
    r = sc.run_cfg(env, c)
    rows = sorted([e for e in r.events if e.act == "A"], key=lambda e: int(e.case))
    env.observe("log", [(e.case, e.enabled, e.start, e.attrs["batch_id"]) for e in rows])
    env.check([int(e.case) for e in rows] == list(range(c["n"])), "every-case-once")
    e = [x.enabled for x in rows]
    rules = c["rule"]
    i, done = 0, False
    while i < len(rows):
        # the arrivals after the first waiting item decide about the first batch
        r1 = None
        for j in range(i + 1, len(rows) + 1):
            cur = e[j - 1]
            if rules[0][0] == "size":
                n = ref_size(rules[0][1], rules[0][2], j - i)
                r1 = (n, cur) if n >= 2 else None
            else:
                r1 = ref_wt(rules[0][0], *bounds(rules), e[i:j], cur)
                if r1 is not None and r1[1] > cur:
                    r1 = None
            if r1 is not None:
                break
        if r1 is None:
            break
        g = rows[i:i + r1[0]]
        for x in g:
            env.check(x.attrs["batch_id"] == g[0].attrs["batch_id"], "batch-members")
        env.check(env.all([x.start == r1[1] for x in g]), "batch-starts-when-the-rule-fires")
        i += r1[0]
        if i < len(rows):
            env.check(rows[i].attrs["batch_id"] != g[0].attrs["batch_id"], "batch-boundary")
    left = rows[i:]
    if left and rules[0][0] != "size":
        # no further case: the rule still decides when the remaining items are executed
        lo, hi = bounds(rules)
        far = e[-1] + 10 ** 7
        r1 = ref_wt(rules[0][0], lo, hi, e[i:], far)
        g = left[:r1[0]]
        env.check(len(g) == len(left), "rest-is-one-batch")
        env.check(env.all([x.start == r1[1] for x in g]), "rest-starts-when-the-rule-fires")


def ending(env):
    """no further case arrives: the waiting items are executed at the first instant at which an alternative holds"""
    c = env.cfg
    r = sc.run_cfg(env, c)
    rows = sorted([e for e in r.events if e.act == "A"], key=lambda e: int(e.case))
    env.observe("log", [(e.case, e.enabled, e.start, e.attrs["batch_id"]) for e in rows])
    env.check([int(e.case) for e in rows] == list(range(c["n"])), "every-case-once")
    e = [x.enabled for x in rows]
    off = 9 * 3600
    at = []
    for alt in c["alts"]:
        t = e[-1]
        for a, o, v in alt:
            if o in (">=", "=") and a in ("ready_wt", "large_wt"):
                t = env.maximum([t, e[-1 if a == "ready_wt" else 0] + v])
        cal = [x for x in alt if x[0] in ("week_day", "daily_hour")]
        at.append(first_instant(env, cal, t + off) - off if cal else t)
    first = env.minimum(at)
    env.check(rows[0].attrs["batch_id"] == rows[-1].attrs["batch_id"], "rest-is-one-batch")
    # known: with waiting times and hours in one alternative the batch starts at the hour, even before the waiting time is over;
    # and an hour of the same day is not considered when another alternative that is listed before holds later
    known = []
    for i, alt in enumerate(c["alts"]):
        hours = [x for x in alt if x[0] == "daily_hour"]
        if hours and not any(a == "week_day" for a, _, _ in alt):
            if len(hours) < len(alt):
                known.append(("C11-hour-before-waiting-time", env.all([x.start == first_instant(env, hours, e[-1] + off) - off for x in rows])))
            elif i:
                known.append(("C11-hour-listed-later", env.all([at[i] == first] + [x.start == env.minimum(at[:i]) for x in rows])))
    env.check(env.all([x.start == first for x in rows]), "rest-starts-at-the-first-instant", {"first": first}, known=known)


def wt(kind, lo, hi):
    return [(kind, ">=", lo), (kind, "<=", hi)]


W = 100000
RULES = [wt("ready_wt", 600, 1200), wt("large_wt", 600, 1200), [("ready_wt", "<", 900)], [("large_wt", "<=", 900)],
         [("ready_wt", "=", 90000)], [("large_wt", "=", 90000)], [("ready_wt", ">", 600), ("ready_wt", "<", 100000)],
         [("large_wt", ">", 3600), ("large_wt", "<", 7200)]]
SIZES = [[("size", o, v)] for o, v in (("=", 2), ("=", 3), (">=", 2), (">=", 3), (">", 2), ("<", 3), ("<=", 3), ("<=", 2))]
WT = [dict(rule=r, k=k, hi=W) for r in RULES for k in (1, 2, 3)] + [dict(rule=r, k=k, hi=1000) for r in SIZES for k in (1, 2, 3, 4)]
V = (0, 100000)
SYM = [[("ready_wt", ">=", V), ("ready_wt", "<=", V)], [("large_wt", ">=", V), ("large_wt", "<=", V)], [("ready_wt", "<=", V)],
       [("large_wt", "<=", V)], [("ready_wt", "=", V)], [("large_wt", "=", V)]]
SYMS = [[("size", o, (2 + (o == "<"), 9))] for o in ("=", ">=", ">", "<", "<=")]
WT = WT[:18] + [dict(rule=r, k=k, hi=W) for r in SYM for k in (1, 2, 3, 4)] + [dict(rule=r, k=k, hi=1000) for r in SYMS for k in (1, 2, 3, 4, 5)]
WTT = [dict(rule=r, k=k, hi=W) for r in RULES + SYM for k in (5, 6)] + [dict(rule=r, k=k, hi=1000) for r in SYMS for k in (6, 7, 8)]
CAL = [dict(rule=r, k=k, hi=3 * DAY) for k in (2, 3) for r in (
    [("week_day", "=", "Monday")], [("week_day", "=", "Wednesday")], [("daily_hour", ">=", "12")],
    [("daily_hour", "<", "10")], [("daily_hour", "=", "12")])]
CX = [dict(rule=r, k=k, hi=3 * DAY) for k in (2, 3) for r in (
    [("week_day", "=", "Tuesday"), ("daily_hour", ">=", "12")], [("daily_hour", ">=", "9"), ("daily_hour", "<", "12")],
    [("week_day", "=", "Monday"), ("daily_hour", "<", "10")], [("week_day", "=", "Tuesday"), ("daily_hour", ">=", "10"), ("daily_hour", "<=", "12")],
    [("daily_hour", "<=", "10")], [("daily_hour", ">=", "12"), ("week_day", "=", "Tuesday")],
    [("daily_hour", "<", "12"), ("daily_hour", ">=", "9")], [("week_day", "=", "Tuesday"), ("daily_hour", "=", "12")],
    [("week_day", "=", "Sunday"), ("daily_hour", "<=", "12")])]


def ecfg(rule, n, t="Parallel", arrival=(0, 5000)):
    return dict(den=1, graph=sc.ONE, res={"r1": ("c", 1)}, tasks={"A": {"r1": (0, 0)}}, cal={"c": sc.DAYLONG}, n=n, rule=rule,
                arrival=arrival, acal=sc.DAYLONG, extra=dict(batch_processing=batch(task="A", type=t, rules=sub(rule))))


ENG = [ecfg(r, 3, arrival=(0, 100000)) for r in RULES] + [ecfg(r, 3) for r in SIZES] + [ecfg(r, 3, "Sequential") for r in (RULES[0], SIZES[0])]
LONG = 10 ** 7
HOUR = 3600


def end_cfg(alts, arrival=(0, 5 * HOUR), n=2):
    x = ecfg(alts[0], n, arrival=arrival)
    x["alts"] = alts
    x["extra"] = dict(batch_processing=batch(task="A", type="Parallel", rules=[r for a in alts for r in sub(a)]))
    return x


READY, LARGE = wt("ready_wt", 2 * HOUR, LONG), wt("large_wt", 6 * HOUR, LONG)
NOON, MONDAY10 = [("daily_hour", "=", "12")], [("week_day", "=", "Monday"), ("daily_hour", "=", "10")]
TUESDAY, AFTERNOON = [("week_day", "=", "Tuesday")], [("daily_hour", ">=", "15")]
END = [end_cfg(a) for a in ([READY, LARGE], [LARGE, READY], [READY + LARGE], [LARGE + READY], [NOON, READY], [READY, NOON], [MONDAY10],
                            [MONDAY10, LARGE], [TUESDAY, LARGE], [LARGE, TUESDAY], [AFTERNOON, LARGE], [READY + AFTERNOON],
                            [TUESDAY + AFTERNOON, MONDAY10], [TUESDAY, [("week_day", "=", "Friday")]])]
HARNESSES = [
    Harness("ending", ending, END, "2 cases, up to five hours apart, that start with the batched activity; two alternatives or "
            "conjunctions of waiting times, hours and days"),
    Harness("waiting_rule", waiting_rule, WT, "rule evaluation on 1-3 waiting items (sizes: 1-4), gaps up to 100000 s", WTT),
    Harness("calendar_rule", calendar_rule, CAL + CX, "2-3 items, gaps up to three days"),
    Harness("engine", engine, ENG, "3 cases that start with the batched activity, inter-arrival times 0..5000 s",
            [ecfg(r, 4) for r in RULES[:4] + SIZES]),
]
