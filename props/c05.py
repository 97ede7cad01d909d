"""Queues: removal order, updates, peeking, sizes."""
from symx.runner import Harness
from prosimos.simulation_queues_ds import PriorityQueue


def _ref_min(env, live):
    """first in (priority, insertion number) order of the live elements: returns predicate list per element"""
    out = {}
    for e, (p, n) in live.items():
        out[e] = env.all([env.any([p < q, env.all([p == q, n < m])]) for f, (q, m) in live.items() if f != e])
    return out


def queue_ops(env):
    q = PriorityQueue()
    live, n = {}, 0
    for k, op in enumerate(env.cfg["ops"]):
        if op[0] == "i":
            e = op[1]
            p = env.flt("p%d" % k, 0, 20, 4)
            q.insert(e, p)
            live[e] = (p, n)
            n += 1
        elif op[0] == "r":
            if op[1] in live:
                q.remove_element(op[1])
                del live[op[1]]
        elif op[0] == "k":
            e, p = q.peek()
            if not live:
                env.check(e is None and p is None, "peek-empty")
            else:
                env.check(e in live, "peek-live")
                if e in live:
                    env.check(_ref_min(env, live)[e], "peek-minimum")
                    env.check(p == live[e][0], "peek-priority")
        else:
            e, p = q.pop_min()
            if not live:
                env.check(e is None and p is None, "pop-empty")
            else:
                env.check(e in live, "pop-live")
                if e in live:
                    env.check(_ref_min(env, live)[e], "pop-minimum")
                    env.check(p == live[e][0], "pop-priority")
                    del live[e]
        env.check(q.size() == len(live), "size")
        env.check(bool(q.is_empty()) == (not live), "is-empty")
        for e in ("a", "b", "c", "d"):
            env.check(bool(q.contains(e)) == (e in live), "contains")
            env.check(q.get_priority(e) == live[e][0] if e in live else q.get_priority(e) is None, "get-priority")
    while live:
        e, p = q.pop_min()
        env.check(e in live, "drain-live")
        if e not in live:
            break
        env.check(_ref_min(env, live)[e], "drain-minimum")
        del live[e]
    if not live:
        env.check(q.pop_min() == (None, None), "drained")


I = lambda *es: [("i", e) for e in es]
SEQS = [
    I("a", "b", "c") + [("k",), ("p",), ("k",), ("p",)],
    I("a", "b", "c", "a") + [("k",), ("p",), ("k",)],
    I("a", "b", "c") + [("r", "b"), ("k",), ("p",), ("k",)],
    I("a", "b", "a", "b") + [("k",)],
    I("a", "b", "c", "d") + [("r", "a"), ("k",), ("p",), ("i", "a"), ("k",)],
    [("p",), ("k",)] + I("a") + [("p",), ("p",), ("k",)] + I("a", "b"),
]
MORE = [I("a", "b", "c", "a", "b") + [("k",), ("p",), ("k",)],
        I("a", "b", "c", "d", "a") + [("r", "c"), ("k",), ("p",), ("k",)],
        I("a", "b", "c") + [("p",), ("i", "a"), ("i", "b"), ("k",), ("p",), ("k",)]]

HARNESSES = [
    Harness("queue_ops", queue_ops, [dict(ops=s) for s in SEQS], "fixed operation shapes (<=5 inserts/updates), "
            "priorities arbitrary in 0..5", [dict(ops=s) for s in MORE]),
]
