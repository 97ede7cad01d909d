"""Block-structured process models: the graph, and an oracle for its valid runs.

A block is a task name, or (kind, part, ...):  seq, xor, and, or, skip, or ("loop", body, redo, max_repeats).
Every block has one entry and one exit; a run of a block lists activity instances with the instances that caused them.
"""
import itertools


class Model:
    def __init__(self, block):
        self.nodes = {"s": "start", "e": "end"}
        self.flows = []
        self.n = 0
        self.gate = {}
        a, b = self.build(block, ())
        if a is None:
            raise ValueError("empty model")
        self.flow("s", a)
        self.flow(b, "e")
        self.block = block

    def flow(self, a, b):
        self.flows.append(("f%d" % len(self.flows), a, b))

    def fresh(self, kind):
        self.n += 1
        g = "%s%d" % (kind, self.n)
        self.nodes[g] = kind
        return g

    def build(self, b, path):
        if isinstance(b, str):
            self.nodes[b] = "task"
            return b, b
        kind, parts = b[0], b[1:]
        if kind == "skip":
            return None, None
        if kind == "seq":
            first = last = None
            for i, p in enumerate(parts):
                x, y = self.build(p, path + (i,))
                if x is None:
                    continue
                if last is not None:
                    self.flow(last, x)
                first = first or x
                last = y
            return first, last
        if kind == "loop":
            # join -> body -> split -> exit | redo -> join
            j = self.fresh("xor")
            x, y = self.build(parts[0], path + (0,))
            self.flow(j, x)
            k = self.fresh("xor")
            self.flow(y, k)
            x, y = self.build(parts[1], path + (1,))
            if x is None:
                self.gate[path] = (j, k, j, None)
                self.flow(k, j)
            else:
                self.gate[path] = (j, k, x, y)
                self.flow(k, x)
                self.flow(y, j)
            return j, k
        s, j = self.fresh(kind), self.fresh(kind)
        ends = []
        for i, p in enumerate(parts):
            x, y = self.build(p, path + (i,))
            self.flow(s, x or j)
            if y is not None:
                self.flow(y, j)
            ends.append(x or j)
        self.gate[path] = (s, j, ends)
        return s, j

    def kinds(self, k):
        return [n for n, q in self.nodes.items() if q == k]

    def tasks(self):
        return self.kinds("task")

    def gateways(self):
        """splits with a choice -> outgoing flows"""
        out = {}
        for g, k in self.nodes.items():
            if k in ("xor", "or"):
                fl = [f for f, a, b in self.flows if a == g]
                if len(fl) > 1:
                    out[g] = fl
        return out


class Run:
    """one run of a model: inst = [(task, causes)], taken = {(gateway, index of the outgoing flow): times}"""

    def __init__(self, model, choose, max_len=99):
        self.m, self.choose = model, choose
        self.inst = []
        self.taken = {}
        self.last = self.go(model.block, (), ())

    def take(self, g, i):
        self.taken[(g, i)] = self.taken.get((g, i), 0) + 1

    def go(self, b, path, causes):
        if isinstance(b, str):
            self.inst.append((b, tuple(causes)))
            return (len(self.inst) - 1,)
        kind, parts = b[0], b[1:]
        if kind == "skip":
            return causes
        if kind == "seq":
            for i, p in enumerate(parts):
                causes = self.go(p, path + (i,), causes)
            return causes
        if kind == "loop":
            j, k = self.m.gate[path][:2]
            for it in range(parts[2] + 1):
                causes = self.go(parts[0], path + (0,), causes)
                if it < parts[2] and self.choose("loop%s" % "".join(map(str, path)), 2):
                    self.take(k, "redo")
                    causes = self.go(parts[1], path + (1,), causes)
                else:
                    break
            self.take(k, "exit")
            return causes
        s = self.m.gate[path][0]
        if kind == "xor":
            i = self.choose("xor%s" % "".join(map(str, path)), len(parts))
            self.take(s, i)
            return self.go(parts[i], path + (i,), causes)
        if kind == "and":
            on = range(len(parts))
        else:  # or: any non-empty subset
            w = 1 + self.choose("or%s" % "".join(map(str, path)), 2 ** len(parts) - 1)
            on = [i for i in range(len(parts)) if w >> i & 1]
        out = []
        for i in on:
            self.take(s, i)
            out += [c for c in self.go(parts[i], path + (i,), causes) if c not in out]
        return tuple(out)

    def flow_counts(self):
        """{flow id: times} for the flows leaving xor/or splits"""
        out = {}
        for g, fl in self.m.gateways().items():
            loop = [p for p, v in self.m.gate.items() if v[1] == g and len(v) == 4]
            for i, f in enumerate(fl):
                if loop:
                    # the redo flow of a loop is drawn before its exit flow
                    out[f] = self.taken.get((g, "redo" if i == 0 else "exit"), 0)
                else:
                    out[f] = self.taken.get((g, i), 0)
        return out


def all_runs(model):
    """every run of the model (the choices enumerated)"""
    todo = [[]]
    while todo:
        prefix, made = todo.pop(), []

        def choose(n, k):
            i = len(made)
            if i < len(prefix):
                made.append(prefix[i])
            else:
                todo.extend(made + [o] for o in range(1, k))
                made.append(0)
            return made[i]
        yield Run(model, choose)


def explanations(model, seq):
    """the runs that produce the sequence of activities: (flow counts, causes of each position)"""
    out = []
    for r in all_runs(model):
        if sorted(t for t, _ in r.inst) != sorted(seq):
            continue
        for p in itertools.permutations(range(len(seq))):
            at = {i: k for k, i in enumerate(p)}
            if all(r.inst[i][0] == seq[k] for i, k in at.items()) and \
                    all(at[c] < at[i] for i in at for c in r.inst[i][1]):
                out.append((r.flow_counts(), [[at[c] for c in r.inst[i][1]] for i in p]))
    return out
