"""Runs the harnesses of one property: exploration, replay, evidence, verdict."""
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random as _random
import signal
import sys
import threading
import time
import traceback
from fractions import Fraction

from . import core, dt, hook, patch
from .core import Inconclusive, Infeasible, Steer, Stats, SymCtx, Unsupported, value_in_model
from .env import ConcEnv, SymEnv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PATH_TIMEOUT = 60


class Harness:
    """fn(env) executed for every cfg of its list; `bounds` states what the symbolic domain is."""

    def __init__(self, name, fn, cfgs=({},), bounds="", thorough_cfgs=None, samples=12, allow=(), must_reach=()):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.cfgs = list(cfgs)
        self.thorough_cfgs = list(thorough_cfgs) if thorough_cfgs is not None else []
        self.samples = samples
        self.allow = tuple(allow)
        self.must_reach = tuple(must_reach)

    def configs(self, tier):
        return self.cfgs + (self.thorough_cfgs if tier == "thorough" else [])


class Timeout(Steer):
    pass


def _alarm(*_):
    raise Timeout("path time limit")


# ------------------------------------------------------------------------------------------- functions actually executed
_FUNCS = set()
_TOOL = 4


def _start_monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, "symx")
    except ValueError:
        return
    root = os.path.realpath(REPO) + os.sep

    def on_start(code, off):
        fn = os.path.realpath(code.co_filename) if code.co_filename.startswith(("/", ".")) else code.co_filename
        if fn.startswith(root):
            _FUNCS.add(fn[len(root):] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(_TOOL, mon.events.PY_START, on_start)
    mon.set_events(_TOOL, mon.events.PY_START)


def _quiet():
    return contextlib.redirect_stdout(io.StringIO())


def _exc_label(e):
    return "exception:%s" % type(e).__name__


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO))]
    f = (fr or tb)[-1]
    g = tb[-1]
    for x in reversed(tb):
        if "/symx/" not in x.filename:
            g = x
            break
    inner = "" if g is f else " (in %s:%d %s)" % (os.path.basename(g.filename), g.lineno, g.name)
    return "%s:%d %s: %s%s" % (os.path.relpath(f.filename, REPO), f.lineno, f.name, str(e)[:200], inner)


# -------------------------------------------------------------------------------------------------------------- one path
def run_path(h, cfg, tier, prefix, stats, known):
    """-> (ctx, env, outcome)"""
    ctx = SymCtx(prefix, stats)
    core.CTX = ctx
    env = SymEnv(ctx, tier, cfg, known)
    patch.set_values(True)
    patch.set_env(env)
    outcome = "ok"
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, PATH_TIMEOUT)
    try:
        with _quiet():
            h.fn(env)
    except Infeasible:
        outcome = "infeasible"
    except Timeout:
        outcome = "timeout"
    except (Unsupported, Inconclusive) as e:
        outcome = "inconclusive: %s @ %s" % (e, _where(e))
    except RecursionError as e:
        outcome = ("exc", e, _where(e))
    except Exception as e:
        outcome = ("exc", e, _where(e))
        e.__traceback__ = None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    try:
        if outcome != "infeasible":
            ctx.finish_model()
    except Infeasible:
        outcome = "infeasible"
    except Inconclusive as e:
        outcome = "inconclusive: %s" % e
    return ctx, env, outcome


def run_concrete(h, cfg, tier, inputs, known, limit=PATH_TIMEOUT):
    """-> dict(failures=[(label, info)], observed=[...], missing=n, outcome=str)"""
    core.CTX = None
    patch.set_values(False)
    env = ConcEnv(dict(inputs), tier, cfg, known)
    patch.set_env(env)
    out = "ok"
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with _quiet():
            h.fn(env)
    except Infeasible:
        out = "infeasible"
    except Timeout:
        out = "timeout"
        env.failures.append(("no-termination", "still running after %ds" % limit))
    except Exception as e:
        if not isinstance(e, h.allow):
            env.failures.append((_exc_label(e), _where(e)))
        out = "exception"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        patch.set_env(None)
    return dict(failures=env.failures, observed=env.observed, missing=env.missing, outcome=out,
                known=env.known_failures)


def _norm(v):
    import datetime
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ("dt", "td", "time"):
        return v
    if isinstance(v, datetime.datetime):
        return ("dt", dt._const(dt.z3.simplify(dt._secs_of_dt(v))))
    if isinstance(v, datetime.timedelta):
        return ("td", dt._td_secs(v))
    if isinstance(v, datetime.time):
        return ("time", dt._const(dt.z3.simplify(dt.time_secs(v))))
    if isinstance(v, (list, tuple)):
        return [_norm(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _norm(x) for k, x in v.items()}
    if hasattr(v, "item"):
        return v.item()
    return v


def _same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        return abs(float(a) - float(b)) <= 1e-5 * max(1.0, abs(float(a)), abs(float(b)))
    return a == b


# ------------------------------------------------------------------------------------------------------------------ job
_STATE = {}


def job(args):
    hi, ci, prefixes, budget, seed, want_samples = args
    h = _STATE["harnesses"][hi]
    tier, known = _STATE["tier"], _STATE["known"]
    cfg = h.configs(tier)[ci]
    stats = Stats()
    res = dict(h=hi, c=ci, violations=[], known=[], inconclusive=[], uncovered=[], validated=0, mismatches=[], samples=[])
    todo = list(prefixes)
    t_end = time.time() + budget
    rng = _random.Random(repr((seed, hi, ci, len(prefixes), prefixes[0][-3:] if prefixes[0] else 0)))
    done = 0
    while todo and (done == 0 or time.time() < t_end):
        prefix = todo.pop()
        ctx, env, outcome = run_path(h, cfg, tier, prefix, stats, known)
        done += 1
        todo.extend(ctx.pending)
        for kid, label, inputs in env.known_hits:
            r = run_concrete(h, cfg, tier, inputs, known)
            if (kid, label) in r["known"]:
                res["known"].append((kid, label, inputs))
        cands = [(l, i, inp) for l, i, inp in ctx.violations]
        if outcome == "infeasible":
            stats.infeasible += 1
        elif outcome == "ok" or isinstance(outcome, tuple):
            stats.paths += 1
        if isinstance(outcome, tuple):
            e = outcome[1]
            if not isinstance(e, h.allow):
                cands.append((_exc_label(e), outcome[2], ctx.model_inputs(ctx.model)))
        elif outcome == "timeout":
            cands.append(("no-termination", "", ctx.model_inputs(ctx.model)))
        elif outcome.startswith("inconclusive"):
            # not representable: the path's inputs are at least run for real, and the path is reported as uncovered
            res["uncovered"].append(outcome)
            cands.append((None, outcome, ctx.model_inputs(ctx.model)) if ctx.model is not None else None)
        for label, info, inputs in filter(None, cands):
            r = run_concrete(h, cfg, tier, inputs, known)
            if r["failures"]:
                res["violations"].append(dict(harness=h.name, cfg=ci, label=r["failures"][0][0],
                                              symbolic_label=label, info=str(r["failures"][0][1]), inputs=inputs))
            elif label == "no-termination":
                res["uncovered"].append("path time limit")
            elif label is not None:
                res["inconclusive"].append("counterexample for %s did not reproduce (%s); inputs %s; concrete %s"
                                           % (label, info, inputs, r["outcome"]))
        if res["violations"] or len(res["inconclusive"]) > 3 or len(res["uncovered"]) > 20:
            todo = []
            break
        # validate the executor against the real code on solver-chosen inputs of this path
        if outcome == "ok" and not cands and (stats.paths <= 2 or len(res["samples"]) < want_samples
                                              and rng.random() < 0.3):
            inputs = ctx.model_inputs(ctx.model)
            with _quiet():
                exp = [(n, _norm(value_in_model(ctx.model, v))) for n, v in ctx.observed]
            r = run_concrete(h, cfg, tier, inputs, known)
            if r["failures"]:
                res["violations"].append(dict(harness=h.name, cfg=ci, label=r["failures"][0][0],
                                              symbolic_label="(path validation)", info=str(r["failures"][0][1]),
                                              inputs=inputs))
                todo = []
                break
            got = [(n, _norm(v)) for n, v in r["observed"]]
            if not _same(exp, got):
                res["mismatches"].append(dict(harness=h.name, cfg=str(cfg), inputs=str(inputs), symbolic=str(exp),
                                              concrete=str(got)))
            res["validated"] += 1
            if len(res["samples"]) < 3:
                res["samples"].append(dict(harness=h.name, cfg=str(cfg), inputs={k: str(v) for k, v in inputs.items()},
                                           observed=str(got)[:300]))
    core.CTX = None
    patch.set_env(None)
    res["stats"] = stats.as_dict()
    res["todo"] = todo
    res["functions"] = sorted(_FUNCS)
    return res


def _worker_init():
    _start_monitor()
    sys.setrecursionlimit(5000)


# ---------------------------------------------------------------------------------------------------------------- driver
def load_known(prop):
    """committed list of findings; only entries with status 'known' change anything"""
    known, path = {}, os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        for e in json.load(open(path)):
            if e["property"] == prop and e["status"] == "known":
                known[e["id"]] = e["what"]
    return known


def main(prop, tier, replay=None, only=None, verbose=False):
    t0 = time.time()
    sys.path.insert(0, REPO)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if not replay:
        hook.install(REPO)
    mod = importlib.import_module("props." + prop.lower())
    patch.prepare()
    known = load_known(prop)
    harnesses = [h for h in mod.HARNESSES if only is None or h.name == only]
    _STATE.update(harnesses=harnesses, tier=tier, known=set(known))
    if replay:
        return _replay(mod, replay, set(known))
    deadline = t0 + (float(os.environ.get("VERIF_DEADLINE", "780" if tier == "quick" else "3600")))
    tasks = []
    for hi, h in enumerate(harnesses):
        for ci in range(len(h.configs(tier))):
            tasks.append((hi, ci, [[]], h.samples))
    totals = {h.name: dict(stats=Stats(), validated=0, configs=len(h.configs(tier))) for h in harnesses}
    known_seen, violations, inconclusive, mismatches, samples, funcs = {}, [], [], [], [], set()
    uncovered, broken = [], []
    nproc = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    ctx = mp.get_context("fork")
    sys.stdout.flush()
    pool = ctx.Pool(nproc, initializer=_worker_init)
    try:
        queue = list(reversed(tasks))
        running = []
        stop = False
        n_bad = {}
        while (queue or running) and not stop:
            while queue and len(running) < nproc + 2:
                hi, ci, prefixes, want = queue.pop()
                running.append(pool.apply_async(job, ((hi, ci, prefixes, 4.0, seed, want),)))
            ready = [r for r in running if r.ready()]
            if not ready:
                if time.time() > deadline:
                    uncovered.append("deadline reached before the bounded space was covered")
                    break
                time.sleep(0.02)
                continue
            for r in ready:
                running.remove(r)
                try:
                    d = r.get()
                except Exception as e:  # a failure of the machinery itself
                    broken.append("worker error: %r" % e)
                    stop = True
                    continue
                h = harnesses[d["h"]]
                tot = totals[h.name]
                tot["stats"].merge(d["stats"])
                tot["validated"] += d["validated"]
                funcs.update(d["functions"])
                mismatches += d["mismatches"]
                if len(samples) < 40:
                    samples += d["samples"][:2]
                for kid, label, inputs in d["known"]:
                    known_seen.setdefault(kid, (h.name, label, inputs))
                violations += d["violations"]
                inconclusive += d["inconclusive"]
                uncovered += d["uncovered"]
                n_bad[d["h"]] = n_bad.get(d["h"], 0) + len(d["inconclusive"]) + len(d["uncovered"]) / 20
                if violations:
                    stop = True
                elif n_bad[d["h"]] > 3:  # give up on this harness, the others may still find a violation
                    queue = [q for q in queue if q[0] != d["h"]]
                elif d["todo"]:
                    left = d["todo"]
                    n = max(1, min(len(left), nproc))
                    for k in range(n):
                        part = left[k::n]
                        queue.append((d["h"], d["c"], part, max(0, h.samples // 8)))
                if verbose:
                    print("  [%6.1fs] %s#%d paths=%d left=%d" % (time.time() - t0, h.name, d["c"],
                                                                tot["stats"].paths, len(d["todo"])), flush=True)
    finally:
        _end(pool)

    vac = []
    if not violations and not inconclusive and not uncovered and not broken:
        for h in harnesses:
            st = totals[h.name]["stats"]
            if st.paths == 0 or st.checks == 0:
                vac.append("harness %s never reached an assertion" % h.name)
            for l in h.must_reach:
                if l not in st.reached and l not in st.labels:
                    vac.append("harness %s never reached %s" % (h.name, l))
    all_st = Stats()
    for t in totals.values():
        all_st.merge(t["stats"].as_dict())
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=all_st.paths, transitions=all_st.forks,
            traces_validated_against_impl=sum(t["validated"] for t in totals.values()),
            samples=samples or [dict(note="no path completed")],
            states_meaning="symbolic end states (one per feasible path, each standing for all inputs on it)",
            transitions_meaning="solver-decided forks with both sides feasible",
            functions_encoded=sorted(funcs), queries=all_st.queries, solver_s=round(all_st.solver_s, 3),
            assertions_decided=all_st.checks, infeasible_paths=all_st.infeasible,
            harnesses={n: dict(bounds=next(h.bounds for h in harnesses if h.name == n), configs=t["configs"],
                               paths=t["stats"].paths, queries=t["stats"].queries,
                               solver_s=round(t["stats"].solver_s, 3), assertions=t["stats"].labels,
                               reached=t["stats"].reached, validated=t["validated"])
                       for n, t in totals.items()},
            exhaustive=not (violations or broken or inconclusive or uncovered or mismatches or vac),
            uncovered=uncovered[:10],
            inconclusive=(broken + inconclusive)[:10], mismatches=mismatches[:5], vacuous=vac,
            known_findings={k: known[k] for k in known_seen},
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n, t in totals.items():
        print("%s %-34s paths=%d forks=%d queries=%d solver=%.1fs validated=%d" % (
            prop, n, t["stats"].paths, t["stats"].forks, t["stats"].queries, t["stats"].solver_s, t["validated"]))
    for k, (hn, label, inputs) in sorted(known_seen.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]))
    for k in known:
        if k not in known_seen and only is None and not violations and not inconclusive:
            print("note: known finding %s no longer reproduces" % k)
    if violations:
        v = violations[0]
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, v["harness"]))
        cfg = next(h for h in harnesses if h.name == v["harness"]).configs(tier)[v["cfg"]]
        v = dict(v, config_index=v["cfg"], cfg=repr(cfg), property=prop, tier=tier, inputs={k: str(x) for k, x in v["inputs"].items()},
                 how="/opt/venv/bin/python /verif/run.py %s --replay %s" % (prop, path))
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        print("violated: %s in harness %s %s: %s; inputs %s" % (v["label"], v["harness"], v["cfg"], v["info"],
                                                               v["inputs"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken or vac or not all_st.checks:
        for m in broken[:5] + inconclusive[:5] + vac:
            print("INCONCLUSIVE: %s" % m)
        return 2
    # a path whose symbolic outcome the real code does not confirm is not covered: nothing is claimed about it
    for m in mismatches[:3]:
        print("NOT COVERED: executor mismatch: %s" % m)
    for m in inconclusive[:5] + uncovered[:5]:
        print("NOT COVERED: %s" % m)
    if uncovered or inconclusive or mismatches:
        print("%s held on the %d symbolic paths explored (%.1fs); the bounded space was not covered completely"
              % (prop, all_st.paths, wall))
        return 0
    print("%s held on all %d symbolic paths (%.1fs)" % (prop, all_st.paths, wall))
    return 0


def _end(pool):
    """stop the workers; the pool's own shutdown may wait for ever for the rest of a result whose worker was ended"""
    workers = list(pool._pool)
    t = threading.Thread(target=pool.terminate, daemon=True)
    t.start()
    t.join(10)
    for w in workers:
        if w.is_alive():
            w.kill()


def _conv(s):
    if s in ("True", "False"):
        return s == "True"
    f = Fraction(s)
    return int(f) if f.denominator == 1 else f


def _replay(mod, path, known):
    v = json.load(open(path))
    h = next(h for h in mod.HARNESSES if h.name == v["harness"])
    cfg = h.configs(v["tier"])[v["config_index"]]
    r = run_concrete(h, cfg, v["tier"], {k: _conv(x) for k, x in v["inputs"].items()}, known)
    for k, x in r.get("observed", []):
        print("observed", k)
        for y in (x if isinstance(x, list) else [x]):
            print("   ", y)
    print(json.dumps({k: x for k, x in r.items() if k != "observed"}, indent=1, default=str))
    return 1 if r["failures"] else 0


COMMON_ASSUMPTIONS = [
    "numbers: integer-valued or dyadic seconds, on which float64 arithmetic up to 2^50 is exact; other float rounding is "
    "outside the claim",
    "text formatting of instants is replaced by opaque tokens in symbolic mode",
    "random generators are nondeterministic stubs constrained to their documented contract",
]
