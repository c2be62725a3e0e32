"""Driver of one check: symbolic exploration of a property's harnesses over 8 processes."""
import collections
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
NATIVE_PYTHON = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"


def setup_path():
    for p in (VERIF, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(6000)


class World:
    def __init__(self, prop):
        from . import loader, core, symh
        self.core, self.symh = core, symh
        self.loader = loader.Loader([REPO, VERIF])
        self.sym = self.loader.load("harness." + prop)
        self.nat = importlib.import_module("harness." + prop)
        self.files = {f for n, (f, _) in self.loader.sources.items()}
        self.executed = set()
        # every function of instrumented code that runs is reported once
        mon = sys.monitoring
        mon.use_tool_id(mon.PROFILER_ID, "sx")
        repo = os.path.join(REPO, "gopher_render")

        def start(code, off):
            if code.co_filename.startswith(repo) and self.tracking:
                self.executed.add("%s:%s" % (os.path.relpath(code.co_filename, REPO), code.co_qualname))
                return mon.DISABLE
            return None if code.co_filename.startswith(repo) else mon.DISABLE
        self.tracking = False
        mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, start)
        mon.set_events(mon.PROFILER_ID, mon.events.PY_START)


PATH_CPU_S = 25         # a path that takes longer is taken for one that never ends
NATIVE_CPU_S = 15       # ... if the plain code takes longer than this with the same input


class Quiet:
    def __enter__(self):
        self.o = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout, sys.stderr = self.o


def public(params):
    """Parameters of the harness function (others are for the driver)."""
    return {k: v for k, v in params.items() if not k.startswith("_")}


def run_native(mod, fn, params, vals):
    """(outcome, message, observed, reached): outcome ok / violation / assume."""
    from .api import ConcH, Assumption, Violation
    h = ConcH(vals)
    with Quiet():
        try:
            getattr(mod, fn)(h, **public(params))
            return "ok", "", h
        except Violation as e:
            return "violation", e.msg, h
        except Assumption as e:
            return "assume", str(e), h
        except (Exception, SystemExit) as e:
            return "violation", "raised %s: %s" % (type(e).__name__, e), h


def values_of(h, m):
    out = {}
    for name, v in h.inputs.items():
        out[name] = m[v]
    return out


def run_unit(world, task, prefix, slice_s, seed, rate, max_viol):
    core, symh = world.core, world.symh
    name, fn, params = task
    params = public(params)
    f = getattr(world.sym, fn)
    eng = core.Engine()
    rng = random.Random("%s/%s/%r" % (seed, name, prefix))
    res = dict(paths=0, aborted=0, decisions=0, checks=0, validated=0, mismatch=[], viol=[], stuck=[], reached=set(),
               samples=[])
    solver = core.SOLVER
    q0, t0, h0, u0 = solver.queries, solver.time, solver.hits, solver.unsat

    def go():
        h = eng.h = symh.SymH(eng)
        signal.setitimer(signal.ITIMER_VIRTUAL, PATH_CPU_S)
        world.tracking = True
        try:
            f(h, **params)
        except (Exception, SystemExit) as e:
            msg = "raised %s: %s" % (type(e).__name__, "".join(traceback.format_exception_only(e)).strip()[:300])
            if os.environ.get("SX_DEBUG"):
                traceback.print_exc()
            raise core.ViolationFound(msg) from None
        finally:
            world.tracking = False

    def on_path(e):
        h = e.h
        res["checks"] += h.checks
        res["reached"] |= h.reached
        if rng.random() < rate or e.paths <= 2:
            m = e.model(rng)
            vals = values_of(h, m)
            want = [(l, symh.evaluate(v, m)) for l, v in h.observed]
            out, msg, nh = run_native(world.nat, fn, params, vals)
            if out == "violation":
                res["viol"].append((msg, vals))
            elif out != "ok" or nh.observed != want:
                res["mismatch"].append(dict(values=vals, outcome=out, msg=msg,
                                            native=repr(nh.observed)[:600], symbolic=repr(want)[:600]))
            else:
                res["validated"] += 1
                if len(res["samples"]) < 1:
                    res["samples"].append(dict(task=name, inputs=show(vals), observed=repr(want)[:400]))

    def on_stop(e, exc):
        if isinstance(exc, core.ViolationFound):
            try:
                m = e.model()
                res["viol"].append((exc.msg, values_of(e.h, m)))
            except core.Inconclusive as x:
                res["stuck"].append("no model for %s: %s" % (exc.msg, x))
            return len(res["viol"]) >= max_viol or isinstance(exc, core.Hang)
        res["stuck"].append("%s: %s" % (type(exc).__name__, exc))
        if os.environ.get("SX_DEBUG"):
            traceback.print_exception(exc)
        return False

    def hang(*a):
        raise core.Hang("the conversion does not come to an end")

    signal.signal(signal.SIGVTALRM, hang)
    try:
        frontier = eng.explore(go, prefix, slice_s, on_path, on_stop)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    res.update(paths=eng.paths, aborted=eng.aborted, decisions=eng.decisions, forced=eng.forced,
               queries=solver.queries - q0, solver_s=solver.time - t0, hits=solver.hits - h0,
               unsat=solver.unsat - u0, executed=set(world.executed))
    return frontier, res


def show(vals):
    """Group character inputs into strings for readability."""
    out = {}
    groups = collections.OrderedDict()
    for k, v in vals.items():
        if k.endswith("]") and "[" in k:
            groups.setdefault(k[:k.rindex("[")], []).append(v)
        else:
            out[k] = v
    for k, vs in groups.items():
        try:
            out[k] = "".join(map(chr, vs))
        except (ValueError, OverflowError):
            out[k] = vs
    return out


def worker(world, tasks, inq, outq, cfg):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    while True:
        u = inq.get()
        if u is None:
            return
        ti, prefix = u
        try:
            r = run_unit(world, tasks[ti], prefix, cfg["slice"], cfg["seed"], cfg["rate"], cfg["max_viol"])
            outq.put((ti, r[0], r[1], None))
        except BaseException as e:
            outq.put((ti, [], None, "".join(traceback.format_exception(e))[-3000:]))
            if isinstance(e, KeyboardInterrupt):
                return


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def is_known(known, task, msg, vals):
    for k in known:
        if k["task"] == task[0] and all(vals.get(n) == v for n, v in k["inputs"].items()):
            return k
    return None


def replay_native(prop, path):
    r = subprocess.run([NATIVE_PYTHON, "-B", os.path.join(VERIF, "replay.py"), path], capture_output=True, text=True,
                       timeout=120, env=dict(os.environ, PYTHONHASHSEED="0", SX_REPO=REPO))
    return r.returncode, r.stdout + r.stderr


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SX_JOBS", "8")))
    ap.add_argument("--task", default=None)
    ap.add_argument("--limit", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    setup_path()
    t0 = time.monotonic()
    try:
        world = World(a.prop)
    except Exception:
        # the package cannot even be loaded: no verdict
        traceback.print_exc()
        return 2
    nat = world.nat
    tasks = nat.tasks(a.tier)
    if a.task:
        tasks = [t for t in tasks if a.task in t[0]]
    limit = a.limit or (420 if a.tier == "quick" else 800)
    rate = getattr(nat, "RATE", 0.05 if a.tier == "quick" else 0.01)
    cfg = dict(slice=1.5 if a.tier == "quick" else 4.0, seed=seed, rate=rate, max_viol=3)
    ctx = multiprocessing.get_context("fork")
    inq, outq = ctx.SimpleQueue(), ctx.Queue()
    jobs = max(1, a.jobs)
    stats = [collections.Counter() for _ in tasks]
    extra = [dict(reached=set(), samples=[], stuck=[], wall=0.0) for _ in tasks]
    executed = set()
    viols, mism, errors = [], [], []
    known = load_known(a.prop)
    known_hit, known_at = [], set()
    todo = collections.deque((i, ()) for i in range(len(tasks)))
    ws = [ctx.Process(target=worker, args=(world, tasks, inq, outq, cfg), daemon=True) for _ in range(jobs)]
    for w in ws:
        w.start()
    out = 0
    stop = False
    left = collections.Counter()
    import queue as _q
    while todo or out:
        while todo and out < jobs * 2 and not stop:
            inq.put(todo.popleft())
            out += 1
        if stop and not out or viols and time.monotonic() - viol_at > 8:
            break
        try:
            ti, frontier, res, err = outq.get(timeout=2)
        except _q.Empty:
            if not all(w.is_alive() for w in ws):
                errors.append("a worker process died")
                break
            if time.monotonic() - t0 > limit + 60:
                break
            continue
        out -= 1
        if err:
            errors.append("%s: %s" % (tasks[ti][0], err))
            stop = True
            continue
        for k in ("paths", "aborted", "decisions", "forced", "checks", "validated", "queries", "solver_s", "hits",
                  "unsat"):
            stats[ti][k] += res[k]
        stats[ti]["units"] += 1
        extra[ti]["reached"] |= res["reached"]
        extra[ti]["stuck"].extend(res["stuck"])
        stats[ti]["stuck"] += len(res["stuck"])
        extra[ti]["samples"] = (extra[ti]["samples"] + res["samples"])[:2]
        executed |= res["executed"]
        for m in res["mismatch"]:
            mism.append((ti, m))
        for msg, vals in res["viol"]:
            k = is_known(known, tasks[ti], msg, vals)
            if k:
                if k not in known_hit:
                    known_hit.append(k)
                known_at.add(ti)
            else:
                viols.append((ti, msg, vals))
                viol_at = time.monotonic()
                stop = True
        if stop:
            left[ti] += len(frontier)
            for i, _ in todo:
                left[i] += 1
            todo.clear()
            continue
        if time.monotonic() - t0 > limit:
            left[ti] += len(frontier)
            for i, _ in todo:
                left[i] += 1
            todo.clear()
            stop = True
            continue
        todo.extend((ti, p) for p in frontier)
    for w in ws:
        w.terminate()
    wall = time.monotonic() - t0
    rc = 0
    lines = []
    confirmed = unconfirmed = 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for ti, msg, vals in viols:
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (a.prop, confirmed))
        with open(path, "w") as fh:
            json.dump(dict(property=a.prop, task=tasks[ti][0], fn=tasks[ti][1], params=tasks[ti][2], message=msg,
                           inputs=vals, readable=show(vals)), fh, indent=1)
        code, txt = replay_native(a.prop, path)
        if code == 1:
            confirmed += 1
            lines.append("%s [%s] %s\n  inputs %s\n  %s" % (a.prop, tasks[ti][0], msg, show(vals), txt.strip()[-800:]))
            lines.append("VIOLATION property=%s replay=%s" % (a.prop, path))
            break
        unconfirmed += 1
        if unconfirmed > 6:
            continue
        lines.append("counterexample not reproduced on the real code [%s] %s inputs %s\n%s" %
                     (tasks[ti][0], msg, show(vals), txt[-800:]))
    if confirmed:
        rc = 1
    elif viols:
        rc = 2
    if errors:
        for e in errors[:3]:
            lines.append("ERROR " + e)
        rc = rc or 2
    for ti, m in mism[:5]:
        lines.append("encoding mismatch [%s] %s" % (tasks[ti][0], json.dumps(m)[:1500]))
    for i, t in enumerate(tasks):
        if not stats[i]["paths"] and not viols and not errors and not left[i] and i not in known_at:
            lines.append("task %s: no path explored (%s)" % (t[0], extra[i]["stuck"][:2]))
            rc = rc or 2
        want = set(t[2].get("_witness", getattr(nat, "WITNESS", {}).get(t[1], ())))
        miss = want - extra[i]["reached"]
        if miss and not viols and not left[i] and i not in known_at and not t[2].get("_nowitness"):
            lines.append("task %s: witness not reached: %s" % (t[0], sorted(miss)))
            rc = rc or 2
    tot = collections.Counter()
    for s in stats:
        tot.update(s)
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    ev = dict(
        property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths"], transitions=tot["decisions"],
            traces_validated_against_impl=tot["validated"],
            samples=[s for e in extra for s in e["samples"]][:8],
            states_meaning="feasible paths of the real code explored to the end, each covering every input value of its path condition",
            transitions_meaning="symbolic decisions with both sides feasible",
            assertions_checked=tot["checks"], paths_outside_assumptions=tot["aborted"],
            solver="z3 (linear integer arithmetic over code points and integers)",
            solver_queries=tot["queries"], solver_unsat=tot["unsat"], solver_cache_hits=tot["hits"],
            solver_s=round(tot["solver_s"], 3),
            exhaustive=not sum(left.values()) and not tot["stuck"] and not mism and not stop,
            unexplored_frontier={tasks[i][0]: n for i, n in left.items() if n},
            inconclusive_paths={tasks[i][0]: (stats[i]["stuck"], sorted(set(e["stuck"]))[:3])
                                for i, e in enumerate(extra) if e["stuck"]},
            encoding_mismatches=len(mism),
            functions_encoded=sorted(executed),
            bounds=getattr(nat, "BOUNDS", {}).get(a.tier, getattr(nat, "BOUNDS", "")),
            tasks=[dict(task=t[0], params={k: repr(v)[:120] for k, v in t[2].items()}, paths=stats[i]["paths"],
                        decisions=stats[i]["decisions"], assertions=stats[i]["checks"],
                        reached=sorted(extra[i]["reached"])) for i, t in enumerate(tasks)],
        ),
        assumptions=list(getattr(nat, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=confirmed)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if a.v:
        for i, t in enumerate(tasks):
            print("  %-40s paths %6d aborted %5d dec %6d checks %6d val %4d q %5d hits %7d stuck %d left %d" % (
                t[0], stats[i]["paths"], stats[i]["aborted"], stats[i]["decisions"], stats[i]["checks"],
                stats[i]["validated"], stats[i]["queries"], stats[i]["hits"], stats[i]["stuck"], left[i]))
            for s in sorted(set(extra[i]["stuck"]))[:3]:
                print("      stuck:", s[:200])
            if extra[i]["reached"]:
                print("      reached:", sorted(extra[i]["reached"]))
    for l in lines:
        print(l)
    print("%s: %d paths, %d decisions, %d assertions, %d solver queries, %d validated natively, %.1f s%s%s" % (
        a.prop, tot["paths"], tot["decisions"], tot["checks"], tot["queries"], tot["validated"], wall,
        "" if ev["coverage"]["exhaustive"] else " (not exhaustive: %d units left, %d paths inconclusive)" %
        (sum(left.values()), tot["stuck"]), " OK" if rc == 0 else ""))
    sys.stdout.flush()
    return rc
