"""Runs the checks of one property: symbolic exploration + concrete replay.

usage: python -m vp.run PID [--tier quick|thorough] [--only HARNESS]
       python -m vp.run PID --replay FILE
exit 0: no violation within the bounds; exit 1: a replayed violation.
"""
from __future__ import annotations

import argparse
import ast
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

SLICE = 4.0
PATH_ALARM = 60
REPLAY_LIMIT = 90


class _Alarm(BaseException):
    pass


_alarmed = [False]


def _on_alarm(*_):
    _alarmed[0] = True
    signal.alarm(10)  # again, should the code under test swallow it
    raise _Alarm()


# ---------------------------------------------------------------- harnesses
class Harness:
    def __init__(self, fn, quick=({},), thorough=None, bounds="", stubs=(), qtimeout=3000,
                 setup=None, weight=1.0):
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.bounds = bounds
        self.stubs = list(stubs)
        self.qtimeout = qtimeout
        self.setup = setup
        self.weight = weight


def load_property(pid):
    mod = importlib.import_module("vp.props." + pid.lower())
    return mod


# ---------------------------------------------------------------- functions seen
class FuncTrace:
    def __init__(self):
        self.seen = set()
        mon = sys.monitoring
        try:
            mon.use_tool_id(3, "vp")
        except ValueError:
            return
        pre = os.path.join(REPO, "dataprofiler")

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(pre):
                self.seen.add(
                    os.path.relpath(fn, REPO) + ":" + code.co_qualname
                )
            return mon.DISABLE

        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)


# ---------------------------------------------------------------- symbolic worker
def sym_worker(conn, harnesses, seed):
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    os.dup2(devnull.fileno(), 1)
    os.dup2(devnull.fileno(), 2)
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    from . import engine as E
    from . import patches

    patches.install()
    ft = FuncTrace()
    rnd = random.Random(seed)
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        hidx, params, prefixes, budget, max_replay = task
        h = harnesses[hidx]
        try:
            res = explore(h, params, prefixes, budget, max_replay, rnd)
        except BaseException as e:  # never lose the worker
            res = blank()
            res["errors"].append(("worker", repr(e)[:300], None))
        res["funcs"] = sorted(ft.seen)
        conn.send(res)


def reseed():
    """the same random draws on every execution (re-execution needs it)"""
    import numpy

    random.seed(0)
    numpy.random.seed(0)


def blank():
    return dict(paths=0, aborted={}, branches=0, checks=0, discharged=0, inconclusive={},
                failures=[], errors=[], pending=[], queries=0, solver_s=0.0, unknown=0,
                concretized=0, notes={}, models=[], done=False, sat_paths=0)


def explore(h, params, prefixes, budget, max_replay, rnd):
    from . import engine as E
    from .ctx import SymCtx

    eng = E.Engine(qtimeout=h.qtimeout)
    E.set_engine(eng)
    res = blank()
    t0 = time.time()
    stack = [(p, None) for p in prefixes]
    n = 0
    while stack:
        if time.time() - t0 > budget:
            break
        n += 1
        if n % 2:
            p, m = stack.pop()
        else:
            p, m = stack.pop(rnd.randrange(len(stack)))
        eng.reset(p, m)
        ctx = SymCtx(eng, h.name)
        reseed()
        why = None
        _alarmed[0] = False
        signal.alarm(PATH_ALARM)
        try:
            h.fn(ctx, **params)
            signal.alarm(0)
            if _alarmed[0]:
                raise _Alarm()
            if eng.aborted:
                why = eng.aborted
        except E.PathAbort as e:
            why = e.why
        except _Alarm:
            why = "alarm"
        except z3_errors() as e:
            why = "z3:" + str(e)[:60]
        except Exception as e:
            signal.alarm(0)
            signal.alarm(30)
            try:
                cand = path_assignment(eng, ctx)
            except BaseException:
                cand = None
            tb = traceback.extract_tb(e.__traceback__)
            loc = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ""
            res["errors"].append(
                (type(e).__name__, "%s @%s" % (str(e)[:160], loc), cand)
            )
        finally:
            signal.alarm(0)
        stack.extend(eng.alts)
        res["branches"] += len(eng.trace) - len(p)
        res["checks"] += ctx.checks
        res["discharged"] += ctx.discharged
        for nm in ctx.inconclusive:
            res["inconclusive"][nm] = res["inconclusive"].get(nm, 0) + 1
        for f in ctx.failures:
            res["failures"].append(f)
        if why in ("assume", "infeasible"):
            res["aborted"][why] = res["aborted"].get(why, 0) + 1
        elif why:
            res["aborted"][why] = res["aborted"].get(why, 0) + 1
            # the path could not be followed to its end: its input is still run on the real code
            if res["aborted"][why] <= 8:
                try:
                    signal.alarm(30)
                    res["errors"].append(("Abort", why, path_assignment(eng, ctx)))
                except BaseException:
                    pass
                finally:
                    signal.alarm(0)
        else:
            res["paths"] += 1
        if eng.concretized:
            res["concretized"] += 1
        for s in set(eng.notes):
            res["notes"][s] = res["notes"].get(s, 0) + 1
        if why is None and len(res["models"]) < max_replay:
            try:
                signal.alarm(15)
                mo = validation_model(eng, ctx)
                if mo is not None:
                    res["models"].append(mo)
                    res["sat_paths"] += 1
            except (_Alarm, Exception):
                pass
            finally:
                signal.alarm(0)
        if len(res["failures"]) > 40 or len(res["errors"]) > 40:
            break
    res["pending"] = [p for p, _ in stack]
    res["queries"] = eng.queries
    res["solver_s"] = eng.solver_s
    res["unknown"] = eng.unknown
    return res


def z3_errors():
    import z3

    return z3.Z3Exception


def path_assignment(eng, ctx):
    nice = ctx._nice()
    r, m = eng.raw_check(nice, timeout=1000)
    if r != "sat":
        r, m = eng.raw_check(eng.relaxed, timeout=2000)
    if r != "sat":
        return None
    return ctx.assignment(m)


def validation_model(eng, ctx):
    from . import engine as E

    nice = ctx._nice()
    m = None
    if nice:
        r, m = eng.raw_check(nice, timeout=700)
        if r != "sat":
            m = None
    if m is None:
        r, m = eng.raw_check(eng.relaxed, timeout=1500)
        if r != "sat":
            return None
    obs = []
    for name, v in ctx.obs:
        if isinstance(v, E.SymNum):
            obs.append((name, None if E.has_uf(v.t) else float(eng.eval_num(m, v.t))))
        elif isinstance(v, E.SymBool):
            obs.append((name, bool(m.eval(v.c, model_completion=True))))
        elif isinstance(v, (int, float)):
            obs.append((name, float(v)))
        else:
            obs.append((name, None))
    return ctx.assignment(m), obs


# ---------------------------------------------------------------- replay worker
def unusable(e, frame):
    """did reading a public result fail (a key gone, None instead of a number)?

    Statements that touch private names, directly or through a local name, may fail for
    reasons of their own and do not count.
    """
    if not isinstance(e, (KeyError, IndexError, TypeError, ValueError, ZeroDivisionError)) and not (
            isinstance(e, AttributeError) and "'NoneType'" in str(e)):
        return False
    try:
        tree = ast.parse(open(frame.filename).read())
    except (OSError, SyntaxError):
        return False
    fn = None
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.lineno <= frame.lineno <= n.end_lineno:
            if fn is None or n.lineno > fn.lineno:
                fn = n
    if fn is None:
        return False

    def private(n, names):
        return any(isinstance(x, ast.Attribute) and x.attr.startswith("_")
                   or isinstance(x, ast.Name) and x.id in names for x in ast.walk(n))

    names, size = set(), -1
    while len(names) != size:
        size = len(names)
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and private(n.value, names):
                names.update(x.id for t in n.targets for x in ast.walk(t)
                             if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
            elif isinstance(n, (ast.For, ast.comprehension)) and private(n.iter, names):
                names.update(x.id for x in ast.walk(n.target) if isinstance(x, ast.Name))
    stmt = None
    for n in ast.walk(fn):
        if isinstance(n, ast.stmt) and n.lineno <= frame.lineno <= n.end_lineno:
            if stmt is None or n.end_lineno - n.lineno <= stmt.end_lineno - stmt.lineno:
                stmt = n
    if stmt is None:
        return False
    if isinstance(stmt, (ast.For, ast.While, ast.If, ast.With, ast.Try)):
        heads = {ast.For: "iter", ast.While: "test", ast.If: "test"}
        head = getattr(stmt, heads.get(type(stmt), ""), None)
        return head is not None and not private(head, names)
    return not private(stmt, names)


def called_standin(msg):
    """was one of our own stand-ins called with arguments it does not take?"""
    m = re.match(r"([A-Za-z_]\w*)[\w.<>]*\(\) (got|missing|takes) ", msg)
    if not m or m.group(1) == "lambda":
        return False
    return any(n.startswith("vp.") and hasattr(mod, m.group(1))
               and getattr(getattr(mod, m.group(1)), "__module__", None) == n
               for n, mod in list(sys.modules.items()) if mod is not None)


def replay_one(h, params, values):
    """-> (status, message, observations)"""
    from .ctx import AssumeFailed, CheckFailed, ConcCtx

    ctx = ConcCtx(values)
    reseed()
    try:
        h.fn(ctx, **params)
    except AssumeFailed:
        return "skip", "", []
    except CheckFailed as e:
        return "fail", str(e), []
    except _Alarm:
        return "fail", "no result within %ds" % REPLAY_LIMIT, []
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, AttributeError):
            while tb and tb[-1].name in ("__getattribute__", "__getattr__"):
                tb.pop()        # whoever asked for the name is where it failed
        elif isinstance(e, TypeError) and called_standin(str(e)):
            return "harness", "stand-in called differently: " + str(e)[:200], []
        inrepo = any(f.filename.startswith(REPO + "/dataprofiler") for f in tb)
        last = tb[-1].filename if tb else ""
        if inrepo and not last.startswith(VERIF):
            f = [f for f in tb if f.filename.startswith(REPO + "/dataprofiler")][-1]
            return "fail", "exception %s: %s (%s:%d)" % (
                type(e).__name__, str(e)[:200], os.path.relpath(f.filename, REPO), f.lineno), []
        where = [f for f in tb if f.filename.startswith(os.path.join(VERIF, "vp", "props"))]
        if not inrepo and where and unusable(e, where[-1]):
            return "fail", "unusable result, %s: %s (%s:%d)" % (
                type(e).__name__, str(e)[:200], os.path.basename(where[-1].filename),
                where[-1].lineno), []
        if inrepo and isinstance(e, LookupError) and where and tb[-1] is where[-1]:
            # the code handed a stand-in (labeler, pool, ...) something it was not given
            return "fail", "foreign data passed on, %s: %s (%s:%d)" % (
                type(e).__name__, str(e)[:200], os.path.basename(last), tb[-1].lineno), []
        return "harness", "%s: %s @%s:%s" % (
            type(e).__name__, str(e)[:200], os.path.basename(last), tb[-1].lineno if tb else 0), []
    obs = []
    for name, v in ctx.obs:
        try:
            obs.append((name, float(v)))
        except (TypeError, ValueError):
            obs.append((name, None))
    return "ok", "", obs


def replay_worker(conn, harnesses):
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    os.dup2(devnull.fileno(), 1)
    os.dup2(devnull.fileno(), 2)
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _on_alarm)
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        hidx, params, values = task
        signal.alarm(REPLAY_LIMIT)
        try:
            r = replay_one(harnesses[hidx], params, values)
        except _Alarm:
            r = ("fail", "no result within %ds" % REPLAY_LIMIT, [])
        except BaseException as e:
            r = ("harness", repr(e)[:200], [])
        finally:
            signal.alarm(0)
        conn.send(r)


class Proc:
    def __init__(self, target, args):
        ctx = mp.get_context("fork")
        self.parent, child = ctx.Pipe()
        self.p = ctx.Process(target=target, args=(child,) + args, daemon=True)
        self.p.start()
        child.close()
        self.task = None

    def send(self, t):
        self.task = t
        self.since = time.time()
        self.parent.send(t)

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass
        self.p.join(2)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t_start = time.time()
    import dataprofiler  # noqa: F401  (the tree under test, unpatched here)

    from . import ctx as _ctx  # noqa: F401

    mod = load_property(a.pid)
    harnesses = [h for h in mod.HARNESSES if not a.only or h.name == a.only]
    if a.replay:
        d = json.load(open(a.replay))
        h = [h for h in harnesses if h.name == d["harness"]][0]
        st, msg, _ = replay_one(h, d["params"], d["input"])
        print(st, msg)
        return 1 if st == "fail" else 0

    budget = a.budget or getattr(mod, "BUDGET", {}).get(
        tier, 110 if tier == "quick" else 780)
    deadline = t_start + budget
    jobs = []
    for i, h in enumerate(harnesses):
        plist = h.quick if tier == "quick" or h.thorough is None else h.thorough
        for p in plist:
            jobs.append(dict(h=i, params=p, queue=[[]], running=0, agg=blank(), spent=0.0,
                             max_replay=0, closed=False))
    nw = int(os.environ.get("VP_JOBS", "8"))
    replayers = [Proc(replay_worker, (harnesses,)) for _ in range(3)]
    workers = [Proc(sym_worker, (harnesses, seed)) for _ in range(nw)]
    known = load_known(a.pid)
    stats = dict(replayed=0, validated=0, diverged=0, skipped=0, harness=0, failed=0)
    rq = []  # replay queue: (priority, jobidx, values, kind, checkname, obs)
    violations, known_hits, unreproduced, samples, divergences = [], {}, [], [], []
    funcs = set()
    rcap = getattr(mod, "REPLAY_CAP", {"quick": 30, "thorough": 80}).get(tier, 30)

    def next_job():
        best = None
        for ji, j in enumerate(jobs):
            if j["queue"] and not j["closed"]:
                k = (j["running"], j["spent"] / harnesses[j["h"]].weight)
                if best is None or k < best[0]:
                    best = (k, ji)
        return best[1] if best else None

    def absorb(ji, r):
        j = jobs[ji]
        ag = j["agg"]
        for k in ("paths", "branches", "checks", "discharged", "queries", "solver_s",
                  "unknown", "concretized", "sat_paths"):
            ag[k] += r[k]
        for k in ("aborted", "inconclusive", "notes"):
            for q, c in r[k].items():
                ag[k][q] = ag[k].get(q, 0) + c
        funcs.update(r.get("funcs", ()))
        j["queue"].extend(r["pending"])
        for name, cands in r["failures"]:
            nfail = j.setdefault("nfail", {}).get(name, 0)
            if nfail < 12:
                j["nfail"][name] = nfail + 1
                for c in cands:
                    rq.append((0, ji, c, "cex", name, None))
        for et, msg, cand in r["errors"]:
            ag["errors"].append((et, msg))
            ne = j.setdefault("nerr", {}).get(msg, 0)
            if cand is not None and ne < 8:
                j["nerr"][msg] = ne + 1
                rq.append((1, ji, cand, "error", et + ": " + msg, None))
        for asg, obs in r["models"]:
            if j["max_replay"] < rcap:
                j["max_replay"] += 1
                rq.append((2, ji, asg, "path", "", obs))

    def handle_replay(item, r):
        _, ji, vals, kind, cname, obs = item
        j = jobs[ji]
        h = harnesses[j["h"]]
        st, msg, cobs = r
        stats["replayed"] += 1
        if st == "skip":
            stats["skipped"] += 1
        elif st == "harness":
            stats["harness"] += 1
            if len(unreproduced) < 10:
                unreproduced.append(dict(harness=h.name, params=j["params"], note=msg))
        elif st == "fail":
            stats["failed"] += 1
            rec = dict(property=a.pid, harness=h.name, params=j["params"], input=vals,
                       check=msg, found_by=kind)
            kf = match_known(known, rec)
            if kf is not None:
                known_hits[kf["id"]] = kf
            else:
                violations.append(rec)
        else:
            if kind == "path":
                bad = compare_obs(obs, cobs)
                if bad:
                    stats["diverged"] += 1
                    if len(divergences) < 5:
                        divergences.append(dict(harness=h.name, params=j["params"],
                                                input=vals, diff=bad))
                else:
                    stats["validated"] += 1
                    if len(samples) < 6:
                        samples.append(dict(harness=h.name, params=j["params"], input=vals,
                                            outputs=dict((n, v) for n, v in cobs[:8])))
            else:
                if len(unreproduced) < 10:
                    unreproduced.append(dict(harness=h.name, params=j["params"], input=vals,
                                             claim=cname))

    stop_after_violation = None
    while True:
        now = time.time()
        if violations and stop_after_violation is None:
            stop_after_violation = now + 5
        out_of_time = now > deadline or (
            stop_after_violation is not None and now > stop_after_violation)
        # dispatch symbolic work
        if not out_of_time:
            for w in workers:
                if w.task is None:
                    ji = next_job()
                    if ji is None:
                        break
                    j = jobs[ji]
                    idle = sum(1 for x in workers if x.task is None)
                    q = j["queue"]
                    take = max(1, len(q) // max(1, idle)) if len(q) > 1 else 1
                    pre, j["queue"] = q[-take:], q[:-take]
                    j["running"] += 1
                    w.send((j["h"], j["params"], pre,
                            min(SLICE if len(jobs) < 60 else SLICE, max(1.0, deadline - now)),
                            max(2, (rcap - j["max_replay"]))))
                    w.ji = ji
                    w.pre = pre
        # dispatch replays
        if rq:
            rq.sort(key=lambda x: x[0])
            for r in replayers:
                if r.task is None and rq:
                    item = rq.pop(0)
                    r.item = item
                    r.send((jobs[item[1]]["h"], jobs[item[1]]["params"], item[2]))
        busy_w = [w for w in workers if w.task is not None]
        busy_r = [r for r in replayers if r.task is not None]
        if out_of_time and busy_w:
            # give running slices a moment, then drop them
            if now > deadline + 15 or (stop_after_violation and now > stop_after_violation):
                for w in busy_w:
                    jobs[w.ji]["queue"].extend(w.pre)
                    w.kill()
                    w.task = None
                busy_w = []
        if not busy_w and not busy_r and not rq and (out_of_time or next_job() is None):
            break
        if out_of_time and stop_after_violation and not busy_w:
            break
        if out_of_time and now > deadline + REPLAY_LIMIT + 30:
            break
        if out_of_time and now > deadline + 20:
            rq = [x for x in rq if x[0] < 2][:60]
        conns = [w.parent for w in busy_w] + [r.parent for r in busy_r]
        ready = mpc.wait(conns, timeout=0.5) if conns else []
        for k, w in enumerate(workers):
            if w.task is None:
                continue
            if w.parent in ready:
                try:
                    r = w.parent.recv()
                    jobs[w.ji]["running"] -= 1
                    jobs[w.ji]["spent"] += time.time() - w.since
                    w.task = None
                    absorb(w.ji, r)
                except (EOFError, OSError):
                    jobs[w.ji]["running"] -= 1
                    jobs[w.ji]["agg"]["errors"].append(("WorkerDied", "symbolic worker died"))
                    w.kill()
                    workers[k] = Proc(sym_worker, (harnesses, seed))
            elif time.time() - w.since > 240:
                jobs[w.ji]["running"] -= 1
                jobs[w.ji]["agg"]["errors"].append(("WorkerHung", "symbolic worker hung"))
                w.kill()
                workers[k] = Proc(sym_worker, (harnesses, seed))
        for k, r in enumerate(replayers):
            if r.task is None:
                continue
            if r.parent in ready:
                try:
                    out = r.parent.recv()
                    r.task = None
                    handle_replay(r.item, out)
                except (EOFError, OSError):
                    handle_replay(r.item, ("fail", "interpreter died", []))
                    r.kill()
                    replayers[k] = Proc(replay_worker, (harnesses,))
            elif time.time() - r.since > REPLAY_LIMIT + 20:
                handle_replay(r.item, ("fail", "no result within limit", []))
                r.kill()
                replayers[k] = Proc(replay_worker, (harnesses,))
    for p in workers + replayers:
        p.kill()

    # ------------------------------------------------------------ report
    tot = blank()
    per = []
    for j in jobs:
        ag = j["agg"]
        for k in ("paths", "branches", "checks", "discharged", "queries", "solver_s",
                  "unknown", "concretized"):
            tot[k] += ag[k]
        h = harnesses[j["h"]]
        per.append(dict(
            harness=h.name, params=j["params"], paths=ag["paths"],
            branches=ag["branches"], assertions=ag["checks"], discharged=ag["discharged"],
            exhausted=not j["queue"] and j["running"] == 0 and not ag["errors"]
            and not [k for k in ag["aborted"] if k not in ("assume", "infeasible")],
            pending_prefixes=len(j["queue"]), unknown_queries=ag["unknown"],
            paths_with_concretisation=ag["concretized"],
            undecided_assertions=sum(ag["inconclusive"].values()),
            reached=ag["paths"] > 0,
            encoding_errors=sorted(set("%s: %s" % e for e in ag["errors"]))[:5],
            aborted=ag["aborted"], notes=ag["notes"]))
    ev = dict(
        property=a.pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed,
        level="model_checking",
        coverage=dict(
            states=tot["paths"], transitions=tot["branches"],
            traces_validated_against_impl=stats["validated"],
            samples=samples,
            assertions_checked=tot["checks"], assertions_discharged_unsat=tot["discharged"],
            solver_queries=tot["queries"], solver_time_s=round(tot["solver_s"], 2),
            unknown_queries=tot["unknown"],
            functions_encoded=sorted(funcs),
            harnesses=per,
            bounds={h.name: h.bounds for h in harnesses},
            stubs={h.name: h.stubs for h in harnesses if h.stubs},
            replays=stats, unreproduced=unreproduced, divergences=divergences,
            vacuous_harnesses=[p["harness"] for p in per if not p["reached"]],
            explanation="states = symbolic paths executed to the end of the harness; "
            "transitions = solver-decided branches; an assertion is discharged when "
            "path condition and its negation are unsatisfiable.",
            exhaustive=all(p["exhausted"] for p in per),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "floating point numbers are treated as exact reals; constants within 1e-15 of a "
            "rational with denominator <= 1e5 are read as that rational, polynomial "
            "coefficients below 1e-12 are rounding noise",
            "every reported violation was reproduced on unpatched code",
        ],
        wall_s=round(time.time() - t_start, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rpaths = []
    if violations:
        seen = set()
        for v in violations:
            key = (v["harness"], v["check"].split(":")[0])
            if key in seen:
                continue
            seen.add(key)
            rp = os.path.join(VERIF, "evidence", "replay_%s_%d.json" % (a.pid, len(rpaths)))
            v["replay_cmd"] = "/verif/check %s --replay %s" % (a.pid, rp)
            json.dump(v, open(rp, "w"), indent=1, default=str)
            rpaths.append((rp, v))
            if len(rpaths) >= 5:
                break
        ev["coverage"]["violation_samples"] = [v for _, v in rpaths]
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w"), indent=1,
              default=str)
    for k in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s" % (a.pid, known_hits[k]["what"]))
    print("%s %s: paths=%d branches=%d assertions=%d/%d queries=%d solver=%.1fs unknown=%d "
          "replays=%s wall=%.1fs" % (
              a.pid, tier, tot["paths"], tot["branches"], tot["discharged"], tot["checks"],
              tot["queries"], tot["solver_s"], tot["unknown"], stats, ev["wall_s"]))
    if a.v:
        for p in per:
            print("  ", {k: v for k, v in p.items() if v not in ({}, [], 0, "")})
        for d in divergences:
            print("  DIVERGED", d)
        for u in unreproduced:
            print("  UNREPRODUCED", u)
    for rp, v in rpaths:
        print("  %s %s: %s" % (v["harness"], v["params"], v["check"]))
        print("VIOLATION property=%s replay=%s" % (a.pid, rp))
    return 1 if violations else 0


def compare_obs(sym, conc):
    from .ctx import conc_close

    bad = []
    for (n1, v1), (n2, v2) in zip(sym or [], conc):
        if n1 != n2:
            bad.append((n1, n2))
            break
        if v1 is None or v2 is None:
            continue
        if not conc_close(v1, v2):
            bad.append((n1, v1, v2))
    return bad[:3]


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        d = json.load(open(p))
    except Exception:
        return []
    return [k for k in d.get("known", []) if k["property"] == pid]


def match_known(known, rec):
    for k in known:
        if k["harness"] == rec["harness"] and rec["check"].startswith(k["check"]):
            if all(rec["params"].get(q) == v for q, v in k.get("params", {}).items()):
                if all(rec["input"].get(q) == v for q, v in k.get("input", {}).items()):
                    return k
    return None


if __name__ == "__main__":
    try:
        rc = main()
    except KeyboardInterrupt:
        rc = 0
    sys.stdout.flush()
    os._exit(rc)
