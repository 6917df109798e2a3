"""Driver: explores harnesses symbolically, lets z3 decide, replays counterexamples."""
import json
import math
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback
import importlib
from fractions import Fraction
import multiprocessing as mp
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"
REAL_PY = "/opt/venv/bin/python"


def F(x):
    return Fraction(x) if not isinstance(x, float) else Fraction(x)


class SCtx:
    """Symbolic side of the harness interface (see conc.CCtx)."""
    symbolic = True

    def __init__(self):
        from . import core, arr, world
        self.core, self.arr = core, arr
        self.bt, self.np = world.load(), world.symnp()
        world.STANDIN.clear()
        self.obl = []            # (label, node builder mult -> ok-node)
        self.observed = {}
        self.inputs = {}         # name -> atom id

    # inputs
    def _atom(self, name, lo, hi, is_int=False):
        s = self.core.input_atom(name, lo, hi, is_int)
        (m,) = s.p
        self.inputs[name] = m[0]
        self.core.cur().assume_atom(m[0])
        return s

    def real(self, name, lo=None, hi=None):
        return self._atom(name, lo, hi)

    def int(self, name, lo, hi):
        return self._atom(name, lo, hi, True)

    def bool(self, name):
        return self._atom(name, 0, 1, True) == 1

    def pick(self, name, options):
        options = list(options)
        return options[self.core.cur().choose_value(self._atom(name, 0, len(options) - 1, True))] if len(options) > 1 else options[0]

    def array(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, object)
        for ix in np.ndindex(*shape):
            out[ix] = self.real(name + "_" + "_".join(map(str, ix)), lo, hi)
        return out.view(self.arr.SA)

    def carray(self, name, shape, lo=None, hi=None):
        re, im = self.array(name + "r", shape, lo, hi), self.array(name + "i", shape, lo, hi)
        return self.arr.emap(lambda a, b: self.core.SymC(a, b), re, im)

    def const(self, x):
        return self.arr.sa(np.array(x, dtype=float)) if np.ndim(x) else x

    # logic
    def _n(self, x):
        if isinstance(x, np.ndarray):
            return self.core.fand(*[self.core.tonode(e) for e in self.arr.objarr(x).reshape(-1)])
        return self.core.tonode(x)

    def assume(self, cond):
        n = self._n(cond)
        if n is False:
            raise self.core.PathAbort()
        p = self.core.cur()
        if p.known(n) is True:
            return
        p.assume(n)
        p.assumed = True

    def implies(self, a, b):
        return self.core.mkbool(self.core.f_or(self.core.fnot(self._n(a)), self._n(b)))

    def iff(self, a, b):
        a, b, c = self._n(a), self._n(b), self.core
        return c.mkbool(c.f_or(c.fand(a, b), c.fand(c.fnot(a), c.fnot(b))))

    def and_(self, *xs): return self.core.mkbool(self.core.fand(*[self._n(x) for x in xs]))
    def or_(self, *xs): return self.core.mkbool(self.core.f_or(*[self._n(x) for x in xs]))
    def not_(self, x): return self.core.mkbool(self.core.fnot(self._n(x)))
    def ite(self, c, a, b): return self.core.ite(c, a, b)
    def decide(self, cond): return bool(cond)

    @property
    def xr(self):
        from . import xrmodel
        return xrmodel

    def figures(self, f):
        from . import mplmodel
        return mplmodel.figures(f)

    def linear(self, f):
        """lifts a linear function of numeric arrays (first argument)"""
        from . import world
        return world.linear_in(0)(f)

    def provide(self, name, module):
        """stand-in for a package that is not installed"""
        from . import world
        world.STANDIN[name] = module

    def lemma_sin_monotone(self, xs): self.core.lemma_sin_monotone(list(xs))
    def number(self, text): return self.core.parse_number(text)
    def max(self, xs): return self.core.vmax(list(xs))
    def min(self, xs): return self.core.vmin(list(xs))

    def check(self, label, cond):
        n = self._n(cond)
        self.obl.append((label, lambda mult: n))

    def close(self, label, a, b, tol=1e-6):
        arr, core = self.arr, self.core
        try:
            a, b = arr.objarr(a), arr.objarr(b)
        except ValueError:
            self.obl.append((label, lambda mult: False))
            return
        if a.shape != b.shape:
            self.obl.append((label, lambda mult: False))
            return
        prs, bad = [], False
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            if isinstance(x, (core.SymC, complex, np.complexfloating)) or isinstance(y, (core.SymC, complex, np.complexfloating)):
                x, y = core.SymC.lift(x), core.SymC.lift(y)
                ps = [(x.re, y.re), (x.im, y.im)]
            else:
                ps = [(x, y)]
            for u, v in ps:
                if core.isspecial(u) or core.isspecial(v):
                    if not (core.isspecial(u) and core.isspecial(v) and (u == v or (u != u and v != v))):
                        bad = True
                    continue
                u, v = core.Sym.lift(u), core.Sym.lift(v)
                if u is None or v is None:
                    bad = True
                else:
                    prs.append((u, v))
        if bad:
            self.obl.append((label, lambda mult: False))
            return
        t = Fraction(tol)
        ds = []
        for u, v in prs:
            if u.isconst and v.isconst:
                ds.append(abs(u.cval - v.cval))
            else:
                ds.append(core.coarse(core.resolve(core.padd(u.p, v.p, Fraction(-1))), t))

        def build(mult):
            tt = t * Fraction(mult)
            out = []
            for d in ds:
                if isinstance(d, Fraction):
                    if d > tt:
                        return False
                elif d:
                    out.append(("cl", d, {}, tt))
            return core.fand(*out)
        self.obl.append((label, build))

    def resolved(self, x):
        return self.core.Sym(self.core.resolve(x.p)) if isinstance(x, self.core.Sym) else x

    def le(self, label, a, b, tol=0.0):
        arr, core = self.arr, self.core
        A, B = np.broadcast_arrays(arr.objarr(a), arr.objarr(b))
        prs = [(self.resolved(x), self.resolved(y)) for x, y in zip(A.reshape(-1), B.reshape(-1))]
        t = Fraction(tol)

        def build(mult):
            tt = t * Fraction(mult)
            return core.fand(*[core.tonode(x <= y + tt if not core.isspecial(y) else x <= y) for x, y in prs])
        self.obl.append((label, build))

    def snapshot(self, x):
        return self.arr.objarr(x).copy()

    def unchanged(self, label, x, snap):
        core = self.core
        b = self.arr.objarr(x)
        if b.shape != snap.shape:
            self.obl.append((label, lambda mult: False))
            return
        ns = []
        for u, v in zip(b.reshape(-1), snap.reshape(-1)):
            if u is v:
                continue
            if core.isspecial(u) and core.isspecial(v) and u != u and v != v:
                continue
            ns.append(core.tonode(self.arr.scalar_op(np.equal, u, v)))
        n = core.fand(*ns)
        self.obl.append((label, lambda mult: n))

    def observe(self, label, x, tol=None):
        self.observed[label] = (list(self.arr.objarr(x).reshape(-1)), tol)

    def raises(self, f, exc=Exception):
        try:
            f()
        except exc as e:
            return e
        return None

    def refuses(self, label, f, exc=Exception):
        self.check(label, self.raises(f, exc) is not None)


# ------------------------------------------------------------------ concrete

class Server:
    """The real package in its own interpreter (conc.py), one forked process per request."""

    def __init__(self):
        self.p, self.owner = None, None

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        self.p = subprocess.Popen([REAL_PY, os.path.join(HERE, "symx", "conc.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=HERE)
        self.owner = os.getpid()

    def ask(self, **q):
        for _ in range(2):
            if self.p is None:
                self.start()
            try:
                self.p.stdin.write(json.dumps(q) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, OSError):
                pass
            self.stop()
        return dict(status="died", failures=[], observed={}, nchecks=0)

    def stop(self):
        if self.p is not None and self.owner == os.getpid():
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.p = None


SLOTS = []


# --------------------------------------------------------------------- tasks

_functions = set()


def _monitor():
    src = os.environ.get("VERIF_REPO_SRC", "/repo/src")
    mon = sys.monitoring
    mon.use_tool_id(3, "verif")

    def start(code, off):
        if code.co_filename.startswith(src):
            _functions.add(os.path.basename(code.co_filename)[:-3] + "." + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def fz_inputs(ctx, env):
    out = {}
    for name, i in ctx.inputs.items():
        v = env.get(i)
        from . import core
        a = core.ATOMS[i]
        if v is None:
            v = core.default_value(a)
        out[name] = int(v) if a.is_int else float(v)
    return out


def run_task(job):
    """Explore one harness instance. Runs in a fresh forked process."""
    mod, fn, params, opts = job
    t0 = time.time()
    sys.stdin = open(os.devnull)
    from . import core, arr, world
    res = dict(task=f"{fn}({', '.join(f'{k}={v!r}' for k, v in params.items())})", fn=fn, params=params,
               violations=[], inconclusive=[], samples=[], validated=0, mismatches=[], labels={}, aborted=0, skipped_validation=0)
    stats = core.Stats()
    server = SLOTS[opts.get("slot", 0)] if SLOTS else Server()
    rng = random.Random(opts["seed"] * 7919 + __import__("zlib").crc32(fn.encode()) % 1000)
    try:
        _monitor()
    except Exception:
        pass
    try:
        world.load()
        m = importlib.import_module("checks." + mod)
        f = getattr(m, fn)
        _explore(f, mod, fn, params, opts, res, stats, server, rng)
    except core.Unsupported as e:
        res["inconclusive"].append(f"unsupported: {e}")
    except core.NonDeterministic:
        res["inconclusive"].append("harness is not deterministic")
    except Exception as e:
        res["inconclusive"].append("driver: " + traceback.format_exc())
    if server.owner == os.getpid():
        server.stop()
    res.update(paths=stats.paths, branches=stats.branches, queries=stats.queries, unknown=stats.unknown,
               solver_s=stats.time, obligations=stats.obligations, relaxed=stats.relaxed,
               concretised=sorted(set(stats.concretised)), functions=sorted(_functions), wall=time.time() - t0)
    return res


def _explore(f, mod, fn, params, opts, res, stats, server, rng):
    from . import core
    nodes = []
    seen_fail = set()
    popts = dict(opts)
    popts["deadline"] = time.time() + opts.get("task_s", 300)
    nval = 0
    from checks import lib
    ctx = SCtx()
    core.CUR = core.Path([], type(stats)(), popts)
    try:
        lib.prehistory(ctx.bt, params)
    except BaseException:       # (left to the harness)
        pass
    while True:
        path = core.Path(nodes, stats, popts)
        core.CUR = path
        ctx = SCtx()
        exc = None
        ok = True
        try:
            f(ctx, **params)
        except core.PathAbort:
            ok = False
            res["aborted"] += 1
        except core.Unsupported as e:
            ok = False
            tb = traceback.format_exc().strip().splitlines()
            res["inconclusive"].append(f"unsupported: {e} | " + " | ".join(x.strip() for x in tb[-8:-1]))
            if len(res["inconclusive"]) > 5 or "out of time" in str(e):
                break
        except core.NonDeterministic:
            raise
        except RecursionError as e:
            exc = (e, "".join(traceback.format_tb(e.__traceback__)[-12:]))
        except Exception as e:
            exc = (e, traceback.format_exc())
        if exc is not None and path.assumed:
            r, _ = path.solve(True)
            if r == "unsat":
                ok, exc = False, None
                res["aborted"] += 1
        if ok:
            stats.paths += 1
            _decide(path, ctx, exc, mod, fn, params, opts, res, stats, server, rng, seen_fail)
            if opts["validate"] and exc is None and (nval < opts["validate"] or (stats.paths & (stats.paths - 1)) == 0):
                if _validate(path, ctx, mod, fn, params, opts, res, server, rng):
                    nval += 1
        if len(res["violations"]) >= opts.get("max_violations", 3):
            break
        while nodes:
            nd = nodes[-1]
            if nd.kind == "b" and not nd.forced:
                nd.val, nd.forced = not nd.val, True
                break
            if nd.kind == "v" and not nd.forced and nd.val is not None:
                nd.tried.append(nd.val)
                nd.val = None
                break
            nodes.pop()
        if not nodes:
            break
        if stats.paths + res["aborted"] >= opts.get("max_paths", 20000):
            res["inconclusive"].append("path limit reached")
            break
        if time.time() > popts["deadline"]:
            res["inconclusive"].append("out of time")
            break
    core.CUR = None


def _decide(path, ctx, exc, mod, fn, params, opts, res, stats, server, rng, seen_fail):
    from . import core
    for label, _ in ctx.obl:
        res["labels"][label] = res["labels"].get(label, 0) + 1
    stats.obligations += len(ctx.obl)
    if exc is not None:
        _report(path, ctx, "no-exception", lambda mult: False, mod, fn, params, opts, res, server, rng, seen_fail, exc)
    todo = []
    for label, build in ctx.obl:
        if label in seen_fail:
            continue
        n = build(1)
        if n is True:
            continue
        todo.append((label, build, n))
    if not todo:
        return
    allok = core.fand(*[n for _, _, n in todo])
    if len(todo) > 1 and allok is not False:
        r, _ = path.solve(core.fnot(allok), timeout=opts.get("group_ms", 20000))
        if r == "unsat":
            return
    for label, build, n in todo:
        if label in seen_fail:
            continue
        r, _ = path.solve(core.fnot(n), timeout=opts.get("timeout_ms", 60000))
        if r == "unsat":
            continue
        if r == "unknown":
            # try the conjuncts one by one
            parts = n[1] if n is not False and n[0] == "a" else (n,)
            bad = None
            for q in parts:
                r2, _ = path.solve(core.fnot(q), timeout=opts.get("timeout_ms", 60000))
                if r2 == "sat":
                    bad = "sat"
                    break
                if r2 == "unknown":
                    bad = bad or "unknown"
            if bad is None:
                continue
            if bad == "unknown":
                if not _report(path, ctx, label, build, mod, fn, params, opts, res, server, rng, seen_fail, None, quiet=True):
                    res["inconclusive"].append(f"{label}: solver gives unknown")
                continue
        _report(path, ctx, label, build, mod, fn, params, opts, res, server, rng, seen_fail, None)


def _report(path, ctx, label, build, mod, fn, params, opts, res, server, rng, seen_fail, exc, quiet=False):
    """Find models of the violation, replay them on the real code."""
    from . import core
    if label in seen_fail and exc is not None:
        return True
    tried = []
    last = None
    cands = [m for m in (1000, 30, 1)] if exc is None else [1]
    extra = [core.fcmp("le", {}) for _ in range(1)]
    for attempt in range(opts.get("attempts", 8)):
        mult = cands[min(attempt, len(cands) - 1)]
        node = core.fnot(build(mult))
        if node is False:
            continue
        push = []
        if attempt >= len(cands) or exc is not None and attempt:
            ids = [i for i in ctx.inputs.values() if core.ATOMS[i].lo is not None and core.ATOMS[i].hi is not None]
            rng.shuffle(ids)
            for i in ids[:max(1, len(ids) // 3)]:
                a = core.ATOMS[i]
                v = a.lo + (a.hi - a.lo) * Fraction(rng.randint(1, 9), 10)
                push.append(core.fcmp("le", {(i,): Fraction(1), (): -v}) if rng.random() < .5 else core.fcmp("le", {(i,): Fraction(-1), (): v}))
        r, model = path.solve(core.fand(node, *push), want_model=True, timeout=opts.get("model_ms", 20000) if mult == 1 and attempt < len(cands) else 3000)
        if r != "sat":
            continue
        env = model if isinstance(model, dict) else path.env_of(model)
        inputs = fz_inputs(ctx, env)
        if inputs in tried:
            continue
        tried.append(inputs)
        rep = server.ask(mod=mod, fn=fn, params=params, inputs=inputs, tolmult=0.5)
        last = rep
        if os.environ.get("VERIF_DEBUG") and rep["status"] != "fail" and not isinstance(model, dict):
            fenv = {i: float(v) for i, v in env.items()}
            for a in core.ATOMS:
                if a.id in path.atoms or a.kind in ("sin", "cos", "arcsin", "inv", "ite"):
                    mv = model.eval(a.z, model_completion=False)
                    f, t = core.z3frac(mv), core.aeval(a.id, fenv)
                    if f is not None and abs(float(f) - t) > 1e-6:
                        print("WRONG ATOM", a.name, float(f), "is", t, "args", [str(core.pz(x))[:300] for x in a.args if isinstance(x, dict)], file=sys.stderr)
        if rep["status"] == "fail":
            labs = [l for l, _ in rep["failures"]]
            seen_fail.add(label)
            seen_fail.update(labs)
            res["violations"].append(dict(label=label, task=res["task"], mod=mod, fn=fn, params=params, inputs=inputs,
                                          failures=rep["failures"], exc=rep.get("exc", "")))
            return True
    if quiet:
        return False
    if not tried and exc is not None:
        res["aborted"] += 1         # path condition has no model
        r, _ = path.solve(True)
        if r == "unsat":
            return False
    seen_fail.add(label)
    if os.environ.get("VERIF_DEBUG"):
        for f in path.pc:
            print("PC", str(core.fz(f))[:300], file=sys.stderr)
        print("NOT", str(core.fz(node))[:600], [(core.ATOMS[i].name, [str(core.pz(x))[:200] for x in core.ATOMS[i].args if isinstance(x, dict)]) for i in core.fatoms(node)], file=sys.stderr)
    res["inconclusive"].append(f"{label}: counterexample does not reproduce on the real code "
                               f"(models tried {len(tried)}, last {json.dumps(last)[:300] if last else None}, inputs {str(tried[-1])[:400] if tried else None})"
                               + (f" symbolic exception {exc[0]!r}: {exc[1][-1500:]}" if exc else ""))
    return False


def _validate(path, ctx, mod, fn, params, opts, res, server, rng):
    """Run the real code on a model of the path and compare the observed outputs."""
    from . import core
    push = []
    ids = [i for i in ctx.inputs.values() if core.ATOMS[i].lo is not None and core.ATOMS[i].hi is not None and not core.ATOMS[i].is_int]
    for i in ids:
        a = core.ATOMS[i]
        v = a.lo + (a.hi - a.lo) * Fraction(rng.randint(10, 90), 100)
        push.append(core.fcmp("eq", {(i,): Fraction(1), (): -v} if v else {(i,): Fraction(1)}))
    r, model = "unsat", None
    k = len(push)
    for _ in range(3):         # as many random values as the path condition allows
        rng.shuffle(push)
        r, model = path.solve(core.fand(*push[:k]), want_model=True, timeout=5000)
        if r == "sat":
            break
        k = k // 3
    if r != "sat":
        r, model = path.solve(True, want_model=True, timeout=10000)
    if r != "sat":
        if r == "unknown":
            res["skipped_validation"] += 1
        return False
    env = model if isinstance(model, dict) else path.env_of(model)
    inputs = fz_inputs(ctx, env)
    rep = server.ask(mod=mod, fn=fn, params=params, inputs=inputs, tolmult=2.0)
    if rep["status"] == "assume":
        res["skipped_validation"] += 1
        return False
    if rep["status"] == "fail":
        res["violations"].append(dict(label=rep["failures"][0][0], task=res["task"], mod=mod, fn=fn, params=params, inputs=inputs,
                                      failures=rep["failures"], exc=rep.get("exc", ""), via="validation run"))
        return True
    if rep["status"] != "ok":
        res["skipped_validation"] += 1
        return False
    fenv = {i: float(inputs[n]) for n, i in ctx.inputs.items()}
    bad = None
    for label, (vals, tol) in ctx.observed.items():
        if label not in rep["observed"]:
            bad = f"{label} not observed in the real run"
            break
        got, _ = rep["observed"][label]
        if len(got) != len(vals):
            bad = f"{label}: {len(vals)} values encoded, {len(got)} in the real run"
            break
        scale = max([abs(g[0]) for g in got if math.isfinite(g[0])] + [abs(g[1]) for g in got if math.isfinite(g[1])] + [1e-30])
        t = tol if tol is not None else max(2e-4 * scale, 1e-12 * max([1.] + [abs(x) for x in inputs.values()]))
        for x, g in zip(vals, got):
            v = complex(core.value_of(x, dict(fenv)))
            for a, b in ((v.real, g[0]), (v.imag, g[1])):
                if math.isfinite(a) and math.isfinite(b):
                    if abs(a - b) > t:
                        bad = f"{label}: encoded {v}, real {g}"
                elif not (a == b or (a != a and b != b)):
                    bad = f"{label}: encoded {v}, real {g}"
    if bad:
        # a model of over-approximated functions (trigonometry) may lie off this path
        for f in path.pc:
            try:
                if not core.feval(f, dict(fenv)):
                    if os.environ.get("VERIF_DEBUG"):
                        print("OFF PATH", res["task"], inputs, str(core.fz(f))[:300], [(core.ATOMS[i].name, core.aeval(i, dict(fenv)), [str(core.pz(x))[:200] for x in core.ATOMS[i].args if isinstance(x, dict)]) for i in core.fatoms(f)], file=sys.stderr)
                    res["skipped_validation"] += 1
                    return False
            except (ArithmeticError, ValueError, KeyError):
                pass
    if bad:
        res["mismatches"].append(dict(what=bad, inputs=inputs))
    else:
        res["validated"] += 1
    if len(res["samples"]) < 2:
        res["samples"].append(dict(task=res["task"], path_decisions=len(path.nodes), inputs=dict(list(inputs.items())[:12]),
                                   checks_run=rep["nchecks"], agrees=not bad))
    return True


# ---------------------------------------------------------------------- main

def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("KNOWN-FINDING: property=" + prop + " "):
                    out.append(line)
    except FileNotFoundError:
        pass
    return out


def matches(line, v):
    # "... key=<fn>/<label> ..." identifies the finding
    for w in line.split():
        if w.startswith("key="):
            return w[4:] == f"{v['fn']}/{v['label']}"
    return False


def _child(job, q):
    try:
        q.put(run_task(job))
    except BaseException as e:
        q.put(dict(task=str(job[1:3]), fn=job[1], params=job[2], violations=[], inconclusive=[f"worker: {e!r}"], samples=[], validated=0,
                   mismatches=[], labels={}, aborted=0, skipped_validation=0, paths=0, branches=0, queries=0, unknown=0, solver_s=0,
                   obligations=0, relaxed=0, concretised=[], functions=[], wall=0))


def run_jobs(jobs, nproc, wall):
    """Each job in its own forked process, at most nproc at a time."""
    from . import world
    nproc = min(nproc, max(1, len(jobs)))
    SLOTS[:] = [Server() for _ in range(nproc)]
    for s in SLOTS:
        s.start()
    world.load()
    ctx = mp.get_context("fork")
    results, running, todo = [None] * len(jobs), [], list(enumerate(jobs))
    free = list(range(nproc))
    t_end = time.time() + wall
    fast = False
    while todo or running:
        while todo and free:
            i, job = todo.pop(0)
            k = free.pop()
            job[3]["slot"] = k
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_pchild, args=(job, w))
            p.start()
            w.close()
            running.append((i, p, r, k))
        nxt = []
        for i, p, r, k in running:
            done = False
            if r.poll(0):
                try:
                    results[i] = r.recv()
                except EOFError:
                    results[i] = None
                done = True
            elif not p.is_alive() and not r.poll(0):
                done = True
            if done:
                p.join()
                r.close()
                free.append(k)
                if results[i] and results[i]["violations"] and not fast:
                    fast = True          # broken: no need to finish everything
                    t_end = min(t_end, time.time() + float(os.environ.get("VERIF_GRACE", "25")))
                if results[i] is None:       # died with a request under way, perhaps
                    SLOTS[k].stop()
                    SLOTS[k].start()
            else:
                nxt.append((i, p, r, k))
        running = nxt
        if time.time() > t_end:
            for i, p, r, k in running:
                p.kill()
                p.join()
            break
        time.sleep(0.01)
    for s in SLOTS:
        s.stop()
    out = []
    for (i, job) in enumerate(jobs):
        r = results[i]
        if r is None:
            r = dict(task=f"{job[1]}({job[2]})", fn=job[1], params=job[2], violations=[], inconclusive=["worker died or out of time"], samples=[], validated=0,
                     mismatches=[], labels={}, aborted=0, skipped_validation=0, paths=0, branches=0, queries=0, unknown=0, solver_s=0,
                     obligations=0, relaxed=0, concretised=[], functions=[], wall=0)
        out.append(r)
    return out


def _pchild(job, w):
    try:
        w.send(run_task(job))
    except BaseException as e:
        traceback.print_exc()
        os._exit(3)
    w.close()
    os._exit(0)


def main(argv):
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick") if "--quick" not in argv else "quick"
    if "--replay" in argv:
        return replay(argv[argv.index("--replay") + 1])
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.environ.setdefault("MPLBACKEND", "Agg")
    tmp = tempfile.mkdtemp(prefix="verif-mpl-")
    os.environ["MPLCONFIGDIR"] = tmp
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sys.setrecursionlimit(20000)
    mod = prop.lower()
    m = importlib.import_module("checks." + mod)
    tasks = m.tasks(tier)
    opts = dict(seed=seed, validate=2 if tier == "quick" else 6, task_s=240 if tier == "quick" else 3000, tier=tier)
    opts.update(getattr(m, "OPTS", {}))
    jobs = []
    for t in tasks:
        fn, params = t[0], t[1]
        o = dict(opts)
        if len(t) > 2:
            o.update(t[2])
        if only and only not in fn:
            continue
        jobs.append((mod, fn, params, o))
    try:
        results = run_jobs(jobs, int(os.environ.get("VERIF_PROCS", "8")), 600 if tier == "quick" else 6 * 3600)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return finish(prop, tier, seed, t0, m, results, bool(only))


def finish(prop, tier, seed, t0, m, results, partial):
    viol, incon, mism = [], [], []
    for r in results:
        viol += r["violations"]
        incon += [f"{r['task']}: {x}" for x in r["inconclusive"]]
        mism += [dict(task=r["task"], **x) for x in r["mismatches"]]
        if not r["violations"] and not r["inconclusive"]:
            if not r["paths"] or not r["obligations"]:
                incon.append(f"{r['task']}: vacuous (paths {r['paths']}, obligations {r['obligations']})")
            elif r["mismatches"] and not r["validated"]:
                incon.append(f"{r['task']}: encoding does not match the real code: {r['mismatches'][0]['what']}")
    kf = known_findings(prop)
    new, listed = [], []
    for v in viol:
        k = next((l for l in kf if matches(l, v)), None)
        (listed if k else new).append((v, k))
    for l in sorted({k for _, k in listed}):
        print(l)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    shown = set()
    for n, (v, _) in enumerate(new):
        key = (v["fn"], v["label"])
        if key in shown:
            continue
        shown.add(key)
        p = os.path.join(rdir, f"{prop}-{len(shown)}.json")
        with open(p, "w") as fh:
            json.dump(v, fh, indent=1)
        print(f"VIOLATION property={prop} replay={p}")
        print(f"  {v['task']}: {v['label']}: {v['failures'][0][1]}")
        print(f"  inputs: {str(v['inputs'])[:600]}")
        print(f"  reproduce: python3-vt /verif/run_check.py {prop} --replay {p}")
    for x in incon[:20]:
        print("INCONCLUSIVE", x)
    for x in mism[:5]:
        print("note: encoding and real run differ:", x["task"], x["what"])
    S = lambda k: sum(r[k] for r in results)
    funcs = sorted({f for r in results for f in r["functions"]})
    conc = sorted({x for r in results for x in r["concretised"]})
    labels = {}
    for r in results:
        for l, n in r["labels"].items():
            labels[f"{r['fn']}/{l}"] = labels.get(f"{r['fn']}/{l}", 0) + n
    samples = [s for r in results for s in r["samples"]][:12]
    cov = dict(
        states=S("paths"), transitions=S("branches"), traces_validated_against_impl=S("validated"), samples=samples or ["none"],
        explanation="states = feasible execution paths of the real code explored symbolically (all inputs of the stated boxes at once on each path); "
                    "transitions = symbolic branch decisions taken; traces_validated = path models on which the real, unpatched code gave the encoded outputs",
        tasks=len(results), infeasible_or_aborted_paths=S("aborted"),
        solver=dict(name="z3", queries=S("queries"), unknown=S("unknown"), seconds=round(S("solver_s"), 2),
                    discharged_by_linear_relaxation=S("relaxed")),
        obligations=S("obligations"), assertions=labels, functions_encoded=funcs, bounds=getattr(m, "BOUNDS", ""),
        outside=getattr(m, "OUTSIDE", ""), concretisations=conc, encoding_mismatches=len(mism), validation_skipped=S("skipped_validation"),
        per_task=[dict(task=r["task"], paths=r["paths"], queries=r["queries"], obligations=r["obligations"], solver_s=round(r["solver_s"], 2),
                       wall_s=round(r["wall"], 2), validated=r["validated"]) for r in results],
        inconclusive=incon)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=["exact real arithmetic in the encoding; equality up to the tolerance stated in the harness",
                           "compiled kernels (spharm, FFT, convolution, Hilbert) are linear: encoded by the matrix obtained by probing the installed library on this run"]
                          + list(getattr(m, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{prop} [{tier}] tasks={len(results)} paths={cov['states']} branches={cov['transitions']} obligations={cov['obligations']} "
          f"queries={S('queries')} solver={S('solver_s'):.1f}s validated={S('validated')} mismatches={len(mism)} "
          f"concretisations={len(conc)} wall={time.time() - t0:.1f}s")
    if conc:
        print("  concretised:", ", ".join(conc)[:500])
    if new:
        return 1
    if incon:
        # the property held on everything that was decided; no answer if that is less than half of the tasks
        n = sum(1 for r in results if r["inconclusive"] or not r["paths"] or not r["obligations"] or (r["mismatches"] and not r["validated"]))
        print(f"{prop}: {len(results) - n} of {len(results)} tasks decided")
        return 2 if 2 * n > len(results) else 0
    return 0


def replay(path):
    with open(path) as fh:
        v = json.load(fh)
    s = Server()
    rep = s.ask(mod=v["mod"], fn=v["fn"], params=v["params"], inputs=v["inputs"], tolmult=0.5)
    s.stop()
    print(json.dumps(rep, indent=1)[:5000])
    return 1 if rep["status"] == "fail" else 0
