"""Symbolic reals, booleans and complex numbers, and the path explorer.

Numbers are polynomials with rational coefficients over *atoms*.  An atom is an
input variable or a defined quantity (inverse, square root, sine, ite, floor,
...) with an interning key and defining axioms.  Comparisons give formulas
(SymBool); using a formula as a Python bool forks the execution.
"""
import math
import numbers
import random
import time
from fractions import Fraction
import numpy as np
import z3

Q0, Q1 = Fraction(0), Fraction(1)


class Unsupported(BaseException):
    """The executor cannot encode what the code does (-> inconclusive)."""


class PathAbort(BaseException):
    """Current path is infeasible or exhausted."""


# ---------------------------------------------------------------- polynomials

ATOMS = []          # id -> Atom
BYKEY = {}          # key -> id


class Atom:
    __slots__ = ("id", "kind", "key", "name", "is_int", "axioms", "ev", "deps",
                 "rewrite", "lo", "hi", "z", "args", "merged", "has_merged", "relevant")

    def __init__(self, kind, key, name, is_int=False):
        self.kind, self.key, self.name, self.is_int = kind, key, name, is_int
        self.axioms = []     # list of formula nodes
        self.ev = None       # env -> float
        self.rewrite = None  # (mono, coef) -> poly | None
        self.lo = self.hi = None
        self.args = ()
        self.has_merged = None
        self.merged = None
        self.relevant = None
        v = z3.Int(name) if is_int else z3.Real(name)
        self.z = z3.ToReal(v) if is_int else v


def new_atom(kind, key, name=None, is_int=False):
    a = Atom(kind, key, name or f"{kind}!{len(ATOMS)}", is_int)
    a.id = len(ATOMS)
    ATOMS.append(a)
    BYKEY[key] = a.id
    return a


def pkey(p):
    return tuple(sorted(p.items()))


def padd(a, b, s=Q1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, Q0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, s):
    if not s:
        return {}
    return {m: c * s for m, c in a.items()}


def pmul(a, b):
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            v = r.get(m, Q0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return preduce(r)


def preduce(p):
    work = None
    for m in p:
        if len(m) > 1 and any(ATOMS[i].rewrite for i in m):
            work = True
            break
    if not work:
        return p
    out, todo, n = {}, list(p.items()), 0
    while todo:
        n += 1
        if n > 200000:
            raise Unsupported("polynomial reduction does not terminate")
        m, c = todo.pop()
        rep = None
        if len(m) > 1:
            for i in dict.fromkeys(m):
                f = ATOMS[i].rewrite
                if f is not None:
                    rep = f(m)
                    if rep is not None:
                        break
        if rep is None:
            v = out.get(m, Q0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        else:
            todo.extend((m2, c2 * c) for m2, c2 in rep.items())
    return out


def mono_mul(m, p):
    return {tuple(sorted(m + m2)): c for m2, c in p.items()}


def mono_remove(m, sub):
    """m / sub as sorted tuple or None."""
    m = list(m)
    for i in sub:
        try:
            m.remove(i)
        except ValueError:
            return None
    return tuple(m)


_zcache = {}


def rv(c):
    return z3.RealVal(c.numerator) if c.denominator == 1 else z3.RealVal(f"{c.numerator}/{c.denominator}")


RELAX = {}       # nonlinear monomial -> z3 var


def pz(p, relax=False):
    k = (pkey(p), relax)
    r = _zcache.get(k)
    if r is not None:
        return r
    terms = []
    for m, c in sorted(p.items()):
        if not m:
            terms.append(rv(c))
            continue
        if relax and len(m) > 1:
            v = RELAX.get(m)
            if v is None:
                v = RELAX[m] = z3.Real("mono!" + "_".join(map(str, m)))
            f = [v]
        else:
            f = [ATOMS[i].z for i in m]
        t = f[0] if len(f) == 1 else z3.Product(*f)
        terms.append(t if c == 1 else rv(c) * t)
    r = terms[0] if len(terms) == 1 else (z3.Sum(*terms) if terms else z3.RealVal(0))
    if len(_zcache) > 200000:
        _zcache.clear()
    _zcache[k] = r
    return r


def pdeg(p):
    return max((len(m) for m in p), default=0)


def patoms(p):
    s = set()
    for m in p:
        s.update(m)
    return s


# ------------------------------------------------------------------- formulas
# node: True/False | ("c", op, poly) op in {"lt","le","eq"}  (poly op 0)
#       | ("a", nodes) | ("o", nodes) | ("n", node)

def fnot(n):
    if n is True or n is False:
        return not n
    if n[0] == "n":
        return n[1]
    if n[0] == "c" and n[1] != "eq":
        return ("c", "le" if n[1] == "lt" else "lt", pscale(n[2], Fraction(-1)))
    return ("n", n)


def fand(*ns):
    out = []
    for n in ns:
        if n is False:
            return False
        if n is True:
            continue
        out.extend(n[1] if n[0] == "a" else (n,))
    return True if not out else out[0] if len(out) == 1 else ("a", tuple(out))


def f_or(*ns):
    out = []
    for n in ns:
        if n is True:
            return True
        if n is False:
            continue
        out.extend(n[1] if n[0] == "o" else (n,))
    return False if not out else out[0] if len(out) == 1 else ("o", tuple(out))


def fcmp(op, p):
    """poly op 0"""
    if not p or (len(p) == 1 and () in p):
        c = p.get((), Q0)
        return c < 0 if op == "lt" else c <= 0 if op == "le" else c == 0
    return ("c", op, p)


def fz(n, relax=False):
    if n is True or n is False:
        return z3.BoolVal(n)
    t = n[0]
    if t == "c":
        z = pz(n[2], relax)
        return z < 0 if n[1] == "lt" else z <= 0 if n[1] == "le" else z == 0
    if t == "a":
        return z3.And(*[fz(x, relax) for x in n[1]])
    if t == "o":
        return z3.Or(*[fz(x, relax) for x in n[1]])
    if t == "n":
        return z3.Not(fz(n[1], relax))
    if t == "cl":
        d = pz(n[1], relax) - pz(n[2], relax)
        return z3.And(d <= rv(n[3]), d >= rv(-n[3]))
    if t == "z":     # raw z3 with atoms
        return n[1]
    raise AssertionError(n)


def fatoms(n, acc=None, monos=None):
    acc = set() if acc is None else acc
    if n is True or n is False:
        return acc
    t = n[0]
    if t == "c":
        for m in n[2]:
            acc.update(m)
            if monos is not None and len(m) > 1:
                monos.add(m)
    elif t in "ao":
        for x in n[1]:
            fatoms(x, acc, monos)
    elif t == "n":
        fatoms(n[1], acc, monos)
    elif t == "cl":
        for p in n[1:3]:
            for m in p:
                acc.update(m)
                if monos is not None and len(m) > 1:
                    monos.add(m)
    elif t == "z":
        acc.update(n[2])
    return acc


def fkey(n):
    if n is True or n is False:
        return n
    t = n[0]
    if t == "c":
        return ("c", n[1], pkey(n[2]))
    if t in "ao":
        return (t, tuple(fkey(x) for x in n[1]))
    if t == "n":
        return ("n", fkey(n[1]))
    if t == "cl":
        return ("cl", pkey(n[1]), pkey(n[2]), n[3])
    return ("z", n[1].get_id())


def feval(n, env):
    if n is True or n is False:
        return n
    t = n[0]
    if t == "c":
        v = peval(n[2], env)
        return v < 0 if n[1] == "lt" else v <= 0 if n[1] == "le" else v == 0
    if t == "a":
        return all(feval(x, env) for x in n[1])
    if t == "o":
        return any(feval(x, env) for x in n[1])
    if t == "n":
        return not feval(n[1], env)
    if t == "cl":
        return abs(peval(n[1], env) - peval(n[2], env)) <= n[3]
    raise Unsupported("eval of raw formula")


def aeval(i, env):
    if i in env:
        return env[i]
    a = ATOMS[i]
    if a.ev is None:
        v = 0.0 if a.lo is None else float(a.lo)   # unconstrained input
    else:
        v = a.ev(env)
    env[i] = v
    return v


def peval(p, env):
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for i in m:
            t *= aeval(i, env)
        s += t
    return s


# ------------------------------------------------------------------- the path

class Node:
    __slots__ = ("kind", "val", "forced", "tried")

    def __init__(self, kind, val, forced=False):
        self.kind, self.val, self.forced = kind, val, forced
        self.tried = []


class Stats:
    def __init__(self):
        self.queries = self.unknown = 0
        self.time = 0.0
        self.branches = 0
        self.paths = 0
        self.obligations = 0
        self.relaxed = 0
        self.concretised = []


class Path:
    """State of the current symbolic execution path."""

    def __init__(self, nodes, stats, opts):
        self.nodes, self.pos = nodes, 0
        self.pc = []             # formula nodes
        self.atoms = set()       # atoms whose axioms are active
        self.stats, self.opts = stats, opts
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("timeout_ms", 20000))
        self.rsolver = None
        self.nl = False
        self.monos = set()
        self.pairs = {}
        self.flist = []          # all asserted nodes incl. axioms
        self.implied = {}
        self.lits = {}           # literal key -> truth on this path
        self.assumed = False

    # -- axioms -------------------------------------------------------------
    def _activate(self, node, sink):
        """Collect formulas (axioms of all atoms of node, transitively)."""
        todo = list(fatoms(node))
        while todo:
            i = todo.pop()
            if i in self.atoms:
                continue
            self.atoms.add(i)
            a = ATOMS[i]
            ax = list(a.axioms)
            if a.lo is not None:
                ax.append(fcmp("le", {(): a.lo, (i,): Fraction(-1)} if a.lo else {(i,): Fraction(-1)}))
            if a.hi is not None:
                ax.append(fcmp("le", {(): -a.hi, (i,): Q1} if a.hi else {(i,): Q1}))
            # monotone function congruence between atoms of the same kind
            if a.kind in MONOTONE:
                grp = self.pairs.setdefault(a.kind, [])
                for j in grp:
                    x, y = a.args[0], ATOMS[j].args[0]
                    d = padd(x, y, Fraction(-1))
                    e = {(i,): Q1, (j,): Fraction(-1)}
                    ax.append(f_or(fnot(fcmp("lt", d)), fcmp("lt", e)))
                    ax.append(f_or(fnot(fcmp("lt", pscale(d, Fraction(-1)))), fcmp("lt", pscale(e, Fraction(-1)))))
                    ax.append(f_or(fnot(fcmp("eq", d)), fcmp("eq", e)))
                    if a.kind == "arcsin":
                        # arguments within 1e-12 have arcsines within 2e-6
                        t, u = Fraction(1, 10**12), Fraction(2, 10**6)
                        near = [fcmp("le", padd(pscale(d, Fraction(s)), {(): -t})) for s in (1, -1)]
                        for s in (1, -1):
                            ax.append(f_or(*[fnot(n) for n in near], fcmp("le", padd(pscale(e, Fraction(s)), {(): -u}))))
                            # and within 1e-10 apart from the ends, where the derivative is below 71
                            ins = [fcmp("le", padd(pscale(x, Fraction(v)), {(): Fraction(-9999, 10000)})) for v in (1, -1)]
                            ax.append(f_or(*[fnot(n) for n in near + ins], fcmp("le", padd(pscale(e, Fraction(s)), {(): -Fraction(1, 10**10)}))))
                grp.append(i)
            for x in ax:
                sink.append(x)
                todo.extend(fatoms(x))

    def assume(self, node):
        """Add a formula to the path condition."""
        if node is True:
            return
        self.pc.append(node)
        self._learn(node)
        self._assert(node)

    def assume_atom(self, i):
        """activate an input atom (its bounds)"""
        if i in self.atoms:
            return
        self.atoms.add(i)
        a = ATOMS[i]
        for f in ([fcmp("le", {(): a.lo, (i,): Fraction(-1)} if a.lo else {(i,): Fraction(-1)})] if a.lo is not None else []) + \
                 ([fcmp("le", {(): -a.hi, (i,): Q1} if a.hi else {(i,): Q1})] if a.hi is not None else []):
            self.flist.append(f)
            self.solver.add(fz(f, True))

    def _learn(self, node):
        if node is True or node is False:
            return
        if node[0] == "a":
            for x in node[1]:
                self._learn(x)
        elif node[0] == "n":
            self.lits[lkey(node[1])] = False
            if node[1] is not True and node[1] is not False and node[1][0] == "o":
                for x in node[1][1]:
                    self._learn(fnot(x))
        else:
            self.lits[lkey(node)] = True
            if node[0] == "c":
                if node[1] == "lt":
                    self.lits[lkey(("c", "le", node[2]))] = True
                    self.lits[lkey(("c", "eq", node[2]))] = False
                    self.lits[lkey(("c", "lt", pscale(node[2], Fraction(-1))))] = False
                    self.lits[lkey(("c", "le", pscale(node[2], Fraction(-1))))] = False
                elif node[1] == "le":
                    self.lits[lkey(("c", "lt", pscale(node[2], Fraction(-1))))] = False
                elif node[1] == "eq":
                    for s in (1, -1):
                        self.lits[lkey(("c", "lt", pscale(node[2], Fraction(s))))] = False
                        self.lits[lkey(("c", "le", pscale(node[2], Fraction(s))))] = True

    def _assert(self, node):
        sink = [node]
        self._activate(node, sink)
        for f in sink:
            ms = set()
            fatoms(f, set(), ms)
            if ms:
                self.nl = True
                self.monos |= ms
            self.flist.append(f)
            self.solver.add(fz(f, True))

    # -- solving ------------------------------------------------------------
    def solve(self, node, want_model=False, timeout=None):
        """'sat'/'unsat'/'unknown' of PC and node."""
        if node is False:
            return "unsat", None
        st = self.stats
        t0 = time.time()
        st.queries += 1
        saved = (set(self.atoms), {k: list(v) for k, v in self.pairs.items()})
        sink = [node] if node is not True else []
        if node is not True:
            self._activate(node, sink)
        monos = set(self.monos)
        for f in sink:
            fatoms(f, set(), monos)
        nl = bool(monos)
        guess = None
        s = self.solver
        s.push()
        try:
            for f in sink:
                s.add(fz(f, True))
            if nl:
                for m in monos:
                    b = mono_bounds(m)
                    if b[0] is not None:
                        s.add(RELAX_var(m) >= rv(b[0]))
                    if b[1] is not None:
                        s.add(RELAX_var(m) <= rv(b[1]))
            s.set("timeout", int((timeout or self.opts.get("timeout_ms", 20000))))
            r = s.check()
            if r == z3.unsat:
                if nl:
                    st.relaxed += 1
                return "unsat", None
            if nl and r == z3.sat:
                m0 = s.model()
                guess = {}
                for i in self.atoms:
                    if ATOMS[i].kind == "in":
                        v = z3frac(m0.eval(ATOMS[i].z, model_completion=False))
                        guess[i] = (v, default_value(ATOMS[i]))
            if not nl:
                if r == z3.sat:
                    return "sat", (s.model() if want_model else None)
                st.unknown += 1
                return "unknown", None
        finally:
            s.pop()
            self.atoms, self.pairs = saved
            st.time += time.time() - t0
        # full nonlinear query in a fresh solver
        t0 = time.time()
        try:
            fs = self.flist + sink
            to = int(timeout or self.opts.get("timeout_ms", 20000))
            if guess:
                # candidates from the relaxation: the exact query with the inputs pinned
                cands = [{i: (d if v is None else v) for i, (v, d) in guess.items()}]
                for _ in range(2):
                    cands.append({i: (d if ATOMS[i].is_int or ATOMS[i].lo is None or ATOMS[i].hi is None else
                                      ATOMS[i].lo + (ATOMS[i].hi - ATOMS[i].lo) * Fraction(PIN.randint(5, 95), 100)) for i, (v, d) in guess.items()})
                for cd in cands:
                    s2 = z3.Solver()
                    s2.set("timeout", min(to, 1500))
                    for i, v in cd.items():
                        s2.add(ATOMS[i].z == rv(v))
                    for f in fs:
                        s2.add(fz(f))
                    if s2.check() == z3.sat:
                        return "sat", (s2.model() if want_model else None)
            for mk in (lambda: z3.Solver(), lambda: z3.SolverFor("QF_NRA")):
                s2 = mk()
                s2.set("timeout", to)
                for f in fs:
                    s2.add(fz(f))
                r = s2.check()
                if r == z3.unsat:
                    return "unsat", None
                if r == z3.sat:
                    return "sat", (s2.model() if want_model else None)
            st.unknown += 1
            return "unknown", None
        finally:
            st.time += time.time() - t0

    def env_of(self, model):
        """Input values of a z3 model: atom id -> Fraction."""
        env = {}
        for a in ATOMS:
            if a.kind != "in":
                continue
            v = model.eval(a.z, model_completion=False)
            f = z3frac(v)
            if f is None:
                f = default_value(a)
            env[a.id] = f
        return env

    # -- branching ----------------------------------------------------------
    def known(self, node):
        """True/False if the formula is literally decided on this path."""
        if node is True or node is False:
            return node
        v = self.lits.get(lkey(node))
        if v is not None:
            return v
        if node[0] == "n":
            v = self.known(node[1])
            return None if v is None else not v
        if node[0] == "c":
            lo, hi = pbounds(node[2])
            if node[1] == "lt":
                if hi is not None and hi < 0:
                    return True
                if lo is not None and lo >= 0:
                    return False
            elif node[1] == "le":
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
        elif node[0] == "a":
            ks = [self.known(x) for x in node[1]]
            if False in ks:
                return False
            return True if all(k is True for k in ks) else None
        elif node[0] == "o":
            ks = [self.known(x) for x in node[1]]
            if True in ks:
                return True
            return False if all(k is False for k in ks) else None
        return None

    def decided(self, node):
        """True/False if the formula follows from the path (asking the solver), else None"""
        k = self.known(node)
        if k is not None:
            return k
        key = (lkey(node), len(self.flist))
        if key not in self.implied:
            if self.solve(node, timeout=2000)[0] == "unsat":
                self.implied[key] = False
            elif self.solve(fnot(node), timeout=2000)[0] == "unsat":
                self.implied[key] = True
            else:
                self.implied[key] = None
        return self.implied[key]

    def branch(self, node):
        k = self.known(node)
        if k is not None:
            return k
        self.stats.branches += 1
        if self.pos < len(self.nodes):
            nd = self.nodes[self.pos]
            self.pos += 1
            if nd.kind != "b":
                raise NonDeterministic()
            self.assume(node if nd.val else fnot(node))
            return nd.val
        self._limit()
        bt = self.opts.get("branch_timeout_ms", 5000)
        rt, _ = self.solve(node, timeout=bt)
        if rt == "unsat":
            val, forced = False, True
        else:
            rf, _ = self.solve(fnot(node), timeout=bt)
            val, forced = True, rf == "unsat"
        nd = Node("b", val, forced)
        self.nodes.append(nd)
        self.pos += 1
        self.assume(node if val else fnot(node))
        return val

    def _limit(self):
        if len(self.nodes) > self.opts.get("max_depth", 3000):
            raise Unsupported("path too long")
        dl = self.opts.get("deadline")
        if dl and time.time() > dl:
            raise Unsupported("out of time")

    def choose_value(self, sym):
        """Concretise an integer-valued Sym by forking over its values."""
        def eq(v):
            return fcmp("eq", padd(sym.p, {(): Fraction(v)}, Fraction(-1)) if v else dict(sym.p))
        if sym.isconst:
            return int(sym.cval)
        self.stats.branches += 1
        if self.pos < len(self.nodes):
            nd = self.nodes[self.pos]
            self.pos += 1
            if nd.kind != "v":
                raise NonDeterministic()
            if nd.val is not None:
                self.assume(eq(nd.val))
                return nd.val
        else:
            self._limit()
            nd = Node("v", None)
            self.nodes.append(nd)
            self.pos += 1
        excl = fand(*[fnot(eq(v)) for v in nd.tried])
        r, model = self.solve(excl, want_model=True)
        if r == "unsat":
            nd.forced = True
            raise PathAbort()
        if r != "sat":
            raise Unsupported("solver gave no value for an integer")
        f = self.model_value(sym.p, model)
        if f is None or f.denominator != 1:
            raise Unsupported(f"non-integer value {f} where an integer is needed")
        nd.val = int(f)
        if len(nd.tried) > self.opts.get("max_values", 3000):
            raise Unsupported("too many integer values")
        self.assume(eq(nd.val))
        return nd.val

    def model_value(self, p, model):
        env = {}
        for i in patoms(p):
            v = z3frac(model.eval(ATOMS[i].z, model_completion=True))
            if v is None:
                return None
            env[i] = v
        return sum((c * math.prod((env[i] for i in m), start=Q1) for m, c in p.items()), Q0)

    def concretise(self, sym, why=""):
        """Fix a symbolic real to one feasible value (under-approximation)."""
        if sym.isconst:
            return sym.cval
        if self.pos < len(self.nodes):
            nd = self.nodes[self.pos]
            self.pos += 1
            if nd.kind != "f":
                raise NonDeterministic()
        else:
            self._limit()
            r, model = self.solve(True, want_model=True)
            if r == "unsat":
                raise PathAbort()
            if r != "sat":
                raise Unsupported("no value to concretise with")
            v = self.model_value(sym.p, model)
            if v is None:
                raise Unsupported("no value to concretise with")
            nd = Node("f", v)
            self.nodes.append(nd)
            self.pos += 1
            self.stats.concretised.append(why)
        self.assume(fcmp("eq", padd(sym.p, {(): nd.val}, Fraction(-1)) if nd.val else dict(sym.p)))
        return nd.val


class NonDeterministic(BaseException):
    pass


def lkey(n):
    """Key of a literal, invariant under positive scaling."""
    if n is True or n is False or n[0] != "c":
        return fkey(n)
    p = n[2]
    lead = max(p, key=lambda m: (len(m), m))
    c = abs(p[lead]) if n[1] != "eq" else p[lead]
    return ("c", n[1], pkey(p if c == 1 else pscale(p, 1 / c)))


def RELAX_var(m):
    v = RELAX.get(m)
    if v is None:
        v = RELAX[m] = z3.Real("mono!" + "_".join(map(str, m)))
    return v


def mono_bounds(m):
    lo, hi = Q1, Q1
    cnt = {}
    for i in m:
        cnt[i] = cnt.get(i, 0) + 1
    for i, k in cnt.items():
        a = ATOMS[i]
        l, h = a.lo, a.hi
        if l is None or h is None:
            if k % 2 == 0 and len(cnt) == 1:
                return (Q0, None)
            return (None, None)
        if k % 2 == 0:
            b = max(abs(l), abs(h)) ** k
            l2 = Q0 if l <= 0 <= h else min(abs(l), abs(h)) ** k
            l, h = l2, b
        else:
            l, h = l ** k, h ** k
        c = (lo * l, lo * h, hi * l, hi * h)
        lo, hi = min(c), max(c)
    return lo, hi


def noise_atom():
    """eta in [-1, 1]: stands for coefficients rounded away by `coarse`"""
    i = BYKEY.get(("noise",))
    if i is None:
        a = new_atom("noise", ("noise",), "eta")
        a.lo, a.hi = Fraction(-1), Q1
        a.ev = lambda env: 0.0
        i = a.id
    return i


def coarse(p, tol):
    """An over-approximation of p with short coefficients.

    Every coefficient is rounded so that the total change over the box of the atoms is
    at most E <= tol/4; the change itself is represented by E*eta with eta in [-1, 1] free,
    so every value p can take is a value of the result (unsat carries over, and sat is replayed)."""
    if not tol or not p:
        return p
    n = len(p)
    out, err = {}, Q0
    for m, c in p.items():
        if m:
            lo, hi = mono_bounds(m)
            if lo is None or hi is None:
                out[m] = c
                continue
            b = max(abs(lo), abs(hi))
            if not b:
                continue
        else:
            b = Q1
        q = tol / (2 * n * b)
        k = math.floor(math.log2(q.numerator) - math.log2(q.denominator))
        step = Fraction(2) ** k
        r = round(c / step) * step
        err += abs(c - r) * b
        if r:
            out[m] = r
    if err:
        k = math.ceil(math.log2(err.numerator) - math.log2(err.denominator))
        out[(noise_atom(),)] = Fraction(2) ** k if Fraction(2) ** k >= err else Fraction(2) ** (k + 1)
    return out


def default_value(a):
    if a.lo is not None and a.hi is not None:
        v = (a.lo + a.hi) / 2
        return Fraction(math.floor(v)) if a.is_int else v
    v = Q0
    if a.lo is not None and v < a.lo:
        v = a.lo
    if a.hi is not None and v > a.hi:
        v = a.hi
    return v


def z3frac(v):
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        return v.approx(40).as_fraction()
    return None


PIN = random.Random(1)
CUR = None      # current Path


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside of an exploration")
    return CUR


# --------------------------------------------------------------------- values

class SymBool:
    __slots__ = ("n",)
    __array_priority__ = 1000

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return cur().branch(self.n)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return np.logical_and(self, o)
        return mkbool(fand(self.n, tonode(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return np.logical_or(self, o)
        return mkbool(f_or(self.n, tonode(o)))
    __ror__ = __or__

    def __xor__(self, o):
        a, b = self.n, tonode(o)
        return mkbool(f_or(fand(a, fnot(b)), fand(fnot(a), b)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(fnot(self.n))

    def logical_not(self):
        return mkbool(fnot(self.n))

    def __eq__(self, o):
        return mkbool(fnot(tonode(self ^ o)))

    def __ne__(self, o):
        return self ^ o

    def __hash__(self):
        return hash(fkey(self.n))

    def _num(self):
        return ite(self, 1, 0)

    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return ite(self, o, 0) if isinstance(o, Sym) else self._num() * o
    __rmul__ = __mul__
    def __int__(self): return int(bool(self))
    __index__ = __int__
    def __float__(self): return float(bool(self))
    def any(self): return self
    def all(self): return self

    def __repr__(self):
        return f"SymBool({fz(self.n)})"

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import array_ufunc
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import array_function
        return array_function(func, types, args, kwargs)


def mkbool(n):
    return n if n is True or n is False else SymBool(n)


def tonode(x):
    if isinstance(x, SymBool):
        return x.n
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, Sym):
        return tonode(x != 0)
    if isinstance(x, (int, float, np.number)):
        return bool(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return tonode(x.item())
    raise Unsupported(f"not a boolean: {type(x)}")


def isspecial(x):
    """non-finite plain number"""
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


TOKENS = []         # symbolic numbers formatted into strings


def parse_number(text):
    """The number printed as `text`, possibly symbolic"""
    import re
    text = text.strip()
    m = re.fullmatch("(-?)\ue000(\\d+)\ue001", text)
    if not m:
        return float(text)
    x, spec = TOKENS[int(m.group(2))]
    d = re.fullmatch(r"[+ ]?\d*(?:\.(\d+))?e", spec)
    if d:
        # fork on the decade of the number, which decides where it is rounded
        if not (x == 0):
            lo, hi = -30, 30
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if abs(x) >= Fraction(10) ** mid:
                    lo = mid
                else:
                    hi = mid
            s = Fraction(10) ** (lo - int(d.group(1) or 6))
            x = rint(x / s) * s
        return -x if m.group(1) else x
    d = re.fullmatch(r"[+ ]?\d*(?:\.(\d+))?([fd]?)", spec)
    if not d or (d.group(1) is None and d.group(2) != "d" and spec != ""):
        raise Unsupported(f"format {spec!r} of a symbolic number")
    if spec != "" and d.group(1) is not None:
        x = round(x, int(d.group(1)))
    return -x if m.group(1) else x


class Sym:
    """Symbolic real number."""
    __slots__ = ("p", "_k")
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p
        self._k = None

    # conversion
    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x._num() if isinstance(x._num(), Sym) else Sym.const(x._num())
        if isinstance(x, (bool, np.bool_)):
            return Sym.const(int(x))
        if isinstance(x, (int, np.integer)):
            return Sym.const(int(x))
        if isinstance(x, (float, np.floating)):
            return Sym.const(Fraction(float(x)))
        if isinstance(x, Fraction):
            return Sym.const(x)
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return Sym.lift(x.item())
        return None

    @staticmethod
    def const(c):
        return Sym({(): Fraction(c)} if c else {})

    @property
    def isconst(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    @property
    def cval(self):
        return self.p.get((), Q0)

    def key(self):
        if self._k is None:
            self._k = pkey(self.p)
        return self._k

    def __hash__(self):
        if self.isconst:
            return hash(self.cval)
        # a symbolic integer in a set or dictionary meets numbers there
        return hash(cur().choose_value(self)) if self._is_int() and CUR is not None else hash(self.key())

    def __repr__(self):
        if self.isconst:
            return f"S({float(self.cval):.6g})"
        s = str(pz(self.p))
        return f"Sym({s if len(s) < 200 else s[:200] + '...'})"

    def __format__(self, spec):
        if self.isconst:
            return format(float(self.cval), spec)
        # deferred: a token standing for the formatted number (see parse_number)
        TOKENS.append((self, spec))
        return f"\ue000{len(TOKENS) - 1}\ue001"

    def __float__(self):
        if self.isconst:
            return float(self.cval)
        return float(cur().concretise(self, "float() of a symbolic number"))

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        return self.__trunc__()

    def __trunc__(self):
        if self.isconst:
            return math.trunc(self.cval)
        if self._is_int():
            return cur().choose_value(self)
        if self >= 0:
            return int(self.floor())
        return -int((-self).floor())

    def _is_int(self):
        return all(c.denominator == 1 and all(ATOMS[i].is_int for i in m) for m, c in self.p.items())

    def __index__(self):
        if self.isconst and self.cval.denominator == 1:
            return int(self.cval)
        if self._is_int():
            return cur().choose_value(self)
        raise TypeError("symbolic real cannot be interpreted as an integer")

    def __bool__(self):
        return bool(self != 0)

    # arithmetic
    def __add__(self, o):
        return _bin(self, o, np.add, _add)

    def __radd__(self, o):
        return _bin(self, o, np.add, lambda a, b: _add(b, a), True)

    def __sub__(self, o):
        return _bin(self, o, np.subtract, _sub)

    def __rsub__(self, o):
        return _bin(self, o, np.subtract, lambda a, b: _sub(b, a), True)

    def __mul__(self, o):
        return _bin(self, o, np.multiply, _mul)

    def __rmul__(self, o):
        return _bin(self, o, np.multiply, lambda a, b: _mul(b, a), True)

    def __truediv__(self, o):
        return _bin(self, o, np.true_divide, _div)

    def __rtruediv__(self, o):
        return _bin(self, o, np.true_divide, lambda a, b: _div(b, a), True)

    def __floordiv__(self, o):
        return _bin(self, o, np.floor_divide, lambda a, b: floor(_div(a, b)))

    def __rfloordiv__(self, o):
        return _bin(self, o, np.floor_divide, lambda a, b: floor(_div(b, a)), True)

    def __mod__(self, o):
        return _bin(self, o, np.remainder, _mod)

    def __rmod__(self, o):
        return _bin(self, o, np.remainder, lambda a, b: _mod(b, a), True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return _bin(self, o, np.power, _pow)

    def __rpow__(self, o):
        return _bin(self, o, np.power, lambda a, b: _pow(b, a), True)

    def __neg__(self):
        return Sym(pscale(self.p, Fraction(-1)))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.isconst:
            return Sym.const(abs(self.cval))
        return absval(self)

    # comparison
    def __lt__(self, o): return _cmp(self, o, "lt")
    def __le__(self, o): return _cmp(self, o, "le")
    def __gt__(self, o): return _cmp(self, o, "gt")
    def __ge__(self, o): return _cmp(self, o, "ge")
    def __eq__(self, o): return _cmp(self, o, "eq")
    def __ne__(self, o): return _cmp(self, o, "ne")

    # numpy scalar protocol / object-ufunc methods
    def sin(self): return sin(self)
    def cos(self): return cos(self)
    def tan(self): return sin(self) / cos(self)
    def arcsin(self): return arcsin(self)
    def arccos(self): return Fraction(math.pi) / 2 - arcsin(self)
    def sqrt(self): return sqrt(self)
    def exp(self): return exp(self)
    def deg2rad(self): return self * PI180
    radians = deg2rad
    def rad2deg(self): return self * PI180I
    degrees = rad2deg
    def conjugate(self): return self
    conj = conjugate
    def square(self): return self * self
    def floor(self): return floor(self)
    def ceil(self): return -floor(-self)
    def rint(self): return rint(self)
    def __floor__(self): return int(floor(self))
    def __ceil__(self): return -int(floor(-self))
    def __round__(self, n=None):
        if n is None or n == 0:
            r = rint(self)
            return int(r) if n is None else r
        s = Fraction(10) ** n
        return rint(self * s) / s
    def absolute(self): return abs(self)
    fabs = absolute
    def sign(self): return ite(self > 0, 1, ite(self < 0, -1, 0))
    def isfinite(self): return True
    def isnan(self): return False
    def isinf(self): return False
    def item(self): return self
    def copy(self): return self
    def astype(self, dt):
        from .arr import cast
        return cast(self, dt)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def reshape(self, *a):
        from .arr import sa
        return sa(self).reshape(*a)

    @property
    def real(self): return self
    @property
    def imag(self): return Sym.const(0)
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    @property
    def dtype(self): return np.dtype(float)
    def is_integer(self):
        return bool(self == floor(self))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import array_ufunc
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import array_function
        return array_function(func, types, args, kwargs)


numbers.Real.register(Sym)
PI180 = Fraction(math.pi) / 180
PI180I = Fraction(180) / Fraction(math.pi)


def _bin(a, o, uf, f, refl=False):
    if isinstance(o, np.ndarray) and o.ndim > 0:
        return uf(o, a) if refl else uf(a, o)
    if isinstance(o, (SymC, complex, np.complexfloating)):
        c = SymC.lift(a)
        return f(c, SymC.lift(o))
    if isspecial(o):
        return f(a, float(o))
    if f is _mul and isinstance(o, SymBool):
        return ite(o, a, 0)
    b = Sym.lift(o)
    if b is None:
        return NotImplemented
    return f(a, b)


def _sgn_special(x):
    """-1/0/1 of a Sym (forks)"""
    if x > 0:
        return 1
    if x < 0:
        return -1
    return 0


def _add(a, b):
    if isinstance(a, SymC):
        return SymC(num_add(a.re, b.re), num_add(a.im, b.im))
    if isinstance(a, float) or isinstance(b, float):
        return a if isinstance(a, float) else b
    return Sym(padd(a.p, b.p))


def num_add(a, b): return a + b


def _sub(a, b):
    if isinstance(a, SymC):
        return SymC(a.re - b.re, a.im - b.im)
    if isinstance(a, float):
        return a
    if isinstance(b, float):
        return -b
    return Sym(padd(a.p, b.p, Fraction(-1)))


def _mul(a, b):
    if isinstance(a, SymC):
        return SymC(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    if isinstance(a, float) or isinstance(b, float):
        x, s = (a, b) if isinstance(a, float) else (b, a)
        if math.isnan(x):
            return math.nan
        g = _sgn_special(s)
        return math.nan if g == 0 else x * g
    return Sym(pmul(a.p, b.p))


def _div(a, b):
    if isinstance(a, SymC) or isinstance(b, SymC):
        a, b = SymC.lift(a), SymC.lift(b)
        if _is0(b.im):
            return SymC(a.re / b.re, a.im / b.re)
        d = b.re * b.re + b.im * b.im
        n = a * SymC(b.re, -b.im)
        return SymC(n.re / d, n.im / d)
    if isinstance(b, float):
        return math.nan if math.isnan(b) else Sym.const(0)
    if isinstance(a, float):          # inf / sym
        if math.isnan(a):
            return math.nan
        g = _sgn_special(b)
        return a if g >= 0 else -a
    if b.isconst:
        c = b.cval
        if c == 0:
            return _div0(a)
        return Sym(pscale(a.p, 1 / c))
    if b == 0:
        return _div0(a)
    return Sym(pmul(a.p, inv_poly(b.p)))


def _is0(x):
    return (isinstance(x, Sym) and not x.p) or (not isinstance(x, Sym) and x == 0)


STRICT_ZERODIV = False


def _div0(a):
    """numpy float semantics of a/0 (positive zero)."""
    g = _sgn_special(a)
    return math.nan if g == 0 else math.inf * g


def _mod(a, b):
    if isinstance(b, float) or isinstance(a, float):
        raise Unsupported("mod with non-finite number")
    return a - b * floor(_div(a, b))


def _pow(a, b):
    if isinstance(a, SymC):
        if isinstance(b, SymC):
            b = b.re
        e = Sym.lift(b)
        if e.isconst and e.cval.denominator == 1 and e.cval >= 0:
            r = SymC(Sym.const(1), Sym.const(0))
            for _ in range(int(e.cval)):
                r = r * a
            return r
        raise Unsupported("complex power")
    if isinstance(b, float) or isinstance(a, float):
        raise Unsupported("power with non-finite number")
    if not b.isconst:
        raise Unsupported("symbolic exponent")
    e = b.cval
    if e.denominator == 1:
        n = int(e)
        r = Sym.const(1)
        for _ in range(abs(n)):
            r = r * a
        return r if n >= 0 else Sym.const(1) / r
    if e == Fraction(1, 2):
        return sqrt(a)
    raise Unsupported(f"power {e}")


def _cmp(a, o, op):
    if isinstance(o, np.ndarray) and o.ndim > 0:
        return {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
                "eq": np.equal, "ne": np.not_equal}[op](a, o)
    if isspecial(o):
        o = float(o)
        if math.isnan(o):
            return op == "ne"
        if op in ("eq", "ne"):
            return op == "ne"
        return (o > 0) == (op in ("lt", "le"))
    if isinstance(o, (complex, np.complexfloating)):
        o = SymC.lift(o)
    if isinstance(o, SymC):
        r = SymC.lift(a) == o
        return r if op == "eq" else mkbool(fnot(tonode(r)))
    b = Sym.lift(o)
    if b is None:
        if op == "eq":
            return False if not hasattr(o, "__array_ufunc__") else NotImplemented
        if op == "ne":
            return True
        return NotImplemented
    if op in ("gt", "ge"):
        a, b, op = b, a, ("lt" if op == "gt" else "le")
    d = drop_noise(padd(a.p, b.p, Fraction(-1)))
    _arcsin_lemma(d)
    if op == "ne":
        return mkbool(fnot(fcmp("eq", d)))
    return mkbool(fcmp(op, d))


def drop_noise(d):
    """Nonlinear comparisons without terms that are rounding of coefficients (relative to the largest term)"""
    if len(d) < 3 or all(len(m) < 2 for m in d):
        return d
    cs = [abs(c) for m, c in d.items()]
    if min(cs) > max(cs) * NOISE:
        return d
    bs = {}
    for m, c in d.items():
        lo, hi = mono_bounds(m) if m else (Q1, Q1)
        if lo is None or hi is None:
            return d
        bs[m] = abs(c) * max(abs(lo), abs(hi))
    t = max(bs.values()) * NOISE
    return {m: c for m, c in d.items() if bs[m] > t}


def _arcsin_lemma(d):
    """Comparison of an arcsin with a number or another arcsin: add the equivalent comparison of the sines"""
    if not 1 <= len(d) <= 2 or not any(len(m) == 1 and ATOMS[m[0]].kind == "arcsin" for m in d) or CUR is None:
        return
    at = [(m[0], c) for m, c in d.items() if len(m) == 1 and ATOMS[m[0]].kind == "arcsin"]
    k = d.get((), Q0)
    if len(at) == 2 and at[0][1] == -at[1][1]:
        dx = padd(ATOMS[at[0][0]].args[0], ATOMS[at[1][0]].args[0], Fraction(-1))
        s = at[0][1]
    elif len(at) == 1 and (len(d) == 1 or () in d):
        s = at[0][1]
        v = -k / s
        if abs(v) > Fraction(math.pi) / 2:
            return
        dx = padd(ATOMS[at[0][0]].args[0], {(): -Fraction(math.sin(v))}) if v else ATOMS[at[0][0]].args[0]
    else:
        return
    if s < 0:
        dx = pscale(dx, Fraction(-1))
    p = cur()
    key = ("arcsin-lemma", pkey(d))
    done = p.__dict__.setdefault("lemmas", set())
    if key in done:
        return
    done.add(key)
    for sgn in (1, -1):
        u, v = fcmp("lt", pscale(dx, Fraction(sgn))), fcmp("lt", pscale(d, Fraction(sgn)))
        p.assume(f_or(fnot(u), v))
        p.assume(f_or(u, fnot(v)))


def lemma_sin_monotone(exprs):
    """True facts: sin is increasing on [-pi/2, pi/2], for all sines the expressions contain"""
    seen, todo, sins = set(), [i for e in exprs for i in patoms(Sym.lift(e).p)], []
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        if ATOMS[i].kind == "sin":
            sins.append(i)
        elif ATOMS[i].kind != "in":
            todo += [k for x in ATOMS[i].args if isinstance(x, dict) for k in patoms(x)] + [k for f in ATOMS[i].axioms for k in fatoms(f)]
    # (up to rounding: 1e-9 in the range, 1e-12 in the result)
    p, h, t = cur(), Fraction(math.pi) / 2 + Fraction(1, 10**9), {(): Fraction(-1, 10**12)}
    sins.sort()
    inside = {i: fand(fcmp("le", padd(ATOMS[i].args[0], {(): -h})), fcmp("le", padd(pscale(ATOMS[i].args[0], Fraction(-1)), {(): -h}))) for i in sins}
    for k, i in enumerate(sins):
        for v in range(-90, 91, 15):
            # anchors
            c = Fraction(math.radians(v))
            d = padd(ATOMS[i].args[0], {(): -c} if v else {})
            e = padd({(i,): Q1}, {(): -Fraction(math.sin(c))} if v else {})
            for s in (1, -1):
                p.assume(f_or(fnot(inside[i]), fnot(fcmp("le", pscale(d, Fraction(s)))), fcmp("le", padd(pscale(e, Fraction(s)), t))))
                # ... and 1-Lipschitz
                p.assume(f_or(fnot(fcmp("le", pscale(d, Fraction(s)))), fcmp("le", padd(padd(pscale(d, Fraction(s)), e, Fraction(-s)), t))))
        for j in sins[:k]:
            d, e = padd(ATOMS[i].args[0], ATOMS[j].args[0], Fraction(-1)), {(i,): Q1, (j,): Fraction(-1)}
            for s in (1, -1):
                p.assume(f_or(fnot(inside[i]), fnot(inside[j]), fnot(fcmp("le", pscale(d, Fraction(s)))), fcmp("le", padd(pscale(e, Fraction(s)), t))))
                # ... and 1-Lipschitz
                p.assume(f_or(fnot(fcmp("le", pscale(d, Fraction(s)))), fcmp("le", padd(padd(pscale(d, Fraction(s)), e, Fraction(-s)), t))))


# ---------------------------------------------------------------- defined atoms

MONOTONE = {"arcsin", "exp"}


def inv_poly(p):
    """Polynomial for 1/p (p non-constant, known nonzero on this path)."""
    # common monomial factor
    ms = list(p)
    common = list(ms[0])
    for m in ms[1:]:
        mm = list(m)
        nc = []
        for i in common:
            if i in mm:
                mm.remove(i)
                nc.append(i)
        common = nc
        if not common:
            break
    res = {(): Q1}
    if common:
        p = {mono_remove(m, common): c for m, c in p.items()}
        for i in common:
            res = pmul(res, inv_atom(i))
    if len(p) == 1 and () in p:
        return pscale(res, 1 / p[()])
    lead = max(p, key=lambda m: (len(m), m))
    lc = p[lead]
    p = pscale(p, 1 / lc)
    return pscale(pmul(res, inv_general(p, lead)), 1 / lc)


def inv_atom(i):
    a = ATOMS[i]
    if a.kind == "inv":
        return a.args[0]
    if a.kind == "exp":
        return exp(Sym(pscale(a.args[0], Fraction(-1)))).p
    return inv_general({(i,): Q1}, (i,))


def inv_general(p, lead):
    key = ("inv", pkey(p))
    if key in BYKEY:
        return {(BYKEY[key],): Q1}
    a = new_atom("inv", key)
    a.args = (p,)
    rest = dict(p)
    del rest[lead]
    aid = a.id
    plo, phi = pbounds(p)
    if plo is not None and plo > 0:
        a.hi = 1 / plo
        a.lo = 1 / phi if phi is not None else Q0
    elif phi is not None and phi < 0:
        a.lo = 1 / phi
        a.hi = 1 / plo if plo is not None else Q0

    def rewrite(m):
        q = mono_remove(m, (aid,))
        if q is None:
            return None
        q = mono_remove(q, lead)
        if q is None:
            return None
        # q * lead * inv = q * (1 - rest*inv)
        r = {q: Q1}
        for m2, c in rest.items():
            mm = tuple(sorted(q + m2 + (aid,)))
            r[mm] = r.get(mm, Q0) - c
        return r
    a.rewrite = rewrite
    a.ev = lambda env: _fdiv(1.0, peval(p, env))
    # den * inv = 1 (unreduced product)
    prod = {tuple(sorted(m + (aid,))): c for m, c in p.items()}
    prod[()] = prod.get((), Q0) - 1
    a.axioms.append(("c", "eq", prod))
    # sign axioms help the linear relaxation
    a.axioms.append(f_or(fnot(fcmp("lt", pscale(p, Fraction(-1)))), ("c", "lt", {(aid,): Fraction(-1)})))
    a.axioms.append(f_or(fnot(fcmp("lt", p)), ("c", "lt", {(aid,): Q1})))
    return {(aid,): Q1}


def _fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        return math.nan


def ite(c, a, b):
    """Merge two values (numbers) under a formula."""
    n = tonode(c)
    if CUR is not None:
        k = CUR.known(n)
        n = n if k is None else k
    if n is True:
        return a
    if n is False:
        return b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        x, y = tonode(a), tonode(b)
        return mkbool(f_or(fand(n, x), fand(fnot(n), y)))
    if isinstance(a, (SymC, complex, np.complexfloating)) or isinstance(b, (SymC, complex, np.complexfloating)):
        a, b = SymC.lift(a), SymC.lift(b)
        return SymC(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isspecial(a) or isspecial(b):
        return a if cur().branch(n) else b
    x, y = Sym.lift(a), Sym.lift(b)
    if x is None or y is None:
        return a if cur().branch(n) else b
    if x.key() == y.key():
        return x
    if n[0] == "n":
        n, x, y = n[1], y, x
    elif n[0] == "c" and n[1] != "eq":          # one polarity and scale of the condition
        lead = n[2][max(n[2], key=lambda m: (len(m), m))]
        if lead > 0:
            n, x, y = fnot(n), y, x
        if abs(lead) != 1:
            n = ("c", n[1], pscale(n[2], 1 / abs(lead)))
    if not x.p or not y.p:
        # take common factors out
        z = y if not x.p else x
        ms = list(z.p)
        com = ()
        if ms != [()]:
            com = list(ms[0])
            for m in ms[1:]:
                com = [i for i in dict.fromkeys(com) for _ in range(min(com.count(i), m.count(i)))]
            com = tuple(sorted(com))
        # leave one atom inside so that the merged value stays linear in the data
        if len(ms) == 1 and com:
            keep = max(com, key=lambda i: (ATOMS[i].kind == "in", i))
            com = mono_remove(com, (keep,))
        lead = max(ms, key=lambda m: (len(m), m))
        k = z.p[lead]
        if com or k != 1:
            w = {mono_remove(m, com): v / k for m, v in z.p.items()}
            r = ite(mkbool(n), Sym(w), 0) if x.p else ite(mkbool(n), 0, Sym(w))
            return Sym(pmul({com: k}, r.p))
    key = ("ite", fkey(n), x.key(), y.key())
    if key in BYKEY:
        return Sym({(BYKEY[key],): Q1})
    at = new_atom("ite", key)
    e = {(at.id,): Q1}
    at.axioms.append(f_or(fnot(n), fcmp("eq", padd(e, x.p, Fraction(-1)))))
    at.axioms.append(f_or(n, fcmp("eq", padd(e, y.p, Fraction(-1)))))
    at.ev = lambda env: peval(x.p, env) if feval(n, env) else peval(y.p, env)
    at.merged = (n, x.p, y.p)
    bx, by = pbounds(x.p), pbounds(y.p)
    if bx[0] is not None and by[0] is not None:
        at.lo = min(bx[0], by[0])
    if bx[1] is not None and by[1] is not None:
        at.hi = max(bx[1], by[1])
    return Sym(e)


REBUILD = ("inv", "sqrt")


def merges(i):
    """a merged value, or a function of such"""
    a = ATOMS[i]
    r = getattr(a, "has_merged", None)
    if r is None:
        r = a.merged is not None or (a.kind in REBUILD and any(merges(j) for x in a.args if isinstance(x, dict) for j in patoms(x)))
        a.has_merged = r
    return r


def resolve(p):
    """p with the merged values whose condition is decided on the current path replaced by the branch taken"""
    if CUR is None or not any(merges(i) for i in patoms(p)):
        return p
    out = {}
    for m, c in p.items():
        ms = [i for i in m if merges(i)]
        t = {tuple(i for i in m if i not in ms): c} if ms else {m: c}
        for i in ms:
            t = pmul(t, resolve_atom(i))
        out = padd(out, t)
    return out


def resolve_atom(i):
    a = ATOMS[i]
    same = {(i,): Q1}
    if a.merged is not None:
        n, x, y = a.merged
        k = CUR.decided(n)
        return same if k is None else resolve(x if k else y)
    q = resolve(a.args[0])
    if q is a.args[0] or q == a.args[0]:
        return same
    if a.kind != "inv":
        r = Sym.lift(dict(sqrt=sqrt, arcsin=arcsin, sin=sin, cos=cos, exp=exp)[a.kind](Sym(q)))
        return same if r is None else r.p
    if not q:
        return same
    return {(): 1 / q[()]} if len(q) == 1 and () in q else inv_poly(q)


def pbounds(p):
    lo = hi = Q0
    for m, c in p.items():
        l, h = mono_bounds(m) if m else (Q1, Q1)
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi


def absval(x):
    b = pbounds(x.p)
    if b[0] is not None and b[0] >= 0:
        return x
    if b[1] is not None and b[1] <= 0:
        return -x
    # canonical sign
    lead = max(x.p, key=lambda m: (len(m), m))
    if x.p[lead] < 0:
        x = -x
    r = ite(x >= 0, x, -x)
    a, _ = unit_atom(r, "ite") if isinstance(r, Sym) else (None, 0)
    if a is not None and a.rewrite is None and len(x.p) <= 40:
        # |x|^2 = x^2
        aid, sq = a.id, (x * x).p

        def rewrite(m):
            q = mono_remove(m, (aid, aid))
            return None if q is None else mono_mul(q, sq)
        a.rewrite = rewrite
    return r


def vmax(xs):
    return _extremum(xs, True)


def vmin(xs):
    return _extremum(xs, False)


def _extremum(xs, mx):
    vals, best = [], None
    for x in xs:
        if isspecial(x):
            if math.isnan(x):
                return math.nan
            if (x > 0) == mx:
                return x
            continue
        if isinstance(x, (SymBool, bool, np.bool_)):
            raise Unsupported("max/min of booleans")
        s = Sym.lift(x)
        if s is None:
            raise Unsupported(f"max/min of {type(x)}")
        if s.isconst:
            best = s.cval if best is None else (max if mx else min)(best, s.cval)
        else:
            # a sine (up to rounding) is within [-1, 1]
            at, sg = unit_atom(denoise(s), "sin")
            vals.append(s if at is None else Sym({(at.id,): Fraction(sg)}))
    uniq = {}
    for s in vals:
        uniq[s.key()] = s
    if best is not None:
        uniq[Sym.const(best).key()] = Sym.const(best)
    if not uniq:
        return -math.inf if mx else math.inf
    if len(uniq) == 1:
        return next(iter(uniq.values()))
    if len(uniq) <= 100:
        # drop candidates that are dominated within the bounds of the inputs
        keep = []
        for k, u in uniq.items():
            dom = False
            for w in keep:
                b = pbounds(padd(u.p, uniq[w].p, Fraction(-1)))[1 if mx else 0]
                if b is not None and (b <= 0 if mx else b >= 0):
                    dom = True
                    break
            if dom:
                continue
            for w in list(keep):
                b = pbounds(padd(uniq[w].p, u.p, Fraction(-1)))[1 if mx else 0]
                if b is not None and (b <= 0 if mx else b >= 0):
                    keep.remove(w)
            keep.append(k)
        uniq = {k: uniq[k] for k in keep}
        if len(uniq) == 1:
            return next(iter(uniq.values()))
    key = ("max" if mx else "min", tuple(sorted(uniq)))
    if key in BYKEY:
        return Sym({(BYKEY[key],): Q1})
    at = new_atom("max" if mx else "min", key)
    e = {(at.id,): Q1}
    us = list(uniq.values())
    sg = Q1 if mx else Fraction(-1)
    for u in us:
        at.axioms.append(fcmp("le", pscale(padd(u.p, e, Fraction(-1)), sg)))
    at.axioms.append(f_or(*[fcmp("eq", padd(e, u.p, Fraction(-1))) for u in us]))
    f = max if mx else min
    at.ev = lambda env: f(peval(u.p, env) for u in us)
    bs = [pbounds(u.p) for u in us]
    los, his = [b[0] for b in bs], [b[1] for b in bs]
    if mx:
        at.hi = max(his) if None not in his else None
        ls = [l for l in los if l is not None]
        at.lo = max(ls) if ls else None
    else:
        at.lo = min(los) if None not in los else None
        hs = [h for h in his if h is not None]
        at.hi = min(hs) if hs else None
    return Sym(e)


def floor(x):
    if isinstance(x, (float, np.floating)):
        return math.floor(x) if math.isfinite(x) else x
    x = Sym.lift(x)
    if x.isconst:
        return Sym.const(math.floor(x.cval))
    if x._is_int():
        return x
    key = ("floor", x.key())
    if key in BYKEY:
        return Sym({(BYKEY[key],): Q1})
    at = new_atom("floor", key, is_int=True)
    e = {(at.id,): Q1}
    d = padd(e, x.p, Fraction(-1))                       # k - x
    at.axioms.append(fcmp("le", d))                      # k <= x
    at.axioms.append(fcmp("lt", padd(pscale(d, Fraction(-1)), {(): Fraction(-1)})))   # x - k - 1 < 0
    at.ev = lambda env: float(math.floor(peval(x.p, env)))
    b = pbounds(x.p)
    at.lo = None if b[0] is None else Fraction(math.floor(b[0]))
    at.hi = None if b[1] is None else Fraction(math.floor(b[1]))
    return Sym(e)


def rint(x):
    """round half to even"""
    x = Sym.lift(x)
    if x.isconst:
        return Sym.const(round(x.cval))
    if x._is_int():
        return x
    key = ("rint", x.key())
    if key in BYKEY:
        return Sym({(BYKEY[key],): Q1})
    at = new_atom("rint", key, is_int=True)
    hv = new_atom("half", ("half", key), is_int=True)
    e = {(at.id,): Q1}
    d = padd(x.p, e, Fraction(-1))        # x - k
    h = Fraction(1, 2)
    even = fcmp("eq", {(at.id,): Q1, (hv.id,): Fraction(-2)})
    at.axioms.append(fcmp("le", padd(d, {(): -h})))
    at.axioms.append(fcmp("le", padd(pscale(d, Fraction(-1)), {(): -h})))
    at.axioms.append(f_or(fnot(fcmp("eq", padd(d, {(): -h}))), even))
    at.axioms.append(f_or(fnot(fcmp("eq", padd(d, {(): h}))), even))
    at.ev = lambda env: float(round(peval(x.p, env)))
    hv.ev = lambda env: float(round(peval(x.p, env))) / 2
    b = pbounds(x.p)
    at.lo = None if b[0] is None else Fraction(math.floor(b[0]))
    at.hi = None if b[1] is None else Fraction(math.ceil(b[1]))
    return Sym(e)


def sqrt(x, nonneg=False):
    """nonneg: x is known not to be negative (sum of squares)"""
    if isinstance(x, (float, np.floating, int)):
        return math.sqrt(x) if x >= 0 else math.nan
    if x.isconst:
        c = x.cval
        if c < 0:
            return math.nan
        return Sym.const(Fraction(math.sqrt(c)))
    if not nonneg and x < 0:
        return math.nan
    # perfect square of a single monomial: |.|
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if len(m) == 2 and m[0] == m[1] and c > 0:
            r = Fraction(math.isqrt(c.numerator), 1) / Fraction(math.isqrt(c.denominator), 1)
            if r * r == c:
                return abs(Sym({(m[0],): r}))
    key = ("sqrt", x.key())
    if key in BYKEY:
        return Sym({(BYKEY[key],): Q1})
    at = new_atom("sqrt", key)
    at.lo = Q0
    b = pbounds(x.p)
    if b[1] is not None:
        at.hi = Fraction(math.ceil(math.sqrt(b[1]) * 1000001)) / 1000000
    aid = at.id

    def rewrite(m):
        q = mono_remove(m, (aid, aid))
        if q is None:
            return None
        return mono_mul(q, x.p)
    at.rewrite = rewrite
    at.args = (x.p,)
    at.axioms.append(("c", "eq", padd({(aid, aid): Q1}, x.p, Fraction(-1))))
    at.ev = lambda env: math.sqrt(max(0.0, peval(x.p, env)))
    return Sym({(aid,): Q1})


def _canon_sign(x):
    lead = max(x.p, key=lambda m: (len(m), m))
    return (-x, -1) if x.p[lead] < 0 else (x, 1)


def rkey(p):
    """key of a polynomial with coefficients rounded to 40 bits: arguments that differ by rounding share an atom"""
    out = []
    for m, c in p.items():
        k = Fraction(2) ** (40 - math.frexp(float(c))[1])
        out.append((m, round(c * k) / k))
    return tuple(sorted(out))


def _trig(kind, x):
    xk = rkey(x.p)
    key = (kind, xk)
    if key in BYKEY:
        return Sym({(BYKEY[key],): Q1})
    s = new_atom("sin", ("sin", xk))
    c = new_atom("cos", ("cos", xk))
    for a in (s, c):
        a.lo, a.hi = Fraction(-1), Q1
        a.args = (x.p,)
    s.ev = lambda env: math.sin(peval(x.p, env))
    c.ev = lambda env: math.cos(peval(x.p, env))
    ax = ("c", "eq", {(s.id, s.id): Q1, (c.id, c.id): Q1, (): Fraction(-1)})
    s.axioms.append(ax)
    c.axioms.append(ax)
    sid, cid = s.id, c.id

    def rewrite(m):
        q = mono_remove(m, (sid, sid))
        if q is None:
            return None
        return {q: Q1, tuple(sorted(q + (cid, cid))): Fraction(-1)}
    s.rewrite = rewrite
    for h in TRIG_HOOKS:
        h(x, s, c)
    return Sym({(BYKEY[key],): Q1})


TRIG_HOOKS = []     # callbacks (arg Sym, sin atom, cos atom): may add axioms/bounds


NOISE = Fraction(1, 10**13)


def denoise(x):
    """Without terms that are nothing but rounding of the coefficients (below 1e-13 in the whole box)"""
    if all(abs(c) > NOISE for c in x.p.values()):
        return x
    out = {}
    for m, c in x.p.items():
        if abs(c) <= NOISE:
            lo, hi = mono_bounds(m) if m else (Q1, Q1)
            if lo is not None and hi is not None and abs(c) * max(abs(lo), abs(hi)) <= NOISE:
                continue
        out[m] = c
    return Sym(out)


def unit_atom(x, kind):
    """(atom, sign) if x is +-1 times an atom of this kind, up to rounding"""
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if len(m) == 1 and ATOMS[m[0]].kind == kind and abs(abs(c) - 1) < Fraction(1, 10**12):
            return ATOMS[m[0]], (1 if c > 0 else -1)
    return None, 0


def _over_merged(f):
    """f(ite(c, a, b)) as ite(c, f(a), f(b)), for up to 8 cases"""
    def g(x, left=3):
        if left and isinstance(x, Sym):
            for i in sorted(patoms(x.p)):
                if ATOMS[i].merged is not None:
                    n, a, b = ATOMS[i].merged
                    k = CUR.known(n) if CUR is not None else None
                    if k is not None:
                        return g(Sym(_subst(x.p, i, a if k else b)), left)
                    return ite(mkbool(n), g(Sym(_subst(x.p, i, a)), left - 1), g(Sym(_subst(x.p, i, b)), left - 1))
        return f(x)
    return g


def _subst(p, i, q):
    """p with the polynomial q for the atom i"""
    out = {}
    for m, c in p.items():
        t = {tuple(j for j in m if j != i): c}
        for j in m:
            if j == i:
                t = pmul(t, q)
        out = padd(out, t)
    return out


@_over_merged
def sin(x):
    if isspecial(x):
        return math.nan
    x = denoise(Sym.lift(x))
    if x.isconst:
        return Sym.const(Fraction(math.sin(x.cval)))
    a, s = unit_atom(x, "arcsin")
    if a is not None:
        return Sym(a.args[0]) * s
    y, s = _canon_sign(x)
    r = _trig("sin", y)
    return r if s > 0 else -r


@_over_merged
def cos(x):
    if isspecial(x):
        return math.nan
    x = denoise(Sym.lift(x))
    if x.isconst:
        return Sym.const(Fraction(math.cos(x.cval)))
    a, _ = unit_atom(x, "arcsin")
    if a is not None:
        z = Sym(a.args[0])
        return sqrt(1 - z * z)
    y, _ = _canon_sign(x)
    return _trig("cos", y)


def arcsin(x):
    if isspecial(x):
        return math.nan
    x = Sym.lift(x)
    if x.isconst:
        c = x.cval
        return Sym.const(Fraction(math.asin(c))) if -1 <= c <= 1 else math.nan
    a, s = unit_atom(denoise(x), "sin")
    if a is not None:
        # arcsin(sin(y)) = y within the principal range
        y, h = Sym(a.args[0]), Fraction(math.pi) / 2 + Fraction(1, 10**9)
        if y <= h and y >= -h:
            return y * s
    if x > 1 or x < -1:
        return math.nan
    x = denoise(x)
    key = ("arcsin", rkey(x.p))
    if key in BYKEY:
        return Sym({(BYKEY[key],): Q1})
    a = new_atom("arcsin", key)
    h = Fraction(math.pi) / 2
    a.lo, a.hi = -h, h
    a.args = (x.p,)
    e = {(a.id,): Q1}
    # anchor points of the monotone function
    for v in (-1, 0, 1):
        av = {(): -Fraction(math.asin(v))} if v else {}
        d = padd(x.p, {(): Fraction(-v)}) if v else x.p
        ea = padd(e, av)
        a.axioms.append(f_or(fnot(fcmp("eq", d)), fcmp("eq", ea)))
        a.axioms.append(f_or(fnot(fcmp("lt", d)), fcmp("lt", ea)))
        a.axioms.append(f_or(fnot(fcmp("lt", pscale(d, Fraction(-1)))), fcmp("lt", pscale(ea, Fraction(-1)))))
    a.ev = lambda env: math.asin(min(1.0, max(-1.0, peval(x.p, env))))
    return Sym(e)


@_over_merged
def exp(x):
    if isspecial(x):
        return math.exp(x)
    x = Sym.lift(x)
    if x.isconst:
        return Sym.const(Fraction(math.exp(x.cval)))
    key = ("exp", rkey(x.p))
    if key in BYKEY:
        return Sym({(BYKEY[key],): Q1})
    a = new_atom("exp", key)
    a.lo = Q0
    a.args = (x.p,)
    e = {(a.id,): Q1}
    a.axioms.append(fcmp("lt", pscale(e, Fraction(-1))))
    d = padd(e, {(): Fraction(-1)})
    a.axioms.append(f_or(fnot(fcmp("eq", x.p)), fcmp("eq", d)))
    a.axioms.append(f_or(fnot(fcmp("lt", x.p)), fcmp("lt", d)))
    a.axioms.append(f_or(fnot(fcmp("lt", pscale(x.p, Fraction(-1)))), fcmp("lt", pscale(d, Fraction(-1)))))
    b = pbounds(x.p)
    if b[1] is not None and b[1] <= 0:
        a.hi = Q1
    a.ev = lambda env: math.exp(peval(x.p, env))
    aid = a.id

    def rewrite(m):
        es = [i for i in m if ATOMS[i].kind == "exp"]
        if len(es) < 2:
            return None
        i, j = es[0], es[1]
        q = mono_remove(m, (i, j))
        r = exp(Sym(padd(ATOMS[i].args[0], ATOMS[j].args[0])))
        return mono_mul(q, r.p)
    a.rewrite = rewrite
    return Sym(e)


# -------------------------------------------------------------------- complex

class SymC:
    """Symbolic complex number."""
    __slots__ = ("re", "im")
    __array_priority__ = 1001

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def lift(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymC(_l(x.real), _l(x.imag))
        if isspecial(x):
            return SymC(float(x), Sym.const(0))
        s = Sym.lift(x)
        return None if s is None else SymC(s, Sym.const(0))

    def _b(self, o, uf, f, refl=False):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return uf(o, self) if refl else uf(self, o)
        # real scaling keeps special values apart
        if isinstance(o, (int, float, np.floating, np.integer, Sym)) and uf in (np.multiply, np.true_divide) and not refl:
            g = (lambda x: x * o) if uf is np.multiply else (lambda x: x / o)
            return SymC(g(self.re), g(self.im))
        if isinstance(o, (int, float, np.floating, np.integer, Sym)) and uf is np.multiply:
            return SymC(o * self.re, o * self.im)
        c = SymC.lift(o)
        if c is None:
            return NotImplemented
        return f(c, self) if refl else f(self, c)

    def __add__(self, o): return self._b(o, np.add, _add)
    def __radd__(self, o): return self._b(o, np.add, _add, True)
    def __sub__(self, o): return self._b(o, np.subtract, _sub)
    def __rsub__(self, o): return self._b(o, np.subtract, _sub, True)
    def __mul__(self, o): return self._b(o, np.multiply, _mul)
    def __rmul__(self, o): return self._b(o, np.multiply, _mul, True)
    def __truediv__(self, o): return self._b(o, np.true_divide, _div)
    def __rtruediv__(self, o): return self._b(o, np.true_divide, _div, True)
    def __pow__(self, o): return _pow(self, Sym.lift(o))
    def __neg__(self): return SymC(-self.re, -self.im)
    def __pos__(self): return self
    def __abs__(self):
        if _is0(self.im):
            return abs(self.re)
        if _is0(self.re):
            return abs(self.im)
        if isspecial(self.re) or isspecial(self.im):
            return math.inf
        return sqrt(self.re * self.re + self.im * self.im, True)
    absolute = __abs__

    def __eq__(self, o):
        c = SymC.lift(o)
        if c is None:
            return NotImplemented
        return mkbool(fand(tonode(self.re == c.re), tonode(self.im == c.im)))

    def __ne__(self, o):
        return mkbool(fnot(tonode(self == o)))

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def conjugate(self): return SymC(self.re, -self.im)
    conj = conjugate
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def square(self): return self * self
    def sqrt(self):
        re, im = self.re, self.im
        if not _is0(im):
            raise Unsupported("square root of a general complex number")
        if isspecial(re):
            if math.isnan(re):
                return SymC(math.nan, math.nan)
            return SymC(math.inf, Sym.const(0)) if re > 0 else SymC(Sym.const(0), math.inf)
        if re >= 0:
            return SymC(sqrt(re), Sym.const(0))
        return SymC(Sym.const(0), sqrt(-re))
    def isfinite(self): return not (isspecial(self.re) or isspecial(self.im))
    def isnan(self): return any(isspecial(x) and math.isnan(x) for x in (self.re, self.im))
    def isinf(self): return any(isspecial(x) and math.isinf(x) for x in (self.re, self.im))
    def item(self): return self
    def copy(self): return self
    def __repr__(self): return f"SymC({self.re!r}, {self.im!r})"

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import array_ufunc
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import array_function
        return array_function(func, types, args, kwargs)


numbers.Complex.register(SymC)


def _l(x):
    return float(x) if isspecial(x) else Sym.lift(x)


# --------------------------------------------------------------------- inputs

def input_atom(name, lo=None, hi=None, is_int=False):
    key = ("in", name)
    if key in BYKEY:
        a = ATOMS[BYKEY[key]]
    else:
        a = new_atom("in", key, "in:" + name, is_int)
    a.lo = None if lo is None else Fraction(lo)
    a.hi = None if hi is None else Fraction(hi)
    return Sym({(a.id,): Q1})


def value_of(x, env):
    """Evaluate a symbolic value in env (floats)."""
    if isinstance(x, Sym):
        return peval(x.p, env)
    if isinstance(x, SymBool):
        return feval(x.n, env)
    if isinstance(x, SymC):
        return complex(value_of(x.re, env), value_of(x.im, env))
    return x
