"""Harness context: one harness function, run symbolically (deciding) and
concretely (replay of counterexamples, validation of the encoding)."""
import random
import time
import traceback
import math
from fractions import Fraction
import numpy as np

from . import poly as P
from .poly import Poly, BoolTerm, ATOMS, EncodingError, lift

HARNESSES = {}
CURRENT = [None]


class Harness:
    def __init__(self, prop, name, fn, tier, bounds, functions, maxpaths, samples, timeout, weight):
        self.prop, self.name, self.fn, self.tier = prop, name, fn, tier
        self.bounds, self.functions, self.maxpaths = bounds, functions, maxpaths
        self.samples, self.timeout, self.weight = samples, timeout, weight


def harness(prop, name=None, tier='quick', bounds='', functions=(), maxpaths=64, samples=2, timeout=60, weight=1):
    def deco(fn):
        n = name or fn.__name__
        HARNESSES[(prop, n)] = Harness(prop, n, fn, tier, bounds, list(functions), maxpaths, samples, timeout, weight)
        return fn
    return deco


class AssumptionFailed(Exception):
    pass


class PathInfeasible(Exception):
    pass


class PathCut(PathInfeasible):
    """the path runs past a stated bound (number of iterations)"""


class CodeRaised(Exception):
    pass


class Obligation:
    def __init__(self, label, kind, a, b, tol):
        self.label, self.kind, self.a, self.b, self.tol = label, kind, a, b, tol


class BaseCtx:
    sym = False

    def reals(self, name, shape, lo, hi):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        lo = np.broadcast_to(np.asarray(lo), shape)
        hi = np.broadcast_to(np.asarray(hi), shape)
        for pos in np.ndindex(*shape):
            out[pos] = self.real(name + ''.join(f'_{i}' for i in pos), lo[pos].item(), hi[pos].item())
        return self._arr(out)

    def ints(self, name, shape, lo, hi):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for pos in np.ndindex(*shape):
            out[pos] = self.int(name + ''.join(f'_{i}' for i in pos), lo, hi)
        return self._arr(out)

    def note(self, **kw):
        pass


class SymCtx(BaseCtx):
    sym = True

    def __init__(self, session, prefix):
        self.session = session
        self.prefix = prefix
        self.decisions = []         # (BoolTerm, chosen)
        self.alts = []
        self.assumes = []           # BoolTerm (evaluated on points)
        self.contracts = []         # BoolTerm (hold by construction of fresh values)
        self.obls = []
        self.completers = []        # functions env -> None, fill fresh values
        self.inputs = {}
        self.fresh_n = 0
        self.solves = []            # (fresh x, residual terms A x - b)
        self.max_solves = 8
        self.solve_box = 100
        self.notes = {}

    # -- inputs
    def real(self, name, lo, hi):
        self.inputs[name] = (float(lo), float(hi), False)
        return P.var(name, lo, hi)

    def int(self, name, lo, hi):
        self.inputs[name] = (int(lo), int(hi), True)
        return P.var(name, lo, hi, isint=True)

    def boolean(self, name):
        self.inputs[name] = 'bool'
        return P.bvar(name)

    def bools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for pos in np.ndindex(*shape):
            out[pos] = self.boolean(name + ''.join(f'_{i}' for i in pos))
        return out

    def _arr(self, a):
        return a

    def fresh(self, n, lo=None, hi=None, tag='z'):
        self.fresh_n += 1
        return np.array([P.var(f'{tag}!{self.fresh_n}_{i}', lo, hi) for i in range(n)], dtype=object)

    def fork_counts(self):
        P.FORK_DIV[0] = True

    def count_solve(self):
        if len(self.solves) >= self.max_solves:
            raise PathCut()

    # -- conversions
    def jax(self, a, dtype=None):
        return self.session.sym(a, dtype)

    def jaxify(self, o):
        """convert every object-array attribute of o into a JAX value"""
        for k, v in list(vars(o).items()):
            if isinstance(v, np.ndarray) and v.dtype == object:
                setattr(o, k, self.session.sym(np.asarray(v)))
            elif isinstance(v, list) and v and all(isinstance(x, np.ndarray) and x.dtype == object for x in v):
                setattr(o, k, [self.session.sym(np.asarray(x)) for x in v])

    def arr(self, a):
        from .npsym import SymArray
        return SymArray(a)

    def numpy_in(self, module):
        from .npsym import proxy_numpy
        proxy_numpy(module)

    def terms(self, x):
        from .jaxsym import to_terms
        if isinstance(x, (list, tuple)):
            parts = [self.terms(y) for y in x]
            sh = parts[0].shape if parts else ()
            out = np.empty((len(parts),) + sh, dtype=object)
            for i, q in enumerate(parts):
                out[i] = q.item() if q.shape == () else q
            return out
        return np.asarray(to_terms(x))

    # -- elementary functions usable in oracles of both modes
    def where(self, c, a, b):
        return P.ite(c, a, b)

    def sqrt(self, x):
        return lift(x).sqrt()

    def root(self, x, n):
        return lift(x).root(n)

    def exp(self, x):
        return lift(x).exp()

    def tanh(self, x):
        return lift(x).tanh()

    def maximum(self, a, b):
        return P.ite(lift(a) >= lift(b), lift(a), lift(b))

    def minimum(self, a, b):
        return P.ite(lift(a) <= lift(b), lift(a), lift(b))

    def both(self, *cs):
        r = True
        for c in cs:
            r = P.band(r, c)
        return r

    def either(self, *cs):
        r = False
        for c in cs:
            r = P.bor(r, c)
        return r

    def negate(self, c):
        return P.bnot(c)

    # -- logic
    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathInfeasible()
            return
        self.assumes.append(c)

    def contract(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathInfeasible()
            return
        self.contracts.append(c)

    def pc(self):
        return self.assumes + self.contracts + [b if v else P.bnot(b) for b, v in self.decisions]

    def decide(self, b):
        from . import solve
        k = b.key()
        nb = P.bnot(b)
        for x, v in self.decisions:
            if x.key() == k:
                return v
            if isinstance(nb, BoolTerm) and x.key() == nb.key():
                return not v
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            pc = self.pc()
            t = solve.feasible(pc + [b])
            f = solve.feasible(pc + [nb])
            if not t and not f:
                raise PathInfeasible()
            v = t
            if t and f:
                self.alts.append([d for _, d in self.decisions] + [False])
        self.decisions.append((b, v))
        return v

    # -- obligations
    def eq(self, label, a, b, tol=1e-7):
        a, b = self.terms(a), self.terms(b)
        if a.shape != b.shape:
            a, b = np.broadcast_arrays(a, b)
        self.obls.append((Obligation(label, 'eq', a, b, tol), len(self.decisions), len(self.assumes), len(self.contracts)))

    def le(self, label, a, b, tol=1e-9):
        a, b = np.broadcast_arrays(self.terms(a), self.terms(b))
        self.obls.append((Obligation(label, 'le', a, b, tol), len(self.decisions), len(self.assumes), len(self.contracts)))

    def true(self, label, c):
        a = self.terms(c)
        self.obls.append((Obligation(label, 'true', a, np.ones(a.shape, dtype=bool), 0), len(self.decisions),
                          len(self.assumes), len(self.contracts)))


class ConcCtx(BaseCtx):
    sym = False

    def __init__(self, env, strict=True):
        self.env = env
        self.vals = []      # (label, kind, a, b, ok)
        self.max_solves = 8
        self.inputs = {}

    def real(self, name, lo, hi):
        self.inputs[name] = 1
        return np.float64(self.env.get(name, (lo + hi) / 2))

    def int(self, name, lo, hi):
        return int(round(self.env.get(name, lo)))

    def boolean(self, name):
        return bool(self.env.get(name, False))

    def bools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=bool)
        for pos in np.ndindex(*shape):
            out[pos] = self.boolean(name + ''.join(f'_{i}' for i in pos))
        return out

    def _arr(self, a):
        if a.size and isinstance(a.reshape(-1)[0], int):
            return a.astype(int)
        return a.astype(float)

    def jax(self, a, dtype=None):
        import jax.numpy as jnp
        return jnp.asarray(a, dtype=dtype)

    def fork_counts(self):
        pass

    def jaxify(self, o):
        pass

    def arr(self, a):
        return np.asarray(a)

    def numpy_in(self, module):
        pass

    def terms(self, x):
        return np.asarray(x)

    def where(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return math.sqrt(x)

    def root(self, x, n):
        return float(x) ** (1.0 / n)

    def exp(self, x):
        return math.exp(x)

    def tanh(self, x):
        return math.tanh(x)

    def maximum(self, a, b):
        return max(a, b)

    def minimum(self, a, b):
        return min(a, b)

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def negate(self, c):
        return not bool(c)

    def assume(self, c):
        if not bool(np.all(np.asarray(c))):
            raise AssumptionFailed()

    def contract(self, c):
        pass

    def eq(self, label, a, b, tol=1e-7):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        d = np.abs(a - b)
        ok = bool(np.all(d <= 0.5 * tol))
        self.vals.append((label, 'eq', a, b, ok))

    def le(self, label, a, b, tol=1e-9):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        ok = bool(np.all(a <= b + 0.5 * tol))
        self.vals.append((label, 'le', a, b, ok))

    def true(self, label, c):
        a = np.asarray(c)
        self.vals.append((label, 'true', a.astype(float), np.ones(a.shape), bool(np.all(a))))
