"""z3 back end: obligations over vsym terms.

Stage A  every monomial over base atoms becomes one real variable with its
         interval bounds and ites become If; the query is linear (LRA+Bool).
         Over-approximation, so unsat is a proof.
Stage B  the same query with monomials defined as products (NRA).
A sat answer is only a candidate: the caller evaluates it exactly and replays
it on the real code.
"""
import time
import os
import math
import random
from fractions import Fraction
import numpy as np
import z3

from . import poly as P
from .poly import Poly, BoolTerm, ATOMS, EncodingError

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_time_s': 0.0, 'stageA_unsat': 0, 'stageB_unsat': 0,
         'feasibility': 0, 'cvc5_checked': 0, 'cvc5_unsat': 0}
TIMEOUT_MS = int(os.environ.get('VSYM_TIMEOUT_MS', '60000'))


def _rv(c):
    c = Fraction(c)
    return z3.RatVal(c.numerator, c.denominator)


class Enc:
    def __init__(self, nonlinear=False):
        self.nl = nonlinear
        self.mono = {}
        self.pc = {}
        self.bc = {}
        self.side = []
        self.av = {}
        self.done = set()
        self.bv = {}

    # -- atoms
    def atomvar(self, i):
        v = self.av.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        nm = (a.name if a.kind == 'var' else f'{a.kind}_{a.name}') + f'!{i}'
        if a.isint:
            iv = z3.Int(nm)
            v = z3.ToReal(iv)
        else:
            iv = None
            v = z3.Real(nm)
        self.av[i] = v
        lo, hi = P.atom_interval(i)
        if lo is not None:
            self.side.append(v >= _rv(lo))
        if hi is not None:
            self.side.append(v <= _rv(hi))
        if a.kind == 'inv':
            self.side.append(self.poly(a.args[0] * Poly.atom(i)) == 1)
        elif a.kind == 'sqrt':
            pz = self.poly(a.args[0])
            self.side.append(pz >= 0)
            if self.nl:
                self.side.append(v * v == pz)
            self.side.append(z3.Implies(pz > 0, v > 0))
            self.side.append(z3.Implies(pz == 0, v == 0))
            for x in P.SOS.get(i, ()):
                px = self.poly(x)
                self.side += [v >= px, v >= -px]
        elif a.kind == 'root':
            pz = self.poly(a.args[0])
            self.side.append(pz >= 0)
            if self.nl:
                r = v
                for _ in range(int(a.name[4:]) - 1):
                    r = r * v
                self.side.append(r == pz)
            self.side.append(z3.Implies(pz > 0, v > 0))
        elif a.kind == 'fn' and a.name == 'exp':
            pz = self.poly(a.args[0])
            self.side.append(v > 0)
            self.side.append(v >= 1 + pz)
            self.side.append(z3.Implies(pz < 0, v < 1))
            self.side.append(z3.Implies(pz > 0, v > 1))
        elif a.kind == 'fn' and a.name == 'tanh':
            pz = self.poly(a.args[0])
            self.side += [v > -1, v < 1, z3.Implies(pz > 0, z3.And(v > 0, v <= pz)),
                          z3.Implies(pz < 0, z3.And(v < 0, v >= pz)), z3.Implies(pz == 0, v == 0)]
        elif a.kind == 'fn' and a.name == 'arctan':
            pz = self.poly(a.args[0])
            self.side += [z3.Implies(pz > 0, z3.And(v > 0, v <= pz)),
                          z3.Implies(pz < 0, z3.And(v < 0, v >= pz)), z3.Implies(pz == 0, v == 0)]
        elif a.kind == 'fn' and a.name == 'floor':
            pz = self.poly(a.args[0])
            k = z3.Int(nm + '_k')
            self.side += [v == z3.ToReal(k), v <= pz, pz < v + 1]
        elif a.kind == 'int':
            x, y = self.poly(a.args[0]), self.poly(a.args[1])
            xi = z3.Int(nm + '_x')
            self.side.append(z3.ToReal(xi) == x)
            if not a.args[1].is_const():
                raise EncodingError("integer division by a symbolic value")
            n = int(a.args[1].cval())
            self.side.append(iv == (xi / n if a.name == 'idiv' else xi % n))
        return v

    def monovar(self, m):
        """z3 term for a monomial of base (non-ite) atoms."""
        if len(m) == 1 and m[0][1] == 1:
            return self.atomvar(m[0][0])
        v = self.mono.get(m)
        if v is not None:
            return v
        if self.nl:
            r = None
            for a, e in m:
                x = self.atomvar(a)
                if e < 0:
                    k = ('neg', a)
                    y = self.mono.get(k)
                    if y is None:
                        y = z3.Real(f'rec!{a}')
                        self.mono[k] = y
                        self.side.append(x * y == 1)
                    x, e = y, -e
                for _ in range(e):
                    r = x if r is None else r * x
            self.mono[m] = r
            return r
        v = z3.Real('m!%d' % len(self.mono))
        self.mono[m] = v
        for a, e in m:
            self.atomvar(a)
        lo, hi = P.mono_interval(m)
        if lo is not None:
            self.side.append(v >= _rv(lo))
        if hi is not None:
            self.side.append(v <= _rv(hi))
        return v

    def poly(self, p):
        p = P.lift(p)
        k = p.key()
        r = self.pc.get(k)
        if r is not None:
            return r
        groups = {}
        for m, c in p.t.items():
            ip = tuple((a, e) for a, e in m if ATOMS[a].kind in ('ite', 'flag'))
            groups.setdefault(ip, {})[m if not ip else tuple(x for x in m if x not in ip)] = c
        terms = []
        for ip, q in groups.items():
            if not ip:
                for m, c in q.items():
                    terms.append(_rv(c) if m == () else _rv(c) * self.monovar(m))
                continue
            (a, e), rest = ip[0], ip[1:]
            at = ATOMS[a]
            base = Poly(q) * Poly({rest: Fraction(1)}) if rest else Poly(q)
            c = self.bool(at.args[0])
            if at.kind == 'flag':
                if e < 0:
                    raise EncodingError("division by an indicator")
                terms.append(z3.If(c, self.poly(base), z3.RealVal(0)))
            else:
                terms.append(z3.If(c, self.poly(base * at.args[1] ** e), self.poly(base * at.args[2] ** e)))
        r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        self.pc[k] = r
        return r

    def bool(self, b):
        if isinstance(b, (bool, np.bool_)):
            return z3.BoolVal(bool(b))
        k = b.key()
        r = self.bc.get(k)
        if r is None:
            if b.op == 'and':
                r = z3.And(self.bool(b.args[0]), self.bool(b.args[1]))
            elif b.op == 'or':
                r = z3.Or(self.bool(b.args[0]), self.bool(b.args[1]))
            elif b.op == 'not':
                r = z3.Not(self.bool(b.args[0]))
            elif b.op == 'var':
                r = z3.Bool(b.args[0])
                self.bv[b.args[0]] = r
            else:
                x = self.poly(b.args[0])
                r = {'lt': x < 0, 'le': x <= 0, 'eq': x == 0}[b.op]
            self.bc[k] = r
        return r


def _check(solver, timeout):
    solver.set('timeout', int(timeout))
    t = time.time()
    r = solver.check()
    STATS['solver_time_s'] += time.time() - t
    STATS['queries'] += 1
    STATS[str(r)] += 1
    return str(r)


def cvc5_check(smt2, timeout):
    """Second opinion on an unsat answer."""
    import subprocess
    import tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
        nm = f.name
    try:
        r = subprocess.run(['cvc5', f'--tlimit={int(timeout)}', nm], capture_output=True, text=True)
        return (r.stdout.strip().split('\n') or [''])[0], r.stdout + r.stderr
    finally:
        os.unlink(nm)


CROSS = [False]


def feasible(conds, timeout=5000):
    """False only if the solver proves the conjunction impossible."""
    enc = Enc(False)
    s = z3.Solver()
    fs = [enc.bool(c) for c in conds]
    for f in fs + enc.side:
        s.add(f)
    STATS['feasibility'] += 1
    r = _check(s, timeout)
    if r == 'unsat':
        return False
    return True


def model_env(model, enc, names):
    env = {}
    for i, a in enumerate(ATOMS):
        if a.kind != 'var':
            continue
        v = enc.av.get(i)
        x = None
        if v is not None:
            mv = model.eval(v, model_completion=True)
            if z3.is_algebraic_value(mv):
                mv = mv.approx(20)
            try:
                x = float(Fraction(mv.numerator_as_long(), mv.denominator_as_long()))
            except Exception:
                x = None
        if x is None:
            lo, hi = a.lo, a.hi
            x = float((lo + hi) / 2) if lo is not None and hi is not None else float(lo if lo is not None else (hi if hi is not None else 0))
        env[a.name] = x
    for n, v in enc.bv.items():
        env[n] = bool(z3.is_true(model.eval(v, model_completion=True)))
    return env


def refute(conds, neg, timeout=None, nonlinear=True, evalcand=None):
    """Is conds /\\ neg satisfiable?  Returns ('unsat', stage, None) or
    ('sat', stage, env) with env confirmed by evalcand, or ('unknown', ..)."""
    timeout = timeout or TIMEOUT_MS
    cand = None
    for stage in (['A', 'B'] if nonlinear else ['A']):
        enc = Enc(stage == 'B')
        s = z3.Solver()
        fs = [enc.bool(c) for c in conds] + [enc.bool(neg)]
        n = 0
        for f in fs:
            s.add(f)
        for f in enc.side:
            s.add(f)
        r = _check(s, timeout)
        if r == 'unsat':
            STATS['stage%s_unsat' % stage] += 1
            if CROSS[0]:
                STATS['cvc5_checked'] += 1
                ans, full = cvc5_check(s.to_smt2().replace('(set-logic', ';(set-logic'), timeout)
                if ans == 'unsat':
                    STATS['cvc5_unsat'] += 1
                elif ans == 'sat' and stage == 'A':
                    raise EncodingError('solver disagreement: cvc5 says sat')
            return 'unsat', stage, None
        if r == 'sat':
            env = model_env(s.model(), enc, None)
            if evalcand is None or evalcand(env):
                return 'sat', stage, env
            # abstraction artefact
        if evalcand is not None and stage == 'A':
            cand = evalcand.search()
            if cand is not None:
                return 'sat', 'search', cand
        if not enc.mono and r == 'sat' and evalcand is not None and not nonlinear:
            break
    return 'unknown', None, None


def clear_denominators(p, limit=200000):
    """p = num / den with den a product of known polynomials; returns
    (num, [(q, k)]).  Only 'inv' atoms are cleared (outermost first)."""
    dens = []
    for _ in range(60):
        invs = sorted([a for a in p.atoms() if ATOMS[a].kind == 'inv'], reverse=True)
        if not invs:
            # negative exponents of plain atoms
            mins = {}
            for m in p.t:
                for a, e in m:
                    if e < 0:
                        mins[a] = min(mins.get(a, 0), e)
            if not mins:
                return p, dens
            f = Poly({tuple(sorted((a, -e) for a, e in mins.items())): Fraction(1)})
            p = p * f
            for a, e in mins.items():
                dens.append((Poly.atom(a), -e))
            continue
        i = invs[0]
        q = ATOMS[i].args[0]
        k = max(dict(m).get(i, 0) for m in p.t)
        byexp = {}
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(i, 0)
            byexp.setdefault(e, {})[tuple(sorted(d.items()))] = c
        r = P.ZERO
        for e, t in byexp.items():
            r = r + Poly(t) * (q ** (k - e))
            if len(r.t) > limit:
                raise EncodingError("denominator clearing too large")
        p = r
        if k > 0:
            dens.append((q, k))
    return p, dens
