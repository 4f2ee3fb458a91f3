"""Explore the paths of a harness, discharge its obligations, collect
candidate counterexamples and validation points."""
import os
import random
import sys
import time
import traceback
import numpy as np

from . import poly as P
from .poly import Poly, BoolTerm, ATOMS, EncodingError, lift
from . import solve
from . import ctx as ctxmod
from .ctx import SymCtx, ConcCtx, PathInfeasible, PathCut, AssumptionFailed, HARNESSES


class Cand:
    """Candidate evaluation: environment -> does it satisfy the assumptions
    and violate one of the negated claims?"""

    def __init__(self, ctx, ass, decs, claims, rng):
        self.ctx, self.ass, self.decs, self.claims, self.rng = ctx, ass, decs, claims, rng

    def complete(self, env):
        env = dict(env)
        for n, spec in self.ctx.inputs.items():
            if n not in env:
                env[n] = False if spec == 'bool' else (spec[0] + spec[1]) / 2
            if spec != 'bool':
                env[n] = min(max(env[n], spec[0]), spec[1])
                if spec[2]:
                    env[n] = int(round(env[n]))
        for f in self.ctx.completers:
            f(env)
        for a in ATOMS:
            if a.kind == 'var' and a.name not in env:
                env[a.name] = 0.0
        return env

    def __call__(self, env):
        env = self.complete(env)
        ev = P.Evaluator(env)
        try:
            for c in self.ass:
                if not ev.bool(c):
                    return False
            for c, v in self.decs:
                if ev.bool(c) != v:
                    return False
            for k, d, tol in self.claims:
                if k == 'eq':
                    x = ev.poly(d)
                    if not abs(x) <= tol:
                        return True
                elif k == 'le':
                    x = ev.poly(d)
                    if not x <= tol:
                        return True
                else:
                    if not ev.bool(d):
                        return True
        except (OverflowError, ZeroDivisionError):
            return False
        return False

    def search(self, n=60):
        for k in range(n):
            env = random_env(self.ctx, self.rng)
            try:
                if self(env):
                    return env
            except EncodingError:
                return None
        return None


def random_env(ctx, rng):
    env = {}
    for n, spec in ctx.inputs.items():
        if spec == 'bool':
            env[n] = rng.random() < 0.5
        elif spec[2]:
            env[n] = rng.randint(spec[0], spec[1])
        else:
            lo, hi = spec[0], spec[1]
            env[n] = lo + (hi - lo) * rng.random()
    return env


def neg_claim(kind, d, tol):
    if kind == 'eq':
        t = P.snap(tol)
        return P.bor(P.cmp('lt', Poly.const(t) - d), P.cmp('lt', d + Poly.const(t)))
    if kind == 'le':
        return P.cmp('lt', Poly.const(P.snap(tol)) - d)
    return P.bnot(d)


def leaf_conds(terms):
    out = {}
    for i in P.deep_atoms(terms):
        a = ATOMS[i]
        if a.kind in ('ite', 'flag'):
            st = [a.args[0]]
            while st:
                b = st.pop()
                if isinstance(b, BoolTerm):
                    if b.op in ('and', 'or', 'not'):
                        st.extend(b.args)
                    else:
                        out.setdefault(b.key(), b)
    return list(out.values())


class Prover:
    def __init__(self, ctx, rng, timeout_ms, deadline=None):
        self.ctx, self.rng, self.timeout, self.deadline = ctx, rng, timeout_ms, deadline
        self.n = {'claims': 0, 'normal_form_zero': 0, 'by_query': 0, 'case_splits': 0, 'cleared': 0}

    def left(self):
        if self.deadline is None:
            return self.timeout
        return max(500, min(self.timeout, int(1000 * (self.deadline - time.time()))))

    def claims_of(self, o):
        out = []
        if o.kind == 'true':
            for x in o.a.reshape(-1):
                out.append(('true', x, 0))
        else:
            for x, y in zip(o.a.reshape(-1), o.b.reshape(-1)):
                out.append((o.kind, lift(x) - lift(y), o.tol))
        return out

    def prove(self, o, nd, na, nc):
        ctx = self.ctx
        ass, con = ctx.assumes[:na], ctx.contracts[:nc]
        decs = ctx.decisions[:nd]
        claims = self.claims_of(o)
        self.n['claims'] += len(claims)
        live = []
        for k, d, tol in claims:
            if k == 'true':
                if d is True or (isinstance(d, (bool, np.bool_)) and d):
                    self.n['normal_form_zero'] += 1
                    continue
                if isinstance(d, (bool, np.bool_)):
                    d = False
                live.append((k, d, tol))
                continue
            if k == 'eq' and not d.t:
                self.n['normal_form_zero'] += 1
                live.append((k, d, tol))      # still part of the query below
                continue
            live.append((k, d, tol))
        res = []
        CH = 40
        for s in range(0, len(live), CH):
            r = self.decide(ass, con, decs, live[s:s + CH])
            if r[0] != 'unsat':
                return r
        return ('unsat', None)

    def decide(self, ass, con, decs, claims, depth=0):
        prepared = []
        for k, d, tol in claims:
            if k == 'eq':
                d2, tol2 = self.clear(d, tol)
                prepared.append((k, d2, tol2))
            else:
                prepared.append((k, d, tol))
        neg = False
        for c in prepared:
            neg = P.bor(neg, neg_claim(*c))
        pcs = ass + con + [b if v else P.bnot(b) for b, v in decs]
        cand = Cand(self.ctx, ass, decs, claims, self.rng)
        if neg is False:
            neg = P.cmp('lt', Poly.const(1))
        elif neg is True:
            neg = True
        st, stage, env = solve.refute(pcs, neg, timeout=self.left(), nonlinear=False, evalcand=cand)
        if st == 'unsat':
            self.n['by_query'] += 1
            return ('unsat', None)
        if st == 'sat':
            return ('sat', env)
        # one claim at a time, then case split, then the nonlinear query
        if len(claims) > 1:
            for c in claims:
                r = self.decide(ass, con, decs, [c], depth)
                if r[0] != 'unsat':
                    return r
            return ('unsat', None)
        k, d, tol = claims[0]
        conds = leaf_conds([d] if not isinstance(d, bool) else [])
        inside = self.conds_inside(d)
        if (inside or conds) and depth < 12 and (inside or len(conds) <= 8):
            c = (inside or conds)[0]
            self.n['case_splits'] += 1
            for v in (True, False):
                lit = c if v else P.bnot(c)
                if not solve.feasible(pcs + [lit], 3000):
                    continue
                cs = {c.key(): v}
                nb = P.bnot(c)
                if isinstance(nb, BoolTerm):
                    cs[nb.key()] = not v
                sub = P.Subst(cs)
                d2 = sub.bool(d) if k == 'true' else sub.poly(d)
                r = self.decide(ass, con, decs + [(c, v)], [(k, d2, tol)], depth + 1)
                if r[0] != 'unsat':
                    return r
            return ('unsat', None)
        st, stage, env = solve.refute(pcs, neg_claim(*prepared[0]), timeout=self.left(), nonlinear=True, evalcand=cand)
        if st == 'unsat':
            self.n['by_query'] += 1
            return ('unsat', None)
        if st == 'sat':
            return ('sat', env)
        return ('unknown', repr(d)[:300])

    def conds_inside(self, d):
        """conditions hidden inside opaque atoms (inv, sqrt, fn) of d"""
        if isinstance(d, (bool, np.bool_)):
            return []
        out = {}
        for i in P.deep_atoms([d]):
            a = ATOMS[i]
            if a.kind in ('inv', 'sqrt', 'root', 'fn', 'uf'):
                for b in leaf_conds(list(a.args)):
                    out.setdefault(b.key(), b)
        return list(out.values())

    def clear(self, d, tol):
        if not any(ATOMS[a].kind == 'inv' for a in d.atoms()):
            return d, tol
        try:
            num, dens = solve.clear_denominators(d)
        except EncodingError:
            return d, tol
        self.n['cleared'] += 1
        if not num.t:
            return num, tol
        L = P.snap(1)
        for q, k in dens:
            lo, hi = P.interval(q)
            if lo is not None and lo > 0:
                L *= lo ** k
            elif hi is not None and hi < 0:
                L *= (-hi) ** k
            else:
                return d, tol
        return num, P.snap(tol) * L


def run_symbolic(h, seed=1, timeout_ms=60000, nsamples=None, verbose=False, limit=None):
    """Returns a JSON-able dict."""
    from .jaxsym import Session, PRIM_COUNT
    from . import npsym
    rng = random.Random(seed * 7919 + hash(h.name) % 1000 if False else seed * 7919 + sum(map(ord, h.name)))
    out = {'harness': h.name, 'status': 'ok', 'obligations': 0, 'paths': 0, 'candidates': [], 'unknown': [],
           'points': [], 'labels': [], 'error': None, 'counts': {}}
    t0 = time.time()
    stack = [[]]
    nsamples = nsamples if nsamples is not None else h.samples
    counts = {}
    stop_at = None
    while stack:
        prefix = stack.pop()
        if stop_at is not None and time.time() > stop_at:
            break
        if limit is not None and time.time() - t0 > limit:
            out['unknown'].append({'label': '-', 'why': f'harness time limit {limit} s, paths left'})
            break
        if out['paths'] >= h.maxpaths:
            out['status'] = 'error'
            out['error'] = f'path bound {h.maxpaths} exceeded'
            break
        P.reset()
        with Session() as sess:
            npsym.patch_numpy()
            npsym.patch_jnp()
            npsym.patch_builtins(sorted({'jax_am.' + '.'.join(f.split('.')[:2]) for f in h.functions}))
            ctx = SymCtx(sess, prefix)
            P.DECIDE = ctx.decide
            P.FORK_DIV[0] = False
            ctxmod.CURRENT[0] = ctx
            exc = None
            try:
                h.fn(ctx)
            except PathCut:
                out['cut'] = out.get('cut', 0) + 1
                stack.extend(ctx.alts)
                continue
            except PathInfeasible:
                stack.extend(ctx.alts)
                continue
            except EncodingError as e:
                exc = ('encoding', f'{e}', traceback.format_exc())
            except Exception as e:
                exc = ('raise', f'{type(e).__name__}: {e}', traceback.format_exc())
        stack.extend(ctx.alts)
        out['paths'] += 1
        prover = Prover(ctx, rng, timeout_ms)
        if exc is not None:
            # The run stopped.  Offer concrete points on this path: if the real
            # code raises there too it is a finding, otherwise our limitation.
            pts = sample_points(ctx, rng, 6) + corner_points(ctx, rng, 6)
            out['status'] = 'error'
            out['error'] = f'{exc[0]}: {exc[1]}'
            out['trace'] = exc[2][-3000:]
            for env in pts:
                out['points'].append({'env': inputs_only(ctx, env), 'expect': None})
            # still look at what was established before the failure
        for (o, nd, na, nc) in ctx.obls:
            out['obligations'] += 1
            if o.label not in out['labels']:
                out['labels'].append(o.label)
            t = time.time()
            if len(out['unknown']) >= 2 or out['candidates']:
                prover.timeout = min(prover.timeout, 8000)
            if stop_at is None and out['candidates']:
                stop_at = t + 20          # one counterexample is enough; look a little for more
            if limit is not None and t - t0 > limit or stop_at is not None and t > stop_at:
                if not out['candidates']:
                    out['unknown'].append({'label': o.label, 'why': f'harness time limit {limit} s'})
                continue
            prover.deadline = min([x for x in (None if limit is None else t0 + limit, stop_at) if x is not None], default=None)
            try:
                r = prover.prove(o, nd, na, nc)
            except EncodingError as e:
                r = ('unknown', f'encoding: {e}')
            if verbose:
                print(f'   [{h.name}] {o.label}: {r[0]} ({time.time()-t:.2f}s)', file=sys.stderr, flush=True)
            if r[0] == 'sat':
                cand = Cand(ctx, [], [], [], rng)
                env = cand.complete(r[1])
                out['candidates'].append({'label': o.label, 'env': inputs_only(ctx, env)})
            elif r[0] == 'unknown':
                out['unknown'].append({'label': o.label, 'why': str(r[1])})
        for k, v in prover.n.items():
            counts[k] = counts.get(k, 0) + v
        # validation points with expected values
        if exc is None:
            for env in sample_points(ctx, rng, nsamples, usez3=not any(p['expect'] for p in out['points'])):
                cand = Cand(ctx, [], [], [], rng)
                full = cand.complete(env)
                ev = P.Evaluator(full)
                exp = []
                for (o, nd, na, nc) in ctx.obls:
                    exp.append([o.label, [ev.poly(x) for x in o.a.reshape(-1)][:400],
                                [ev.poly(x) for x in o.b.reshape(-1)][:400]])
                out['points'].append({'env': inputs_only(ctx, env), 'expect': exp})
            if not any(p['expect'] is not None for p in out['points']):
                pass
    out['counts'] = counts
    out['time_s'] = round(time.time() - t0, 2)
    out['primitives'] = dict(sorted(PRIM_COUNT.items(), key=lambda x: -x[1])[:25])
    return out


def inputs_only(ctx, env):
    d = {}
    for n, spec in ctx.inputs.items():
        v = env[n]
        d[n] = bool(v) if spec == 'bool' else (int(round(v)) if spec[2] else float(v))
    return d


def sample_points(ctx, rng, n, usez3=True):
    """Points satisfying assumptions and the path condition (witnesses against
    vacuity; also used to validate the encoding)."""
    pts = []
    c = Cand(ctx, ctx.assumes, ctx.decisions, [('true', False, 0)], rng)
    for _ in range(300):
        if len(pts) >= n:
            return pts
        env = random_env(ctx, rng)
        if c(env):
            pts.append(c.complete(env))
    if not pts and usez3:
        import z3
        for nl in (False, True):
            enc = solve.Enc(nl)
            s = z3.Solver()
            fs = [enc.bool(b) for b in ctx.pc()]
            for f in fs + enc.side:
                s.add(f)
            # keep strict inequalities away from the boundary where possible
            r = solve._check(s, 6000)
            if r == 'sat':
                env = solve.model_env(s.model(), enc, None)
                if c(env):
                    pts.append(c.complete(env))
                    break
    return pts


def corner_points(ctx, rng, n):
    c = Cand(ctx, ctx.assumes, ctx.decisions, [('true', False, 0)], rng)
    pts = []
    for _ in range(60):
        if len(pts) >= n:
            break
        env = {k: (rng.random() < 0.5 if s == 'bool' else s[rng.randint(0, 1)]) for k, s in ctx.inputs.items()}
        if c(env):
            pts.append(c.complete(env))
    return pts


def run_concrete(h, env, expect=None):
    """Run the harness on the real, unpatched code at one point."""
    ctx = ConcCtx(env)
    r = {'status': 'ok', 'failed': [], 'mismatch': [], 'error': None}
    try:
        h.fn(ctx)
    except AssumptionFailed:
        r['status'] = 'assumption'
    except EncodingError as e:
        r['status'] = 'harness-error'
        r['error'] = str(e)
    except Exception as e:
        r['status'] = 'raised'
        r['error'] = f'{type(e).__name__}: {str(e)[:500]}'
        r['trace'] = traceback.format_exc()[-6000:]
    for label, kind, a, b, ok in ctx.vals:
        if not ok:
            d = np.abs(a - b) if kind != 'le' else a - b
            i = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
            r['failed'].append({'label': label, 'got': float(a.reshape(-1)[i]), 'want': float(b.reshape(-1)[i]),
                                'kind': kind, 'index': i})
    if expect is not None and r['status'] == 'ok':
        if len(expect) != len(ctx.vals):
            r['mismatch'].append(f'{len(expect)} symbolic vs {len(ctx.vals)} concrete assertions')
        for (el, ea, eb), (label, kind, a, b, ok) in zip(expect, ctx.vals):
            if el != label:
                r['mismatch'].append(f'label {el} vs {label}')
                break
            for e, c in ((ea, a), (eb, b)):
                c = c.reshape(-1)[:400]
                e = np.array(e)
                if e.shape != c.shape:
                    r['mismatch'].append(f'{label}: shape {e.shape} vs {c.shape}')
                    continue
                if kind == 'true':
                    bad = e != c
                else:
                    bad = ~(np.abs(e - c) <= 1e-6 * (1 + np.abs(e) + np.abs(c)))
                if bad.any():
                    i = int(np.argmax(bad))
                    r['mismatch'].append(f'{label}[{i}]: encoding {e[i]!r} real {c[i]!r}')
    return r
