"""C11 optimiser step stays inside bounds and move limits, C12 convex approximation, C13 sensitivity filter."""
import types
import numpy as np
from vsym.ctx import harness


def setup(ctx, n, m, epoch, flat=False):
    from jax_am.fem import mma as M
    ctx.numpy_in(M)
    o = types.SimpleNamespace(M=M, n=n, m=m)
    if flat:
        o.xmin, o.xmax = np.zeros((n, 1)), np.ones((n, 1))
    else:
        o.xmin = ctx.reals('xmin', (n, 1), -1, 0.3)
        w = ctx.reals('w', (n, 1), 0.2, 2)
        o.xmax = o.xmin + w
    tau = ctx.reals('tau', (n, 1), 0, 1)
    o.xval = o.xmin + tau * (o.xmax - o.xmin)
    o.x1 = ctx.reals('x1', (n, 1), -1, 2)
    o.x2 = ctx.reals('x2', (n, 1), -1, 2)
    o.low = ctx.reals('low', (n, 1), -10, 1)
    o.upp = ctx.reals('upp', (n, 1), -1, 10)
    o.f0, o.df0 = ctx.real('f0', -5, 5), ctx.reals('df0', (n, 1), -5, 5)
    o.f, o.df = ctx.reals('f', (m, 1), -5, 5), ctx.reals('df', (m, n), -5, 5)
    o.move = ctx.real('move', 0.01, 1.0)
    A = ctx.arr
    for k in ('xmin', 'xmax', 'xval', 'x1', 'x2', 'low', 'upp', 'df0', 'f', 'df'):
        setattr(o, k, A(getattr(o, k)))
    mma = o.mma = M.MMA()
    mma.setNumConstraints(m)
    mma.setNumDesignVariables(n)
    mma.setMinandMaxBoundsForDesignVariables(o.xmin, o.xmax)
    for _ in range(epoch):
        mma.registerMMAIter(o.xval, o.x1, o.x2)
    mma.setLowerAndUpperAsymptotes(o.low, o.upp)
    mma.setScalingParams(1.0, np.zeros((m, 1)), 10000 * np.ones((m, 1)), np.zeros((m, 1)))
    mma.setMoveLimit(o.move)
    mma.setObjectiveWithGradient(o.f0, o.df0)
    mma.setConstraintWithGradient(o.f, o.df)
    return o


def between(ctx, a, b, t):
    """any point of [a, b]: a + t (b - a), introduced as a fresh value in symbolic runs"""
    if not ctx.sym:
        return a + t * (b - a)
    from vsym import poly as P
    a, b, tt = (np.asarray(q).reshape(-1) for q in (ctx.terms(a), ctx.terms(b), ctx.terms(t)))
    x = ctx.fresh(len(a), -20, 20)
    for i in range(len(a)):
        ctx.contract(P.cmp('le', P.lift(a[i]) - x[i]))
        ctx.contract(P.cmp('le', x[i] - P.lift(b[i])))
    names = [P.ATOMS[list(v.atoms())[0]].name for v in x]

    def complete(env):
        ev = P.Evaluator(env)
        for i, nm in enumerate(names):
            if nm not in env:
                p, q = ev.poly(P.lift(a[i])), ev.poly(P.lift(b[i]))
                env[nm] = p + ev.poly(P.lift(tt[i])) * (q - p)
    ctx.completers.append(complete)
    return x.reshape(np.shape(t))


class Sub:
    """stand-in for the subproblem solver: records the convex subproblem and returns
    an arbitrary point of its feasible box"""

    def __init__(self, ctx, tag='t'):
        self.ctx, self.calls, self.tag = ctx, [], tag

    def __call__(self, m, n, epsimin, low, upp, alfa, beta, p0, q0, P, Q, a0, a, b, c, d):
        ctx = self.ctx
        t = ctx.reals(f'{self.tag}{len(self.calls)}', (n, 1), 0, 1)
        x = ctx.arr(between(ctx, alfa, beta, t))
        ctx.true('tolerance-asked-for', float(epsimin) <= 1e-6)
        self.calls.append(types.SimpleNamespace(low=low, upp=upp, alfa=alfa, beta=beta, p0=p0, q0=q0, P=P, Q=Q, b=b, x=x))
        o, z = np.ones((m, 1)), np.array([[1.0]])
        return x, o, z, o, np.ones((n, 1)), np.ones((n, 1)), o, z, o


def run_sub(ctx, o):
    sub = Sub(ctx)
    keep = o.M.subsolv
    o.M.subsolv = sub
    try:
        o.mma.mmasub(o.xval)
    finally:
        o.M.subsolv = keep
    return sub.calls[0]


def L(ctx, x):
    return list(ctx.terms(x).reshape(-1))


def _box(n, epoch):
    def h(ctx):
        o = setup(ctx, n, 1, epoch)
        s = run_sub(ctx, o)
        x, _, _ = o.mma.getOptimalValues()
        X, lo, hi, v = L(ctx, x), L(ctx, o.xmin), L(ctx, o.xmax), L(ctx, o.xval)
        al, be, lw, up = L(ctx, s.alfa), L(ctx, s.beta), L(ctx, s.low), L(ctx, s.upp)
        for i in range(n):
            r = hi[i] - lo[i]
            ctx.le('within-lower-bound', lo[i], al[i], 1e-9)
            ctx.le('within-upper-bound', be[i], hi[i], 1e-9)
            ctx.le('move-limit-down', v[i] - o.move * r, al[i], 1e-9)
            ctx.le('move-limit-up', be[i], v[i] + o.move * r, 1e-9)
            ctx.le('current-point-feasible', al[i], v[i], 1e-9)
            ctx.le('current-point-feasible-up', v[i], be[i], 1e-9)
            ctx.le('lower-asymptote-below-box', lw[i] + 0.0005 * r, al[i], 1e-9)
            ctx.le('upper-asymptote-above-box', be[i], up[i] - 0.0005 * r, 1e-9)
        nl, nu = o.mma.getAsymptoteValues()
        ctx.eq('asymptotes-kept', L(ctx, nl) + L(ctx, nu), lw + up, 1e-9)
        # the solver of the subproblem is a contract in symbolic runs; replays run the real one
        ok = True
        if not ctx.sym:
            o.mma.setLowerAndUpperAsymptotes(o.low, o.upp)
            o.mma.mmasub(o.xval)
            xr = np.asarray(o.mma.getOptimalValues()[0])
            ok = bool(np.all(xr >= s.alfa - 1e-9) and np.all(xr <= s.beta + 1e-9))
        ctx.true('subproblem-answer-in-box', ok)
    return h


BF = ['fem.mma.MMA.mmasub']
BB = 'all bounds, iterates, asymptotes, gradients and move limits (0.01..1) in the stated boxes; subproblem solver replaced by an arbitrary feasible answer'
for _n, _e in ((1, 1), (2, 2), (1, 3), (2, 4)):
    harness('C11', f'box_{_n}_{_e}', functions=BF, bounds=f'{_n} variables, iteration {_e}; ' + BB, weight=2)(_box(_n, _e))


def _asym(n):
    """asymptotes widen by 1.2 on steady progress, tighten by 0.7 on oscillation"""
    def h(ctx):
        o = setup(ctx, n, 1, 3)
        s = run_sub(ctx, o)
        lw, up = L(ctx, s.low), L(ctx, s.upp)
        v, x1, x2, ol, ou = (L(ctx, q) for q in (o.xval, o.x1, o.x2, o.low, o.upp))
        lo, hi = L(ctx, o.xmin), L(ctx, o.xmax)
        for i in range(n):
            z = (v[i] - x1[i]) * (x1[i] - x2[i])
            fac = ctx.where(z > 0, 1.2, ctx.where(z < 0, 0.7, 1.0))
            r = hi[i] - lo[i]
            a = v[i] - fac * (x1[i] - ol[i])
            b = v[i] + fac * (ou[i] - x1[i])
            ctx.eq('lower-asymptote', lw[i], ctx.minimum(ctx.maximum(a, v[i] - 10.0 * r), v[i] - 0.01 * r), 1e-8)
            ctx.eq('upper-asymptote', up[i], ctx.maximum(ctx.minimum(b, v[i] + 10.0 * r), v[i] + 0.01 * r), 1e-8)
    return h


for _n in (1, 2):
    harness('C12', f'asymptotes_{_n}', functions=BF, bounds=f'{_n} variables; ' + BB, weight=2)(_asym(_n))


def _approx(n, m, epoch):
    def h(ctx):
        o = setup(ctx, n, m, epoch, flat=True)
        if epoch > 2:       # keep the previous asymptotes in front of the clamps
            o.mma.setLowerAndUpperAsymptotes(o.low, o.upp)
        s = run_sub(ctx, o)
        p0, q0, b = L(ctx, s.p0), L(ctx, s.q0), L(ctx, s.b)
        P, Q = ctx.terms(s.P), ctx.terms(s.Q)
        v, lw, up = L(ctx, o.xval), L(ctx, s.low), L(ctx, s.upp)
        df0, df, f = L(ctx, o.df0), ctx.terms(o.df), L(ctx, o.f)
        ctx.true('shapes', len(p0) == n and len(q0) == n and P.shape == (m, n) and Q.shape == (m, n) and len(b) == m)
        for j in range(n):
            u, l = up[j] - v[j], v[j] - lw[j]
            ctx.eq('objective-gradient', p0[j] / (u * u) - q0[j] / (l * l), df0[j], 1e-7)
            ctx.le('objective-strictly-convex', 4e-10, p0[j], 0)
            ctx.le('objective-strictly-convex-q', 4e-10, q0[j], 0)
            for i in range(m):
                ctx.eq('constraint-gradient', P[i, j] / (u * u) - Q[i, j] / (l * l), df[i, j], 1e-7)
                ctx.le('constraint-convex', 4e-10, P[i, j], 0)
                ctx.le('constraint-convex-q', 4e-10, Q[i, j], 0)
        for i in range(m):
            val = sum(P[i, j] / (up[j] - v[j]) + Q[i, j] / (v[j] - lw[j]) for j in range(n)) - b[i]
            ctx.eq('constraint-value', val, f[i], 1e-7)
    return h


for _n, _m, _e in ((1, 1, 1), (2, 1, 2), (2, 2, 1), (1, 1, 3)):
    harness('C12', f'approx_{_n}_{_m}_{_e}', functions=BF, bounds=f'{_n} variables, {_m} constraints, iteration {_e}; ' + BB, weight=2)(_approx(_n, _m, _e))


# ---------------------------------------------------------------- the subproblem solver
def kkt(ctx, n, m, low, upp, alfa, beta, p0, q0, P, Q, a0, a, b, c, d, sol):
    """optimality conditions of
         min sum p0/(upp-x) + q0/(x-low) + a0 z + sum c y + d/2 y^2
         s.t. sum P/(upp-x) + Q/(x-low) - a z - y <= b,  alfa <= x <= beta,  y, z >= 0
    as (stationarity, primal, complementarity products) written from the problem itself"""
    x, y, z, lam, xsi, eta, mu, zet, s = [list(ctx.terms(q).reshape(-1)) for q in sol]
    z, zet = z[0], zet[0]
    st, pr, co = [], [], []
    for j in range(n):
        u, l = upp[j] - x[j], x[j] - low[j]
        pj = p0[j] + sum(lam[i] * P[i][j] for i in range(m))
        qj = q0[j] + sum(lam[i] * Q[i][j] for i in range(m))
        st.append(pj / (u * u) - qj / (l * l) - xsi[j] + eta[j])
        co += [xsi[j] * (x[j] - alfa[j]), eta[j] * (beta[j] - x[j])]
    for i in range(m):
        st.append(c[i] + d[i] * y[i] - mu[i] - lam[i])
        g = sum(P[i][j] / (upp[j] - x[j]) + Q[i][j] / (x[j] - low[j]) for j in range(n))
        pr.append(g - a[i] * z - y[i] + s[i] - b[i])
        co += [mu[i] * y[i], lam[i] * s[i]]
    st.append(a0 - zet - sum(a[i] * lam[i] for i in range(m)))
    co.append(zet * z)
    return st, pr, co, x, [y, [z], lam, xsi, eta, mu, [zet], s]


def _subsolv(n, m, boxes, steps):
    """whenever the solver of the subproblem stops refining, its answer satisfies the optimality
    conditions of the subproblem to the tolerance of its current barrier parameter"""
    def h(ctx):
        from jax_am.fem import mma as M
        ctx.numpy_in(M)

        def R(name, shape, default):
            if name in boxes:
                return ctx.reals(name, shape, *boxes[name])
            return np.full(shape, float(default))
        low, upp = [-1.0] * n, [2.0 + 0.5 * j for j in range(n)]
        alfa, beta = [-0.5 + 0.25 * j for j in range(n)], [1.5] * n
        col = lambda v: ctx.arr(np.array(v, dtype=object).reshape(-1, 1)) if ctx.sym else np.array([float(q) for q in v]).reshape(-1, 1)
        p0, q0 = R('p0', (n, 1), 1.0), R('q0', (n, 1), 1.0)
        P, Q = R('P', (m, n), 0.5), R('Q', (m, n), 0.5)
        a, b, c, d = R('a', (m, 1), 0.0), R('b', (m, 1), 0.5), R('c', (m, 1), 2.0), R('d', (m, 1), 0.0)
        a0 = R('a0', (1,), 1.0)[0]
        A = ctx.arr
        count = [0]
        keep = M.solve

        class Long(Exception):
            pass

        def solve(AA, bb):
            count[0] += 1
            if ctx.sym and count[0] > steps:
                raise Long()
            return keep(AA, bb)
        M.solve = solve
        f = lambda v: np.array(v, dtype=float).reshape(-1, 1)
        done = True
        try:
            sol = M.subsolv(m, n, 0.5, f(low), f(upp), f(alfa), f(beta), A(p0), A(q0), A(P), A(Q), a0, A(a), A(b), A(c), A(d))
        except Long:
            done = False
        finally:
            M.solve = keep
        if steps:
            # longer runs are not encoded: the solver looks for such inputs and the replay judges the real answer
            ctx.true('encoded-to-the-end', done)
        if not done:
            if not steps:
                from vsym.ctx import PathCut
                raise PathCut()
            return
        if not ctx.sym and not steps:
            ctx.assume(count[0] == 0)
        t1 = lambda q: list(ctx.terms(q).reshape(-1))
        st, pr, co, x, pos = kkt(ctx, n, m, low, upp, alfa, beta, t1(p0), t1(q0), ctx.terms(P), ctx.terms(Q), a0, t1(a), t1(b), t1(c), t1(d), sol)
        for j in range(n):
            ctx.true('inside-box', (x[j] > alfa[j]) & (x[j] < beta[j]) if ctx.sym else bool(alfa[j] < x[j] < beta[j]))
        for name, v in zip(('y', 'z', 'lam', 'xsi', 'eta', 'mu', 'zet', 's'), pos):
            for q in v:
                ctx.le('positive-' + name, 0.0, q, 1e-12)
        for nm, vs, t in (('stationarity', st, 0.0), ('constraint', pr, 0.0), ('complementarity', co, 1.0)):
            for q in vs:
                ctx.le(nm, q, t + 0.9, 1e-6)
                ctx.le(nm + '-low', t - 0.9, q, 1e-6)
    return h


SB = 'barrier parameter 1 (the last one of a run with epsimin in [0.1,1)); '
harness('C12', 'subsolv_accept', functions=['fem.mma.subsolv'], weight=3,
        bounds=SB + '2 variables, 2 constraints, all coefficients of the subproblem symbolic, paths without Newton step')(
    _subsolv(2, 2, {'p0': (0.1, 4), 'q0': (0.1, 4), 'P': (0.1, 1.5), 'Q': (0.1, 1.5), 'a': (-0.5, 0.5), 'b': (-1, 3), 'c': (1.1, 3.5), 'd': (0, 2), 'a0': (0.2, 2)}, 0))
for _nm, _n, _m, _bx in (('1_1_tight', 1, 1, {'b': (-0.9, -0.3)}), ('1_1_loose', 1, 1, {'b': (1.6, 2.4)}), ('2_2', 2, 2, {'b': (-0.5, -0.4)}), ('3_2', 3, 2, {'b': (0.0, 0.1)}), ('1_1_a', 1, 1, {'a': (0.95, 1.0)}),
                         ('1_1_d', 1, 1, {'d': (1.0, 1.1)}), ('2_1', 2, 1, {'b': (-0.5, -0.3)})):
    harness('C12', f'subsolv_step_{_nm}', functions=['fem.mma.subsolv'], weight=6, bounds=SB + f'{_n} variables, {_m} constraint, one symbolic coefficient {_bx}, one Newton step')(
        _subsolv(_n, _m, _bx, 1))


# ---------------------------------------------------------------- the optimisation loop
def _loop(iters):
    """several design iterations: every density handed to the objective stays in [0,1], moves at most
    the move limit, and the asymptotes follow the last three designs"""
    def h(ctx):
        from jax_am.fem import mma as M
        ctx.numpy_in(M)
        n = 1
        move = ctx.real('move', 0.05, 0.5)
        rho0 = ctx.reals('rho', (n, 1), 0.0, 1.0)
        seen = []
        g = [-1.0, -0.7, -1.3, -0.4, -0.9]

        def obj(rho):
            seen.append(list(ctx.terms(rho).reshape(-1)))
            return np.array(1.0), ctx.arr(np.array([[g[len(seen) - 1]]]))

        def cons(rho, loop):
            ctx.true('loop-counter', loop == len(seen))
            return np.array([0.5]), np.array([[[0.3]]])
        prob = types.SimpleNamespace(points=np.array([[0., 0.], [1., 0.], [1., 1.], [0., 1.]]), cells=np.array([[0, 1, 2, 3]]),
                                     flex_inds=np.array([0]), JxW=np.full((1, 4), 0.25), num_cells=1, dim=2)
        sub = Sub(ctx)
        keep = M.subsolv
        M.subsolv = sub
        try:
            rho = M.optimize(prob, ctx.arr(rho0), {'maxIters': iters, 'movelimit': move}, obj, cons, 1)
        finally:
            M.subsolv = keep
        ctx.true('iterations', len(seen) == iters)
        xs = seen + [list(ctx.terms(rho).reshape(-1))]
        for k in range(1, len(xs)):
            for j in range(n):
                ctx.le('density-nonneg', 0.0, xs[k][j], 1e-9)
                ctx.le('density-at-most-one', xs[k][j], 1.0, 1e-9)
                ctx.le('move-up', xs[k][j], xs[k - 1][j] + move, 1e-9)
                ctx.le('move-down', xs[k - 1][j] - move, xs[k][j], 1e-9)
        for k, c in enumerate(sub.calls):
            lw, up = L(ctx, c.low), L(ctx, c.upp)
            for j in range(n):
                v = xs[k][j]
                if k < 2:
                    a, b = v - 0.5, v + 0.5
                else:
                    x1, x2 = xs[k - 1][j], xs[k - 2][j]
                    z = (v - x1) * (x1 - x2)
                    fac = ctx.where(z > 0, 1.2, ctx.where(z < 0, 0.7, 1.0))
                    pl, pu = L(ctx, sub.calls[k - 1].low)[j], L(ctx, sub.calls[k - 1].upp)[j]
                    a = ctx.minimum(ctx.maximum(v - fac * (x1 - pl), v - 10.0), v - 0.01)
                    b = ctx.maximum(ctx.minimum(v + fac * (pu - x1), v + 10.0), v + 0.01)
                ctx.eq('asymptote-low', lw[j], a, 1e-8)
                ctx.eq('asymptote-up', up[j], b, 1e-8)
    return h


for _k in (1, 2, 3):
    harness('C11', f'loop_{_k}', functions=['fem.mma.optimize', 'fem.mma.MMA.mmasub', 'fem.mma.MMA.registerMMAIter'], weight=2 + 2 * _k, maxpaths=150,
            bounds=f'{_k} design iterations, one density, any move limit in [0.05,0.5], any subproblem answer')(_loop(_k))


# ---------------------------------------------------------------- C13
class KD:
    """brute-force nearest neighbours for symbolic points (k covers all points, order immaterial)"""

    def __init__(self, pts, *a, **k):
        self.p = pts

    def query(self, x, k=1, **kw):
        n = len(self.p)
        ks = list(k) if not isinstance(k, (int, np.integer)) else list(range(1, k + 1))
        if max(ks) < n:
            raise NotImplementedError('symbolic nearest neighbours')
        from vsym.npsym import SymArray
        d = np.empty(len(ks), dtype=object)
        ii = np.empty(len(ks), dtype=int)
        for q, kk in enumerate(ks):
            if kk > n:
                d[q], ii[q] = float('inf'), n
                continue
            s = sum(((a - b) * (a - b) for a, b in zip(x, self.p[kk - 1])), 0.0)
            from vsym import poly as P
            s = P.lift(s)
            d[q] = s.sqrt() if s.t else 0.0
            ii[q] = kk - 1
        if not isinstance(k, (list, tuple, np.ndarray)) and k == 1:
            return d[0], int(ii[0])
        return SymArray(d), ii


def filter_problem(n, dim=2, flex=None):
    from checks import femlib as F
    et = 'QUAD4' if dim == 2 else 'HEX8'
    pts, cells = F.grid(et, n)
    return types.SimpleNamespace(points=pts, cells=cells, flex_inds=np.arange(len(cells)) if flex is None else np.array(flex),
                                 JxW=np.full((len(cells), 4), 0.25), num_cells=len(cells), dim=dim)


def _filter(n, dim, flex, h_, rlo=0.0):
    def h(ctx):
        from jax_am.fem import mma as M
        ctx.numpy_in(M)
        p = filter_problem(n, dim, flex)
        p.points = p.points * h_
        p.JxW = p.JxW * h_ ** dim
        H, Hs = M.compute_filter_kd_tree(p)
        k = len(p.flex_inds)
        cen = p.points[p.cells].mean(axis=1)[p.flex_inds]
        rmin = 1.5 * h_
        D = np.sqrt(((cen[:, None] - cen[None]) ** 2).sum(-1))
        W = np.where(rmin - D > 0, rmin - D, 0.0)
        ctx.eq('filter-weights', np.asarray(H), W, 1e-9)
        ctx.eq('filter-row-sums', np.asarray(Hs).reshape(-1), W.sum(1), 1e-9)
        rho = ctx.reals('rho', (k, 1), rlo, 1.0)
        dJ = ctx.reals('dJ', (k, 1), -5, 5)
        dv = ctx.reals('dv', (2, k, 1), -5, 5)
        gJ, gv = M.applySensitivityFilter({'H': H, 'Hs': Hs}, ctx.arr(rho), ctx.arr(dJ), ctx.arr(dv))
        gJ, gv = ctx.terms(gJ), ctx.terms(gv)
        ctx.true('shapes', gJ.shape == (k, 1) and gv.shape == (2, k, 1))
        sc = [rho[j, 0] / ctx.maximum(1e-3, rho[j, 0]) for j in range(k)]
        for i in range(k):
            nb = [j for j in range(k) if W[i, j] > 0]
            ctx.eq('objective-sensitivity', gJ[i, 0], sum(float(W[i, j] / W[j].sum()) * sc[j] * dJ[j, 0] for j in nb), 1e-7)
            for c in range(2):
                ctx.eq('constraint-sensitivity', gv[c, i, 0], sum(float(W[i, j] / W[j].sum()) * sc[j] * dv[c, j, 0] for j in nb), 1e-7)
    return h


FF = ['fem.mma.compute_filter_kd_tree', 'fem.mma.applySensitivityFilter']
for _nm, _n, _d, _fl, _h in (('2x2', (2, 2), 2, None, 1.0), ('5x2_subset', (5, 2), 2, [9, 0, 1, 4, 5, 7], 0.5), ('1', (1, 1), 2, None, 1.0),
                             ('6x4', (6, 4), 2, None, 1.0), ('3d', (3, 2, 2), 3, None, 2.0), ('3d_27', (3, 3, 3), 3, None, 1.0)):
    harness('C13', f'filter_{_nm}', functions=FF, weight=2, bounds=f'mesh {_n} of size {_h}, every density in [0,1] (from 0.002 on the larger meshes) and every sensitivity')(_filter(_n, _d, _fl, _h, 0.0 if _nm in ('2x2', '1', '5x2_subset') else 0.002))


def _filter_sym(k):
    """any positions of the design cells: weights depend on distance only, are symmetric and vanish beyond 1.5 cell sizes;
    filtering redistributes the total sensitivity"""
    def h(ctx):
        from jax_am.fem import mma as M
        import scipy.spatial
        ctx.numpy_in(M)
        cen = ctx.reals('x', (k, 2), 0.0, 1.0)
        for i in range(k):
            for j in range(i):
                ctx.assume((cen[i, 0] - cen[j, 0]) * (cen[i, 0] - cen[j, 0]) + (cen[i, 1] - cen[j, 1]) * (cen[i, 1] - cen[j, 1]) >= 0.01)
        p = types.SimpleNamespace(points=ctx.arr(cen), cells=np.arange(k)[:, None], flex_inds=np.arange(k), JxW=np.full((k, 1), 0.25),
                                  num_cells=k, dim=2)
        keep = scipy.spatial.KDTree
        if ctx.sym:
            scipy.spatial.KDTree = KD
        try:
            H, Hs = M.compute_filter_kd_tree(p)
        finally:
            scipy.spatial.KDTree = keep
        H = ctx.terms(H)
        rmin = 1.5 * 0.5
        for i in range(k):
            for j in range(k):
                d2 = (cen[i, 0] - cen[j, 0]) * (cen[i, 0] - cen[j, 0]) + (cen[i, 1] - cen[j, 1]) * (cen[i, 1] - cen[j, 1])
                d = ctx.sqrt(d2) if i != j else 0.0
                ctx.eq('weight', H[i, j], ctx.where(d < rmin, rmin - d, 0.0), 1e-7)
        ctx.eq('row-sums', L(ctx, Hs), [sum(H[i, j] for j in range(k)) for i in range(k)], 1e-7)
        dJ = ctx.reals('dJ', (k, 1), -5, 5)
        g, _ = M.applySensitivityFilter({'H': ctx.arr(H), 'Hs': Hs}, np.ones((k, 1)), ctx.arr(dJ), np.zeros((1, k, 1)))
        ctx.eq('total-sensitivity-kept', sum(L(ctx, g)), sum(L(ctx, dJ)), 1e-6)
    return h


for _k in (2, 3):
    harness('C13', f'filter_any_{_k}', functions=FF, weight=3, bounds=f'{_k} design cells at any positions in the unit square')(_filter_sym(_k))
