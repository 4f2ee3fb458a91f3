"""C19 explicit thermal model with laser and Robin boundaries (cfd/gamma.py)."""
import math
import numpy as np
from vsym.ctx import harness
from checks.c_cfd_fv import jx, cells

REG = {'cold': (250., 299.), 'solid': (301., 1562.), 'mushy': (1564., 1622.), 'liquid': (1624., 2500.)}


def params(ctx):
    a = dict(eta=0.43, r=0.7, rho=ctx.real('rho', 1, 10), h=ctx.real('hc', 0, 1), eps=ctx.real('eps', 0, 1), SB=1e-9,
             T0=ctx.real('Ta', 280, 320), Ts=1563., Tl=1623., L=ctx.real('L', 0, 5000))
    return a, {k: jx(ctx, v) for k, v in a.items()}


@harness('C19', 'material', functions=['cfd.gamma.update_mat'], bounds='every temperature in [200,2500], every solidus and liquidus')
def material(ctx):
    _material(ctx, ctx.real('Ts', 1000, 1600), ctx.real('w', 10, 300), False)


for _Ts, _w in ((1563., 60.), (1200., 256.)):
    harness('C19', f'capacity_{int(_Ts)}', functions=['cfd.gamma.update_mat'],
            bounds=f'every temperature in [200,2500], solidus {_Ts}, liquidus {_Ts + _w}')(lambda ctx, _Ts=_Ts, _w=_w: _material(ctx, _Ts, _w, True))


def _material(ctx, Ts, w, cap):
    from jax_am.cfd import gamma as G
    L = ctx.real('L', 0, 5000)
    T = ctx.reals('T', (2,), 200, 2500)
    fl, k, cp = G.update_mat(jx(ctx, T), {'Ts': jx(ctx, Ts), 'Tl': jx(ctx, Ts + w), 'L': jx(ctx, L)})
    fl, k, cp = ctx.terms(fl), ctx.terms(k), ctx.terms(cp)
    for i, t in enumerate(T):
        Tl = Ts + w
        ctx.eq('fluid-fraction', fl[i], ctx.where(t <= Ts, 0.0, ctx.where(t >= Tl, 1.0, (t - Ts) / w)), 1e-6)
        c = ctx.where(t <= 300, 300.0, ctx.where(t >= Tl, Tl, t))
        ctx.eq('conductivity', k[i], 0.0163 * c + 4.5847, 1e-5)
        if cap:
            for b in (Ts, Tl):
                ctx.assume(ctx.either(t >= b + 1e-6, t <= b - 1e-6))
            ctx.eq('heat-capacity', cp[i], 0.2441 * c + 338.39 + ctx.where(ctx.both(t > Ts, t < Tl), L, 0.0), 1e-5)


def field(ctx, n, regs, tag='T'):
    sh = tuple(x + 2 for x in n)
    lo, hi = np.full(sh, 301.), np.full(sh, 1562.)
    it = iter(regs * 100)
    for p in cells(n):
        r = REG[next(it)]
        lo[p[0] + 1, p[1] + 1, p[2] + 1], hi[p[0] + 1, p[1] + 1, p[2] + 1] = r
    return ctx.reals(tag, sh, lo, hi)


def prop_of(a, T, reg):
    c = 300.0 if reg == 'cold' else (1623.0 if reg == 'liquid' else T)
    return 0.0163 * c + 4.5847, 0.2441 * c + 338.39 + (a['L'] if reg == 'mushy' else 0.0)


def robin(ctx, a, n, T, k, x, y, xl, yl, P, hs):
    """ghost temperatures: conduction through the wall balances losses (and laser on top)"""
    q4 = lambda v: v * v * v * v
    out = {}
    for p in cells(n):
        P1 = tuple(v + 1 for v in p)
        for ax in range(3):
            for hi in (0, 1):
                if p[ax] != (n[ax] - 1 if hi else 0):
                    continue
                g = list(P1)
                g[ax] += 1 if hi else -1
                g = tuple(g)
                Tw = (T[P1] + T[g]) / 2
                loss = a['h'] * (Tw - a['T0']) + a['SB'] * a['eps'] * (q4(Tw) - q4(a['T0']))
                if ax == 2 and hi:
                    loss = loss - 2 * P * a['eta'] / math.pi / a['r'] ** 2 * ctx.exp(-2 * ((x[p] - xl) * (x[p] - xl) + (y[p] - yl) * (y[p] - yl)) / a['r'] ** 2)
                out[g] = T[P1] - loss / k[p] * hs[ax]
    return out


def _bc(n, regs):
    def h(ctx):
        from jax_am.cfd import gamma as G
        a, aj = params(ctx)
        T = field(ctx, n, regs)
        kk = ctx.reals('k', tuple(v + 2 for v in n), 5, 40)
        x, y = ctx.reals('x', n, 0, 1), ctx.reals('y', n, 0, 1)
        xl, yl, P = ctx.real('xl', 0, 1), ctx.real('yl', 0, 1), ctx.real('P', 0, 5)
        hs = [ctx.real(f'd{i}', 0.5, 2) for i in range(3)]
        J = lambda v: jx(ctx, v)
        R = ctx.terms(G.BC_thermal(J(T), J(kk), J(xl), J(yl), J(x), J(y), J(P), J(hs[0]), J(hs[1]), J(hs[2]), aj))
        kd = {p: kk[tuple(v + 1 for v in p)] for p in cells(n)}
        W = robin(ctx, a, n, T, kd, x, y, xl, yl, P, hs)
        for g, w in W.items():
            ctx.eq('wall-balance', R[g], w, 1e-5)
        for p in cells(tuple(v + 2 for v in n)):
            if p not in W:
                ctx.eq('others-untouched', R[p], T[p], 1e-9)
    return h


for _n in ((2, 1, 1), (1, 2, 2)):
    harness('C19', 'walls_' + 'x'.join(map(str, _n)), functions=['cfd.gamma.BC_thermal'], timeout=120,
            bounds=f'{_n} interior cells, every temperature, conductivity, laser position and power, loss coefficient, spacing')(_bc(_n, ['solid']))


def _step(n, regs):
    def h(ctx):
        from jax_am.cfd import gamma as G
        a, aj = params(ctx)
        T = field(ctx, n, regs)
        x, y = ctx.reals('x', n, 0, 1), ctx.reals('y', n, 0, 1)
        xl, yl, P = ctx.real('xl', 0, 1), ctx.real('yl', 0, 1), ctx.real('P', 0, 5)
        hs = [1.0, 0.8, 0.5]
        dt = ctx.real('dt', 0.001, 0.1)
        J = lambda v: jx(ctx, v)
        R = ctx.terms(G.update_T(J(T), J(xl), J(yl), J(x), J(y), J(P), hs[0], hs[1], hs[2], J(dt), aj))
        cc = cells(n)
        reg = {p: (regs * 100)[i] for i, p in enumerate(cc)}
        pr = {p: prop_of(a, T[tuple(v + 1 for v in p)], reg[p]) for p in cc}
        W = robin(ctx, a, n, T, {p: pr[p][0] for p in cc}, x, y, xl, yl, P, hs)
        val = lambda q: W.get(q, T[q])
        for p in cc:
            P1 = tuple(v + 1 for v in p)
            lap = 0.0
            for ax in range(3):
                up, dn = list(P1), list(P1)
                up[ax] += 1
                dn[ax] -= 1
                lap = lap + (val(tuple(up)) - 2 * T[P1] + val(tuple(dn))) / hs[ax] ** 2
            ctx.eq('heat-equation', R[P1], T[P1] + dt * pr[p][0] / a['rho'] / pr[p][1] * lap, 1e-4)
    return h


for _n, _r in (((2, 1, 1), ['solid', 'mushy']), ((1, 2, 1), ['liquid', 'solid']), ((1, 1, 2), ['cold', 'mushy']), ((2, 1, 1), ['liquid', 'mushy'])):
    harness('C19', f'step_{"x".join(map(str, _n))}_{"_".join(_r)}', functions=['cfd.gamma.update_T', 'cfd.gamma.laplace'], timeout=120,
            bounds=f'{_n} interior cells in states {_r}, one explicit step, every temperature in those ranges, ghost value, laser state, step size')(_step(_n, _r))


@harness('C19', 'equilibrium', functions=['cfd.gamma.update_T'], bounds='2x1x2 interior cells at ambient temperature, laser off, every ambient temperature and coefficients', timeout=120)
def equilibrium(ctx):
    from jax_am.cfd import gamma as G
    a, aj = params(ctx)
    n = (2, 1, 2)
    T = np.full(tuple(v + 2 for v in n), a['T0'], dtype=object if ctx.sym else float)
    x, y = ctx.reals('x', n, 0, 1), ctx.reals('y', n, 0, 1)
    J = lambda v: jx(ctx, v)
    ctx.assume(a['T0'] >= 301)
    R = ctx.terms(G.update_T(J(T), 0.3, 0.2, J(x), J(y), 0.0, 1.0, 0.8, 0.5, J(ctx.real('dt', 0.001, 0.1)), aj))
    for p in cells(n):
        ctx.eq('stays-ambient', R[tuple(v + 1 for v in p)], a['T0'], 1e-5)
