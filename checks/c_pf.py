"""C25-C27 phase-field grain growth (jax_am/phase_field)."""
import os
import tempfile
import numpy as np
from vsym.ctx import harness

AC = ['phase_field.allen_cahn.phase_field']


class Poly_:
    """stand-in for phase_field.utils.Field"""


def crystal(n, h, M, oris=None, dirs=None):
    p = Poly_()
    p.mesh_h_xyz = h
    N = n[0] * n[1] * n[2]
    p.centroids = np.zeros((N, 3))
    p.cell_ori_inds = np.zeros(N, dtype=int) if oris is None else oris
    p.unique_grain_directions = dirs if dirs is not None else np.stack([np.tile(e, (M, 1)) for e in np.eye(3)])
    return p


def pf_args(n, M, **kw):
    a = dict(Nx=n[0], Ny=n[1], Nz=n[2], num_oris=M, dim=3, m_g=2.0, ad_hoc=3.0, kappa_g=0.5, L0=2.0, Qg=500.0, gas_const=8.314, T_liquidus=1600.0,
             anisotropy=0.0)
    a.update(kw)
    return a


def lap(n, eta, h, w=None):
    """no-flux second differences; eta (N, M) with x fastest"""
    N, M = eta.shape
    out = np.zeros((N, M), dtype=object)
    idx = lambda i, j, k: (k * n[1] + j) * n[0] + i
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                c = idx(i, j, k)
                for ax, (a, m) in enumerate(zip((i, j, k), n)):
                    for d in (-1, 1):
                        if 0 <= a + d < m:
                            q = [i, j, k]
                            q[ax] += d
                            for o in range(M):
                                t = (eta[idx(*q), o] - eta[c, o]) / (h[ax] * h[ax])
                                out[c, o] = out[c, o] + (t if w is None else t * w[c][o])
    return out


def _rhs(n, M, regs):
    """regs: solid / liquid / hot(above the cap) per cell, cyclic"""
    def h(ctx):
        from jax_am.phase_field import allen_cahn as A
        N = n[0] * n[1] * n[2]
        hs = [ctx.real('h' + 'xyz'[k], 0.5, 2) for k in range(3)]
        mg, kg, ah, L0 = ctx.real('mg', 0.5, 2), ctx.real('kg', 0.1, 2), ctx.real('ah', 1, 3), ctx.real('L0', 0.5, 2)
        lo = {'solid': (300., 1590.), 'liquid': (1610., 1990.), 'hot': (2010., 3000.)}
        rg = [regs[i % len(regs)] for i in range(N)]
        T = ctx.reals('T', (N, 1), [[lo[r][0]] for r in rg], [[lo[r][1]] for r in rg])
        eta = ctx.reals('e', (N, M), -0.2, 1.2)
        f = A.phase_field(crystal(n, [ctx.jax(np.asarray(x)) for x in hs], M), pf_args(n, M, **{k: ctx.jax(np.asarray(v)) for k, v in
                          dict(m_g=mg, kappa_g=kg, ad_hoc=ah, L0=L0).items()}))
        got = ctx.terms(f(ctx.jax(eta), 0.0, [ctx.jax(T)]))
        lp = lap(n, eta, hs)
        for c in range(N):
            Tc = 2000.0 if rg[c] == 'hot' else T[c, 0]
            Lg = L0 * ctx.exp(-500.0 / (Tc * 8.314))
            z = 1.0 if rg[c] == 'solid' else 0.0
            for o in range(M):
                e = eta[c, o]
                oth = sum(eta[c, j] * eta[c, j] for j in range(M) if j != o)
                g = mg * (e * e * e - e + 4 * e * oth + 2 * (1 - z) * (1 - z) * e)
                ctx.eq('rate', got[c, o] * ah, -Lg * (g - kg * ah * ah * lp[c, o]), 1e-5)
    return h


for _n, _M, _r in (((2, 1, 1), 3, ['solid', 'liquid']), ((3, 2, 1), 2, ['solid']), ((1, 2, 2), 2, ['liquid', 'solid', 'hot']), ((2, 1, 3), 2, ['solid', 'hot']), ((3, 3, 1), 1, ['solid', 'liquid'])):
    harness('C25', 'rate_' + 'x'.join(map(str, _n)) + f'_{_M}', functions=AC, weight=2,
            bounds=f'{_n} cells, {_M} orientations, cells {_r}, every order parameter, temperature, spacing, energy and mobility coefficient')(_rhs(_n, _M, _r))


def _energy(n, M):
    """the rate is minus mobility times the derivative of one energy: any direction"""
    def h(ctx):
        from jax_am.phase_field import allen_cahn as A
        N = n[0] * n[1] * n[2]
        hs = [1.0, 0.5, 2.0]
        T = 1000.0 * np.ones((N, 1))
        eta = ctx.reals('e', (N, M), -0.2, 1.2)
        f = A.phase_field(crystal(n, hs, M), pf_args(n, M, Qg=0.0, L0=1.0))
        r = ctx.terms(f(ctx.jax(eta), 0.0, [ctx.jax(T)]))
        m, k, a = 2.0 / 3.0, 0.5 * 3.0, 0
        lp = lap(n, eta, hs)
        diss = 0.0
        for c in range(N):
            for o in range(M):
                e = eta[c, o]
                oth = sum(eta[c, j] * eta[c, j] for j in range(M) if j != o)
                dF = m * (e * e * e - e + 4 * e * oth) - k * lp[c, o]
                diss = diss + dF * r[c, o]
                ctx.le('energy-never-grows', dF * r[c, o], 0.0, 1e-6)
    return h


harness('C25', 'dissipation', functions=AC, weight=2, bounds='2x2x1 cells, 2 orientations, every state')(_energy((2, 2, 1), 2))


def _aniso(n, dirs, pats):
    """anisotropy multiplies the second differences by 1 + a (c^4 + s^4), c the cosine between the gradient and the closest crystal
    axis; the order parameters are level + amplitude * pattern, every level and amplitude"""
    def h(ctx):
        from jax_am.phase_field import allen_cahn as A
        N = n[0] * n[1] * n[2]
        M = len(pats)
        a = ctx.real('an', 0.1, 0.5)
        amp = [ctx.real(f'amp{o}', 0.05, 0.2) for o in range(M)]
        lev = [ctx.real(f'lev{o}', 0, 0.5) for o in range(M)]
        eta = np.array([[lev[o] + amp[o] * float(pats[o][c]) for o in range(M)] for c in range(N)])
        T = 1000.0 * np.ones((N, 1))
        f = A.phase_field(crystal(n, (1.0, 0.5, 2.0), M, dirs=dirs), pf_args(n, M, anisotropy=ctx.jax(np.asarray(a)), Qg=0.0, L0=1.0))
        got = ctx.terms(f(ctx.jax(eta), 0.0, [ctx.jax(T)]))
        idx = lambda i, j, k: (k * n[1] + j) * n[0] + i
        clamp = lambda v, m: max(0, min(m - 1, v))
        fac = []
        for k in range(n[2]):
            for j in range(n[1]):
                for i in range(n[0]):
                    row = []
                    for o in range(M):
                        e = [float(v) for v in pats[o]]
                        g = np.array([e[idx(clamp(i + 1, n[0]), j, k)] - e[idx(clamp(i - 1, n[0]), j, k)],
                                      e[idx(i, clamp(j + 1, n[1]), k)] - e[idx(i, clamp(j - 1, n[1]), k)],
                                      e[idx(i, j, clamp(k + 1, n[2]))] - e[idx(i, j, clamp(k - 1, n[2]))]])
                        c2 = max(float(dirs[d, o] @ g) ** 2 for d in range(dirs.shape[0])) / float(g @ g)
                        row.append(1 + a * (c2 * c2 + (1 - c2) * (1 - c2)))
                    fac.append(row)
        lp = lap(n, eta, (1.0, 0.5, 2.0), fac)
        for c in range(N):
            for o in range(M):
                e = eta[c, o]
                oth = sum(eta[c, j] * eta[c, j] for j in range(M) if j != o)
                ctx.eq('rate', got[c, o], -(2.0 / 3.0 * (e * e * e - e + 4 * e * oth) - 1.5 * lp[c, o]), 1e-5)
    return h


_R1 = np.array([[0.6, 0.8, 0.0], [-0.8, 0.6, 0.0], [0.0, 0.0, 1.0]])
_R2 = np.array([[2 / 3, 2 / 3, 1 / 3], [-2 / 3, 1 / 3, 2 / 3], [1 / 3, -2 / 3, 2 / 3]])
_D = lambda *rs: np.stack([np.stack([r[d] for r in rs]) for d in range(3)])
harness('C25', 'anisotropy_2d', functions=AC, weight=3, bounds='2x2x1 cells, two crystal orientations, fixed gradient directions, every anisotropy strength, level and amplitude')(
    _aniso((2, 2, 1), _D(np.eye(3), _R1), [(0, 3, 4, 7), (0, -1, 2, 1)]))
harness('C25', 'anisotropy_3d', functions=AC, weight=3, bounds='2x2x2 cells, rotated crystals, fixed gradient directions, every anisotropy strength, level and amplitude')(
    _aniso((2, 2, 2), _D(_R2, _R1), [(0, 1, 2, 3, 2, 3, 4, 5), (5, 3, 2, 4, 1, 0, 3, 7)]))


# ---------------------------------------------------------------- C26 time integration and solver driver

IN = ['phase_field.allen_cahn.explicit_euler', 'phase_field.allen_cahn.rk4']
SO = ['phase_field.allen_cahn.PFSolver', 'phase_field.allen_cahn.get_force_eta_fn', 'phase_field.allen_cahn.phase_field', 'phase_field.allen_cahn.explicit_euler']


@harness('C26', 'euler', functions=IN, bounds='2 cells x 2, every state, time, step and linear system')
def _(ctx):
    from jax_am.phase_field import allen_cahn as A
    y, p = ctx.reals('y', (2, 2), -2, 2), ctx.reals('p', (2, 2), -2, 2)
    t0, dt = ctx.real('t', 0, 5), ctx.real('dt', 0.001, 0.5)

    def f(s, t, ode):
        q, = ode
        return q * s * s + t * s
    (y1, t1), out = A.explicit_euler((ctx.jax(y), ctx.jax(np.asarray(t0))), ctx.jax(np.asarray(t0 + dt)), f, [ctx.jax(p)])
    want = y + dt * (p * y * y + t0 * y)
    ctx.eq('state', y1, want)
    ctx.eq('output', out, want)
    ctx.eq('time', t1, t0 + dt)


@harness('C26', 'rk4_quadrature', functions=IN, bounds='every state, time, step, cubic in time')
def _(ctx):
    from jax_am.phase_field import allen_cahn as A
    y, c = ctx.reals('y', 2, -2, 2), ctx.reals('c', 4, -2, 2)
    t0, dt = ctx.real('t', 0, 2), ctx.real('dt', 0.001, 0.5)

    def f(s, t, ode):
        q, = ode
        return 0.0 * s + q[0] + q[1] * t + q[2] * t * t + q[3] * t * t * t
    (y1, t1), out = A.rk4((ctx.jax(y), ctx.jax(np.asarray(t0))), ctx.jax(np.asarray(t0 + dt)), f, [ctx.jax(c)])
    e = t0 + dt
    F = lambda t: c[0] * t + c[1] * t * t / 2 + c[2] * t * t * t / 3 + c[3] * t * t * t * t / 4
    ctx.eq('integral', y1, [v + F(e) - F(t0) for v in y])
    ctx.eq('output', out, y1)
    ctx.eq('time', t1, e)


@harness('C26', 'rk4_order', functions=IN, bounds='every state in [-1,1], time and step up to 0.1, linear and quadratic systems')
def _(ctx):
    from jax_am.phase_field import allen_cahn as A
    y, lam = ctx.real('y', -1, 1), ctx.real('lam', -1, 1)
    t0, h = ctx.real('t', 0, 2), ctx.real('dt', 0.01, 0.1)
    st = (ctx.jax(np.asarray([y])), ctx.jax(np.asarray(t0)))
    (y1, _), _ = A.rk4(st, ctx.jax(np.asarray(t0 + h)), lambda s, t, o: o[0] * s, [ctx.jax(np.asarray([lam]))])
    z = lam * h
    ctx.eq('linear', ctx.terms(y1)[0], y * (1 + z + z * z / 2 + z * z * z / 6 + z * z * z * z / 24))
    for y0 in (1.0, -0.7):
        (y2, _), _ = A.rk4((ctx.jax(np.asarray([y0])), st[1]), ctx.jax(np.asarray(t0 + h)), lambda s, t, o: s * s, [])
        z = y0 * h
        d = ctx.terms(y2)[0] - y0 * (1 + z + z * z + z * z * z + z * z * z * z)
        h5 = h * h * h * h * h * 3
        ctx.le('quadratic', d, h5, 1e-12)
        ctx.le('quadratic', -d, h5, 1e-12)


def _quiet():
    import contextlib
    import io
    return contextlib.redirect_stdout(io.StringIO())


def _solver(n, M, d, poly=None, **kw):
    from jax_am.phase_field import allen_cahn as A
    a = pf_args(n, M, **kw)
    a.update(data_dir=d, write_sol_interval=kw.get('write_sol_interval', 5))
    return A.PFSolver(a, poly or crystal(n, (1.0, 0.5, 2.0), M))


def _steps(steps, M=2, n=(2, 2, 1)):
    def h(ctx):
        from jax_am.phase_field import allen_cahn as A
        N = n[0] * n[1] * n[2]
        eta = ctx.reals('e', (N, M), -0.2, 1.2)
        T = [ctx.reals(f'T{s}', (N, 1), 1000.0, 1100.0) for s in range(steps)]
        ts = [ctx.real('t', 0, 1)]
        for s in range(steps):
            ts.append(ts[-1] + ctx.real(f'dt{s}', 0.001, 0.1))
        with tempfile.TemporaryDirectory(dir=os.getcwd()) as d, _quiet():
            so = _solver(n, M, d, Qg=0.0)
            st = (ctx.jax(eta), ctx.jax(np.asarray(ts[0])))
            cur = eta
            for s in range(steps):
                st, out = so.stepper(st, ctx.jax(np.asarray(ts[s + 1])), [ctx.jax(T[s])])
                lp = lap(n, cur, (1.0, 0.5, 2.0))
                nxt = np.empty((N, M), dtype=object)
                for c in range(N):
                    for o in range(M):
                        e = cur[c, o]
                        oth = sum(cur[c, j] * cur[c, j] for j in range(M) if j != o)
                        nxt[c, o] = e - (ts[s + 1] - ts[s]) * 2.0 * (2.0 / 3.0 * (e * e * e - e + 4 * e * oth) - 1.5 * lp[c, o])
                cur = nxt if ctx.sym else nxt.astype(float)
                ctx.eq(f'state-after-{s + 1}', st[0], cur, 1e-6)
                ctx.eq(f'solution-{s + 1}', out, cur, 1e-6)
                ctx.eq(f'time-{s + 1}', st[1], ts[s + 1])
    return h


harness('C26', 'one_step', functions=SO, weight=2, bounds='2x2x1 cells, 2 orientations, every state, solid temperature, start time and step')(_steps(1))
harness('C26', 'two_steps', functions=SO, weight=2, bounds='2x1x1 cells, 1 orientation, every state, temperatures, steps')(_steps(2, 1, (2, 1, 1)))


@harness('C26', 'start', functions=SO, maxpaths=200, bounds='4 cells, 3 orientations, every assignment of orientations to cells')
def _(ctx):
    n, M = (2, 2, 1), 3
    o = ctx.ints('o', 4, 0, M - 1)
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d, _quiet():
        so = _solver(n, M, d, crystal(n, (1.0, 1.0, 1.0), M, oris=ctx.jax(o, np.int64) if ctx.sym else o))
        got = ctx.terms(so.ini_cond())
    for c in range(4):
        for k in range(M):
            ctx.eq('one-hot', got[c, k], ctx.where(o[c] == k, 1.0, 0.0))


@harness('C26', 'melt_reset', functions=SO, bounds='3 cells, 2 orientations, every state and temperature')
def _(ctx):
    from jax_am.phase_field import allen_cahn as A
    eta, T = ctx.reals('e', (3, 2), -0.2, 1.2), ctx.reals('T', (3, 1), 300, 3000)
    t = ctx.real('t', 0, 1)
    f = A.get_force_eta_fn(dict(T_liquidus=1600.0))
    e1, t1 = f((ctx.jax(eta), ctx.jax(np.asarray(t))), ctx.jax(T))
    e1 = ctx.terms(e1)
    ctx.eq('time', t1, t)
    for c in range(3):
        for o in range(2):
            ctx.eq('reset', e1[c, o], ctx.where(T[c, 0] > 1601.0, 0.0, eta[c, o]))


@harness('C26', 'grain_stays', functions=SO, weight=2, bounds='3x2x1 cells, 3 orientations, any uniform solid grain, every spacing, temperature and step')
def _(ctx):
    from jax_am.phase_field import allen_cahn as A
    n, M = (3, 2, 1), 3
    hs = [ctx.real('h' + 'xyz'[k], 0.5, 2) for k in range(3)]
    T = ctx.reals('T', (6, 1), 300, 1590)
    h = ctx.real('dt', 0.001, 1.0)
    eta = np.zeros((6, M))
    eta[:, 1] = 1.0
    f = A.phase_field(crystal(n, [ctx.jax(np.asarray(x)) for x in hs], M), pf_args(n, M))
    (y1, _), _ = A.explicit_euler((ctx.jax(eta), ctx.jax(np.asarray(0.0))), ctx.jax(np.asarray(h)), f, [ctx.jax(T)])
    ctx.eq('unchanged', y1, eta)


class OutMesh:
    def __init__(self):
        self.cell_data, self.paths = {}, []

    def write(self, p, *a, **k):
        self.paths.append(p)


@harness('C26', 'output', functions=SO, weight=2, maxpaths=300, bounds='2 cells, 3 orientations, every state and temperature, steps 0..2000')
def _(ctx):
    n, M = (2, 1, 1), 3
    eta = ctx.reals('e', (2, M), -0.2, 1.2)
    T = ctx.reals('T', (2, 1), 300, 3000)
    p = crystal(n, (1.0, 1.0, 1.0), M)
    p.mesh = OutMesh()
    rgb = np.arange(27).reshape(3, M, 3) / 30.0 + 0.05
    p.unique_oris_rgb = ctx.arr(rgb)
    import jax_am.phase_field.allen_cahn as A
    ctx.numpy_in(A)
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d, _quiet():
        so = _solver(n, M, d, p)
        so.write_sols(ctx.arr(eta), ctx.arr(T), 23)
        ctx.true('name', p.mesh.paths == [os.path.join(d, 'vtk/pf/sols/u004.vtu')])
    cd = p.mesh.cell_data
    ori = ctx.terms(cd['ori_inds'][0])
    Tw = ctx.terms(cd['T'][0])
    for c in range(2):
        for k in range(M):
            ctx.le('largest', eta[c, k], ctx.where(ori[c] == 0, eta[c, 0], ctx.where(ori[c] == 1, eta[c, 1], eta[c, 2])))
        ctx.le('range', ori[c], M - 1)
        ctx.le('range', 0, ori[c])
        ctx.eq('T', Tw[c, 0], T[c, 0], 1e-3)
        for a, nm in enumerate(('ipf_x', 'ipf_y', 'ipf_z')):
            col = ctx.terms(cd[nm][0])
            for q in range(3):
                v = rgb[a, :, q]
                want = ctx.where(ori[c] == 0, float(v[0]), ctx.where(ori[c] == 1, float(v[1]), float(v[2])))
                ctx.eq(nm, col[c, q], ctx.where(T[c, 0] > 1600.0, 0.0, want))


# ---------------------------------------------------------------- C27 grains

GR = ['phase_field.utils.BFS', 'phase_field.utils.compute_edges_in_order', 'phase_field.utils.get_aspect_ratio_inputs', 'phase_field.utils.process_eta',
      'phase_field.utils.compute_aspect_ratios_and_vols']


def _nbrs(n):
    idx = lambda i, j, k: (k * n[1] + j) * n[0] + i
    out = set()
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
                    q = (i + d[0], j + d[1], k + d[2])
                    if all(a < b for a, b in zip(q, n)):
                        out.add((idx(i, j, k), idx(*q)))
    return sorted(out)


def _reach(ctx, n, same):
    N = n[0] * n[1] * n[2]
    r = [[False] * N for _ in range(N)]
    for a, b in _nbrs(n):
        r[a][b] = r[b][a] = same(a, b)
    for m in range(N):
        for a in range(N):
            for b in range(N):
                if a != b and a != m and b != m:
                    r[a][b] = ctx.either(r[a][b], ctx.both(r[a][m], r[m][b]))
    return r


def _bfs(n, M):
    def h(ctx):
        import jax_am.phase_field.utils as U
        N = n[0] * n[1] * n[2]
        o = ctx.ints('o', N, 0, M - 1)
        liq = ctx.bools('liq', N)
        solid = np.array([ctx.negate(x) for x in liq], dtype=object if ctx.sym else bool)
        with _quiet():
            grains = U.BFS(U.compute_edges_in_order(dict(Nx=n[0], Ny=n[1], Nz=n[2])), solid, o, dict(num_oris=M))
        flat = [int(c) for g in grains for c in g]
        ctx.true('once', len(flat) == len(set(flat)) and all(0 <= c < N for c in flat) and all(len(g) > 0 for g in grains))
        lab = {int(c): k for k, g in enumerate(grains) for c in g}
        for c in range(N):
            ctx.true('solid-cells-in-a-grain', solid[c] if c in lab else liq[c])
        r = _reach(ctx, n, lambda a, b: ctx.both(solid[a], solid[b], o[a] == o[b]))
        for a in range(N):
            for b in range(a):
                if a in lab and b in lab:
                    ctx.true('connected', r[a][b] if lab[a] == lab[b] else ctx.negate(r[a][b]))
    return h


for _n, _M in (((2, 2, 1), 2), ((3, 1, 1), 3), ((1, 2, 2), 2), ((5, 1, 1), 2), ((2, 1, 2), 3)):
    harness('C27', 'grains_' + 'x'.join(map(str, _n)) + f'_{_M}', functions=GR, weight=3, maxpaths=900,
            bounds=f'{_n} cells, {_M} orientations, every assignment of liquid cells and orientations')(_bfs(_n, _M))
harness('C27', 'grains_3x2x1_2', functions=GR, weight=5, maxpaths=7000, timeout=800, tier='thorough', bounds='3x2x1 cells, 2 orientations, every assignment')(_bfs((3, 2, 1), 2))
harness('C27', 'grains_2x2x2_2', functions=GR, weight=5, maxpaths=7000, timeout=800, tier='thorough', bounds='2x2x2 cells, 2 orientations, every assignment')(_bfs((2, 2, 2), 2))


@harness('C27', 'measure', functions=GR, weight=3, maxpaths=300, bounds='2x2x1 grid, 2 orientations, every temperature, orientation and domain size')
def _(ctx):
    import jax_am.phase_field.utils as U
    n = (2, 2, 1)
    o = ctx.ints('o', 4, 0, 1)
    T = ctx.reals('T', (4, 1), 1500, 1700)
    L = [ctx.real('L' + 'xyz'[k], 0.5, 3) for k in range(3)]

    class M:
        pass
    m = M()
    pts = [(i * L[0] / 2, j * L[1] / 2, k * L[2]) for k in range(2) for j in range(3) for i in range(3)]
    m.points = np.array(pts, dtype=object if ctx.sym else float)
    q = lambda i, j, k: (k * 3 + j) * 3 + i
    m.cells_dict = {'hexahedron': np.array([[q(i, j, 0), q(i + 1, j, 0), q(i + 1, j + 1, 0), q(i, j + 1, 0), q(i, j, 1), q(i + 1, j, 1), q(i + 1, j + 1, 1), q(i, j + 1, 1)]
                                            for j in range(2) for i in range(2)])}
    m.cell_data = {'ori_inds': [o], 'T': [T]}
    old = U.meshio.read
    U.meshio.read = lambda *a, **k: m
    try:
        with _quiet():
            vols, ratios = U.process_eta(dict(data_dir='.', Nx=2, Ny=2, Nz=1, T_liquidus=1600.0, num_oris=2, domain_x=L[0], domain_y=L[1], domain_z=L[2]))
    finally:
        U.meshio.read = old
    tot = sum(vols) if vols else 0.0
    V = L[0] * L[1] * L[2]
    ctx.eq('total', tot, sum(ctx.where(T[c, 0] < 1600.0, V / 4, 0.0) for c in range(4)))
    ctx.true('small-grains', all(float(r) == 1.0 for r in ratios) and len(ratios) == len(vols))
    r = _reach(ctx, n, lambda a, b: ctx.both(T[a, 0] < 1600.0, T[b, 0] < 1600.0, o[a] == o[b]))
    heads = 0.0
    for a in range(4):
        first = ctx.both(T[a, 0] < 1600.0, *[ctx.negate(r[a][b]) for b in range(a)])
        heads = heads + ctx.where(first, 1.0, 0.0)
    ctx.eq('count', heads, float(len(vols)))


@harness('C27', 'inputs', functions=GR, bounds='5 cells in 2 grains, every volume and centroid')
def _(ctx):
    import jax_am.phase_field.utils as U
    v, x = ctx.reals('v', 5, 0.1, 1), ctx.reals('x', (5, 3), -1, 1)
    gv, gc = U.get_aspect_ratio_inputs([[0, 3], [4, 1, 2]], v, x)
    for g, a, b in zip([[0, 3], [4, 1, 2]], gv, gc):
        for k, c in enumerate(g):
            ctx.eq('volume', ctx.terms(a)[k], v[c])
            ctx.eq('centroid', ctx.terms(b)[k], x[c])


# ---- Field and layers

FI = ['phase_field.utils.Field.process_neper_mesh', 'phase_field.utils.generate_new_mesh']


class Block:
    def __init__(self, t, d):
        self.type, self.data = t, d


def _hexgrid(n, L, ctx):
    pts = np.array([(L[0] * (i / n[0]), L[1] * (j / n[1]), L[2] * (k / n[2])) for k in range(n[2] + 1) for j in range(n[1] + 1) for i in range(n[0] + 1)],
                   dtype=object if ctx.sym else float)
    q = lambda i, j, k: (k * (n[1] + 1) + j) * (n[0] + 1) + i
    cells = np.array([[q(i, j, k), q(i + 1, j, k), q(i + 1, j + 1, k), q(i, j + 1, k), q(i, j, k + 1), q(i + 1, j, k + 1), q(i + 1, j + 1, k + 1), q(i, j + 1, k + 1)]
                      for k in range(n[2]) for j in range(n[1]) for i in range(n[0])])
    return pts, cells


class NeperMesh:
    def __init__(self, n, L, ctx, grains):
        self.points, c = _hexgrid(n, L, ctx)
        self.points = ctx.arr(self.points)
        self.cells = [Block('hexahedron', c)]
        self.cell_data = {'gmsh:physical': [np.array(grains) + 1], 'gmsh:geometrical': [np.array(grains) + 1]}

    @property
    def cells_dict(self):
        return {'hexahedron': self.cells[0].data}

    def write(self, *a, **k):
        pass


def _field(ctx, U, n, L, grains, d, M, ori2=None):
    mesh = NeperMesh(n, L, ctx, grains)
    os.makedirs(os.path.join(d, 'neper'), exist_ok=True)
    open(os.path.join(d, 'neper', 'domain.obj'), 'w').write('v 0 0 0\nv 1 0 0\nv 0 1 0\ng c1\nf 1 2 3\n')
    pf = dict(data_dir=d, num_grains=max(grains) + 1, num_oris=M, domain_x=L[0], domain_y=L[1], domain_z=L[2])

    class MI:
        Mesh = lambda *a, **k: NeperMesh((1, 1, 1), (1.0, 1.0, 1.0), ctx, [0])
        read = staticmethod(lambda *a, **k: mesh)
    old, oc = U.meshio, U.Field.get_unique_ori_colors
    U.meshio = MI
    U.Field.get_unique_ori_colors = lambda self: None
    try:
        with _quiet():
            return U.Field(pf, ori2), pf
    finally:
        U.meshio = old
        U.Field.get_unique_ori_colors = oc


def _neper(n, grains):
    def h(ctx):
        import jax_am.phase_field.utils as U
        L = [ctx.real('L' + 'xyz'[k], 0.2, 3) for k in range(3)]
        with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
            F, pf = _field(ctx, U, n, L, grains, d, 4)
        ctx.true('counts', (pf['Nx'], pf['Ny'], pf['Nz']) == n)
        for k in range(3):
            ctx.eq('spacing', F.mesh_h_xyz[k], L[k] / n[k])
        cen = ctx.terms(F.centroids)
        c = 0
        for k in range(n[2]):
            for j in range(n[1]):
                for i in range(n[0]):
                    ctx.eq('centroid', cen[c], [L[0] * ((i + 0.5) / n[0]), L[1] * ((j + 0.5) / n[1]), L[2] * ((k + 0.5) / n[2])])
                    c += 1
        oi = np.asarray(F.cell_ori_inds)
        ctx.true('one-orientation-per-grain', all(len({int(oi[c]) for c in range(len(grains)) if grains[c] == g}) == 1 for g in set(grains)))
        ctx.true('range', bool((oi >= 0).all() and (oi < 4).all()))
    return h


harness('C27', 'field_3x2x2', functions=FI, weight=2, bounds='3x2x2 cells, 3 grains, every domain size')(_neper((3, 2, 2), [0, 0, 1, 1, 2, 2, 0, 1, 1, 2, 2, 2]))
harness('C27', 'field_2x3x1', functions=FI, weight=2, bounds='2x3x1 cells, 2 grains, every domain size')(_neper((2, 3, 1), [0, 0, 1, 1, 0, 0]))


@harness('C27', 'layers', functions=FI, weight=2, bounds='2x1x2 cells per layer, 3 layers, every domain size')
def _(ctx):
    import jax_am.phase_field.utils as U
    n = (2, 1, 2)
    L = [ctx.real('L' + 'xyz'[k], 0.2, 3) for k in range(3)]
    real = U.Field
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        gs = [[0, 0, 1, 1], [0, 1, 1, 0], [1, 0, 0, 0]]
        F, pf = _field(ctx, U, n, L, gs[0], d, 4)
        oris = [np.asarray(F.cell_ori_inds)]
        cur = F
        for layer in (1, 2):
            nxt = _field(ctx, U, n, L, gs[layer], d, 4)[0]
            oris.append(np.asarray(nxt.cell_ori_inds))
            U.Field = lambda *a, **k: nxt
            try:
                with _quiet():
                    cur = U.generate_new_mesh(pf, None, cur, layer)
            finally:
                U.Field = real
    pts = ctx.terms(cur.mesh.points)
    cells = np.asarray(cur.mesh.cells[0].data)
    cen = ctx.terms(cur.centroids)
    ctx.true('sizes', pts.shape == (3 * 18, 3) and cells.shape == (12, 8) and cen.shape == (12, 3))
    for layer in range(3):
        c = 4 * layer
        for k in range(2):
            for i in range(2):
                x = [L[0] * ((i + 0.5) / 2), L[1] * 0.5, L[2] * ((k + 0.5) / 2 + layer)]
                ctx.eq('centroid', cen[c], x)
                ctx.eq('cell-of-points', [sum(pts[int(v), a] for v in cells[c]) / 8 for a in range(3)], x)
                c += 1
    ctx.true('orientations', np.array_equal(np.asarray(cur.cell_ori_inds), np.concatenate(oris)))
    ctx.true('grain-ids', np.array_equal(np.asarray(cur.mesh.cell_data['grain_inds'][0]), np.concatenate(gs)))
    ctx.true('tags', np.array_equal(np.asarray(cur.mesh.cell_data['gmsh:physical'][0]), np.concatenate(gs) + 1) and
             np.array_equal(np.asarray(cur.mesh.cell_data['gmsh:geometrical'][0]), np.concatenate(gs) + 1))


# ---------------------------------------------------------------- crystal axes of the orientations
def rot(q):
    """rotation matrix of the (not necessarily unit) quaternion w, x, y, z"""
    w, x, y, z = q
    s = w * w + x * x + y * y + z * z
    return [[(w * w + x * x - y * y - z * z) / s, 2 * (x * y - w * z) / s, 2 * (x * z + w * y) / s],
            [2 * (x * y + w * z) / s, (w * w - x * x + y * y - z * z) / s, 2 * (y * z - w * x) / s],
            [2 * (x * z - w * y) / s, 2 * (y * z + w * x) / s, (w * w - x * x - y * y + z * z) / s]]


class SymRot:
    """scipy.spatial.transform.Rotation for symbolic quaternions (scalar last)"""

    def __init__(self, m):
        self.m = m

    @classmethod
    def from_quat(cls, q, scalar_first=False):
        q = np.asarray(q)
        return cls([rot([r[0], r[1], r[2], r[3]] if scalar_first else [r[3], r[0], r[1], r[2]]) for r in q])

    def as_matrix(self):
        from vsym.npsym import SymArray
        return SymArray(np.array(self.m, dtype=object))

    def apply(self, v):
        from vsym.npsym import SymArray
        v = np.asarray(v)
        out = np.empty((len(self.m), 3), dtype=object)
        for o, m in enumerate(self.m):
            w = v if v.ndim == 1 else v[o]
            for i in range(3):
                out[o, i] = sum(m[i][k] * float(w[k]) for k in range(3))
        return SymArray(out)


def _axes(M):
    def h(ctx):
        import shutil
        import types
        from jax_am.phase_field import utils as U
        q = ctx.reals('q', (M, 4), -1, 1)
        for o in range(M):
            ctx.assume(sum(x * x for x in q[o]) >= 0.25)
        col = ctx.reals('rgb', (3, M, 3), 0, 1)
        ctx.numpy_in(U)
        saved = []

        class Key:
            def __init__(self, sym, direction=None):
                self.direction = direction

            def orientation2color(self, ori):
                k = [i for i in range(3) if np.asarray(self.direction)[i]][0]
                return ctx.arr(col[k]) if ctx.sym else np.asarray(col[k], float)

            def plot(self, *a, **k):
                pass
        keep = {k: getattr(U, k) for k in ('plot', 'plt', 'Vector3d', 'R')}
        d = tempfile.mkdtemp(prefix='vsym_')
        noop = lambda *a, **k: None
        U.plot = types.SimpleNamespace(IPFColorKeyTSL=Key)
        U.plt = types.SimpleNamespace(rcParams={}, savefig=noop, close=noop, figure=noop)
        U.Vector3d = lambda v: np.asarray(v)
        if ctx.sym:
            U.R = SymRot
            U.onp.save = lambda path, a, *r, **k: saved.append((str(path), ctx.terms(a)))
        f = object.__new__(U.Field)
        f.pf_args = dict(data_dir=d, num_oris=M)
        f.ori2 = types.SimpleNamespace(data=ctx.arr(q) if ctx.sym else np.asarray(q, float), symmetry=None, scatter=noop)
        try:
            f.get_unique_ori_colors()
            if not ctx.sym:
                import glob
                for n in glob.glob(d + '/**/*.npy', recursive=True):
                    saved.append((n, np.load(n)))
        finally:
            shutil.rmtree(d, ignore_errors=True)
            for k, v in keep.items():
                setattr(U, k, v)
            if ctx.sym:
                del U.onp.save
        D, C = ctx.terms(f.unique_grain_directions), ctx.terms(f.unique_oris_rgb)
        ctx.true('shapes', D.shape == (3, M, 3) and C.shape == (3, M, 3))
        for o in range(M):
            r = rot(list(q[o]))
            for k in range(3):
                ctx.eq('crystal-axis', D[k, o], [r[i][k] for i in range(3)], 1e-6)
        ctx.eq('colours', C, col, 1e-9)
        ctx.true('quaternions-saved', len(saved) == 1 and saved[0][0].endswith('numpy/pf/quat.npy'))
        ctx.eq('saved-values', saved[0][1], q, 1e-9)
    return h


for _M in (1, 3):
    harness('C25', f'crystal_axes_{_M}', functions=['phase_field.utils.Field.get_unique_ori_colors'],
            bounds=f'{_M} orientations, every quaternion in [-1,1]^4 of norm at least 0.5; the colour key and the rotation class are contracts')(_axes(_M))


# ---------------------------------------------------------------- C28 structured meshes

BM = ['common.box_mesh', 'common.rectangle_mesh']


def _box(n):
    def h(ctx):
        import jax_am.common as C
        D = len(n)
        L = [ctx.real('L' + 'xyz'[k], 0.1, 10) for k in range(D)]
        ctx.numpy_in(C)
        m = C.box_mesh(*n, *L) if D == 3 else C.rectangle_mesh(*n, *L)
        pts = ctx.terms(m.points)
        cells = np.asarray(m.cells_dict['hexahedron' if D == 3 else 'quad'])
        npt = int(np.prod([v + 1 for v in n]))
        ctx.true('counts', pts.shape == (npt, D) and cells.shape == (int(np.prod(n)), 2 ** D) and cells.min() == 0 and cells.max() == npt - 1)
        if cells.min() < 0 or cells.max() >= npt or len(cells) != np.prod(n):
            return
        ctx.true('points-used', len(set(cells.reshape(-1).tolist())) == npt)
        off = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)][:2 ** D]
        for c, ijk in enumerate(np.ndindex(*n)):          # x slowest, as the lattice arrays are laid out
            for v in range(2 ** D):
                ctx.eq('corner', pts[cells[c, v]], [L[k] * ((ijk[k] + off[v][k]) / n[k]) for k in range(D)])
    return h


for _n in ((3, 2, 4), (1, 1, 1), (2, 5, 1), (4, 3), (1, 3)):
    harness('C28', ('box_' if len(_n) == 3 else 'rectangle_') + 'x'.join(map(str, _n)), functions=BM, bounds=f'{_n} cells, every domain size')(_box(_n))


@harness('C28', 'tet_orientation', functions=['fem.generate_mesh.check_mesh_TET4'], bounds='2 tetrahedra, every vertex')
def _(ctx):
    import jax_am.fem.generate_mesh as G
    x = ctx.reals('x', (5, 3), -1, 1)
    cells = np.array([[0, 1, 2, 3], [4, 2, 1, 3]])
    q = ctx.terms(G.check_mesh_TET4(ctx.jax(x), cells))
    for c, (a, b, d, e) in enumerate(cells):
        u, v, w = x[b] - x[a], x[d] - x[a], x[e] - x[a]
        det = u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])
        ctx.eq('six-volumes', q[c], det)


def _faces(ele):
    def h(ctx):
        import jax_am.fem.generate_mesh as G
        import jax_am.common as C
        h0 = ctx.real('plane', -0.5, 3.5)
        if ele == 'HEX8':
            m = C.box_mesh(3, 2, 1, 3.0, 2.0, 1.0)
            pts, cells = np.asarray(m.points), np.asarray(m.cells_dict['hexahedron'])
            perp = 2
        else:
            m = C.rectangle_mesh(3, 2, 3.0, 2.0)
            pts, cells = np.asarray(m.points), np.asarray(m.cells_dict['quad'])
            perp = 2
        hj = ctx.jax(np.asarray(h0))
        got = G.Mesh(pts, cells, ele).count_selected_faces(lambda p: p[0] > hj)
        want = 0.0
        nf = {'HEX8': 6, 'QUAD4': 4}[ele]
        for ijk in np.ndindex(3, 2):
            x0, x1 = float(ijk[0]), float(ijk[0] + 1)
            want = want + ctx.where(x0 > h0, float(nf), ctx.where(x1 > h0, 1.0, 0.0))
        ctx.eq('count', float(got), want)
    return h


for _e in ('HEX8', 'QUAD4'):
    harness('C28', 'face_count_' + _e, functions=['fem.generate_mesh.Mesh.count_selected_faces'], bounds='3x2 cells, every position of the selecting plane')(_faces(_e))
