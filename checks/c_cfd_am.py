"""C17 melt-pool driver (laser, window, boundary conditions), C18 energy and momentum steps."""
import math
import shutil
import tempfile
import numpy as np
from vsym.ctx import harness
from checks.c_cfd_fv import cells, cidx, area, vol, side_cells, fv_residual, flat, jx, Grid, fdict

PI = math.pi


def solver(ctx, N=(3, 2, 2), Nl=(2, 1, 1), dx=(0.5, 0.4, 0.3), **over):
    import contextlib
    import io
    from jax_am.cfd import cfd_am as M
    d = tempfile.mkdtemp(prefix='vsym_')
    dom = [N[i] * dx[i] for i in range(3)]
    loc = [Nl[i] * dx[i] for i in range(3)]
    args = dict(mesh=M.mesh3d(dom, list(N)), mesh_local=M.mesh3d(loc, list(Nl)), meshio_mesh=None, data_dir=d, heat_source=0,
                eta=0.4, rb=0.5, speed=0.5, P=2.0, t_OFF=1.0, X0=[0.25, 0.4, dom[2]], dt=0.1, T_ref=0.0, Ts=1.0, Tl=2.0,
                latent_heat=0.5, rho=1.5, visco=0.8, Marangoni=-0.3, cp=lambda T: 2.0 + 0. * T, k=lambda T: 1.2 + 0. * T)
    args.update(over)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            s = M.AM_3d(args)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return M, s, args


# ------------------------------------------------------------------ C17
def _window(N, Nl, h):
    def f(ctx):
        x, y, sp = ctx.real('x', 0.0, N[0] * h[0]), ctx.real('y', 0.0, N[1] * h[1]), ctx.real('speed', 0.0, 2.0)
        t = ctx.real('t', 0.0, 2.0)
        M, s, a = solver(ctx, N, Nl, h, X0=[x, y, N[2] * h[2]], speed=sp)
        w = [ctx.terms(v).reshape(-1)[0] for v in s.get_moving_box_boundary(t)]
        pos = [x + t * sp, y]
        for ax in range(3):
            lo, hi = w[2 * ax], w[2 * ax + 1]
            ctx.eq('window-size', hi - lo, float(Nl[ax]), 1e-6)
            ctx.le('window-inside-low', 0.0, lo, 1e-6)
            ctx.le('window-inside-high', hi, float(N[ax]), 1e-6)
        ctx.eq('window-top', w[5], float(N[2]), 1e-6)
        ctx.assume(pos[0] <= N[0] * h[0])
        for ax in range(2):
            if Nl[ax] >= 2 or Nl[ax] == N[ax]:
                ctx.le('laser-in-window-low', w[2 * ax] - 1e-4, pos[ax] / h[ax], 1e-6)
                ctx.le('laser-in-window-high', pos[ax] / h[ax], w[2 * ax + 1] + 1e-4, 1e-6)
                # centred unless the window touches the domain boundary
                c = (w[2 * ax] + w[2 * ax + 1]) / 2 - pos[ax] / h[ax]
                ctx.true('centred', ctx.either(w[2 * ax] <= 0, w[2 * ax + 1] >= N[ax], ctx.both(c <= 1.001, c >= -1.001)))
    return f


for _N, _Nl, _h in (((6, 5, 3), (3, 2, 2), (0.5, 0.4, 0.3)), ((9, 4, 2), (4, 4, 1), (0.25, 0.5, 0.5)), ((4, 4, 2), (4, 3, 2), (0.5, 0.25, 0.5))):
    harness('C17', 'window_' + 'x'.join(map(str, _N)), functions=['cfd.cfd_am.AM_3d.get_moving_box_boundary', 'cfd.cfd_am.AM_3d.toolpath'],
            bounds=f'grid {_N}, window {_Nl}, every start position, speed and time (including laser positions beyond the domain)', timeout=120)(_window(_N, _Nl, _h))


@harness('C17', 'toolpath', functions=['cfd.cfd_am.AM_3d.toolpath'], bounds='every start, speed, power, switch-off time and time')
def toolpath(ctx):
    x0 = ctx.reals('x0', (3,), -1, 1)
    sp, Pw, toff, t = ctx.real('speed', -1, 1), ctx.real('P', 0, 5), ctx.real('toff', 0, 2), ctx.real('t', 0, 3)
    M, s, a = solver(ctx, X0=list(x0), speed=sp, P=Pw, t_OFF=toff)
    out = [ctx.terms(v).reshape(-1)[0] for v in s.toolpath(t)]
    ctx.eq('position', out[:3], [x0[0] + t * sp, x0[1], x0[2]], 1e-7)
    ctx.eq('power', out[3], ctx.where(t < toff, Pw, 0.0), 1e-7)


@harness('C17', 'fluid_fraction', functions=['cfd.cfd_am.AM_3d.fluid_frac'], bounds='every temperature, every solidus below liquidus')
def fluid_fraction(ctx):
    Ts, w = ctx.real('Ts', 0, 2), ctx.real('w', 0.1, 2)
    T, T2 = ctx.reals('T', (2, 1, 1, 1), -2, 6), ctx.real('T2', -2, 6)
    M, s, a = solver(ctx, Ts=Ts, Tl=Ts + w)
    f = flat(ctx, s.fluid_frac(jx(ctx, T)))
    g = flat(ctx, s.fluid_frac(jx(ctx, np.asarray([T2]))))[0]
    for i, t in enumerate(T.reshape(-1)):
        want = ctx.where(t <= Ts, 0.0, ctx.where(t >= Ts + w, 1.0, (t - Ts) / w))
        ctx.eq('lever-rule', f[i], want, 1e-6)
        ctx.le('at-least-zero', 0.0, f[i], 1e-7)
        ctx.le('at-most-one', f[i], 1.0, 1e-7)
        ctx.true('monotone', ctx.either(t > T2, f[i] <= g + 1e-9))


def _energy_bc(source):
    def f(ctx):
        N = (2, 2, 2)
        h, eps, sb = ctx.real('h', 0, 2), ctx.real('eps', 0, 1), 0.1
        Pw, t, sp = ctx.real('P', 0, 5), ctx.real('t', 0, 2), ctx.real('speed', -1, 1)
        x0 = ctx.reals('x0', (2,), 0, 1)
        Tt = ctx.reals('T', (2, 2, 1), 0, 3)
        Tr = ctx.real('Tr', 0, 1)
        hh = (0.5, 0.4, 0.3)
        over = dict(h=h, emissivity=eps, stefan_boltzmann=sb, P=Pw, speed=sp, X0=[x0[0], x0[1], 0.6], heat_source=source, T_ref=0.0)
        if source:
            over['phi'] = 1.0
        M, s, a = solver(ctx, N, (2, 2, 1), hh, **over)
        s.args['T_ref'] = Tr
        bt, bv = s.eqn_T.bc_fn((t, jx(ctx, Tt)))
        ctx.true('all-flux', list(bt) == [1] * 6)
        for i in range(5):
            ctx.eq('insulated', bv[i], [0.0] * len(side_cells(N, i)), 1e-9)
        want = []
        for p in side_cells(N, 5):
            T = Tt[p[0], p[1], 0]
            q = -h * (T - Tr) - sb * eps * (T * T * T * T - Tr * Tr * Tr * Tr)
            if source == 0:
                xc, yc = (p[0] + 0.5) * hh[0], (p[1] + 0.5) * hh[1]
                xl, yl = x0[0] + t * sp, x0[1]
                r = 0.5
                q = q + ctx.where(t < 1.0, Pw, 0.0) * (2 * 0.4 / PI / r ** 2) * ctx.exp(-2 * ((xc - xl) * (xc - xl) + (yc - yl) * (yc - yl)) / r ** 2)
            want.append(q)
        ctx.eq('top-flux', bv[5], want, 1e-6)
    return f


harness('C17', 'energy_bc_surface', functions=['cfd.cfd_am.AM_3d.get_energy_bc_fn'], bounds='2x2 top cells, every temperature, laser position, power, convection and emissivity')(_energy_bc(0))
harness('C17', 'energy_bc_body', functions=['cfd.cfd_am.AM_3d.get_energy_bc_fn'], bounds='2x2 top cells, body heat source')(_energy_bc(1))


def _body_source(t0, t1):
    return lambda ctx: body_source(ctx, t0, t1)


def body_source(ctx, t0, t1):
    N, hh = (2, 1, 3), (0.5, 0.4, 0.3)
    Pw, t, sp, phi = ctx.real('P', 0.5, 2), ctx.real('t', t0, t1), ctx.real('speed', 0.5, 2), ctx.real('phi', 0.01, 0.3)
    x0 = ctx.reals('x0', (2,), 0, 1)
    M, s, a = solver(ctx, N, (1, 1, 1), hh, heat_source=1, phi=phi, P=Pw, speed=sp, X0=[x0[0], x0[1], 0.9], eta=0.4, rb=0.5)
    Q = flat(ctx, s.get_body_heat_source(t))
    r = 0.5
    d = phi * Pw / sp / r ** 2
    want, off = [], []
    for p in cells(N):
        xc, yc, zc = [(p[i] + 0.5) * hh[i] for i in range(3)]
        xl, yl = x0[0] + t * sp, x0[1]
        q = 2 * Pw * 0.4 / d / PI / r ** 2 * ctx.exp(-2 * ((xc - xl) * (xc - xl) + (yc - yl) * (yc - yl)) / r ** 2)
        want.append(ctx.where(ctx.both(t < 1.0, 0.9 - zc <= d), q, 0.0))
    ctx.eq('source', Q, want, 1e-6)


for _nm, _t in (('on', (0.0, 0.999)), ('off', (1.0, 2.0))):
    harness('C17', f'body_source_{_nm}', functions=['cfd.cfd_am.AM_3d.get_body_heat_source'], timeout=120,
            bounds=f'2x1x3 cells, laser switched {_nm}, every laser position, power, speed, time in {_t} and depth parameter')(_body_source(*_t))


@harness('C17', 'marangoni', functions=['cfd.cfd_am.AM_3d.get_vel_bc_fn'], bounds='3x2 top cells, every temperature field', timeout=120)
def marangoni(ctx):
    N, hh = (3, 2, 2), (0.5, 0.4, 0.3)
    T = ctx.reals('T', N + (1,), 0, 3)
    M, s, a = solver(ctx, N, N, hh)
    vb, bt, bv = s.eqn_V.bc_fn(jx(ctx, T))
    top = {(p[0], p[1]): T[p[0], p[1], N[2] - 1, 0] for p in cells((N[0], N[1], 1))}
    fl = {p: ctx.where(t <= 1.0, 0.0, ctx.where(t >= 2.0, 1.0, t - 1.0)) for p, t in top.items()}
    clampx, clampy = (lambda i: min(max(i, 0), N[0] - 1)), (lambda j: min(max(j, 0), N[1] - 1))
    want = [[], [], []]
    for (i, j) in top:
        gx = (top[(clampx(i + 1), j)] - top[(clampx(i - 1), j)]) / (2 * hh[0])
        gy = (top[(i, clampy(j + 1))] - top[(i, clampy(j - 1))]) / (2 * hh[1])
        want[0].append(-0.3 * gx * fl[(i, j)])
        want[1].append(-0.3 * gy * fl[(i, j)])
        want[2].append(0.0)
    ctx.true('types', [list(b) for b in bt] == [[0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 1], [0] * 6] and list(vb[0]) == [0, 0, 0, 0, 0, 2])
    for c in range(3):
        for sd in range(5):
            ctx.eq('no-slip', bv[c][sd], [0.0] * len(side_cells(N, sd)), 1e-9)
        ctx.eq('thermocapillary-stress', bv[c][5], want[c], 1e-6)
    v = ctx.terms(vb[1][5])
    for c in range(3):
        ctx.eq('surface-gradient', [x * 0.8 for x in v[..., c].reshape(-1)], want[c], 1e-6)
    for sd in range(5):
        ctx.eq('no-slip-vector', vb[1][sd], [0.0] * 3, 1e-9)


def _step(x, N, Nl, src, bounds):
    """one time step of the driver: which cells change and how"""
    def f(ctx):
        import jax
        hh = (0.5, 0.4, 0.3)
        M, s, a = solver(ctx, N, Nl, hh, X0=[x, 0.4, N[2] * 0.3], heat_source=src, phi=0.05)
        shp = tuple(N)
        T0 = ctx.reals('T0', shp + (1,), 0, 3)
        T1 = ctx.reals('T1', shp + (1,), 0, 3)
        cT0 = ctx.reals('cT', shp + (1,), -1, 1)
        V0, c0, g0 = (ctx.reals(n, shp + (3,), -1, 1) for n in ('V', 'c', 'g'))
        S0 = ctx.reals('S', shp + (1,), 0, 1)
        lsh = tuple(Nl)
        V1, g1 = ctx.reals('V1', lsh + (3,), -1, 1), ctx.reals('g1', lsh + (3,), -1, 1)
        s.T, s.conv_T, s.vel, s.conv, s.grad_p0, s.solidID = (jx(ctx, q) for q in (T0, cT0, V0, c0, g0, S0))
        s.t = 0.2
        seen = {}
        zero = np.zeros(3)
        vBC = [[0, 0, 0, 0, 0, 1], [jx(ctx, zero)] * 6]

        def upT(*p, **k):
            seen['T'] = list(p) + list(k.values())
            return jx(ctx, T1), None, 1

        def upV(*p, **k):
            seen['V'] = list(p) + list(k.values())
            return jx(ctx, V1), vBC, jx(ctx, g1)
        s.eqn_T.update, s.eqn_V.update = upT, upV
        s.time_integration()
        cx = lambda n, q: min(max(q, 0), n)
        x0 = cx(N[0] - Nl[0], round((x + 0.2 * 0.5) / hh[0]) - round(Nl[0] / 2))
        y0 = cx(N[1] - Nl[1], round(0.4 / hh[1]) - round(Nl[1] / 2))
        z0 = N[2] - Nl[2]
        inside = {p: (p[0] - x0, p[1] - y0, p[2] - z0) for p in cells(N)
                  if 0 <= p[0] - x0 < Nl[0] and 0 <= p[1] - y0 < Nl[1] and 0 <= p[2] - z0 < Nl[2]}
        fl = {p: ctx.where(t <= 1.0, 0.0, ctx.where(t >= 2.0, 1.0, t - 1.0)) for p, t in fdict(N, T1).items()}

        def has(args, want):
            """one of the arguments is that array"""
            want = np.asarray(want)
            for q in args:
                try:
                    v = ctx.terms(q)
                except Exception:
                    continue
                if v.shape == want.shape:
                    if ctx.sym:
                        from vsym import poly as P
                        if all(isinstance(P.lift(i) - P.lift(j), P.Poly) and (P.lift(i) - P.lift(j)).is_const()
                               and abs(float((P.lift(i) - P.lift(j)).cval())) < 1e-9 for i, j in zip(v.reshape(-1), want.reshape(-1))):
                            return True
                    elif np.allclose(np.asarray(v, float), want.astype(float), atol=1e-9):
                        return True
            return False
        sl = (slice(x0, x0 + Nl[0]), slice(y0, y0 + Nl[1]), slice(z0, N[2]))
        flatten = lambda q: [y for x_ in q for y in flatten(x_)] if isinstance(q, (list, tuple)) else [q]
        ctx.true('energy-step-inputs', has(seen['T'], T0) and has(seen['T'], cT0))
        ctx.true('boundary-inputs', has(flatten(seen['T']), T0[:, :, -1, :]) and any(np.isscalar(q) and abs(float(q) - 0.2) < 1e-9 for q in flatten(seen['T'])))
        if src:
            ctx.true('heat-source-input', has(seen['T'], ctx.terms(s.get_body_heat_source(0.2))))
        ctx.true('momentum-step-inputs', has(seen['V'], V0[sl]) and has(seen['V'], c0[sl]) and has(seen['V'], g0[sl]) and has(seen['V'], T1[sl]))
        got = {k: ctx.terms(getattr(s, k)) for k in ('T', 'vel', 'conv', 'grad_p0', 'conv_T', 'solidID')}
        ctx.eq('temperature-updated', got['T'], T1, 1e-9)
        ctx.eq('time-advanced', s.t, 0.3, 1e-9)
        ctx.eq('melted-record', [got['solidID'][p + (0,)] for p in cells(N)], [ctx.maximum(S0[p + (0,)], fl[p]) for p in cells(N)], 1e-7)
        G = [Grid(ctx, Nl, hh, [0, 0, 0, 0, 0, 0 if False else 1], [0.0] * 6) for _ in range(3)]
        G0 = Grid(ctx, Nl, hh, [1] * 6, [0.0] * 6)
        vel = {}
        for c in range(3):
            Fa = fdict(Nl, V1, c)
            for p in cells(tuple(n + (i == c) for i, n in enumerate(Nl))):
                lo = list(p)
                lo[c] -= 1
                vel[(c, p)] = (Fa[tuple(lo)] + G[c].at(Fa, tuple(lo), c, 1)) / 2 if lo[c] >= 0 else (G[c].at(Fa, p, c, -1) + Fa[p]) / 2

        def advect(Fd):
            out = {}
            for p in cells(Nl):
                t = 0.0
                for ax in range(3):
                    for sgn, q in ((1, tuple(v + (i == ax) for i, v in enumerate(p))), (-1, p)):
                        u = vel[(ax, q)]
                        b, off = (q, 0) if q[ax] < Nl[ax] else (tuple(v - (i == ax) for i, v in enumerate(q)), 1)
                        L1, R1, L2, R2 = (G0.at(Fd, b, ax, off + k) for k in (-1, 0, -2, 1))
                        fv = 0.125 * 0.5 * (L1 + R1) + 0.875 * ctx.where(u >= 0, 1.5 * L1 - 0.5 * L2, 1.5 * R1 - 0.5 * R2)
                        t = t + sgn * fv * u / hh[ax]
                out[p] = t
            return out
        wT = {q: T1[p + (0,)] for p, q in inside.items()}
        aT = advect(wT)
        aV = [advect(fdict(Nl, V1, c)) for c in range(3)]
        for p in cells(N):
            if p in inside:
                q = inside[p]
                ctx.eq('velocity-in-window', got['vel'][p], V1[q], 1e-9)
                ctx.eq('pressure-gradient-in-window', got['grad_p0'][p], g1[q], 1e-9)
                ctx.eq('heat-advection', got['conv_T'][p + (0,)], aT[q], 1e-6)
                ctx.eq('momentum-advection', got['conv'][p], [aV[c][q] for c in range(3)], 1e-6)
            else:
                for k, o in (('vel', V0), ('conv', c0), ('grad_p0', g0), ('conv_T', cT0)):
                    ctx.eq('outside-window-untouched', got[k][p], o[p], 1e-9)
    return f


for _i, (_x, _N, _Nl, _s) in enumerate(((0.6, (4, 2, 2), (2, 2, 1), 0), (0.0, (3, 3, 2), (2, 2, 1), 0), (1.4, (3, 2, 1), (1, 2, 1), 1))):
    harness('C17', f'step_{_i}', functions=['cfd.cfd_am.AM_3d.time_integration', 'cfd.cfd_am.AM_3d.update_convective_terms'], timeout=120,
            bounds=f'grid {_N}, window {_Nl}, laser at x={_x}, one step; the two equation updates are arbitrary values (C18 decides them)')(_step(_x, _N, _Nl, _s, ''))


def _written(N, step, every):
    """the written file carries the temperature, velocity and melt record of the current state, cell by cell, under the interval-numbered name"""
    def f(ctx):
        import contextlib
        import io
        import types
        M, s, a = solver(ctx, N, (1, 1, 1), write_sol_interval=every)
        ctx.numpy_in(M)
        T, V, S = ctx.reals('T', N + (1,), 0, 3), ctx.reals('v', N + (3,), -1, 1), ctx.reals('s', N + (1,), 0, 1)
        s.T, s.vel, s.solidID = ctx.jax(T), ctx.jax(V), ctx.jax(S)
        seen = []
        mesh = types.SimpleNamespace(cell_data={})
        mesh.write = lambda path, *q, **k: seen.append((str(path), {n: ctx.terms(v[0]) for n, v in mesh.cell_data.items()}))
        s.meshio_mesh = mesh
        with contextlib.redirect_stdout(io.StringIO()):
            s.write_sols(step)
        ctx.true('one-file', len(seen) == 1)
        path, d = seen[0]
        ctx.true('file-name', path.endswith(f'vtk/cfd/sols/u{step // every:03d}.vtu') and path.startswith(a['data_dir']))
        n = int(np.prod(N))
        for nm, w, c in (('T', T, 1), ('vel', V, 3), ('solidID', S, 1)):
            g = d[nm]
            ctx.true('written-shape', g.shape == (n, c))
            ctx.eq('written-' + nm, g, w.reshape(n, c), 1e-5)
    return f


for _N, _st, _ev in (((2, 1, 2), 20, 10), ((1, 3, 2), 7, 2)):
    harness('C17', f'output_{_st}', functions=['cfd.cfd_am.AM_3d.write_sols'], bounds=f'{_N} cells, every temperature, velocity and melt record; step {_st}, every {_ev} steps')(_written(_N, _st, _ev))


# ------------------------------------------------------------------ C18
def _capacity(ctx, T, L=0.5):
    """apparent heat capacity: latent heat released inside the melting range (Ts, Tl) = (1, 2)"""
    return lambda c: c + ctx.where(ctx.both(T > 1.0, T < 2.0), L / 1.0, 0.0)


def _energy_residual(N, types):
    def f(ctx):
        hh = (0.5, 0.4, 0.3)
        n = int(np.prod(N))
        c0, c1 = ctx.real('c0', 1, 2), ctx.real('c1', 0, 0.3)
        k0, k1 = ctx.real('k0', 1, 2), ctx.real('k1', 0, 0.2)
        rho, dt, lat = ctx.real('rho', 0.5, 2), ctx.real('dt', 0.1, 1), ctx.real('L', 0, 2)
        J = lambda v: jx(ctx, v)
        c0j, c1j, k0j, k1j = J(c0), J(c1), J(k0), J(k1)
        M, s, a = solver(ctx, N, (1, 1, 1), hh, rho=J(rho), dt=J(dt), latent_heat=J(lat), cp=lambda T: c0j + c1j * T, k=lambda T: k0j + k1j * T)
        T, T0 = ctx.reals('T', (n,), 0, 3), ctx.reals('T0', (n,), 0, 3)
        cv, Q = ctx.reals('cv', (n,), -1, 1), ctx.reals('Q', (n,), -1, 1)
        vals = [ctx.reals(f'b{i}', (len(side_cells(N, i)),), 0, 2) for i in range(6)]
        e = s.eqn_T
        e.bc_fn = lambda *_: (list(types), [J(v) for v in vals])
        e.update_BCs()
        R = e.step.compute_residual(J(T), J(T0), J(cv), J(Q))
        cap = [c0 + c1 * t + ctx.where(ctx.both(t > 1.0, t < 2.0), lat / 1.0, 0.0) for t in T0]
        src = lambda i, u: -rho * (u - T0[i]) * cap[i] / dt - rho * cap[i] * cv[i] + Q[i]
        k = lambda u: k0 + k1 * u
        W = fv_residual(N, hh, list(T), lambda u, v: 2 * k(u) * k(v) / (k(u) + k(v)), src, (types, vals), k)
        ctx.eq('heat-balance', R, W, 1e-6)
    return f


harness('C18', 'energy_residual_2x1x2', functions=['cfd.cfd_am.energy_eqn'], timeout=120,
        bounds='2x1x2 cells, mixed boundary, every old/new temperature, advection, source, property coefficients, time step')(_energy_residual((2, 1, 2), (1, 0, 1, 1, 0, 1)))
harness('C18', 'energy_residual_1x2x2', functions=['cfd.cfd_am.energy_eqn'], timeout=120,
        bounds='1x2x2 cells, flux boundary, every old/new temperature, advection, source, property coefficients, time step')(_energy_residual((1, 2, 2), (1,) * 6))


def _energy_step(N, types):
    def f(ctx):
        import jax
        ctx.max_solves = 1
        hh = (0.5, 0.4, 0.3)
        n = int(np.prod(N))
        J = lambda v: jx(ctx, v)
        M, s, a = solver(ctx, N, (1, 1, 1), hh)
        T0 = ctx.reals('T0', (n,), 0, 3)
        cv, Q = ctx.reals('cv', (n,), -1, 1), ctx.reals('Q', (n,), -1, 1)
        vals = [ctx.reals(f'b{i}', (len(side_cells(N, i)),), 0, 2) for i in range(6)]
        e = s.eqn_T
        e.bc_fn = lambda *_: (list(types), [J(v) for v in vals])
        shp = tuple(N) + (1,)
        with jax.disable_jit():
            T, _, it = e.update(J(T0.reshape(shp)), J(cv.reshape(shp)), J(Q), (0.0,), s.cell_conn)
        ctx.true('shape', np.shape(ctx.terms(T)) == shp)
        T = flat(ctx, T)
        cap = [2.0 + ctx.where(ctx.both(t > 1.0, t < 2.0), 0.5, 0.0) for t in T0]
        src = lambda i, u: -1.5 * (u - T0[i]) * cap[i] / 0.1 - 1.5 * cap[i] * cv[i] + Q[i]
        res = lambda U: fv_residual(N, hh, U, lambda u, v: 1.2, src, (types, vals), lambda v: 1.2)
        b0, b1 = sum(x * x for x in res(list(T0))), sum(x * x for x in res(T))
        ctx.assume(b0 >= 1e-4)
        if int(it) < 50:
            ctx.le('residual-reduced', ctx.sqrt(b1) / ctx.sqrt(b0), 1e-5, 1e-6)
    return f


harness('C18', 'energy_step_2x1x1', functions=['cfd.cfd_am.energy_eqn.update', 'cfd.cfd_am.solver_nonlinear'], maxpaths=16, timeout=150,
        bounds='2 cells, one Newton step explored, every old temperature, advection, source and boundary value')(_energy_step((2, 1, 1), (1,) * 6))


def _momentum(N, symfl):
    def f(ctx):
        import jax
        hh = (0.5, 0.4, 0.3)
        n = int(np.prod(N))
        J = lambda v: jx(ctx, v)
        M, s, a = solver(ctx, N, N, hh)
        sh = tuple(N)
        V0, C0, G0 = (ctx.reals(q, sh + (3,), -1, 1) for q in ('V', 'C', 'G'))
        fl = ctx.reals('fl', sh + (1,), 0.3, 1) if symfl else np.where(np.arange(n).reshape(sh + (1,)) % 3 == 1, 0.25, 1.0)
        m = ctx.reals('m', sh[:2] + (1, 3), -1, 1)
        for p in cells(sh[:2]):
            m[p + (0, 2)] = 0.0
        mj = J(m)
        e = s.eqn_V
        z = np.zeros(3)
        types = [[0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 1], [0] * 6]
        vals = [[np.zeros(len(side_cells(N, i))) for i in range(5)] + [0.8 * m[:, :, 0, c].reshape(-1)] for c in range(3)]
        e.bc_fn = lambda *_: ([[0, 0, 0, 0, 0, 2], [J(z)] * 5 + [mj]], types, [[J(v) for v in vv] for vv in vals])
        with jax.disable_jit():
            V, bc, G = e.update(J(V0), J(C0), J(G0), J(fl), (0.0,), s.cell_conn_local)
        V, G = ctx.terms(V), ctx.terms(G)
        ctx.true('shape', V.shape == sh + (3,) and G.shape == sh + (3,))
        rho, dt, visc = 1.5, 0.1, 0.8
        dG = {(p, c): G[p + (c,)] - G0[p + (c,)] for p in cells(N) for c in range(3)}
        Vs = {(p, c): V[p + (c,)] + dt / rho * dG[(p, c)] for p in cells(N) for c in range(3)}      # predicted velocity
        for c in range(3):
            def src(i, u):
                p = cells(N)[i]
                w = fl[p + (0,)]
                drag = 1e7 * rho * (1 - w) * (1 - w) / (w * w * w + 1e-5)
                return -rho * (u - V0[p + (c,)]) / dt - rho * C0[p + (c,)] - G0[p + (c,)] - drag * u
            U = [Vs[(p, c)] for p in cells(N)]
            R = fv_residual(N, hh, U, lambda u, v: visc, src, (types[c], vals[c]), lambda v: visc)
            ctx.eq(f'momentum-{"xyz"[c]}', R, [0.0] * n, 1e-5)
        # pressure correction: on a 2-cell direction the face gradient is twice the cell gradient
        for p in cells(N):
            lap, div = 0.0, 0.0
            for ax in range(3):
                lo, hi = p[ax] == 0, p[ax] == N[ax] - 1
                if N[ax] == 2:
                    # flux through the one interior face
                    fg = 2 * dG[(p, ax)]
                    lap = lap + (fg if lo else -fg) / hh[ax]
                up = list(p)
                up[ax] = min(p[ax] + 1, N[ax] - 1)
                dn = list(p)
                dn[ax] = max(p[ax] - 1, 0)
                fu = 0.0 if hi else (Vs[(p, ax)] + Vs[(tuple(up), ax)]) / 2
                fd = 0.0 if lo else (Vs[(p, ax)] + Vs[(tuple(dn), ax)]) / 2
                div = div + (fu - fd) / hh[ax]
            ctx.eq('pressure-correction', lap, rho / dt * div, 1e-5)
    return f


harness('C18', 'momentum_2x1x1', functions=['cfd.cfd_am.velocity_eqn.update', 'cfd.cfd_am.solver_linear', 'cfd.cfd_am.gradient'], timeout=150,
        bounds='2x1x1 cells, every old velocity, advection, pressure gradient, surface stress and fluid fraction in [0.3,1]')(_momentum((2, 1, 1), True))
harness('C18', 'momentum_1x2x1', functions=['cfd.cfd_am.velocity_eqn.update'], timeout=150,
        bounds='1x2x1 cells, as above')(_momentum((1, 2, 1), True))
harness('C18', 'momentum_2x2x1', functions=['cfd.cfd_am.velocity_eqn.update'], timeout=150,
        bounds='2x2x1 cells, fixed fluid fractions, every old velocity, advection, pressure gradient and surface stress')(_momentum((2, 2, 1), False))
harness('C18', 'momentum_1x1x2', functions=['cfd.cfd_am.velocity_eqn.update'], timeout=150,
        bounds='1x1x2 cells, as above, every fluid fraction')(_momentum((1, 1, 2), True))
harness('C18', 'momentum_2x1x2', functions=['cfd.cfd_am.velocity_eqn.update'], timeout=150, tier='thorough',
        bounds='2x1x2 cells, fixed fluid fractions')(_momentum((2, 1, 2), False))
