"""C14 finite-volume residual, C15 Newton matrix and solves, C16 structured-grid operators."""
import itertools
import numpy as np
from vsym.ctx import harness


def jx(ctx, a):
    return ctx.jax(np.asarray(a))


def fv_mesh(ctx, N, sym=True, tag='L'):
    from jax_am.cfd import cfd_am as M
    if sym:
        L = [ctx.real(f'{tag}{i}', 0.5, 2.0) for i in range(len(N))]
    else:
        L = [0.7, 1.3, 0.9][:len(N)]
    msh = (M.mesh3d if len(N) == 3 else M.mesh2d)([np.asarray(x) if not ctx.sym else x for x in L], list(N))
    ctx.jaxify(msh)
    h = [L[i] / N[i] for i in range(len(N))]
    return M, msh, L, h


def cidx(N, p):
    r = 0
    for i, n in zip(p, N):
        r = r * n + i
    return r


def cells(N):
    return list(itertools.product(*[range(n) for n in N]))


def area(h, ax):
    r = 1.0
    for i, x in enumerate(h):
        if i != ax:
            r = r * x
    return r


def vol(h):
    r = 1.0
    for x in h:
        r = r * x
    return r


def side_cells(N, s):
    ax, hi = s // 2, s % 2
    return [p for p in cells(N) if p[ax] == (N[ax] - 1 if hi else 0)]


def fv_residual(N, h, U, mu_face, src, bc, mu_bc):
    """sum over faces: outflow minus source; U flat list; bc = (types, values per side)"""
    R = [0.0] * len(U)
    for p in cells(N):
        i = cidx(N, p)
        for ax in range(len(N)):
            if p[ax] + 1 < N[ax]:
                q = list(p)
                q[ax] += 1
                j = cidx(N, q)
                f = mu_face(U[i], U[j]) * (U[j] - U[i]) / h[ax] * area(h, ax)     # flux into i from j
                R[i] = R[i] - f
                R[j] = R[j] + f
        if src is not None:
            R[i] = R[i] - src(i, U[i]) * vol(h)
    if bc is not None:
        types, vals = bc
        for s in range(2 * len(N)):
            ax = s // 2
            for k, p in enumerate(side_cells(N, s)):
                i = cidx(N, p)
                v = vals[s][k]
                if types[s] == 0:
                    f = mu_bc(v) * (v - U[i]) / (h[ax] / 2) * area(h, ax)
                else:
                    f = v * area(h, ax)
                R[i] = R[i] - f
    return R


def bc_values(ctx, N, tag='b', lo=-1, hi=1):
    return [ctx.reals(f'{tag}{s}', (len(side_cells(N, s)),), lo, hi) for s in range(2 * len(N))]


def flat(ctx, x):
    return list(ctx.terms(x).reshape(-1))


# ------------------------------------------------------------------ C14
def _mesh(N):
    def h(ctx):
        M, msh, L, hh = fv_mesh(ctx, N)
        d = len(N)
        ctx.eq('spacing', msh.dX, hh)
        ctx.eq('volume', msh.dV, vol(hh))
        X = ctx.terms(msh.Xc)
        cc = cells(N)
        ctx.eq('centres', X, [[(p[a] + 0.5) * hh[a] for a in range(d)] for p in cc])
        ctx.true('cell-count', msh.cell_num == len(cc) and X.shape == (len(cc), d))
        D, S = flat(ctx, msh.D), flat(ctx, msh.dS)
        for a in range(d):
            ctx.eq('transmissibility', [S[2 * a] / D[2 * a], S[2 * a + 1] / D[2 * a + 1]], [area(hh, a) / hh[a]] * 2)
        conn = np.asarray(msh.cell_conn)
        sc, surf = np.asarray(msh.surf_cell), ctx.terms(msh.surface)
        ok = conn.shape == (len(cc), 2 * d + 1)
        for p in cc:
            i = cidx(N, p)
            want = [i]
            for a in range(d):
                for st in (-1, 1):
                    q = list(p)
                    q[a] += st
                    want.append(cidx(N, q) if 0 <= q[a] < N[a] else i)
            ok = ok and list(conn[i]) == want
        ctx.true('neighbours', ok)
        ok, pos = True, []
        for s in range(2 * d):
            ids = np.asarray(msh.surf_sets[s])
            want = side_cells(N, s)
            ok = ok and list(sc[ids]) == [cidx(N, p) for p in want] and msh.surf_set_num[s] == len(want)
            for p in want:
                pos.append([(p[a] + 0.5) * hh[a] if a != s // 2 else (L[a] if s % 2 else 0.0) for a in range(d)])
        ids = [k for s in range(2 * d) for k in np.asarray(msh.surf_sets[s])]
        ctx.true('surfaces', ok and sorted(ids) == list(range(len(sc))))
        ctx.eq('surface-centres', [surf[k] for k in ids], pos)
    return h


for _N in ((1, 1), (2, 3), (3, 1, 2), (2, 2, 2), (1, 2, 3)):
    harness('C14', 'mesh_' + 'x'.join(map(str, _N)), functions=['cfd.cfd_am.mesh2d/mesh3d', 'cfd.cfd_am.uniform_mesh'],
            bounds=f'grid {_N}, every domain size in [0.5,2]')(_mesh(_N))


def _residual(N, types, nonlinear, symL):
    def h(ctx):
        import jax.numpy as jnp
        M, msh, L, hh = fv_mesh(ctx, N, symL)
        n = int(np.prod(N))
        U = ctx.reals('U', (n,), -1, 1)
        a = ctx.real('a', 0.5, 2)
        c = ctx.real('c', 0.0, 0.2) if nonlinear else 0.0
        s = ctx.reals('s', (n,), -1, 1)
        r = ctx.real('r', -1, 1)
        aj, cj, rj = jx(ctx, a), (jx(ctx, c) if nonlinear else 0.0), jx(ctx, r)
        kw = {}
        bc = None
        if types is not None:
            vals = bc_values(ctx, N)
            bc = (types, vals)
            kw = dict(bc_type=list(types), bc_value=[jx(ctx, v) for v in vals])
        if nonlinear:
            eq = M.poisson(msh, nonlinear=True, mu_fn=lambda u: aj + cj * u, source_fn=lambda u, q: q + rj * u, **kw)
            mf = lambda u, v: 2 * (a + c * u) * (a + c * v) / ((a + c * u) + (a + c * v))
            mb = lambda v: a + c * v
        else:
            mu = 1.7
            eq = M.poisson(msh, nonlinear=False, mu=mu, source_fn=lambda u, q: q + rj * u, **kw)
            mf = lambda u, v: mu
            mb = lambda v: mu
        R = eq.compute_residual(jx(ctx, U), jx(ctx, s))
        W = fv_residual(N, hh, list(U), mf, lambda i, u: s[i] + r * u, bc, mb)
        ctx.eq('residual', R, W, 1e-7)
        got = flat(ctx, R)
        # conservation: interior fluxes cancel
        tot = sum(got[1:], got[0])
        out = 0.0
        for i in range(n):
            out = out - (s[i] + r * U[i]) * vol(hh)
        if bc is not None:
            for sd in range(2 * len(N)):
                ax = sd // 2
                for k, p in enumerate(side_cells(N, sd)):
                    v = vals[sd][k]
                    out = out - (mb(v) * (v - U[cidx(N, p)]) / (hh[ax] / 2) if types[sd] == 0 else v) * area(hh, ax)
        ctx.eq('balance', tot, out, 1e-7)
    return h


RB = 'every cell value, source, reaction rate, coefficient and boundary value in the boxes'
RF = ['cfd.cfd_am.poisson.compute_residual', 'cfd.cfd_am.poisson.apply_BC_to_residual', 'cfd.cfd_am.poisson.laplace']
for _nm, _a in {
    'residual_lin_2x2x2_mixed': ((2, 2, 2), (0, 1, 0, 1, 1, 0), False, True),
    'residual_lin_3x1x2_dirichlet': ((3, 1, 2), (0,) * 6, False, True),
    'residual_lin_1x2x3_neumann': ((1, 2, 3), (1,) * 6, False, True),
    'residual_lin_2x2x1_nobc': ((2, 2, 1), None, False, True),
    'residual_lin_2d_3x2': ((3, 2), (0, 1, 1, 0), False, True),
    'residual_nl_2x2x1_mixed': ((2, 2, 1), (1, 0, 1, 0, 0, 1), True, False),
    'residual_nl_2x1x2_dirichlet': ((2, 1, 2), (0,) * 6, True, False),
    'residual_nl_1x3x1_neumann': ((1, 3, 1), (1,) * 6, True, False),
}.items():
    harness('C14', _nm, functions=RF, bounds=f'grid {_a[0]}, boundary types {_a[1]}; ' + RB, timeout=120)(_residual(*_a))


def _linear_exact(N):
    """a linear field with matching wall values is in equilibrium"""
    def h(ctx):
        M, msh, L, hh = fv_mesh(ctx, N, True)
        d = len(N)
        g = ctx.reals('g', (d + 1,), -1, 1)
        X = ctx.terms(msh.Xc)
        S = ctx.terms(msh.surface)
        U = [g[d] + sum(g[a] * X[i][a] for a in range(d)) for i in range(len(X))]
        vals = [np.array([g[d] + sum(g[a] * S[k][a] for a in range(d)) for k in np.asarray(msh.surf_sets[s])]) for s in range(2 * d)]
        for types in ((0,) * (2 * d), (0, 1) * d, (1, 0) * d):
            v2 = []
            for s in range(2 * d):
                v2.append(vals[s] if types[s] == 0 else np.array([(1 if s % 2 else -1) * 1.3 * g[s // 2] for _ in vals[s]]))
            eq = M.poisson(msh, mu=1.3, bc_type=list(types), bc_value=[jx(ctx, v) for v in v2])
            ctx.eq('linear-field', eq.compute_residual(jx(ctx, np.array(U))), [0.0] * len(U), 1e-7)
    return h


for _N in ((2, 2, 2), (3, 2), (1, 1, 3)):
    harness('C14', 'linear_exact_' + 'x'.join(map(str, _N)), functions=RF, bounds=f'grid {_N}, every domain size and every linear field in the box')(_linear_exact(_N))


# ------------------------------------------------------------------ C15
def _tangent(N, types, nonlinear):
    def h(ctx):
        import jax.numpy as jnp
        M, msh, L, hh = fv_mesh(ctx, N, not nonlinear)
        n = int(np.prod(N))
        U = ctx.reals('U', (n,), -1, 1)
        V = ctx.reals('V', (n,), -1, 1)
        a = ctx.real('a', 0.5, 2)
        s = ctx.reals('s', (n,), -1, 1)
        r = ctx.real('r', -1, 1 if nonlinear else 0)
        aj, rj = jx(ctx, a), jx(ctx, r)
        vals = bc_values(ctx, N)
        kw = dict(bc_type=list(types), bc_value=[jx(ctx, v) for v in vals])
        if nonlinear:
            c = ctx.real('c', 0.0, 0.2)
            cj = jx(ctx, c)
            eq = M.poisson(msh, nonlinear=True, mu_fn=lambda u: aj + cj * u, source_fn=lambda u, q: q + rj * u * u, **kw)
            k = lambda u: a + c * u
            # d/du of the harmonic-mean flux 2 k(u)k(v)/(k(u)+k(v)) (v-u)
            def dflux(u, v, du, dv):
                S = k(u) + k(v)
                m = 2 * k(u) * k(v) / S
                dm = 2 * c * (k(v) * k(v) * du + k(u) * k(u) * dv) / (S * S)
                return dm * (v - u) + m * (dv - du)
            mb = k
            dsrc = lambda i: 2 * r * U[i] * V[i]
        else:
            eq = M.poisson(msh, mu=1.7, source_fn=lambda u, q: q + rj * u, **kw)
            dflux = lambda u, v, du, dv: 1.7 * (dv - du)
            mb = lambda v: 1.7
            dsrc = lambda i: r * V[i]
        eq.newton_update(jx(ctx, U), jx(ctx, s))
        JV = eq.compute_linearized_residual(jx(ctx, V))
        R = [0.0] * n
        diag = [0.0] * n
        for p in cells(N):
            i = cidx(N, p)
            for ax in range(len(N)):
                if p[ax] + 1 < N[ax]:
                    q = list(p)
                    q[ax] += 1
                    j = cidx(N, q)
                    f = dflux(U[i], U[j], V[i], V[j]) / hh[ax] * area(hh, ax)
                    R[i], R[j] = R[i] - f, R[j] + f
            R[i] = R[i] - dsrc(i) * vol(hh)
        for sd in range(2 * len(N)):
            if types[sd] == 0:
                ax = sd // 2
                for kk, p in enumerate(side_cells(N, sd)):
                    i = cidx(N, p)
                    R[i] = R[i] + mb(vals[sd][kk]) * V[i] / (hh[ax] / 2) * area(hh, ax)
        ctx.eq('derivative', JV, R, 1e-6)
        # the preconditioner divides by the diagonal of that matrix
        if not nonlinear:
            want = []
            for p in cells(N):
                i = cidx(N, p)
                dg = 0.0 - r * vol(hh)
                for ax in range(len(N)):
                    for st in (-1, 1):
                        if 0 <= p[ax] + st < N[ax]:
                            dg = dg + 1.7 / hh[ax] * area(hh, ax)
                        elif types[2 * ax + (st > 0)] == 0:
                            dg = dg + 2 * 1.7 / hh[ax] * area(hh, ax)
                want.append(dg)
            got = flat(ctx, eq.jacobiPreconditioner(jx(ctx, V)))
            ctx.eq('preconditioner-diagonal', [g * w for g, w in zip(got, want)], list(V), 1e-7)
    return h


TF = ['cfd.cfd_am.poisson.newton_update', 'cfd.cfd_am.poisson.apply_BC_to_matrix', 'cfd.cfd_am.poisson.compute_linearized_residual']
for _nm, _a in {
    'tangent_lin_2x2x2': ((2, 2, 2), (0, 1, 0, 1, 1, 0), False),
    'tangent_lin_3x1x2': ((3, 1, 2), (0,) * 6, False),
    'tangent_lin_2d_3x2': ((3, 2), (0, 1, 1, 0), False),
    'tangent_nl_2x2x1': ((2, 2, 1), (1, 0, 1, 0, 0, 1), True),
    'tangent_nl_1x1x3': ((1, 1, 3), (1, 1, 1, 1, 0, 1), True),
    'tangent_nl_2d_2x2': ((2, 2), (0, 1, 1, 0), True),
}.items():
    harness('C15', _nm, functions=TF, bounds=f'grid {_a[0]}, boundary types {_a[1]}, every state, direction and coefficient in the boxes', timeout=120)(_tangent(*_a))


def _lin_solve(N, types, precond, update):
    def h(ctx):
        M, msh, L, hh = fv_mesh(ctx, N, False)
        n = int(np.prod(N))
        s = ctx.reals('s', (n,), -1, 1)
        r = ctx.real('r', -1, 0)
        rj = jx(ctx, r)
        vals = bc_values(ctx, N)
        eq = M.poisson(msh, mu=1.7, source_fn=lambda u, q: q + rj * u, bc_type=list(types), bc_value=[jx(ctx, v) for v in vals])
        if not update:
            eq.newton_update(jx(ctx, ctx.reals('U0', (n,), -1, 1)), jx(ctx, s))
        U = flat(ctx, M.solver_linear(eq, jx(ctx, s), tol=1e-10, precond=precond, update=update))
        W = fv_residual(N, hh, U, lambda u, v: 1.7, lambda i, u: s[i] + r * u, (types, vals), lambda v: 1.7)
        ctx.eq('equilibrium', W, [0.0] * n, 1e-6)
    return h


for _nm, _a in {
    'solve_lin_2x2x2': ((2, 2, 2), (0, 1, 0, 1, 1, 0), False, True),
    'solve_lin_3x1x2_precond': ((3, 1, 2), (0,) * 6, True, True),
    'solve_lin_2x2x1_reuse': ((2, 2, 1), (0, 1, 1, 1, 1, 0), True, False),
}.items():
    harness('C15', _nm, functions=TF + ['cfd.cfd_am.solver_linear'],
            bounds=f'grid {_a[0]}, boundary types {_a[1]}; the Krylov solver is a contract A x = b', timeout=120)(_lin_solve(*_a))


def _relative(ctx):
    """pure-Neumann problem with the first cell pinned to zero"""
    N = (2, 2, 1)
    M, msh, L, hh = fv_mesh(ctx, N, False)
    n = 4
    s = ctx.reals('s', (n,), -1, 1)
    eq = M.poisson(msh, mu=1.0, source_fn=lambda u, q: q)
    U = flat(ctx, M.solver_linear(eq, jx(ctx, s), relative=True, precond=True))
    W = fv_residual(N, hh, U, lambda u, v: 1.0, lambda i, u: s[i], None, None)
    ctx.eq('pinned', U[0], 0.0, 1e-7)
    ctx.eq('equilibrium', W[1:], [0.0] * (n - 1), 1e-6)


harness('C15', 'solve_pinned_2x2x1', functions=['cfd.cfd_am.solver_linear'], bounds='2x2x1 grid without boundary conditions, every source')(_relative)


def _nl_solve(N, types, cold=False):
    def h(ctx):
        import jax
        import jax.numpy as jnp
        ctx.max_solves = 1
        M, msh, L, hh = fv_mesh(ctx, N, False)
        n = int(np.prod(N))
        a = ctx.real('a', 0.5, 2)
        c = ctx.real('c', 0.0, 0.05)
        s = ctx.reals('s', (n,), 0.5, 1)
        U0 = np.zeros(n) if cold else ctx.reals('U0', (n,), -1, 1)
        aj, cj = jx(ctx, a), jx(ctx, c)
        vals = bc_values(ctx, N)
        eq = M.poisson(msh, nonlinear=True, mu_fn=lambda u: 1.3 + 0. * u, source_fn=lambda u, q: q - aj * u - cj * u * u,
                       bc_type=list(types), bc_value=[jx(ctx, v) for v in vals])
        with jax.disable_jit():
            if cold:
                U, it = M.solver_nonlinear(eq, jx(ctx, s))
            else:
                U, it = M.solver_nonlinear(eq, jx(ctx, s), init=jx(ctx, U0), precond=True)
        U = flat(ctx, U)
        res = lambda W: fv_residual(N, hh, W, lambda u, v: 1.3, lambda i, u: s[i] - a * u - c * u * u, (types, vals), lambda v: 1.3)
        b0 = sum(x * x for x in res(list(U0)))
        b1 = sum(x * x for x in res(U))
        ctx.assume(b0 >= 1e-4)
        if int(it) < 50:
            ctx.le('residual-reduced', ctx.sqrt(b1) / ctx.sqrt(b0), 1e-5, 1e-6)
    return h


harness('C15', 'solve_nl_2x1x1', functions=['cfd.cfd_am.solver_nonlinear'], maxpaths=8, timeout=120,
        bounds='2 cells, one Newton step explored, every start, source, boundary value and coefficient in the box')(_nl_solve((2, 1, 1), (0, 1, 1, 1, 1, 1)))
harness('C15', 'solve_nl_cold', functions=['cfd.cfd_am.solver_nonlinear'], maxpaths=8, timeout=120,
        bounds='2 cells, default start (zero) and no preconditioner, one Newton step explored, every source, boundary value and coefficient in the box')(_nl_solve((1, 1, 2), (1, 1, 1, 1, 0, 1), True))
harness('C15', 'solve_nl_1x2x1', functions=['cfd.cfd_am.solver_nonlinear'], maxpaths=8, timeout=120,
        bounds='2 cells, one Newton step explored, every start, source, boundary value and coefficient in the box')(_nl_solve((1, 2, 1), (1, 1, 1, 0, 1, 1)))


# ------------------------------------------------------------------ C16
class Grid:
    """independent scalar-field arithmetic on a 3-D grid with ghost values"""

    def __init__(self, ctx, N, h, types, vals):
        self.N, self.h, self.types, self.vals = N, h, types, vals

    def ghost(self, f, s, p):
        """value beyond side s next to cell p"""
        v = self.vals[s](p) if callable(self.vals[s]) else self.vals[s]
        ax = s // 2
        if self.types[s] == 0:
            return 2 * v - f[p]
        # outward step h with slope v along the axis
        return f[p] + (self.h[ax] if s % 2 else -self.h[ax]) * v

    def at(self, f, p, ax, k):
        """value k steps along ax from p, one ghost layer (repeated beyond)"""
        q = p[ax] + k
        if 0 <= q < self.N[ax]:
            r = list(p)
            r[ax] = q
            return f[tuple(r)]
        s = 2 * ax + (1 if q >= self.N[ax] else 0)
        r = list(p)
        r[ax] = self.N[ax] - 1 if s % 2 else 0
        return self.ghost(f, s, tuple(r))


def fdict(N, a, comp=0):
    return {p: a[p + (comp,)] for p in cells(N)}


def op_setup(ctx, N, types, comps=1):
    from jax_am.cfd import cfd_am as M
    hh = [ctx.real(f'h{i}', 0.5, 2.0) for i in range(3)]
    f = ctx.reals('f', tuple(N) + (comps,), -1, 1)
    vals = [ctx.real(f'v{s}', -1, 1) for s in range(6)] if types is not None else None
    BCs = [list(types), [jx(ctx, v) for v in vals]] if types is not None else None
    ty = list(types) if types is not None else [1] * 6
    vv = vals if types is not None else [0.0] * 6
    return M, hh, jx(ctx, np.array(hh)), f, BCs, Grid(ctx, N, hh, ty, vv)


def _gradient(N, types):
    def h(ctx):
        M, hh, dX, f, BCs, G = op_setup(ctx, N, types)
        g = ctx.terms(M.gradient(jx(ctx, f), dX) if BCs is None else M.gradient(jx(ctx, f), dX, BCs))
        F_ = fdict(N, f)
        want = [[(G.at(F_, p, a, 1) - G.at(F_, p, a, -1)) / (2 * hh[a]) for a in range(3)] for p in cells(N)]
        ctx.eq('central-difference', g.reshape(-1, 3), want, 1e-7)
    return h


def _laplace(N, types, scalar):
    def h(ctx):
        M, hh, dX, f, BCs, G = op_setup(ctx, N, types)
        fj = jx(ctx, f)
        if scalar:
            mu, mf = 1.7, None
        else:
            mf = [ctx.reals(f'm{a}', tuple(n + (a == i) for i, n in enumerate(N)) + (1,), 0.5, 2) for a in range(3)]
            mu = [jx(ctx, x) for x in mf]
        gc = M.get_GC_values(fj, BCs, dX) if BCs is not None else None
        r = ctx.terms(M.laplace(fj, gc, mu, dX, BCs)).reshape(-1)
        F_ = fdict(N, f)
        want = []
        for p in cells(N):
            t = 0.0
            for a in range(3):
                up, lo = G.at(F_, p, a, 1) - F_[p], F_[p] - G.at(F_, p, a, -1)
                q = list(p)
                q[a] += 1
                m1 = 1.7 if scalar else mf[a][tuple(q) + (0,)]
                m0 = 1.7 if scalar else mf[a][p + (0,)]
                t = t + (m1 * up - m0 * lo) / hh[a] * area(hh, a)
            want.append(t)
        ctx.eq('diffusion', r, want, 1e-7)
        if types is None:
            ctx.eq('conserved' if not scalar else 'conserved-scalar', sum(list(r[1:]), r[0]), 0.0, 1e-7)
    return h


def _facevel(N, types):
    def h(ctx):
        from jax_am.cfd import cfd_am as M
        hh = [ctx.real(f'h{i}', 0.5, 2.0) for i in range(3)]
        dX = jx(ctx, np.array(hh))
        f = ctx.reals('f', tuple(N) + (3,), -1, 1)
        fj = jx(ctx, f)
        BCs = None
        ty, vals = [1] * 6, None
        if types is not None:
            ty = list(types)
            vals = [ctx.reals(f'v{s}', (3,), -1, 1) if ty[s] != 2 else ctx.reals(f'v{s}', (N[0], N[1], 1, 3), -1, 1) for s in range(6)]
            BCs = [ty, [jx(ctx, v) for v in vals]]
        out = M.get_face_vels(fj, dX, BCs) if BCs is not None else M.get_face_vels(fj, dX)
        for a in range(3):
            t2 = [(0 if a == 2 else 1) if t == 2 else t for t in ty]
            def val(s, a=a):
                if vals is None:
                    return 0.0
                if ty[s] == 2:
                    return lambda p: vals[s][p[0], p[1], 0, a]
                return vals[s][a]
            G = Grid(ctx, N, hh, t2, [val(s) for s in range(6)])
            Fa = fdict(N, f, a)
            shape = tuple(n + (i == a) for i, n in enumerate(N))
            want = []
            for p in cells(shape):
                lo = list(p)
                lo[a] -= 1
                if lo[a] >= 0:
                    q = tuple(lo)
                    want.append((Fa[q] + G.at(Fa, q, a, 1)) / 2)
                else:
                    want.append((G.at(Fa, p, a, -1) + Fa[p]) / 2)
            ctx.eq(f'face-velocity-{"xyz"[a]}', ctx.terms(out[a]).reshape(-1), want, 1e-7)
            if 2 not in ty:
                one = [ty, [jx(ctx, np.asarray(v[a])) for v in vals]] if types is not None else None
                got = M.get_face_vel_component(fj[:, :, :, [a]], dX, axis=a, BCs=one)
                ctx.eq(f'one-component-{"xyz"[a]}', ctx.terms(got).reshape(-1), want, 1e-7)
            # a wall with prescribed value: the face carries exactly that value
            if types is not None:
                arr = ctx.terms(out[a])
                for s in (2 * a, 2 * a + 1):
                    if t2[s] == 0:
                        sl = [slice(None)] * 3
                        sl[a] = -1 if s % 2 else 0
                        face = arr[tuple(sl)].reshape(-1)
                        w = [val(s)(p) if callable(val(s)) else val(s) for p in side_cells(N, s)]
                        ctx.eq('wall-value', face, w, 1e-7)
    return h


def _advect(N, types, theta):
    def h(ctx):
        M, hh, dX, f, BCs, G = op_setup(ctx, N, types)
        vel = [ctx.reals('uvw'[a], tuple(n + (i == a) for i, n in enumerate(N)) + (1,), -1, 1) for a in range(3)]
        kw = {} if theta is None else dict(theta=theta)
        th = 0.125 if theta is None else theta
        if BCs is not None:
            kw['BCs'] = BCs
        r = ctx.terms(M.div(jx(ctx, f), [jx(ctx, v) for v in vel], dX, **kw)).reshape(-1)
        F_ = fdict(N, f)

        def face(p, a):
            """value on the lower face of cell position p along a (p[a] may equal N[a])"""
            u = vel[a][p + (0,)]
            base = list(p)
            off = 0
            if p[a] == N[a]:
                base[a] -= 1
                off = 1
            b = tuple(base)
            L1, R1 = G.at(F_, b, a, off - 1), G.at(F_, b, a, off)
            L2, R2 = G.at(F_, b, a, off - 2), G.at(F_, b, a, off + 1)
            # cells beyond the ghost layer repeat the ghost value (handled by Grid.at)
            upw = ctx.where(u >= 0, 1.5 * L1 - 0.5 * L2, 1.5 * R1 - 0.5 * R2)
            return u * (th * 0.5 * (L1 + R1) + (1 - th) * upw)
        want, bnd = [], 0.0
        for p in cells(N):
            t = 0.0
            for a in range(3):
                q = list(p)
                q[a] += 1
                t = t + (face(tuple(q), a) - face(p, a)) / hh[a]
                if p[a] == 0:
                    bnd = bnd - face(p, a) / hh[a]
                if p[a] == N[a] - 1:
                    bnd = bnd + face(tuple(q), a) / hh[a]
            want.append(t)
        ctx.eq('flux-divergence', r, want, 1e-7)
        if len(want) <= 3:
            ctx.eq('conservative', sum(list(r[1:]), r[0]), bnd, 1e-7)
    return h


def _advect_vector(N):
    """every component of a vector field is carried like a scalar"""
    def h(ctx):
        M, hh, dX, f, BCs, G = op_setup(ctx, N, None, comps=3)
        vel = [ctx.reals('uvw'[a], tuple(n + (i == a) for i, n in enumerate(N)) + (1,), -1, 1) for a in range(3)]
        vj = [jx(ctx, v) for v in vel]
        r = ctx.terms(M.div(jx(ctx, f), vj, dX))
        for c in range(3):
            one = ctx.terms(M.div(jx(ctx, f[:, :, :, [c]]), vj, dX))
            ctx.eq(f'component-{c}', r[..., c].reshape(-1), one.reshape(-1), 1e-9)
    return h


def _advect_const(N):
    """a uniform field in a divergence-free discrete flow is not changed"""
    def h(ctx):
        M, hh, dX, f, BCs, G = op_setup(ctx, N, None)
        c = ctx.real('c', -1, 1)
        vel = [ctx.reals('uvw'[a], tuple(n + (i == a) for i, n in enumerate(N)) + (1,), -1, 1) for a in range(3)]
        fc = np.full(tuple(N) + (1,), c, dtype=object if ctx.sym else float)
        r = ctx.terms(M.div(jx(ctx, fc), [jx(ctx, v) for v in vel], dX)).reshape(-1)
        want = []
        for p in cells(N):
            t = 0.0
            for a in range(3):
                q = list(p)
                q[a] += 1
                t = t + (vel[a][tuple(q) + (0,)] - vel[a][p + (0,)]) / hh[a]
            want.append(c * t)
        ctx.eq('uniform-field', r, want, 1e-7)
    return h


OB = 'grid {}, boundary types {}, every field, boundary value and spacing in the boxes'
for _N, _t in (((2, 1, 3), None), ((2, 2, 2), (0, 1, 1, 0, 0, 0)), ((1, 3, 2), (1,) * 6)):
    _nm = 'x'.join(map(str, _N))
    harness('C16', f'gradient_{_nm}', functions=['cfd.cfd_am.gradient', 'cfd.cfd_am.get_GC_values', 'cfd.cfd_am.ghost_cell'], bounds=OB.format(_N, _t))(_gradient(_N, _t))
    harness('C16', f'laplace_{_nm}', functions=['cfd.cfd_am.laplace'], bounds=OB.format(_N, _t))(_laplace(_N, _t, True))
    harness('C16', f'laplace_var_{_nm}', functions=['cfd.cfd_am.laplace'], bounds=OB.format(_N, _t))(_laplace(_N, _t, False))
for _N, _t in (((2, 1, 3), None), ((2, 2, 2), (0, 1, 1, 0, 0, 0)), ((1, 3, 2), (0, 0, 0, 0, 0, 2)), ((2, 2, 1), (1, 0, 0, 1, 0, 2))):
    harness('C16', 'facevel_' + 'x'.join(map(str, _N)), functions=['cfd.cfd_am.get_face_vels', 'cfd.cfd_am.get_face_vel_component'], bounds=OB.format(_N, _t))(_facevel(_N, _t))
for _N, _t, _th in (((3, 1, 1), None, None), ((1, 3, 1), (1, 1, 0, 1, 1, 1), None), ((1, 1, 3), (1, 1, 1, 1, 1, 0), 0.5), ((2, 2, 1), None, None),
                    ((2, 1, 2), (0, 1, 1, 1, 1, 0), None), ((4, 1, 1), (0, 0, 1, 1, 1, 1), 0.25)):
    harness('C16', 'advect_' + 'x'.join(map(str, _N)), functions=['cfd.cfd_am.div'], timeout=120,
            bounds=OB.format(_N, _t) + ', every face velocity of either sign')(_advect(_N, _t, _th))
for _N in ((2, 2, 2), (3, 1, 2)):
    harness('C16', 'uniform_' + 'x'.join(map(str, _N)), functions=['cfd.cfd_am.div'], bounds=f'grid {_N}, every uniform value and face velocity')(_advect_const(_N))
harness('C16', 'advect_vector_2x2x1', functions=['cfd.cfd_am.div'], bounds='grid 2x2x1, every vector field and face velocity')(_advect_vector((2, 2, 1)))
