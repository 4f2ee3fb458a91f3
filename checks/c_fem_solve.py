"""C05 Dirichlet solve, C06 Lagrange multipliers / periodic, C07 implicit differentiation."""
import numpy as np
from vsym.ctx import harness
from checks import femlib as F
from checks.c_fem_weak import oracle_cells, oracle_face, face_list, zeros


def tensor_of(c, k):
    """flux (k_cell + c * trace-ish) * g, one expression for code and oracle"""
    def f(g, i, d, kk):
        s = g[0][0] + g[len(g) - 1][len(g[0]) - 1]
        return (kk + c * s) * g[i][d]
    return f


class Setup:
    """A problem with symbolic coefficients, boundary values, traction and source."""

    def __init__(self, ctx, et='TRI3', n=(1, 1), vec=1, nonlinear=False, two_groups=True, periodic=False, csize=0.01, params=False):
        import jax.numpy as jnp
        from jax_am.fem.core import FEM
        self.ctx, self.et, self.n, self.vec = ctx, et, n, vec
        pts, cells = F.grid(et, n)
        self.pts, self.cells = pts, cells
        d = F.DIM[et]
        self.d = d
        g = self.g = ctx.reals('g', (3,), -1, 1)
        t = self.t = ctx.reals('t', (2,), -1, 1)
        k = self.k = ctx.reals('k', (len(cells),), 0.8, 1.2)
        c = self.c = ctx.real('c', 0.0, csize) if nonlinear else 0.0
        gj = [ctx.jax(np.asarray(x)) for x in g]
        tj = [ctx.jax(np.asarray(x)) for x in t]
        cj = ctx.jax(np.asarray(c)) if nonlinear else 0.0
        L = self.L = n

        class P(FEM):
            def get_tensor_map(self):
                def f(u_grad, kk):
                    s = u_grad[0, 0] + u_grad[vec - 1, d - 1]
                    return (kk + cj * s) * u_grad
                return f

            def set_params(self, p):
                self.internal_vars = {'laplace': [jnp.repeat(jnp.asarray(p)[:, None], self.num_quads, axis=1)]}

        lo = lambda ax: (lambda x: jnp.isclose(x[ax], 0., atol=1e-5))
        hi = lambda ax: (lambda x: jnp.isclose(x[ax], float(L[ax]), atol=1e-5))
        locs, vecs, vals = [lo(0)], [0], [lambda x: gj[0] + gj[1] * x[1]]
        want = {}
        if periodic == 2:
            # both components periodic: component 0 is prescribed at the origin edge only
            locs = [lambda x: jnp.isclose(x[0], 0., atol=1e-5) & jnp.isclose(x[1], 0., atol=1e-5)]
        for i in range(len(pts)):
            if abs(pts[i][0]) < 1e-9 and (periodic != 2 or abs(pts[i][1]) < 1e-9):
                want[(i, 0)] = g[0] + g[1] * float(pts[i][1])
        if two_groups and vec > 1:
            locs.append(lo(0) if not periodic else (lambda x: jnp.isclose(x[0], float(L[0]), atol=1e-5) & jnp.isclose(x[1], 0., atol=1e-5)))
            vecs.append(1)
            vals.append(lambda x: gj[2] + 0. * x[0])
            for i in range(len(pts)):
                if abs(pts[i][0] - (0 if not periodic else L[0])) < 1e-9 and (not periodic or abs(pts[i][1]) < 1e-9):
                    want[(i, 1)] = g[2]
        elif two_groups and not periodic:
            # a single corner point on the right
            locs.append(lambda x: jnp.isclose(x[0], float(L[0]), atol=1e-5) & jnp.isclose(x[1], 0., atol=1e-5))
            vecs.append(0)
            vals.append(lambda x: gj[2] + 0. * x[0])
            for i in range(len(pts)):
                if abs(pts[i][0] - L[0]) < 1e-9 and abs(pts[i][1]) < 1e-9:
                    want[(i, 0)] = g[2]
        if vec > 2:
            locs.append(lo(0))
            vecs.append(2)
            vals.append(lambda x: gj[1] - x[1])
            for i in range(len(pts)):
                if abs(pts[i][0]) < 1e-9:
                    want[(i, 2)] = g[1] - float(pts[i][1])
        self.want = want
        per = None
        self.pairs = []
        if periodic:
            def mapping(x):
                return x + np.array([0., float(L[1])] + [0.] * (d - 2))
            comps = [vec - 1] if periodic != 2 else [vec - 1, 0]
            m = len(comps)
            per = [[lo(1)] * m, [hi(1)] * m, [mapping] * m, comps]
            for i in range(len(pts)):
                for j in range(len(pts)):
                    if abs(pts[i][1]) < 1e-9 and abs(pts[j][1] - L[1]) < 1e-9 and \
                            all(abs(pts[i][q] - pts[j][q]) < 1e-9 for q in range(d) if q != 1):
                        self.pairs.extend((i, j, q) for q in comps)
        neumann = [[hi(0)], [lambda x: jnp.stack([tj[0] + 0. * x[0]] * vec)]]
        src = lambda x: jnp.stack([tj[1] + 0. * x[0]] * vec)
        self.prob = P(F.make_mesh(pts, cells, et), vec=vec, dim=d, ele_type=et, dirichlet_bc_info=[locs, vecs, vals],
                      neumann_bc_info=neumann, source_info=src, periodic_bc_info=per)
        self.kj = ctx.jax(k)
        self.prob.set_params(self.kj)

    def residual(self, u, k=None):
        """independent weak form at nodal field u"""
        k = self.k if k is None else k
        c, t, vec, d = self.c, self.t, self.vec, self.d

        def tensor(g, cc, q):
            s = g[0][0] + g[vec - 1][d - 1]
            return [[(k[cc] + c * s) * x for x in r] for r in g]
        R = oracle_cells(self.ctx, self.prob, u, self.cells, tensor=tensor)
        R = R - oracle_face(self.ctx, self.prob, u, self.pts, self.cells, face_list(self.et, self.pts, self.cells, 0, float(self.L[0])),
                            lambda x, v: [t[0]] * vec)
        N = np.asarray(self.prob.shape_vals)
        W = self.ctx.terms(self.prob.JxW)
        for cc in range(len(self.cells)):
            for q in range(N.shape[0]):
                for a in range(N.shape[1]):
                    for i in range(vec):
                        n_ = self.cells[cc][a]
                        R[n_, i] = R[n_, i] - t[1] * float(N[q, a]) * W[cc, q]
        return R

    def tangent(self, u, w):
        """derivative of the residual at u along w (exact: the residual is quadratic)"""
        return (self.residual(u + w) - self.residual(u - w)) * 0.5

    def constrained(self, u):
        """residual on free dofs, u - prescribed value on constrained ones"""
        R = self.residual(u)
        for (i, v), val in self.want.items():
            R[i, v] = u[i, v] - val
        return R

    def free(self):
        return [(i, v) for i in range(len(self.pts)) for v in range(self.vec) if (i, v) not in self.want]


def tobj(ctx, sol):
    a = ctx.terms(sol)
    return a if a.dtype == object else a.astype(float)


def _linear(et, n, vec, petsc, precond):
    def h(ctx):
        from jax_am.fem.solver import solver
        s = Setup(ctx, et, n, vec)
        sol = tobj(ctx, solver(s.prob, linear=True, precond=precond, use_petsc=petsc))
        ctx.true('shape', sol.shape == (len(s.pts), vec))
        ctx.eq('prescribed-values', [sol[i, v] for (i, v) in s.want], list(s.want.values()), 2e-6)
        R = s.residual(sol)
        ctx.eq('equilibrium', [R[i, v] for i, v in s.free()], [0.0 for _ in s.free()], 2e-6)
    return h


def _newton(et, n, vec, petsc, guess, nonlinear=True, ksolve=4):
    def h(ctx):
        from jax_am.fem.solver import solver
        ctx.max_solves = ksolve
        s = Setup(ctx, et, n, vec, nonlinear=nonlinear)
        kw = {}
        if guess:
            kw['initial_guess'] = ctx.jax(ctx.reals('u0', (len(s.pts), vec), -1, 1))
        sol = tobj(ctx, solver(s.prob, linear=False, use_petsc=petsc, **kw))
        # the loop leaves only when the norm of the constrained residual is below 1e-6
        r = s.constrained(sol)
        ctx.eq('prescribed-values-at-exit', [r[d] for d in s.want], [0.0 for _ in s.want], 2.2e-6)
        ctx.eq('equilibrium-at-exit', [r[d] for d in s.free()], [0.0 for _ in s.free()], 2.2e-6)
    return h


SFN = ['fem.solver.solver', 'fem.solver.solver_row_elimination', 'fem.solver.apply_bc_vec', 'fem.solver.get_A_fn', 'fem.solver.row_elimination',
       'fem.solver.linear_incremental_solver', 'fem.solver.linear_guess_solve', 'fem.solver.assign_bc', 'fem.solver.copy_bc',
       'fem.solver.jacobi_preconditioner', 'fem.core.FEM.Dirichlet_boundary_conditions']
SB = ('coefficients, boundary values, traction and source symbolic; the inner iterative solver is a contract (returns x with A x = b), '
      'a dense direct solve in replays), solution components within [-100,100]')
for _et, _n, _v in (('TRI3', (2, 1), 1), ('TRI3', (1, 2), 2), ('QUAD4', (2, 1), 2), ('TET4', (1, 1, 1), 3), ('HEX8', (1, 1, 1), 3)):
    for _p in (False, True):
        harness('C05', f'linear_{_et}_{_v}_{"petsc" if _p else "jax"}', functions=SFN + (['fem.solver.petsc_solve'] if _p else ['fem.solver.jax_solve']),
                weight=3, bounds=f'{_et} {_n} cells, {_v} components; ' + SB)(_linear(_et, _n, _v, _p, True))
harness('C05', 'linear_noprecond', functions=SFN, bounds='TRI3 (2,1) cells, preconditioner off; ' + SB)(_linear('TRI3', (2, 1), 1, False, False))
for _p in (False, True):
    for _g in (False, True):
        nm = f'newton_{"petsc" if _p else "jax"}_{"guess" if _g else "cold"}'
        harness('C05', nm, functions=SFN, weight=4, maxpaths=12,
                bounds='TRI3 (1,1) cells, quadratic flux with c in [0,0.01], up to 4 linear solves; ' + SB)(
            _newton('TRI3', (1, 1), 1, _p, _g, True))
    harness('C05', f'newton_lin_{"petsc" if _p else "jax"}', functions=SFN, weight=2, maxpaths=12,
            bounds='TRI3 (2,1) cells x2 components, linear flux through the Newton solver, up to 3 linear solves; ' + SB)(
        _newton('TRI3', (2, 1), 2, _p, False, False, 3))


def _rebound(et, n, vec, petsc, linear):
    """the prescribed values are replaced between two solves (time-dependent boundary conditions): the second solve honours the new ones only"""
    def h(ctx):
        import jax.numpy as jnp
        from jax_am.fem.solver import solver
        ctx.max_solves = 6
        s = Setup(ctx, et, n, vec)
        w = ctx.reals('w', (2,), -1, 1)
        wj = [ctx.jax(np.asarray(x)) for x in w]
        hi = lambda x: jnp.isclose(x[0], float(n[0]), atol=1e-5)
        lo = lambda x: jnp.isclose(x[0], 0., atol=1e-5)
        first = tobj(ctx, solver(s.prob, linear=True, use_petsc=petsc))
        ctx.eq('first-prescribed', [first[i, v] for (i, v) in s.want], list(s.want.values()), 2e-6)
        locs, vecs, vals = [hi], [0], [lambda x: wj[0] + wj[1] * x[1]]
        s.want = {(i, 0): w[0] + w[1] * float(q[1]) for i, q in enumerate(s.pts) if abs(q[0] - n[0]) < 1e-9}
        for c in range(1, vec):
            locs, vecs, vals = locs + [lo], vecs + [c], vals + [lambda x: wj[1] + 0. * x[0]]
            s.want.update({(i, c): w[1] for i, q in enumerate(s.pts) if abs(q[0]) < 1e-9})
        s.prob.update_Dirichlet_boundary_conditions([locs, vecs, vals])
        sol = tobj(ctx, solver(s.prob, linear=linear, use_petsc=petsc))
        ctx.eq('prescribed-values', [sol[i, v] for (i, v) in s.want], list(s.want.values()), 2e-6)
        R = s.residual(sol)
        ctx.eq('equilibrium', [R[i, v] for i, v in s.free()], [0.0 for _ in s.free()], 2.2e-6)
    return h


for _et, _n, _v, _p, _l in (('TRI3', (1, 1), 2, False, True), ('QUAD4', (2, 1), 1, True, True)):
    harness('C05', f'changed_bc_{_et}', functions=SFN + ['fem.core.FEM.update_Dirichlet_boundary_conditions'], weight=4,
            bounds=f'{_et} {_n} cells, {_v} components, boundary conditions replaced between two solves; ' + SB)(_rebound(_et, _n, _v, _p, _l))


# ---------------------------------------------------------------- C06
def _multiplier(et, n, vec, petsc, linear, nonlinear=False, ksolve=3, eps=None, periodic=1):
    def h(ctx):
        from jax_am.fem.solver import solver
        ctx.max_solves = ksolve
        s = Setup(ctx, et, n, vec, nonlinear=nonlinear, periodic=periodic)
        if eps is not None:
            s.prob.p_num_eps = eps
        sol = tobj(ctx, solver(s.prob, linear=linear, use_petsc=petsc))
        # Newton stops when the norm of the whole augmented residual is below 1e-6
        tol = 2e-6 if linear else 5e-6
        ctx.eq('prescribed-values', [sol[i, v] for (i, v) in s.want], list(s.want.values()), tol)
        ctx.eq('periodic-pairs', [sol[i, v] for i, j, v in s.pairs], [sol[j, v] for i, j, v in s.pairs], tol)
        R = s.residual(sol)
        tied = {(i, v) for i, j, v in s.pairs} | {(j, v) for i, j, v in s.pairs}
        fr = [d for d in s.free() if d not in tied]
        ctx.eq('equilibrium-free', [R[i, v] for i, v in fr], [0.0 for _ in fr], tol)
        pr = [(i, j, v) for i, j, v in s.pairs if (i, v) not in s.want and (j, v) not in s.want]
        ctx.eq('equilibrium-pairs', [R[i, v] + R[j, v] for i, j, v in pr], [0.0 for _ in pr], 2 * tol)
    return h


LFN = ['fem.solver.solver_lagrange_multiplier', 'fem.solver.get_A_fn_and_res_aug', 'fem.solver.compute_residual_lm', 'fem.solver.aug_dof_w_bc',
       'fem.solver.aug_dof_w_zero_bc', 'fem.solver.linear_incremental_solver_lm', 'fem.solver.linear_guess_solve_lm',
       'fem.core.FEM.periodic_boundary_conditions']
for _p in (False, True):
    _s = 'petsc' if _p else 'jax'
    harness('C06', f'linear_tri3_{_s}', functions=LFN, weight=2, bounds='TRI3 (2,2) cells x2 components, periodic in y on component 1; ' + SB)(
        _multiplier('TRI3', (2, 2), 2, _p, True))
    harness('C06', f'linear_quad4_{_s}', functions=LFN, weight=2, bounds='QUAD4 (1,2) cells x2 components; ' + SB)(
        _multiplier('QUAD4', (1, 2), 2, _p, True, eps=0.5))
    harness('C06', f'linear_two_groups_{_s}', functions=LFN, weight=2, bounds='TRI3 (2,1) cells x2 components, both components periodic in y (two groups); ' + SB)(
        _multiplier('TRI3', (2, 1), 2, _p, True, periodic=2))
    harness('C06', f'newton_two_groups_{_s}', functions=LFN, weight=3, bounds='TRI3 (1,1) cells x2 components, both components periodic, linear flux through the Newton loop; ' + SB)(
        _multiplier('TRI3', (1, 1), 2, _p, False, periodic=2))
    harness('C06', f'linear_hex8_{_s}', functions=LFN, weight=3, bounds='HEX8 1 cell x2 components; ' + SB)(
        _multiplier('HEX8', (1, 1, 1), 2, _p, True))
    harness('C06', f'newton_lin_{_s}', functions=LFN, weight=3, bounds='TRI3 (1,1) cells x2 components, linear flux through the Newton loop; ' + SB)(
        _multiplier('TRI3', (1, 1), 2, _p, False))
    harness('C06', f'newton_{_s}', functions=LFN, weight=4, bounds='TRI3 (1,1) cells x2 components, quadratic flux, up to 4 linear solves; ' + SB)(
        _multiplier('TRI3', (1, 1), 2, _p, False, True))


# ---------------------------------------------------------------- C07
def _adjoint(et, n, vec, petsc, nonlinear=False, later=False):
    """v . du/dp by the adjoint route equals the forward sensitivity"""
    def h(ctx):
        import jax
        from jax_am.fem.solver import ad_wrapper, implicit_vjp
        ctx.max_solves = 8
        s = Setup(ctx, et, n, vec, nonlinear=nonlinear, csize=0.3)
        N = len(s.pts)
        v = ctx.reals('v', (N, vec), -1, 1)
        dk = ctx.reals('dk', (len(s.cells),), -1, 1)
        if nonlinear:
            # any state: the adjoint formula is evaluated at the given solution
            u = ctx.reals('u', (N, vec), -1, 1)
            if later:
                s.prob.set_params(ctx.jax(ctx.reals('k2', (len(s.cells),), 0.8, 1.2)))
            val = implicit_vjp(s.prob, ctx.jax(u), s.kj, ctx.jax(v), petsc)
        else:
            f = ad_wrapper(s.prob, linear=True, use_petsc=petsc)
            sol, back = jax.vjp(f, s.kj)
            if later:
                # the problem object is used for another parameter set in between
                s.prob.set_params(ctx.jax(ctx.reals('k2', (len(s.cells),), 0.8, 1.2)))
            val, = back(ctx.jax(v))
            u = tobj(ctx, sol)
        gp = ctx.terms(val)
        sens, link = sensitivity(ctx, s, u, dk)
        link()
        lhs = sum(gp[i] * dk[i] for i in range(len(dk)))
        rhs = sum(v[i, j] * sens[i, j] for i in range(N) for j in range(vec))
        ctx.eq('adjoint-gradient', lhs, rhs, 1e-5)
    return h


def sensitivity(ctx, s, u, dk):
    """forward sensitivity du/dk.dk: tangent(w) + dR/dk.dk = 0 on free dofs, 0 on fixed ones"""
    N, vec = len(s.pts), s.vec
    dR = s.residual(u, s.k + dk) - s.residual(u, s.k)        # the residual is affine in k
    if not ctx.sym:
        fr = s.free()
        A = np.zeros((len(fr), len(fr)))
        b = np.array([dR[i, v] for i, v in fr], dtype=float)
        for c, (j, w) in enumerate(fr):
            e = np.zeros((N, vec))
            e[j, w] = 1.0
            T = s.tangent(u, e)
            A[:, c] = [T[i, v] for i, v in fr]
        x = np.linalg.solve(A, -b)
        out = np.zeros((N, vec))
        for (i, v), y in zip(fr, x):
            out[i, v] = y
        return out, lambda: None
    from vsym.linsolve import contract_solve
    fr = s.free()

    def mat(x):
        w = zeros(N, vec)
        for (i, v), y in zip(fr, x):
            w[i, v] = y
        T = s.tangent(u, w)
        return np.array([T[i, v] for i, v in fr], dtype=object)
    earlier = list(ctx.solves)
    x = contract_solve(mat, np.array([-1.0 * dR[i, v] for i, v in fr], dtype=object), tag='s')
    sres = ctx.solves[-1][1]
    w = zeros(N, vec)
    for (i, v), y in zip(fr, x):
        w[i, v] = y

    def link():
        """consequences of the contracts, stated for the solver: x.(A z - b) = 0"""
        from vsym import poly as P
        wf = w.reshape(-1)
        for z, r in earlier:
            if len(z) == len(wf):
                ctx.contract(P.cmp('eq', sum((P.lift(a) * P.lift(b) for a, b in zip(wf, r)), P.lift(0))))
                zz = z.reshape(N, vec)
                ctx.contract(P.cmp('eq', sum((P.lift(zz[i, v]) * P.lift(q) for (i, v), q in zip(fr, sres)), P.lift(0))))
    return w, link


def _jvp(et, n, vec, later=False):
    def h(ctx):
        import jax
        from jax_am.fem.autodiff_utils import ad_wrapper_jvp
        s = Setup(ctx, et, n, vec)
        dk = ctx.reals('dk', (len(s.cells),), -1, 1)
        if later:
            s.prob.set_params(ctx.jax(ctx.reals('k2', (len(s.cells),), 0.8, 1.2)))
        f = ad_wrapper_jvp(s.prob, linear=True, use_petsc=False)
        sol, dsol = jax.jvp(f, (s.kj,), (ctx.jax(dk),))
        u, du = tobj(ctx, sol), tobj(ctx, dsol)
        ctx.true('shape', du.shape == u.shape)
        dR = s.residual(u, s.k + dk) - s.residual(u, s.k)
        T = s.tangent(u, du)
        fr = s.free()
        ctx.eq('tangent-equation', [T[i, v] + dR[i, v] for i, v in fr], [0.0 for _ in fr], 2e-6)
        ctx.eq('fixed-dofs', [du[i, v] for i, v in s.want], [0.0 for _ in s.want], 2e-6)
    return h


AFN = ['fem.solver.ad_wrapper', 'fem.solver.implicit_vjp', 'fem.solver.get_A_fn', 'fem.solver.apply_bc']
for _p in (False, True):
    _s = 'petsc' if _p else 'jax'
    for _et, _n, _v in (('TRI3', (2, 1), 1), ('TRI3', (1, 1), 2), ('QUAD4', (2, 1), 1), ('TET4', (1, 1, 1), 1)):
        harness('C07', f'vjp_{_et}_{_v}_{_s}', functions=AFN, weight=2, bounds=f'{_et} {_n} x{_v}, per-cell parameters, all cotangents and directions; ' + SB)(
            _adjoint(_et, _n, _v, _p))
    harness('C07', f'vjp_state_{_s}', functions=AFN, weight=2, bounds='TRI3 (1,1), quadratic flux, any state; ' + SB)(_adjoint('TRI3', (1, 1), 1, _p, True))
    harness('C07', f'vjp_later_{_s}', functions=AFN, weight=2, bounds='QUAD4 (2,1), the problem is given other parameters between forward and backward pass; ' + SB)(
        _adjoint('QUAD4', (2, 1), 1, _p, later=True))
    harness('C07', f'vjp_state_later_{_s}', functions=AFN, weight=2, bounds='TRI3 (1,1), quadratic flux, any state, problem left with other parameters; ' + SB)(
        _adjoint('TRI3', (1, 1), 1, _p, True, later=True))
    harness('C07', f'vjp_state2_{_s}', functions=AFN, weight=2, bounds='TRI3 (1,1) x2, quadratic flux, any state; ' + SB)(_adjoint('TRI3', (1, 1), 2, _p, True))
for _et, _n, _v in (('TRI3', (2, 1), 1), ('TRI3', (1, 1), 2), ('QUAD4', (2, 1), 2)):
    harness('C07', f'jvp_{_et}_{_v}', functions=['fem.autodiff_utils.ad_wrapper_jvp', 'fem.autodiff_utils.implicit_jvp_helper'], weight=2,
            bounds=f'{_et} {_n} x{_v}; ' + SB)(_jvp(_et, _n, _v))
harness('C07', 'jvp_other_params', functions=['fem.autodiff_utils.ad_wrapper_jvp', 'fem.autodiff_utils.implicit_jvp_helper'], weight=2,
        bounds='TRI3 (2,1), problem holding other parameters beforehand; ' + SB)(_jvp('TRI3', (2, 1), 1, later=True))
