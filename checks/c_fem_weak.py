"""C03 the assembled residual is the weak form; C04 the tangent is its derivative."""
import numpy as np
from vsym.ctx import harness
from checks import femlib as F


def zeros(n, v):
    R = np.empty((n, v), dtype=object)
    R[:] = 0.0
    return R


def nodal(ctx, name, n, v, lo=-1, hi=1):
    return ctx.reals(name, (n, v), lo, hi)


def cell_quad(prob, u, c, q, cells):
    """value and gradient of the interpolant at quadrature point q of cell c"""
    N = np.asarray(prob.shape_vals)[q]
    G = prob.shape_grads[c, q]
    vec, dim = u.shape[1], prob.dim
    val = [sum(float(N[a]) * u[cells[c][a], i] for a in range(len(N))) for i in range(vec)]
    grad = [[sum(G[a, d] * u[cells[c][a], i] for a in range(len(N)) if not _zero(G[a, d])) for d in range(dim)] for i in range(vec)]
    return N, G, val, grad


def _zero(x):
    return isinstance(x, (float, np.floating)) and abs(x) < 1e-14


def oracle_cells(ctx, prob, u, cells, tensor=None, mass=None):
    """sum over cells and quadrature points of  sigma(grad u):grad v + m(u).v"""
    G_all = ctx.terms(prob.shape_grads)
    W = ctx.terms(prob.JxW)
    Nall = np.asarray(prob.shape_vals)
    nq, nn = Nall.shape
    vec, dim = u.shape[1], prob.dim
    R = zeros(len(prob.mesh.points), vec)
    for c in range(len(cells)):
        for q in range(nq):
            G = G_all[c, q]
            val = [sum(float(Nall[q, a]) * u[cells[c][a], i] for a in range(nn)) for i in range(vec)]
            grad = [[sum(u[cells[c][a], i] * G[a, d] for a in range(nn)) for d in range(dim)] for i in range(vec)]
            S = tensor(grad, c, q) if tensor else None
            m = mass(val, c, q) if mass else None
            for a in range(nn):
                for i in range(vec):
                    t = 0.0
                    if S is not None:
                        t = t + sum(S[i][d] * G[a, d] for d in range(dim)) * W[c, q]
                    if m is not None:
                        t = t + m[i] * float(Nall[q, a]) * W[c, q]
                    R[cells[c][a], i] = R[cells[c][a], i] + t
    return R


def dense(ctx, prob, n):
    """the matrix described by the (I, J, V) triplets, duplicates summed"""
    I, J = np.asarray(prob.I), np.asarray(prob.J)
    V = ctx.terms(prob.V).reshape(-1)
    M = np.empty((n, n), dtype=object)
    M[:] = 0.0
    assert len(I) == len(J) == len(V)
    for i, j, v in zip(I, J, V):
        M[int(i), int(j)] = M[int(i), int(j)] + v
    return M


def strip_problem(ctx, ncell, et='QUAD4', vec=1):
    from jax_am.fem.core import FEM

    class P(FEM):
        def get_tensor_map(self):
            return lambda g, k: k * g

        def get_mass_map(self):
            return lambda u, k: k * u

    pts, cells = F.grid(et, (ncell, 1))
    return P(F.make_mesh(pts, cells, et), vec=vec, dim=2, ele_type=et), pts, cells


def _batch(ncell, jac):
    """cells are processed in batches: no cell, node or coefficient may be lost,
    repeated or moved, whatever the number of cells"""
    def h(ctx):
        prob, pts, cells = strip_problem(ctx, ncell)
        nc, nq = len(cells), prob.num_quads
        u = nodal(ctx, 'u', len(pts), 1)
        k = ctx.reals('k', (nc,), 0.5, 2.0)
        m = ctx.reals('m', (nc,), -1.0, 1.0)
        K = np.repeat(np.asarray(k)[:, None], nq, axis=1)
        M = np.repeat(np.asarray(m)[:, None], nq, axis=1)
        iv = {'laplace': [ctx.jax(K)], 'mass': [ctx.jax(M)]}
        want = oracle_cells(ctx, prob, u, cells, tensor=lambda g, c, q: [[k[c] * x for x in r] for r in g],
                            mass=lambda v, c, q: [m[c] * x for x in v])
        if not jac:
            res = prob.compute_residual_vars(ctx.jax(u), **iv)
            ctx.eq('residual', res, want, 1e-8)
        else:
            res = prob.compute_newton_vars(ctx.jax(u), **iv)
            ctx.eq('residual-with-jacobian', res, want, 1e-8)
            D = dense(ctx, prob, len(pts))
            # linear problem: tangent applied to u is the residual
            got = [[sum(D[i, j] * u[j, 0] for j in range(len(pts)) if not _zero(D[i, j]))] for i in range(len(pts))]
            ctx.eq('tangent-times-u', got, want, 1e-8)
    return h


for _n in (1, 2, 19, 20, 21, 39, 45):
    harness('C03', f'batch_{_n}', functions=['fem.core.FEM.split_and_compute_cell', 'fem.core.FEM.compute_residual_vars'],
            weight=1 + _n / 15, tier='quick' if _n in (1, 2, 20, 21, 45) else 'thorough',
            bounds=f'{_n} QUAD4 cells, all nodal values and all per-cell coefficients symbolic in [-1,1]/[0.5,2]')(_batch(_n, False))
    harness('C04', f'batch_{_n}', functions=['fem.core.FEM.split_and_compute_cell', 'fem.core.FEM.compute_newton_vars'],
            weight=1 + _n / 15, tier='quick' if _n in (1, 2, 20, 21, 45) else 'thorough',
            bounds=f'{_n} QUAD4 cells, all nodal values and all per-cell coefficients symbolic')(_batch(_n, True))


# ---------------------------------------------------------------- full weak form
def tensor_nl(g, *_):
    """a nonlinear, unsymmetric polynomial flux, same expression for code and oracle"""
    vec, dim = len(g), len(g[0])
    tr = sum(g[i][i] for i in range(min(vec, dim)))
    return [[(2.0 + tr) * g[i][d] + (0.5 * g[d][i] if d < vec and i < dim else 0.0) + (i + 2 * d + 1) * 0.25 * tr
             for d in range(dim)] for i in range(vec)]


def full_problem(ctx, et, n, vec, face_syms, nonlinear=True, geo=None, cauchy=True):
    import jax.numpy as jnp
    from jax_am.fem.core import FEM
    d = F.DIM[et]

    def tensor(g):
        S = tensor_nl([[g[i, j] for j in range(d)] for i in range(vec)])
        return jnp.stack([jnp.stack([jnp.asarray(x) for x in r]) for r in S])

    class P(FEM):
        def get_tensor_map(self):
            return tensor

        def get_mass_map(self):
            return lambda u: 0.5 * u + (u * u if nonlinear else 0.)

    pts, cells = F.grid(et, n)
    if geo is not None:
        pts = geo(pts)
    L = n
    lo = lambda ax: (lambda x: jnp.isclose(x[ax], 0., atol=1e-5))
    hi = lambda ax: (lambda x: jnp.isclose(x[ax], float(L[ax]), atol=1e-5))
    t = face_syms
    neumann = [[lo(0), hi(0)], [lambda x: jnp.stack([t[0] * x[d - 1] + i for i in range(vec)]),
                                lambda x: jnp.stack([t[1] + x[1] * i for i in range(vec)])]]
    cauchy_info = [[lo(1), hi(1)], [lambda u: t[2] * u + u * u, lambda u: t[3] * u[::-1] * jnp.arange(1., vec + 1.)]] if cauchy else None
    src = lambda x: jnp.stack([t[4] * x[0] + i for i in range(vec)])
    prob = P(F.make_mesh(pts, cells, et), vec=vec, dim=d, ele_type=et, neumann_bc_info=neumann, cauchy_bc_info=cauchy_info,
             source_info=src)
    return prob, pts, cells, L


def face_list(et, pts, cells, ax, at):
    """faces whose vertices all have coordinate ax == at: (cell, sorted local vertices)"""
    from checks.c_fem_geom import REF_FACES
    out = []
    for c in range(len(cells)):
        for f in REF_FACES[et]:
            if all(abs(pts[cells[c][v]][ax] - at) < 1e-9 for v in f):
                out.append((c, f))
    return out


def oracle_face(ctx, prob, u, pts, cells, faces, load):
    """surface integral of load(x, u).v over listed faces; measure and shape values
    of each face come from the (separately decided) reference tables"""
    vec = u.shape[1]
    R = zeros(len(pts), vec)
    fi = [tuple(sorted(int(v) for v in f)) for f in np.asarray(prob.face_inds)]
    FV = np.asarray(prob.face_shape_vals)
    for c, f in faces:
        k = fi.index(f)
        _, ns = prob.get_face_shape_grads(np.array([[c, k]]))
        ns = ctx.terms(ns)[0]
        nn = FV.shape[2]
        for q in range(FV.shape[1]):
            x = [sum(float(FV[k, q, a]) * pts[cells[c][a], d] for a in range(nn)) for d in range(prob.dim)]
            uq = [sum(float(FV[k, q, a]) * u[cells[c][a], i] for a in range(nn)) for i in range(vec)]
            val = load(x, uq)
            for a in range(nn):
                if abs(FV[k, q, a]) < 1e-14:
                    continue
                for i in range(vec):
                    R[cells[c][a], i] = R[cells[c][a], i] + val[i] * float(FV[k, q, a]) * ns[q]
    return R


def oracle_full(ctx, prob, u, pts, cells, L, et, t, nonlinear=True, cauchy=True):
    vec, d = u.shape[1], prob.dim
    R = oracle_cells(ctx, prob, u, cells, tensor=tensor_nl,
                     mass=lambda v, c, q: [0.5 * x + (x * x if nonlinear else 0.) for x in v])
    if cauchy:
        R = R + oracle_face(ctx, prob, u, pts, cells, face_list(et, pts, cells, 1, 0.),
                            lambda x, v: [t[2] * w + w * w for w in v])
        R = R + oracle_face(ctx, prob, u, pts, cells, face_list(et, pts, cells, 1, float(L[1])),
                            lambda x, v: [t[3] * w * float(i + 1) for i, w in enumerate(v[::-1])])
    R = R - oracle_face(ctx, prob, u, pts, cells, face_list(et, pts, cells, 0, 0.),
                        lambda x, v: [t[0] * x[d - 1] + i for i in range(vec)])
    R = R - oracle_face(ctx, prob, u, pts, cells, face_list(et, pts, cells, 0, float(L[0])),
                        lambda x, v: [t[1] + x[1] * i for i in range(vec)])
    # body force
    xq = ctx.terms(prob.get_physical_quad_points())
    W = ctx.terms(prob.JxW)
    N = np.asarray(prob.shape_vals)
    for c in range(len(cells)):
        for q in range(N.shape[0]):
            for a in range(N.shape[1]):
                for i in range(vec):
                    R[cells[c][a], i] = R[cells[c][a], i] - (t[4] * xq[c, q, 0] + i) * float(N[q, a]) * W[c, q]
    return R


CASES = {'quad4_v1': ('QUAD4', (2, 2), 1), 'quad4_v2': ('QUAD4', (2, 1), 2), 'tri3_v2': ('TRI3', (1, 1), 2),
         'quad8_v1': ('QUAD8', (1, 1), 1), 'tet4_v3': ('TET4', (1, 1, 1), 3), 'hex8_v1': ('HEX8', (2, 1, 1), 1),
         'hex8_v3': ('HEX8', (1, 1, 1), 3), 'tri6_v1': ('TRI6', (1, 1), 1), 'tet10_v1': ('TET10', (1, 1, 1), 1)}


def _full(case, jac):
    et, n, vec = CASES[case]

    def h(ctx):
        t = ctx.reals('t', (5,), -1, 1)
        tj = [ctx.jax(np.asarray(x)) for x in t]
        prob, pts, cells, L = full_problem(ctx, et, n, vec, tj)
        u = nodal(ctx, 'u', len(pts), vec)
        want = oracle_full(ctx, prob, u, pts, cells, L, et, t)
        if not jac:
            res = prob.compute_residual(ctx.jax(u))
            ctx.eq('residual', res, want, 1e-7)
            return
        import jax
        res = prob.newton_update(ctx.jax(u))
        ctx.eq('residual-with-jacobian', res, want, 1e-7)
        nd = len(pts) * vec
        D = dense(ctx, prob, nd)
        # derivative of the oracle in a symbolic direction
        w = nodal(ctx, 'w', len(pts), vec)
        dR = directional(ctx, lambda v: oracle_full(ctx, prob, v, pts, cells, L, et, t), u, w)
        got = [[sum(D[n_ * vec + i, j] * w.reshape(-1)[j] for j in range(nd) if not _zero(D[n_ * vec + i, j])) for i in range(vec)]
               for n_ in range(len(pts))]
        ctx.eq('tangent-is-derivative', got, dR, 1e-6)
    return h


def directional(ctx, f, u, w):
    """exact derivative of the quadratic map f along w: (f(u+w) - f(u-w)) / 2"""
    a, b = f(u + w), f(u - w)
    return (a - b) * 0.5


for _c in CASES:
    heavy = _c in ('hex8_v3', 'tet4_v3', 'tet10_v1')
    harness('C03', f'full_{_c}', weight=6 if heavy else 3, tier='quick',
            functions=['fem.core.FEM.compute_residual', 'fem.core.FEM.compute_face', 'fem.core.FEM.compute_Neumann_integral_vars',
                       'fem.core.FEM.compute_body_force_by_fn', 'fem.core.FEM.get_laplace_kernel', 'fem.core.FEM.get_mass_kernel',
                       'fem.core.FEM.get_cauchy_kernel', 'fem.core.FEM.get_boundary_conditions_inds'],
            bounds=f'{CASES[_c]} structured mesh; every nodal field in [-1,1], every load coefficient in [-1,1]; quadratic flux, mass and Cauchy maps')(
        _full(_c, False))
    harness('C04', f'full_{_c}', weight=8 if heavy else 4, tier='quick',
            functions=['fem.core.FEM.newton_update', 'fem.core.FEM.compute_newton_vars', 'fem.core.FEM.compute_face'],
            bounds=f'{CASES[_c]} structured mesh; every nodal field and direction in [-1,1]; quadratic flux, mass and Cauchy maps')(
        _full(_c, True))


# ---------------------------------------------------------------- coefficient fields and traction data
def _vars(et, n, vec, jac, body=False, only=None):
    """two coefficient fields per kernel, given per quadrature point, and traction data per face point on two boundaries"""
    def h(ctx):
        import jax.numpy as jnp
        from jax_am.fem.core import FEM
        d = F.DIM[et]

        class P(FEM):
            def get_tensor_map(self):
                return lambda g, a, b=0.: a * g + b

            def get_mass_map(self):
                return lambda u, a, b=0.: a * u + b * u * u

            def get_body_map(self):
                return lambda u: 2.0 * u + 1.0

        if only == 'mass':
            del P.get_tensor_map
        if only == 'laplace':
            del P.get_mass_map
        pts, cells = F.grid(et, n)
        lo = lambda x: jnp.isclose(x[0], 0., atol=1e-5)
        hi = lambda x: jnp.isclose(x[0], float(n[0]), atol=1e-5)
        prob = P(F.make_mesh(pts, cells, et), vec=vec, dim=d, ele_type=et,
                 neumann_bc_info=[[lo, hi], [lambda x, q: q * (1. + x[1]), lambda x, q, r: q * r]])
        nc, nq, nf = len(cells), prob.num_quads, prob.face_shape_vals.shape[1]
        u = nodal(ctx, 'u', len(pts), vec)
        A = ctx.reals('A', (nc, nq), 0.5, 2.0)
        B = ctx.reals('B', (nc, nq), -1.0, 1.0)
        C = ctx.reals('C', (nc, nq), -1.0, 1.0)
        D = ctx.reals('D', (nc, nq), -1.0, 1.0)
        fl, fh = face_list(et, pts, cells, 0, 0.), face_list(et, pts, cells, 0, float(n[0]))
        fi = [tuple(sorted(int(v) for v in f)) for f in np.asarray(prob.face_inds)]
        order = [[(int(c), fi[int(f)]) for c, f in b] for b in prob.neumann_boundary_inds_list]
        ctx.true('faces-selected', [sorted(order[0]) == sorted(fl), sorted(order[1]) == sorted(fh)])
        Q = [ctx.reals('Q', (len(order[0]), nf, vec), -1, 1), ctx.reals('R', (len(order[1]), nf, vec), -1, 1)]
        S_ = ctx.reals('S', (len(order[1]), nf, vec), -1, 1)
        J = lambda a: ctx.jax(np.asarray(a))
        iv = {'laplace': [J(A), J(B)], 'mass': [J(C), J(D)], 'neumann': [[J(Q[0])], [J(Q[1]), J(S_)]]}
        if only == 'mass':
            A, B = A * 0.0, B * 0.0
            del iv['laplace']
        if only == 'laplace':
            C, D = C * 0.0, D * 0.0
            del iv['mass']
        if body:
            w = nodal(ctx, 'w', len(pts), vec)
            iv['body'] = J(w)
        want = oracle_cells(ctx, prob, u, cells, tensor=lambda g, c, q: [[A[c, q] * x + B[c, q] for x in r] for r in g],
                            mass=lambda v, c, q: [C[c, q] * x + D[c, q] * x * x for x in v])
        if body:
            want = want - oracle_cells(ctx, prob, w, cells, mass=lambda v, c, q: [2.0 * x + 1.0 for x in v])
        for b, faces in enumerate(order):
            for k, fc in enumerate(faces):
                # one face at a time; the load at its q-th point
                cnt = [0]

                def load(x, v, k=k, b=b, cnt=cnt):
                    q = cnt[0]
                    cnt[0] += 1
                    return [Q[b][k, q, i] * ((1. + x[1]) if b == 0 else S_[k, q, i]) for i in range(vec)]
                want = want - oracle_face(ctx, prob, u, pts, cells, [fc], load)
        prob.internal_vars = iv
        if not jac:
            ctx.eq('residual', prob.compute_residual(ctx.jax(u)), want, 1e-7)
            return
        ctx.eq('residual-with-jacobian', prob.newton_update(ctx.jax(u)), want, 1e-7)
        nd = len(pts) * vec
        M = dense(ctx, prob, nd)
        w_ = nodal(ctx, 'dir', len(pts), vec)
        dR = directional(ctx, lambda v: oracle_cells(ctx, prob, v, cells, tensor=lambda g, c, q: [[A[c, q] * x for x in r] for r in g],
                                                     mass=lambda v, c, q: [C[c, q] * x + D[c, q] * x * x for x in v]), u, w_)
        got = [[sum(M[n_ * vec + i, j] * w_.reshape(-1)[j] for j in range(nd) if not _zero(M[n_ * vec + i, j])) for i in range(vec)]
               for n_ in range(len(pts))]
        ctx.eq('tangent-is-derivative', got, dR, 1e-6)
    return h


for _et, _n, _v in (('QUAD4', (2, 1), 1), ('TRI3', (1, 2), 2), ('TET4', (1, 1, 1), 1), ('QUAD8', (1, 1), 1)):
    harness('C03', f'vars_{_et}_{_v}', weight=2, functions=['fem.core.FEM.unpack_kernels_vars', 'fem.core.FEM.compute_Neumann_integral_vars', 'fem.core.FEM.compute_residual_vars_helper'],
            bounds=f'{_et} {_n} x{_v}: two coefficient fields per kernel given per quadrature point, traction data per face point on two boundaries, all symbolic')(
        _vars(_et, _n, _v, False))
    harness('C04', f'vars_{_et}_{_v}', weight=2, functions=['fem.core.FEM.unpack_kernels_vars', 'fem.core.FEM.compute_newton_vars'],
            bounds=f'{_et} {_n} x{_v}: two coefficient fields per kernel given per quadrature point, traction data on two boundaries, all symbolic')(
        _vars(_et, _n, _v, True))
for _o in ('mass', 'laplace'):
    for _j, _pr in ((False, 'C03'), (True, 'C04')):
        harness(_pr, f'only_{_o}', weight=2, functions=['fem.core.FEM.split_and_compute_cell', 'fem.core.FEM.unpack_kernels_vars'],
                bounds=f'TRI3 (2,1) x2 with a {_o} map only, coefficient fields and traction data symbolic')(_vars('TRI3', (2, 1), 2, _j, False, _o))
harness('C03', 'vars_body', weight=2, functions=['fem.core.FEM.compute_body_force_by_sol', 'fem.core.FEM.compute_residual_vars_helper'],
        bounds='QUAD4 (2,1): body force from an old nodal field through a user map')(_vars('QUAD4', (2, 1), 1, False, True))


# ---------------------------------------------------------------- which faces carry a load
def _selection(et, n, preds):
    """the load of a predicate acts on exactly the faces all of whose vertices satisfy it"""
    def h(ctx):
        import jax.numpy as jnp
        from checks.c_fem_geom import REF_FACES
        from jax_am.fem.core import FEM

        class P(FEM):
            def get_tensor_map(self):
                return lambda g: 0. * g
        pts, cells = F.grid(et, n)
        q = ctx.reals('q', (len(preds),), -1, 1)
        qj = [ctx.jax(np.asarray(x)) for x in q]
        prob = P(F.make_mesh(pts, cells, et), vec=1, dim=F.DIM[et], ele_type=et,
                 neumann_bc_info=[[lambda x, p=p: p(x, jnp) for p in preds], [lambda x, k=k: jnp.stack([qj[k] + 0. * x[0]]) for k in range(len(preds))]])
        u = nodal(ctx, 'u', len(pts), 1)
        want = zeros(len(pts), 1)
        fi = [tuple(sorted(int(v) for v in f)) for f in np.asarray(prob.face_inds)]
        for k, p in enumerate(preds):
            faces = [(c, f) for c in range(len(cells)) for f in REF_FACES[et] if all(bool(p(pts[cells[c][v]], np)) for v in f)]
            got = sorted((int(c), fi[int(f)]) for c, f in prob.neumann_boundary_inds_list[k])
            ctx.true('faces-selected', got == sorted(faces))
            want = want - oracle_face(ctx, prob, u, pts, cells, faces, lambda x, v: [q[k]])
        ctx.eq('load', prob.compute_residual(ctx.jax(u)), want, 1e-8)
    return h


_close = lambda v, a: abs(v - a) < 1e-6
_P2 = [lambda x, m: m.logical_or(_close(x[0], 0.), _close(x[1], 0.)), lambda x, m: x[0] < 1.5, lambda x, m: _close(x[0], 1.), lambda x, m: x[0] + x[1] > 2.5]
_P3 = [lambda x, m: m.logical_or(_close(x[0], 0.), _close(x[2], 1.)), lambda x, m: _close(x[0], 1.), lambda x, m: x[0] + x[1] + x[2] > 1.5]
for _et, _n, _ps in (('QUAD4', (2, 2), _P2), ('TRI3', (2, 2), _P2), ('TRI6', (2, 1), _P2), ('QUAD8', (2, 1), _P2), ('HEX8', (2, 1, 1), _P3), ('TET4', (1, 1, 1), _P3), ('HEX20', (1, 1, 1), _P3)):
    harness('C03', f'selection_{_et}', weight=2, functions=['fem.core.FEM.get_boundary_conditions_inds', 'fem.basis.get_face_shape_vals_and_grads', 'fem.core.FEM.compute_Neumann_boundary_inds'],
            bounds=f'{_et} {_n}: {len(_ps)} location predicates (corner, half-space, interior plane), loads symbolic')(_selection(_et, _n, _ps))
