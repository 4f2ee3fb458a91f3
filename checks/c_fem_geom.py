"""C01 interpolation, C02 integration measures."""
import itertools
import numpy as np
from vsym.ctx import harness
from checks import femlib as F

TYPES = ['HEX8', 'HEX20', 'HEX27', 'TET4', 'TET10', 'QUAD4', 'QUAD8', 'TRI3', 'TRI6']
FN = ['fem.basis.get_shape_vals_and_grads', 'fem.core.FEM.get_shape_grads', 'fem.core.FEM.get_physical_quad_points',
      'fem.core.FEM.convert_from_dof_to_quad', 'fem.core.FEM.sol_to_grad']
FFN = ['fem.basis.get_face_shape_vals_and_grads', 'fem.core.FEM.get_face_shape_grads',
       'fem.core.FEM.get_physical_surface_quad_points', 'fem.core.FEM.convert_neumann_from_dof',
       'fem.core.FEM.get_boundary_conditions_inds']


def geometry(ctx, et, small=False):
    """One cell, x = A xi + b."""
    d = F.DIM[et]
    if small or et == 'HEX27':
        A = np.empty((d, d), dtype=object)
        for i in range(d):
            for j in range(d):
                A[i, j] = 0.0 if i > j else ctx.real(f'A_{i}_{j}', 0.8 if i == j else -0.2, 1.2 if i == j else 0.2) \
                    if (i == j or (i, j) == (0, 1) or not small) else 0.125
        b = np.zeros(d)
    else:
        off = np.full((d, d), -0.2)
        A = ctx.reals('A', (d, d), off + np.eye(d), -off + np.eye(d))
        b = ctx.reals('b', (d,), -1, 1)
    pts = F.affine_points(et, A, b)
    pts = ctx.arr(pts) if ctx.sym else F.numeric(pts)
    return A, b, pts, np.arange(len(pts))[None, :]


def problem(ctx, et, pts, cells, vec=1, **kw):
    from jax_am.fem.core import FEM
    return FEM(F.make_mesh(pts, cells, et), vec=vec, dim=F.DIM[et], ele_type=et, **kw)


def field(ctx, et, pts, deg):
    d = F.DIM[et]
    mons = F.monomials(d, deg)
    c = ctx.reals('c', (len(mons),), -1, 1)
    u = np.empty((len(pts), 1), dtype=object)
    for n in range(len(pts)):
        u[n, 0] = sum(c[k] * F.ev(e, pts[n]) for k, e in enumerate(mons))
    sol = ctx.jax(u if ctx.sym else F.numeric(u))
    val = lambda x: sum(c[k] * F.ev(e, x) for k, e in enumerate(mons))
    dval = lambda x, i: sum(c[k] * F.dev(e, x, i) for k, e in enumerate(mons))
    return sol, val, dval


def pick(nq, cap):
    return list(range(nq)) if nq <= cap else sorted({0, nq // 3, nq // 2, nq - 1})


def _interp(et):
    def h(ctx):
        d, deg = F.DIM[et], F.ORDER[et]
        A, b, pts, cells = geometry(ctx, et)
        prob = problem(ctx, et, pts, cells)
        sol, val, dval = field(ctx, et, pts, deg)
        xq = ctx.terms(prob.get_physical_quad_points())
        uq = ctx.terms(prob.convert_from_dof_to_quad(sol))
        gq = ctx.terms(prob.sol_to_grad(sol))
        sel = pick(xq.shape[1], 9)
        ctx.eq('value', [uq[0, q, 0] for q in sel], [val(xq[0, q]) for q in sel], 1e-6)
        for i in range(d):
            ctx.eq(f'grad{i}', [gq[0, q, 0, i] for q in sel], [dval(xq[0, q], i) for q in sel], 1e-6)
    return h


def _face(et):
    """every face: surface quadrature points lie on the face, the trace and the
    gradient of the interpolant are those of the polynomial"""
    def h(ctx):
        d, deg = F.DIM[et], F.ORDER[et]
        A, b, pts, cells = geometry(ctx, et, small=et in ('HEX20', 'HEX27'))
        prob = problem(ctx, et, pts, cells, neumann_bc_info=[[lambda x: x[0] > -100.], [lambda x: x * 0.]])
        binds = np.asarray(prob.neumann_boundary_inds_list[0])
        nf = {'HEX8': 6, 'HEX20': 6, 'HEX27': 6, 'TET4': 4, 'TET10': 4, 'QUAD4': 4, 'QUAD8': 4, 'TRI3': 3, 'TRI6': 3}[et]
        ctx.true('all-faces', sorted(map(tuple, binds.tolist())) == [(0, f) for f in range(nf)])
        sol, val, dval = field(ctx, et, pts, deg)
        xs = ctx.terms(prob.get_physical_surface_quad_points(binds))
        us = ctx.terms(prob.convert_neumann_from_dof(sol, 0))
        grads, scale = prob.get_face_shape_grads(binds)
        grads = ctx.terms(grads)
        u = ctx.terms(sol)
        fi = np.asarray(prob.face_inds)
        # the faces of the reference cell in meshio numbering, as vertex sets
        want = REF_FACES[et]
        ctx.true('face-vertices', sorted(tuple(sorted(int(v) for v in f)) for f in fi) == want)
        nq = xs.shape[1]
        for k, (_, f) in enumerate(binds):
            sel = range(nq) if nq <= 4 else [0, nq - 1]
            V = [pts[int(v)] for v in fi[f]]
            if d == 3:
                e1, e2 = [V[1][i] - V[0][i] for i in range(3)], [V[2][i] - V[0][i] for i in range(3)]
                nn = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]]
            else:
                e1 = [V[1][i] - V[0][i] for i in range(2)]
                nn = [-e1[1], e1[0]]
            ctx.eq('on-face', [sum(nn[i] * (xs[k, q, i] - V[0][i]) for i in range(d)) for q in sel], [0.0 for q in sel], 1e-6)
            ctx.eq('trace', [us[k, q, 0] for q in sel], [val(xs[k, q]) for q in sel], 1e-6)
            if et in ('HEX27',) and k % 3:
                continue
            for i in range(d):
                if len(pts) > 10 and i != (k % d):
                    continue
                ctx.eq('face-grad', [sum(u[n, 0] * grads[k, q, n, i] for n in range(len(pts))) for q in list(sel)[:2]],
                       [dval(xs[k, q], i) for q in list(sel)[:2]], 1e-6)
    return h


def _faces_of(et):
    R = F.NODES[et][:{'HEX': 8, 'TET': 4, 'QUA': 4, 'TRI': 3}[et[:3]]]
    d = F.DIM[et]
    out = []
    if et in F.SIMPLEX:
        for c in itertools.combinations(range(d + 1), d):
            out.append(c)
    else:
        for i in range(d):
            for s in (0, 1):
                out.append(tuple(n for n, r in enumerate(R) if r[i] == s))
    return sorted(out)


REF_FACES = {et: _faces_of(et) for et in TYPES}


def det_t(M):
    n = len(M)
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def ref_moment(et, e):
    """exact integral of the monomial xi^e over the reference cell"""
    from math import factorial as f
    if et in F.SIMPLEX:
        r = 1.0
        for k in e:
            r *= f(k)
        return r / f(sum(e) + len(e))
    r = 1.0
    for k in e:
        r /= (k + 1)
    return r


GDEG = {'HEX8': 2, 'HEX20': 2, 'HEX27': 2, 'TET4': 1, 'TET10': 2, 'QUAD4': 2, 'QUAD8': 2, 'TRI3': 1, 'TRI6': 2}


def _measure(et):
    def h(ctx):
        d = F.DIM[et]
        A, b, pts, cells = geometry(ctx, et)
        prob = problem(ctx, et, pts, cells)
        J = det_t([[A[i, j] for j in range(d)] for i in range(d)])
        W = ctx.terms(prob.JxW)
        nq = W.shape[1]
        xq = ctx.terms(prob.get_physical_quad_points())
        vol = J * F.REFVOL[et]
        ctx.eq('volume', sum(W[0, q] for q in range(nq)), vol, 1e-7)
        m1 = {tuple(int(i == k) for i in range(d)): None for k in range(d)}
        cen = [sum(A[i, j] * ref_moment(et, tuple(int(k == j) for k in range(d))) for j in range(d)) + b[i] * F.REFVOL[et]
               for i in range(d)]
        for i in range(d):
            ctx.eq(f'first-moment{i}', sum(W[0, q] * xq[0, q, i] for q in range(nq)), J * cen[i], 1e-7)
        if GDEG[et] >= 2 and et != 'HEX27':
            for i, j in [(0, 0), (0, 1), (1, 1)][:3 if len(pts) < 20 else 1]:
                want = 0
                for k in range(d):
                    for l in range(d):
                        e = [0] * d
                        e[k] += 1
                        e[l] += 1
                        want = want + A[i, k] * A[j, l] * ref_moment(et, tuple(e))
                    e = tuple(int(q == k) for q in range(d))
                    want = want + (A[i, k] * b[j] + A[j, k] * b[i]) * ref_moment(et, e)
                want = want + b[i] * b[j] * F.REFVOL[et]
                ctx.eq(f'second-moment{i}{j}', sum(W[0, q] * xq[0, q, i] * xq[0, q, j] for q in range(nq)), J * want, 1e-7)
        for q in range(nq if nq <= 9 else 4):
            ctx.le('positive', 0.0, W[0, q], 0.0)
    return h


def _area(et):
    def h(ctx):
        d = F.DIM[et]
        A, b, pts, cells = geometry(ctx, et, small=d == 3)
        prob = problem(ctx, et, pts, cells)
        nf = len(REF_FACES[et])
        binds = np.array([[0, f] for f in range(nf)])
        # share of each point in the measure of its face, read off the undistorted cell
        ref = problem(ctx, et, F.refnodes(et), cells)
        _, ns0 = ref.get_face_shape_grads(binds)
        ns0 = np.asarray(ns0, dtype=float)
        share = ns0 / ns0.sum(axis=1, keepdims=True)
        _, ns = prob.get_face_shape_grads(binds)
        ns = ctx.terms(ns)
        xs = ctx.terms(prob.get_physical_surface_quad_points(binds))
        fi = np.asarray(prob.face_inds)
        nq = ns.shape[1]
        for f in range(nf):
            V = [pts[int(v)] for v in fi[f]]
            if d == 3:
                e1, e2 = [V[1][i] - V[0][i] for i in range(3)], [V[2][i] - V[0][i] for i in range(3)]
                nn = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]]
                # vertex order on quads is a,b,c,d with a+d=b+c, so e1 x e2 spans the face
                a2 = sum(x * x for x in nn) * (1.0 if len(V) == 4 else 0.25)
            else:
                e1 = [V[1][i] - V[0][i] for i in range(2)]
                a2 = sum(x * x for x in e1)
            sel = pick(nq, 4)
            ctx.eq('face-measure-squared', [ns[f, q] * ns[f, q] for q in sel], [a2 * float(share[f, q]) ** 2 for q in sel], 1e-6)
            ctx.le('face-sign', [0.0 for q in sel], [ns[f, q] for q in sel], 0.0)
            # weights and points go together: centroid of the face
            cen = [sum(v[i] for v in V) / len(V) for i in range(d)]
            ctx.eq('face-centroid', [sum(float(share[f, q]) * xs[f, q, i] for q in range(nq)) for i in range(d)], cen, 1e-6)
    return h


class XPoly(dict):
    """tiny polynomial in the reference coordinates with term coefficients"""
    def mul(a, b):
        r = XPoly()
        for e1, c1 in a.items():
            for e2, c2 in b.items():
                e = tuple(x + y for x, y in zip(e1, e2))
                r[e] = r.get(e, 0) + c1 * c2
        return r

    def add(a, b, s=1):
        r = XPoly(a)
        for e, c in b.items():
            r[e] = r.get(e, 0) + s * c
        return r

    def diff(a, k):
        r = XPoly()
        for e, c in a.items():
            if e[k]:
                f = list(e)
                f[k] -= 1
                r[tuple(f)] = r.get(tuple(f), 0) + c * e[k]
        return r


def multilinear(et):
    """shape functions of the multilinear cell"""
    d = F.DIM[et]
    out = []
    for R in F.NODES[et]:
        p = XPoly({(0,) * d: 1.0})
        for i in range(d):
            e = tuple(int(k == i) for k in range(d))
            p = p.mul(XPoly({e: 1.0}) if R[i] == 1 else XPoly({(0,) * d: 1.0, e: -1.0}))
        out.append(p)
    return out


def distorted(ctx, et):
    R = F.refnodes(et)
    d = F.DIM[et]
    pts = np.empty(R.shape, dtype=object)
    moving = {2, 5, 7} if et == 'HEX8' else {0, 1, 2, 3}
    off = {1: (.05, -.1, .15), 3: (-.1, .05, .05), 4: (.1, .1, -.05), 0: (0., -.1, .1), 6: (.15, .05, .1)}
    for n in range(len(R)):
        for i in range(d):
            pts[n, i] = R[n, i] + (ctx.real(f'p_{n}_{i}', -.15, .15) if n in moving else off[n][i])
    return ctx.arr(pts) if ctx.sym else F.numeric(pts)


def _distorted_measure(et):
    def h(ctx):
        d = F.DIM[et]
        pts = distorted(ctx, et)
        prob = problem(ctx, et, pts, np.arange(len(pts))[None, :])
        N = multilinear(et)
        X = []
        for i in range(d):
            p = XPoly()
            for n in range(len(N)):
                p = p.add(XPoly({e: c * pts[n, i] for e, c in N[n].items()}))
            X.append(p)
        M = [[X[i].diff(j) for j in range(d)] for i in range(d)]
        det = XPoly()
        for perm in itertools.permutations(range(d)):
            s = 1
            for a in range(d):
                for c in range(a):
                    if perm[c] > perm[a]:
                        s = -s
            t = XPoly({(0,) * d: float(s)})
            for i in range(d):
                t = t.mul(M[i][perm[i]])
            det = det.add(t)
        want = sum(c * ref_moment(et, e) for e, c in det.items())
        W = ctx.terms(prob.JxW)
        ctx.eq('distorted-volume', sum(W[0, q] for q in range(W.shape[1])), want, 1e-7)
    return h


def _distorted_linear(et):
    def h(ctx):
        d = F.DIM[et]
        pts = distorted(ctx, et)
        prob = problem(ctx, et, pts, np.arange(len(pts))[None, :])
        sol, val, dval = field(ctx, et, pts, 1)
        xq = ctx.terms(prob.get_physical_quad_points())
        uq = ctx.terms(prob.convert_from_dof_to_quad(sol))
        gq = ctx.terms(prob.sol_to_grad(sol))
        nq = xq.shape[1]
        ctx.eq('value', [uq[0, q, 0] for q in range(nq)], [val(xq[0, q]) for q in range(nq)], 1e-6)
        for q in range(nq):
            if et == 'HEX8' and q not in (0, 3, 6):
                continue
            ctx.eq('grad', [gq[0, q, 0, i] for i in range(d)], [dval(xq[0, q], i) for i in range(d)], 1e-6)
    return h


AB = 'one cell, every affine map x=A xi+b with |A-I|<=0.2, |b|<=1 (HEX27: upper triangular A, b=0)'
for _et in TYPES:
    w = {'HEX27': 6, 'HEX20': 4}.get(_et, 1)
    harness('C01', f'affine_{_et}', functions=FN, weight=w,
            bounds=AB + '; every nodal field sampled from a polynomial of the complete degree of the element, |coeff|<=1; all '
                   'quadrature points (4 of 216 for HEX27)')(_interp(_et))
    harness('C01', f'face_{_et}', functions=FFN, weight=w,
            bounds=AB + ' (HEX20/HEX27: diagonal plus one shear symbolic); every face, same fields')(_face(_et))
    harness('C02', f'measure_{_et}', functions=FN[:3], weight=w, bounds=AB + '; volume, first and second moments')(_measure(_et))
    harness('C02', f'area_{_et}', functions=FFN[:3], weight=w, bounds=AB + ' (3D: upper triangular A with diagonal and one shear symbolic); area, orientation sign and centroid of the faces')(_area(_et))
for _et in ('HEX8', 'QUAD4'):
    harness('C01', f'distorted_{_et}', functions=FN, weight=3,
            bounds='one multilinear cell, QUAD4: all nodes displaced, HEX8: three nodes, each by up to 0.15 per axis; every linear field')(
        _distorted_linear(_et))
    harness('C02', f'distorted_{_et}', functions=FN[:3], weight=2,
            bounds='one multilinear cell, QUAD4: all nodes displaced, HEX8: three nodes, each by up to 0.15 per axis')(_distorted_measure(_et))
