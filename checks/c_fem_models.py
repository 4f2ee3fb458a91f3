"""C08 elastic laws, C09 plasticity return map, C10 post-processing integrals."""
import numpy as np
from vsym.ctx import harness
from checks import femlib as F


def one_cell(cls, et, vec=None):
    d = F.DIM[et]
    pts = F.refnodes(et)
    return cls(F.make_mesh(pts, np.arange(len(pts))[None, :], et), vec=vec or d, dim=d, ele_type=et)


def hooke(E, nu, eps):
    d = len(eps)
    mu, lam = E / (2 * (1 + nu)), E * nu / ((1 + nu) * (1 - 2 * nu))
    tr = sum(eps[i][i] for i in range(d))
    return [[2 * mu * eps[i][j] + (lam * tr if i == j else 0.0) for j in range(d)] for i in range(d)]


def sym(g):
    d = len(g)
    return [[0.5 * (g[i][j] + g[j][i]) for j in range(d)] for i in range(d)]


def _lin(et):
    def h(ctx):
        from jax_am.fem.models import LinearElasticity
        prob = one_cell(LinearElasticity, et)
        d = F.DIM[et]
        g = ctx.reals('g', (d, d), -0.5, 0.5)
        s = ctx.terms(prob.get_tensor_map()(ctx.jax(g)))
        ctx.eq('hooke', s, hooke(70e3, 0.3, sym(g)), 1e-6)
        ctx.eq('symmetric', s, s.T, 1e-6)
    return h


def _rigid(et):
    """infinitesimal rotations carry no stress, whatever strain is superposed"""
    def h(ctx):
        from jax_am.fem.models import LinearElasticity
        prob = one_cell(LinearElasticity, et)
        d = F.DIM[et]
        g = ctx.reals('g', (d, d), -0.5, 0.5)
        w = ctx.reals('w', (d, d), -0.5, 0.5)
        W = w - w.T
        f = prob.get_tensor_map()
        ctx.eq('rotation-invariant', f(ctx.jax(g + W)), f(ctx.jax(g)), 1e-6)
    return h


for _et in ('QUAD4', 'HEX8', 'TET10', 'TRI3'):
    harness('C08', f'linear_{_et}', functions=['fem.models.LinearElasticity.get_tensor_map'],
            bounds='every displacement gradient with entries in [-0.5,0.5]')(_lin(_et))
for _et in ('QUAD4', 'HEX8'):
    harness('C08', f'linear_rotation_{_et}', functions=['fem.models.LinearElasticity.get_tensor_map'],
            bounds='every displacement gradient and every skew increment in the box')(_rigid(_et))


def cofactor(Fm):
    d = len(Fm)
    if d == 2:
        return [[Fm[1][1], -Fm[1][0]], [-Fm[0][1], Fm[0][0]]]
    c = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a, b = (i + 1) % 3, (i + 2) % 3
            p, q = (j + 1) % 3, (j + 2) % 3
            c[i][j] = Fm[a][p] * Fm[b][q] - Fm[a][q] * Fm[b][p]
    return c


def neo_hooke(ctx, Fm, E=1e3, nu=0.3):
    """P = mu J^(-2/3) (F - I1/3 F^-T) + kappa (J-1) J F^-T"""
    d = len(Fm)
    mu, kappa = E / (2 * (1 + nu)), E / (3 * (1 - 2 * nu))
    C = cofactor(Fm)
    J = sum(Fm[0][j] * C[0][j] for j in range(d))
    I1 = sum(Fm[i][j] * Fm[i][j] for i in range(d) for j in range(d))
    r = ctx.root(J, 3)
    jm = r / J                  # J^(-2/3)
    return [[mu * jm * (Fm[i][j] - I1 * C[i][j] / (3.0 * J)) + kappa * (J - 1.0) * C[i][j] for j in range(d)] for i in range(d)], J


def _hyper(et, lo=-0.2, hi=0.2, diag=False):
    def h(ctx):
        from jax_am.fem.models import HyperElasticity
        prob = one_cell(HyperElasticity, et)
        d = F.DIM[et]
        g = ctx.reals('g', (d, d), lo, hi)
        Fm = [[g[i, j] + (1.0 if i == j else 0.0) for j in range(d)] for i in range(d)]
        Pw, J = neo_hooke(ctx, Fm)
        ctx.assume(J > 0.1)
        Pg = ctx.terms(prob.get_tensor_map()(ctx.jax(g)))
        ctx.eq('first-pk-stress', Pg, Pw, 1e-6)
    return h


def _hyper_moment(et):
    """P F^T is symmetric (balance of angular momentum)"""
    def h(ctx):
        from jax_am.fem.models import HyperElasticity
        prob = one_cell(HyperElasticity, et)
        d = F.DIM[et]
        g = ctx.reals('g', (d, d), -0.2, 0.2)
        Fm = np.array([[g[i, j] + (1.0 if i == j else 0.0) for j in range(d)] for i in range(d)], dtype=object)
        C = cofactor(Fm)
        J = sum(Fm[0][j] * C[0][j] for j in range(d))
        ctx.assume(J > 0.1)
        Pg = ctx.terms(prob.get_tensor_map()(ctx.jax(g)))
        M = [[sum(Pg[i, k] * Fm[j, k] for k in range(d)) for j in range(d)] for i in range(d)]
        ctx.eq('angular-momentum', [M[i][j] for i in range(d) for j in range(i)], [M[j][i] for i in range(d) for j in range(i)], 1e-6)
    return h


def _hyper_small(et):
    """the tangent at rest is Hooke's law with the same E and nu; no residual stress"""
    def h(ctx):
        import jax
        from jax_am.fem.models import HyperElasticity
        prob = one_cell(HyperElasticity, et)
        d = F.DIM[et]
        w = ctx.reals('w', (d, d), -1, 1)
        f = prob.get_tensor_map()
        P0, T = jax.jvp(f, (ctx.jax(np.zeros((d, d))),), (ctx.jax(w),))
        ctx.eq('stress-free-at-rest', P0, np.zeros((d, d)), 1e-6)
        ctx.eq('small-strain-tangent', T, hooke(1e3, 0.3, sym(w)), 1e-5)
    return h


HF = ['fem.models.HyperElasticity.get_tensor_map']
harness('C08', 'hyper_stress_3d', functions=HF, weight=2, bounds='every displacement gradient with entries in [-0.2,0.2] and det F > 0.1')(_hyper('HEX8'))
harness('C08', 'hyper_stress_2d', functions=HF, bounds='as 3d, plane')(_hyper('QUAD4', -0.4, 0.4))
harness('C08', 'hyper_large_stretch', functions=HF, bounds='plane gradients with entries in [-2,5], det F > 0.1')(_hyper('QUAD4', -2, 5))
harness('C08', 'hyper_moment_3d', functions=HF, weight=2, bounds='entries in [-0.2,0.2]')(_hyper_moment('HEX8'))
harness('C08', 'hyper_small_3d', functions=HF, bounds='every direction of the tangent at rest')(_hyper_small('HEX8'))


# ---------------------------------------------------------------- C09
SIG0 = 250.0


def dev(s):
    d = len(s)
    tr = sum(s[i][i] for i in range(d))
    return [[s[i][j] - (tr * (1.0 / d) if i == j else 0.0) for j in range(d)] for i in range(d)]


def mises(ctx, s):
    d = len(s)
    x = dev(s)
    return 1.5 * sum(x[i][j] * x[i][j] for i in range(d) for j in range(d))


def return_map(ctx, eps_inc, sig_old):
    d = len(eps_inc)
    D = hooke(70e3, 0.3, eps_inc)
    tr = [[D[i][j] + sig_old[i][j] for j in range(d)] for i in range(d)]
    s = dev(tr)
    N2 = mises(ctx, tr)
    N = ctx.where(N2 > 1e-12, ctx.sqrt(ctx.where(N2 > 1e-12, N2, 1.0)) if not ctx.sym else ctx.sqrt(N2), 0.0)
    return tr, s, N2, N


def symm(ctx, name, d, lo, hi):
    out = np.empty((d, d), dtype=object)
    for i in range(d):
        for j in range(i, d):
            out[i, j] = out[j, i] = ctx.real(f'{name}_{i}{j}', lo, hi)
    return out if ctx.sym else out.astype(float)


def _plastic(et, mode, part=None):
    def h(ctx):
        from jax_am.fem.models import Plasticity
        prob = one_cell(Plasticity, et)
        d = F.DIM[et]
        z = np.zeros((d, d))
        g = ctx.reals('g', (d, d), -0.01, 0.01) if part in (None, 'g') else z
        so = symm(ctx, 'so', d, -300, 300) if part in (None, 's') else z
        eo = symm(ctx, 'eo', d, -0.01, 0.01) if part in (None, 'e') else z
        inc = sym(g)
        inc = [[inc[i][j] - eo[i, j] for j in range(d)] for i in range(d)]
        D = hooke(70e3, 0.3, inc)
        tr = [[D[i][j] + so[i, j] for j in range(d)] for i in range(d)]
        s = dev(tr)
        N2 = mises(ctx, tr)
        if mode == 'elastic':
            ctx.assume(N2 <= 0.999 * SIG0 * SIG0)
            ctx.assume(N2 >= 1e-3)
        elif mode == 'plastic':
            ctx.assume(N2 >= 1.001 * SIG0 * SIG0)
        got = ctx.terms(prob.get_tensor_map()(ctx.jax(g), ctx.jax(so), ctx.jax(eo)))
        trace = sum(got[i, i] for i in range(d))
        ctx.eq('pressure-is-elastic', trace, sum(tr[i][i] for i in range(d)), 1e-6)
        ctx.eq('symmetric', [got[i, j] for i in range(d) for j in range(i)], [got[j, i] for i in range(d) for j in range(i)], 1e-6)
        if mode == 'elastic':
            ctx.eq('inside-yield-surface-elastic', got, tr, 1e-6)
        elif mode == 'plastic':
            N = ctx.sqrt(N2)
            # radial return: deviator scaled back onto the yield surface
            x = dev(got.tolist())
            ctx.eq('on-yield-surface', mises(ctx, got.tolist()), SIG0 * SIG0, 1e-3)
            if part in (None, 'g'):
              ctx.eq('radial', [[x[i][j] * N for j in range(d)] for i in range(d)],
                   [[s[i][j] * SIG0 for j in range(d)] for i in range(d)], 1e-3)
    return h


PF = ['fem.models.Plasticity.get_maps']
PB = 'strain gradients and old strains in [-0.01,0.01], old stresses in [-300,300] MPa, symmetric'
for _et in ('HEX8', 'QUAD4'):
    for _m in ('elastic', 'plastic', 'any'):
        if (_et, _m) != ('HEX8', 'plastic'):
            harness('C09', f'{_m}_{_et}', functions=PF, weight=2, bounds=PB)(_plastic(_et, _m))
for _q in 'gse':
    harness('C09', f'plastic_HEX8_{_q}', functions=PF, weight=2, bounds=PB + f'; only {_q} non-zero')(_plastic('HEX8', 'plastic', _q))


def _zero(et):
    """virgin material at rest and pure rotation / pure volume change: no division by zero"""
    def h(ctx):
        from jax_am.fem.models import Plasticity
        prob = one_cell(Plasticity, et)
        d = F.DIM[et]
        p = ctx.real('p', -0.01, 0.01)
        w = ctx.reals('w', (d, d), -0.01, 0.01)
        W = w - w.T
        g = np.array([[W[i, j] + (p if i == j else 0.0) for j in range(d)] for i in range(d)], dtype=object)
        if not ctx.sym:
            g = g.astype(float)
        z = np.zeros((d, d))
        got = ctx.terms(prob.get_tensor_map()(ctx.jax(g), ctx.jax(z), ctx.jax(z)))
        ctx.eq('hydrostatic-elastic', got, hooke(70e3, 0.3, [[p if i == j else 0.0 for j in range(d)] for i in range(d)]), 1e-6)
    return h


for _et in ('HEX8', 'QUAD4'):
    harness('C09', f'hydrostatic_{_et}', functions=PF, bounds='any volume change and rotation from the virgin state')(_zero(_et))


def _update(et, n):
    """after each load step the stored history is the converged stress and the current strain, per
    quadrature point, and the next residual uses it"""
    def h(ctx):
        from jax_am.fem.models import Plasticity
        d = F.DIM[et]
        pts, cells = F.grid(et, n)
        prob = Plasticity(F.make_mesh(pts, cells, et), vec=d, dim=d, ele_type=et)
        # elastic range: two steps of small displacement
        u1 = ctx.reals('u1', (len(pts), d), -0.0002, 0.0002)
        u2 = ctx.reals('u2', (len(pts), d), -0.0002, 0.0002)
        G = np.asarray(prob.shape_grads)

        def strain(u, c, q):
            g = [[sum(u[cells[c][a], i] * float(G[c, q, a, k]) for a in range(len(cells[c]))) for k in range(d)] for i in range(d)]
            return sym(g)
        prob.update_stress_strain(ctx.jax(u1))
        prob.update_stress_strain(ctx.jax(u2))
        E, S = ctx.terms(prob.epsilons_old), ctx.terms(prob.sigmas_old)
        nc, nq = len(cells), G.shape[1]
        ctx.true('shapes', E.shape == (nc, nq, d, d) and S.shape == (nc, nq, d, d))
        for c in range(nc):
            for q in range(nq):
                e1, e2 = strain(u1, c, q), strain(u2, c, q)
                ctx.eq('strain-history', E[c, q], e2, 1e-9)
                ctx.eq('mean-stress-history', sum(S[c, q][i, i] for i in range(d)),
                       sum(hooke(70e3, 0.3, e2)[i][i] for i in range(d)), 1e-5)
        iv = prob.internal_vars['laplace']
        ctx.eq('internal-vars-stress', iv[0], S, 1e-9)
        ctx.eq('internal-vars-strain', iv[1], E, 1e-9)
    return h


harness('C09', 'history_tri3', functions=['fem.models.Plasticity.update_stress_strain'], weight=2,
        bounds='two TRI3 cells, two load steps, nodal displacements in [-2e-4,2e-4]')(_update('TRI3', (1, 1)))
harness('C09', 'history_quad4', functions=['fem.models.Plasticity.update_stress_strain'], weight=2,
        bounds='one QUAD4 cell, two load steps')(_update('QUAD4', (1, 1)))


def _avg(et, n):
    def h(ctx):
        from jax_am.fem.models import Plasticity
        d = F.DIM[et]
        pts, cells = F.grid(et, n)
        prob = Plasticity(F.make_mesh(pts, cells, et), vec=d, dim=d, ele_type=et)
        nc, nq = len(cells), prob.num_quads
        S = ctx.reals('S', (nc, nq, d, d), -300, 300)
        W = np.abs(np.random.RandomState(3).rand(nc, nq)) + 0.3
        prob.sigmas_old = ctx.jax(S)
        prob.JxW = W
        tot = W.sum()
        want = [[sum(S[c, q, i, j] * float(W[c, q] / tot) for c in range(nc) for q in range(nq)) for j in range(d)] for i in range(d)]
        ctx.eq('volume-average', prob.compute_avg_stress(), want, 1e-6)
    return h


# ---------------------------------------------------------------- C10
harness('C10', 'average_stress', functions=['fem.models.Plasticity.compute_avg_stress'], bounds='2 QUAD4 cells, every stress field')(_avg('QUAD4', (2, 1)))


def _surface(et, n, axis, val, L, both=None):
    """both: a second plane x[both[0]] == both[1] meeting the first in an edge of the body"""
    def h(ctx):
        import jax.numpy as jnp
        from jax_am.fem.models import LinearElasticity
        d = F.DIM[et]
        pts, cells = F.grid(et, n, L)
        prob = LinearElasticity(F.make_mesh(pts, cells, et), vec=d, dim=d, ele_type=et)
        # affine displacement: exact surface resultants
        G = ctx.reals('G', (d, d), -0.1, 0.1)
        b = ctx.reals('b', (d,), -1, 1)
        u = np.empty((len(pts), d), dtype=object)
        for n_ in range(len(pts)):
            for i in range(d):
                u[n_, i] = b[i] + sum(G[i, k] * float(pts[n_][k]) for k in range(d))
        if not ctx.sym:
            u = u.astype(float)
        if both:
            loc = lambda x: jnp.isclose(x[axis], val, atol=1e-5) | jnp.isclose(x[both[0]], both[1], atol=1e-5)
        else:
            loc = lambda x: jnp.isclose(x[axis], val, atol=1e-5)
        A = sum(float(np.prod([L[k] for k in range(d) if k != a])) for a in ([axis, both[0]] if both else [axis]))
        uj = ctx.jax(u)
        ctx.eq('area', prob.compute_surface_area(loc, uj), [A] * d, 1e-7)
        if d == 3:
            S = hooke(70e3, 0.3, sym(G))
            ctx.eq('traction-along-z', prob.compute_traction(loc, uj), [S[i][2] * A for i in range(d)], 1e-4)
        c = ctx.reals('c', (d, d), -1, 1)
        fn = lambda g: jnp.stack([sum(ctx.jax(np.asarray(c[i, k])) * g[..., i, k] for k in range(d)) for i in range(d)], axis=-1)
        ctx.eq('surface-integral', prob.surface_integral(loc, fn, uj), [A * sum(c[i, k] * G[i, k] for k in range(d)) for i in range(d)], 1e-6)
    return h


SF = ['fem.models.Mechanics.surface_integral', 'fem.models.Mechanics.compute_traction', 'fem.models.Mechanics.compute_surface_area']
for _et, _n, _ax, _v, _L in (('HEX8', (2, 1, 2), 2, 3.0, [2.0, 1.5, 3.0]), ('HEX8', (1, 2, 1), 0, 0.0, [2.0, 1.5, 3.0]),
                             ('TET4', (1, 1, 1), 1, 1.5, [2.0, 1.5, 3.0]), ('QUAD4', (2, 2), 1, 1.5, [2.0, 1.5]),
                             ('TRI6', (1, 1), 0, 2.0, [2.0, 1.5])):
    harness('C10', f'surface_{_et}_{_ax}', functions=SF, weight=2, bounds=f'{_et} mesh {_n} of a box {_L}, every affine displacement field')(
        _surface(_et, _n, _ax, _v, _L))


for _et, _n, _L, _b in (('HEX8', (2, 2, 1), [2.0, 1.5, 3.0], (1, 1.5)),
                        ('QUAD4', (2, 2), [2.0, 1.5], (1, 1.5)), ('TRI3', (2, 1), [2.0, 1.5], (1, 0.0))):
    harness('C10', f'surface_edge_{_et}', functions=SF, weight=2, bounds=f'{_et} mesh {_n} of a box {_L}, two planes meeting in an edge, every affine displacement field')(
        _surface(_et, _n, 0, 0.0, _L, _b))


def _norms(et, n, L):
    def h(ctx):
        import jax.numpy as jnp
        from jax_am.fem.models import LinearPoisson
        d = F.DIM[et]
        pts, cells = F.grid(et, n, L)
        prob = LinearPoisson(F.make_mesh(pts, cells, et), vec=1, dim=d, ele_type=et)
        a = ctx.reals('a', (d + 1,), -1, 1)       # discrete field: affine
        e = ctx.reals('e', (d + 1,), -1, 1)       # error: affine
        u = np.empty((len(pts), 1), dtype=object)
        for i in range(len(pts)):
            u[i, 0] = a[d] + e[d] + sum((a[k] + e[k]) * float(pts[i][k]) for k in range(d))
        if not ctx.sym:
            u = u.astype(float)
        aj = [ctx.jax(np.asarray(x)) for x in a]
        true = lambda x: jnp.stack([aj[d] + sum(aj[k] * x[k] for k in range(d))])
        uj = ctx.jax(u)
        # exact integral of (e_d + sum e_k x_k)^2 over the box
        V = float(np.prod(L))
        m1 = [x / 2 for x in L]
        m2 = [[(L[i] ** 2 / 3 if i == j else L[i] * L[j] / 4) for j in range(d)] for i in range(d)]
        I2 = V * (e[d] * e[d] + sum(2.0 * e[d] * e[k] * m1[k] for k in range(d)) + sum(e[i] * e[j] * m2[i][j] for i in range(d) for j in range(d)))
        G2 = V * sum(e[k] * e[k] for k in range(d))
        l2 = ctx.terms(prob.compute_l2_norm_error(uj, true)).item()
        h1 = ctx.terms(prob.compute_h1_norm_error(uj, true)).item()
        ctx.eq('l2-squared', l2 * l2, I2, 1e-6)
        ctx.le('l2-nonnegative', 0.0, l2)
        ctx.eq('h1-gradient-part-squared', (h1 - l2) * (h1 - l2), G2, 1e-6)
        ctx.le('h1-at-least-l2', l2, h1)
    return h


NF = ['fem.models.LinearPoisson.compute_l2_norm_error', 'fem.models.LinearPoisson.compute_h1_norm_error']
for _et, _n, _L in (('QUAD4', (2, 1), [2.0, 1.5]), ('HEX8', (1, 1, 2), [2.0, 1.5, 1.0]), ('TET10', (1, 1, 1), [2.0, 1.0, 1.0])):
    harness('C10', f'norms_{_et}', functions=NF, weight=2, bounds=f'{_et} mesh {_n} of a box {_L}, every affine field and every affine error')(_norms(_et, _n, _L))
