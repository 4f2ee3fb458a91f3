"""C20-C24 lattice Boltzmann melt-pool solver (jax_am/lbm/core.py)."""
import numpy as np
from vsym.ctx import harness
from checks import lbmlib as L
from checks.lbmlib import LIQUID, LG, GAS, WALL, VELS, OPP, W

E_ = VELS.tolist()
FN = ['lbm.core.simulation']


def ids_of(n):
    import jax.numpy as jnp
    return jnp.arange(int(np.prod(n)))


def mom(f, *ks):
    out = 0.0
    for q in range(19):
        c = 1
        for k in ks:
            c *= E_[q][k]
        if c:
            out = out + c * f[q]
    return out


# ---------------------------------------------------------------- C20 collision
def _collide_f(n, ph, solid):
    def h(ctx):
        import jax.numpy as jnp
        nu = ctx.real('nu', 0.01, 0.5)
        G = L.closures(L.args(n, dynamic_viscosity=nu))
        f = L.field(ctx, 'f', ph, (19,), 0.01, 0.2)
        F = L.field(ctx, 'F', ph, (3,), -0.01, 0.01)
        T = L.field(ctx, 'T', ph, (), *((0.5, 3.99) if solid else (4.01, 8.0)))
        fj, Fj, Tj, pj = ctx.jax(f), ctx.jax(F), ctx.jax(T), jnp.asarray(ph)
        rho = G['compute_rho'](fj)
        u = G['compute_u'](fj, rho, Tj, Fj)
        g = ctx.terms(G['collide_f_vmap'](ids_of(n), fj, rho, Tj, u, pj, Fj))
        u = ctx.terms(u)
        tau = 3 * nu + 0.5
        for p in L.inner(ph, LIQUID, LG):
            ctx.eq('mass', mom(g[p]), mom(f[p]), 1e-8)
            r = mom(f[p])
            for k in range(3):
                ctx.eq('velocity', u[p][k] * r, 0.0 if solid else mom(f[p], k) + F[p][k] / 2, 1e-8)
                ctx.eq('momentum', mom(g[p], k), 0.0 if solid else mom(f[p], k) + F[p][k], 1e-8)
                for l in range(k, 3):
                    eqm = r / 3 * (k == l)
                    if not solid:
                        eqm = eqm + r * u[p][k] * u[p][l]
                        want = mom(f[p], k, l) * tau + (eqm - mom(f[p], k, l)) + (tau - 0.5) * (u[p][k] * F[p][l] + u[p][l] * F[p][k])
                        ctx.eq('momentum-flux', mom(g[p], k, l) * tau, want, 1e-7)
                    else:
                        ctx.eq('momentum-flux', mom(g[p], k, l), eqm, 1e-8)
        for p in L.inner(ph, GAS, WALL):
            ctx.eq('empty', g[p], np.zeros(19), 1e-12)
    return h


def _collide_h(n, ph, solid):
    def h(ctx):
        import jax.numpy as jnp
        dl, ds = ctx.real('dl', 0.02, 0.5), ctx.real('ds', 0.02, 0.5)
        G = L.closures(L.args(n, thermal_diffusivitity_l=dl, thermal_diffusivitity_s=ds))
        hd = L.field(ctx, 'h', ph, (19,), 0.0, 1.0)
        T = L.field(ctx, 'T', ph, (), *((0.5, 3.99) if solid else (4.01, 8.0)))
        rho = L.field(ctx, 'r', ph, (), 0.5, 2.0)
        u = L.field(ctx, 'u', ph, (3,), -0.1, 0.1)
        Q = L.field(ctx, 'Q', ph, (), -1.0, 1.0)
        hj = ctx.jax(hd)
        en = G['compute_enthalpy'](hj)
        g = ctx.terms(G['collide_h_vmap'](ids_of(n), hj, en, ctx.jax(T), ctx.jax(rho), ctx.jax(u), jnp.asarray(ph), ctx.jax(Q)))
        tau = 3 * (ds if solid else dl) + 0.5
        for p in L.inner(ph, LIQUID, LG):
            ctx.eq('enthalpy', mom(g[p]) * rho[p], mom(hd[p]) * rho[p] + Q[p], 1e-7)
            for k in range(3):
                # the flux relaxes towards the convected sensible heat
                ctx.eq('heat-flux', mom(g[p], k) * tau, mom(hd[p], k) * (tau - 1) + L.BASE['heat_capacity'] * T[p] * u[p][k], 1e-7)
        for p in L.inner(ph, GAS, WALL):
            ctx.eq('empty', g[p], np.zeros(19), 1e-12)
    return h


def pattern(n, cells):
    p = L.box(n, GAS)
    it = iter(cells)
    for q in np.ndindex(n[0] - 2, n[1] - 2, n[2] - 2):
        p[q[0] + 1, q[1] + 1, q[2] + 1] = next(it)
    return p


_n2 = (4, 3, 3)
for _nm, _ph in (('a', [LIQUID, GAS]), ('b', [LG, LIQUID])):
    for _s in (False, True):
        _t = 'solid' if _s else 'liquid'
        harness('C20', f'flow_{_t}_{_nm}', functions=FN, weight=2, bounds='two interior cells of a walled lattice, every distribution in [0.01,0.2], force, viscosity')(
            _collide_f(_n2, pattern(_n2, _ph), _s))
        harness('C20', f'heat_{_t}_{_nm}', functions=FN, weight=2, bounds='two interior cells of a walled lattice, every distribution, temperature, velocity, heat source, diffusivity')(
            _collide_h(_n2, pattern(_n2, _ph), _s))


# ---------------------------------------------------------------- C21 streaming
def feq(q, rho, u):
    eu = sum(E_[q][k] * u[k] for k in range(3) if E_[q][k])
    uu = u[0] * u[0] + u[1] * u[1] + u[2] * u[2]
    return W[q] * rho * (1 + 3 * eu + 4.5 * eu * eu - 1.5 * uu)


def nb(p, q, s=1):
    return tuple(p[k] + s * E_[q][k] for k in range(3))


def _stream_f(n, ph):
    def h(ctx):
        import jax.numpy as jnp
        G = L.closures(L.args(n))
        f = L.field(ctx, 'f', ph, (19,), 0.01, 0.2)
        u = L.field(ctx, 'u', ph, (3,), -0.1, 0.1)
        m = L.field(ctx, 'm', ph, (), -0.2, 1.2, only=(LG,))
        r = L.field(ctx, 'r', ph, (), 0.9, 1.1)
        fj, pj, rj, mj = ctx.jax(f), jnp.asarray(ph), ctx.jax(r), ctx.jax(m)
        vof = G['compute_vof'](rj, pj, mj)
        g, m2 = G['update_f_vmap'](ids_of(n), fj, rj, ctx.jax(u), pj, mj, vof)
        total = ctx.terms(G['compute_total_mass_vmap'](ids_of(n), g, pj, m2))
        g, m2 = ctx.terms(g), ctx.terms(m2)
        rest = True
        for p in L.inner(ph, LIQUID, LG):
            gain = 0.0
            for q in range(19):
                src = nb(p, q, -1)
                if ph[src] == WALL:
                    want = f[p][OPP[q]]
                elif ph[src] == GAS:
                    want = feq(q, 1.0, u[p]) + feq(OPP[q], 1.0, u[p]) - f[p][OPP[q]]
                else:
                    want = f[src][q]
                ctx.eq(f'streamed', g[p][q], want, 1e-8)
                d = nb(p, q)
                if ph[d] == LIQUID:
                    gain = gain + f[d][OPP[q]] - f[p][q]
                elif ph[d] == LG:
                    gain = gain + (f[d][OPP[q]] - f[p][q]) * (m[d] + m[p]) / 2
                if ph[p] == LIQUID and ph[d] == GAS:
                    rest = False
            if ph[p] == LG:
                ctx.eq('interface-mass', m2[p], m[p] + gain, 1e-8)
            ctx.eq('cell-total', total[p], m2[p] if ph[p] == LG else mom(g[p]), 1e-9)
        for p in L.inner(ph, GAS, WALL):
            ctx.eq('empty', g[p], np.zeros(19), 1e-12)
            ctx.eq('no-mass', [m2[p], total[p]], [0.0, 0.0], 1e-12)
        if rest:
            before = sum(mom(f[p]) if ph[p] == LIQUID else m[p] for p in L.inner(ph, LIQUID, LG))
            ctx.eq('total-mass', sum(total[p] for p in np.ndindex(*n)), before, 1e-7)
    return h


def _stream_h(n, ph):
    def h(ctx):
        import jax.numpy as jnp
        cp = ctx.real('cp', 1, 4)
        G = L.closures(L.args(n, heat_capacity=cp))
        f = L.field(ctx, 'h', ph, (19,), 0.0, 1.0)
        u = L.field(ctx, 'u', ph, (3,), -0.1, 0.1)
        g = ctx.terms(G['update_h_vmap'](ids_of(n), ctx.jax(f), ctx.jax(u), jnp.asarray(ph)))
        for p in L.inner(ph, LIQUID, LG):
            for q in range(19):
                src = nb(p, q, -1)
                want = W[q] * cp if ph[src] == WALL else f[p][OPP[q]] if ph[src] == GAS else f[src][q]
                ctx.eq('streamed', g[p][q], want, 1e-8)
        for p in L.inner(ph, GAS, WALL):
            ctx.eq('empty', g[p], np.zeros(19), 1e-12)
    return h


_LAT = [((4, 4, 3), [LIQUID, LG, LG, GAS]), ((4, 4, 3), [LIQUID] * 4), ((4, 3, 4), [LG, LIQUID, GAS, LG]), ((3, 3, 5), [LIQUID, LG, GAS]),
        ((3, 4, 4), [LG, LG, LG, LIQUID]), ((3, 5, 3), [GAS, LG, LIQUID]), ((4, 4, 3), [LIQUID, GAS, LG, WALL]), ((5, 3, 3), [LG, WALL, LIQUID])]
for _i, (_n, _c) in enumerate(_LAT):
    _nm = 'x'.join(map(str, _n)) + '_' + ''.join('lig#'[c] for c in _c)
    harness('C21', f'flow_{_nm}', functions=FN, weight=3, bounds=f'lattice {_n} with interior phases {_c}, every distribution, velocity, interface mass')(_stream_f(_n, pattern(_n, _c)))
    harness('C21', f'heat_{_nm}', functions=FN, weight=2, bounds=f'lattice {_n} with interior phases {_c}, every distribution')(_stream_h(_n, pattern(_n, _c)))


# ---------------------------------------------------------------- C22 free surface bookkeeping
def _step(n, ph, mbox, new, **kw):
    """one complete time step from an injected state; new = phases after it"""
    def h(ctx):
        import jax.numpy as jnp
        f = np.full(tuple(n) + (19,), 0.0, dtype=object)
        hd = np.full(tuple(n) + (19,), 0.0, dtype=object)
        for p in L.inner(ph, LIQUID, LG):
            f[p] = np.array(W, dtype=object)
            d = ctx.reals('f' + ''.join(map(str, p)), (2,), -0.01, 0.01)
            f[p][1] = f[p][1] + d[0]
            f[p][2] = f[p][2] - d[0]
            f[p][5] = f[p][5] + d[1]
            f[p][0] = f[p][0] - d[1]
            hd[p] = np.array([w * 14 for w in W], dtype=object)
        m = np.full(n, 0.0, dtype=object)
        for p in L.inner(ph, LG):
            m[p] = ctx.real('m' + ''.join(map(str, p)), *mbox[p])
        tot = ctx.real('total', 0.5, 6)
        if not ctx.sym:
            f, hd, m = f.astype(float), hd.astype(float), m.astype(float)
        got = {}

        def hook(k, frame, data):
            if k == 0:
                L.set_locals(frame, dict(f_distribute=ctx.jax(f), h_distribute=ctx.jax(hd), phase=jnp.asarray(ph), mass=ctx.jax(m),
                                         total_mass=ctx.jax(np.asarray(tot))))
            else:
                got.update(frame.f_locals)
                raise L.Stop()
        L.simulate(L.args(n, **kw), L.box(n), hook)
        P2, f2, h2, m2 = (ctx.terms(got[k]) for k in ('phase', 'f_distribute', 'h_distribute', 'mass'))
        ctx.eq('phase', P2, new.astype(float), 1e-9)
        total = sum(mom(f2[p]) for p in L.inner(new, LIQUID)) + sum(m2[p] for p in L.inner(new, LG))
        ctx.eq('total-mass', total, tot, 1e-6)
        for p in L.inner(new, GAS, WALL):
            ctx.eq('empty', list(f2[p]) + list(h2[p]) + [m2[p]], np.zeros(39), 1e-12)
    return h


_NO = dict(st_coeff=0.0, st_grad_coeff=0.0, h_conv=0.0, laser_power=0.0)
_n = (7, 3, 3)
for _nm, _a, _mb, _b in (('quiet', [LIQUID, LIQUID, LG, GAS, GAS], (0.4, 0.6), [LIQUID, LIQUID, LG, GAS, GAS]),
                         ('fills', [LIQUID, LIQUID, LG, GAS, GAS], (1.3, 1.5), [LIQUID, LIQUID, LIQUID, LG, GAS]),
                         ('empties', [LIQUID, LIQUID, LG, GAS, GAS], (-0.5, -0.3), [LIQUID, LG, GAS, GAS, GAS])):
    harness('C22', f'step_{_nm}', functions=FN, weight=3, bounds='')(_step(_n, pattern(_n, _a), {(3, 1, 1): _mb}, pattern(_n, _b), **_NO))


def _start(n, ph):
    """initial state: interface cells start half full, no liquid next to gas"""
    def h(ctx):
        got = {}

        def hook(k, frame, data):
            got.update(frame.f_locals)
            raise L.Stop()
        L.simulate(L.args(n, heat_capacity=ctx.real('cp', 1, 4)), ph, hook)
        P0, m0, f0, t0 = (ctx.terms(got[k]) for k in ('phase', 'mass', 'f_distribute', 'total_mass'))
        tot = 0.0
        for p in np.ndindex(*n):
            want = ph[p]
            if ph[p] == GAS and any(ph[nb(p, q)] == LIQUID for q in range(1, 19)):
                want = LG
            ctx.eq('phase', P0[p], float(want), 1e-9)
            if want == LG:
                ctx.eq('half-full', m0[p], 0.5, 1e-6)
                tot += 0.5
            if want == LIQUID:
                tot += 1.0
        ctx.eq('total', t0, tot, 1e-5)
    return h


for _n, _c in (((5, 4, 3), [LIQUID, LIQUID, GAS, LIQUID, GAS, GAS]), ((4, 4, 5), [LIQUID, GAS, GAS, GAS, GAS, GAS, GAS, LIQUID, LIQUID, LIQUID, GAS, GAS])):
    harness('C22', 'start_' + 'x'.join(map(str, _n)), functions=FN, bounds=f'lattice {_n}, interior phases {_c}')(_start(_n, pattern(_n, _c)))


def near(ph, p, kind):
    return any(ph[nb(p, q)] == kind for q in range(1, 19))


def _sweeps(n, ph):
    """each conversion rule on its own, from concrete phases and any masses and distributions"""
    def h(ctx):
        import jax.numpy as jnp
        G = L.closures(L.args(n))
        r = L.field(ctx, 'r', ph, (), 0.9, 1.1)
        f = np.zeros(tuple(n) + (19,), dtype=object)
        for p in L.inner(ph, LIQUID, LG):
            f[p] = np.array([w * r[p] for w in W], dtype=object if ctx.sym else float)
        m = L.field(ctx, 'm', ph, (), -0.5, 1.5, only=(LG,))
        if not ctx.sym:
            f = f.astype(float)
        fj, mj, pj, ids = ctx.jax(f), ctx.jax(m), jnp.asarray(ph), ids_of(n)
        a = ctx.terms(G['reini_lg_to_liquid_vmap'](ids, fj, pj, mj))
        b = ctx.terms(G['reini_lg_to_gas_vmap'](ids, fj, pj, mj))
        c, cm = (ctx.terms(x) for x in G['reini_liquid_to_lg_vmap'](ids, fj, pj, mj))
        d = ctx.terms(G['adhoc_step_vmap'](ids, fj, pj, mj))
        for p in np.ndindex(*n):
            k = float(ph[p])
            if ph[p] == LG:
                ctx.assume(ctx.either(m[p] >= 1.001 * r[p] + 1e-6, m[p] <= 1.001 * r[p] - 1e-6))
                ctx.assume(ctx.either(m[p] >= -0.001 * r[p] + 1e-6, m[p] <= -0.001 * r[p] - 1e-6))
                ctx.eq('full-becomes-liquid', a[p], ctx.where(m[p] > 1.001 * r[p], float(LIQUID), k), 1e-9)
                ctx.eq('empty-becomes-gas', b[p], ctx.where(m[p] < -0.001 * r[p], float(GAS), k), 1e-9)
                gasy = not near(ph, p, LIQUID)
                liq = not near(ph, p, GAS)
                ctx.eq('isolated-interface-is-dissolved', d[p], float(GAS if gasy else LIQUID if liq else LG), 1e-9)
            else:
                ctx.eq('others-keep-their-phase', [a[p], b[p], d[p]], [k, k, k], 1e-9)
            if ph[p] == LIQUID and near(ph, p, GAS):
                ctx.eq('exposed-liquid-becomes-interface', [c[p], cm[p]], [float(LG), r[p]], 1e-8)
            else:
                ctx.eq('unexposed-kept', [c[p], cm[p]], [k, m[p]], 1e-9)
    return h


def _gas_to_lg(n, ph):
    def h(ctx):
        import jax.numpy as jnp
        cp = 2.0
        G = L.closures(L.args(n, heat_capacity=cp))
        f = L.field(ctx, 'f', ph, (19,), 0.01, 0.2)
        hd = L.field(ctx, 'h', ph, (19,), 0.01, 1.0)
        r, T, en = L.field(ctx, 'r', ph, (), 0.9, 1.1), L.field(ctx, 'T', ph, (), 1, 8), L.field(ctx, 'e', ph, (), 1, 18)
        u = L.field(ctx, 'u', ph, (3,), -0.1, 0.1)
        m = L.field(ctx, 'm', ph, (), -0.5, 1.5, only=(LG,))
        J = ctx.jax
        f2, h2, p2, m2 = (ctx.terms(x) for x in G['reini_gas_to_lg_vmap'](ids_of(n), J(f), J(hd), J(r), J(u), J(en), J(T), jnp.asarray(ph), J(m)))
        for p in np.ndindex(*n):
            if ph[p] == GAS and near(ph, p, LIQUID):
                N = [nb(p, q) for q in range(19) if ph[nb(p, q)] in (LIQUID, LG)]
                av = lambda x: sum(x[z] for z in N) / len(N)
                ra, Ta, ea = av(r), av(T), av(en)
                ua = [sum(u[z][k] for z in N) / len(N) for k in range(3)]
                ctx.eq('becomes-interface', [p2[p], m2[p]], [float(LG), 0.0], 1e-9)
                ctx.eq('filled-with-average-density', mom(f2[p]), ra, 1e-7)
                ctx.eq('filled-with-average-enthalpy', mom(h2[p]), ea, 1e-7)
                for q in range(19):
                    ctx.eq('equilibrium', f2[p][q], feq(q, ra, ua), 1e-7)
                    e = feq(q, cp * Ta, ua)
                    ctx.eq('heat-equilibrium', h2[p][q], e if q else e + ea - cp * Ta, 1e-6)
            else:
                ctx.eq('kept', list(f2[p]) + list(h2[p]) + [p2[p], m2[p]], list(f[p]) + list(hd[p]) + [float(ph[p]), m[p]], 1e-9)
    return h


def _order(n, ph):
    """the four conversions of a time step in sequence: no liquid next to gas"""
    def h(ctx):
        import jax.numpy as jnp
        ctx.fork_counts()
        G = L.closures(L.args(n))
        f = np.zeros(tuple(n) + (19,))
        for p in L.inner(ph, LIQUID, LG):
            f[p] = W
        r = f.sum(-1)
        z = np.zeros(n)
        m = L.field(ctx, 'm', ph, (), -0.5, 1.5, only=(LG,))
        for p in L.inner(ph, LG):
            for b in (1.001, -0.001):
                ctx.assume(ctx.either(m[p] >= b + 1e-6, m[p] <= b - 1e-6))
        j = jnp.asarray
        fj, mj, p, ids = j(f), ctx.jax(m), j(ph), ids_of(n)
        p = G['reini_lg_to_liquid_vmap'](ids, fj, p, mj)
        fj, hj, p, mj = G['reini_gas_to_lg_vmap'](ids, fj, fj, j(r), j(np.zeros(tuple(n) + (3,))), j(r), j(r), p, mj)
        p = G['reini_lg_to_gas_vmap'](ids, fj, p, mj)
        p, mj = G['reini_liquid_to_lg_vmap'](ids, fj, p, mj)
        p = ctx.terms(p)
        for a in np.ndindex(*n):
            if ph[a] == WALL:
                ctx.eq('walls-stay', p[a], float(WALL), 1e-9)
                continue
            for q in range(1, 19):
                b = nb(a, q)
                if ph[b] != WALL:
                    ctx.true('liquid-never-touches-gas', ctx.negate(ctx.both(p[a] == LIQUID, p[b] == GAS)))
    return h


for _n, _c in (((7, 3, 3), [LIQUID, LIQUID, LG, GAS, GAS]), ((4, 4, 3), [LIQUID, LG, LG, GAS]), ((3, 5, 4), [LIQUID, LG, LG, LG, GAS, GAS]),
               ((6, 3, 3), [LG, LIQUID, LG, GAS]), ((5, 3, 3), [LG, LG, GAS]), ((3, 3, 7), [LIQUID, GAS, LIQUID, LG, LG])):
    _nm = 'x'.join(map(str, _n)) + '_' + ''.join('lig#'[c] for c in _c)
    harness('C22', f'rules_{_nm}', functions=FN, weight=2, bounds=f'lattice {_n}, interior phases {_c}, every interface mass in [-0.5,1.5], density in [0.9,1.1]')(_sweeps(_n, pattern(_n, _c)))
    harness('C22', f'order_{_nm}', functions=FN, weight=3, maxpaths=200, bounds=f'lattice {_n}, interior phases {_c}, every interface mass in [-0.5,1.5]')(_order(_n, pattern(_n, _c)))
for _n, _c in (((7, 3, 3), [LIQUID, GAS, GAS, LG, LIQUID]), ((4, 4, 3), [LIQUID, LG, LIQUID, GAS])):
    _nm = 'x'.join(map(str, _n)) + '_' + ''.join('lig#'[c] for c in _c)
    harness('C22', f'wetting_{_nm}', functions=FN, weight=3, bounds=f'lattice {_n}, interior phases {_c}, every state')(_gas_to_lg(_n, pattern(_n, _c)))


# ---------------------------------------------------------------- C23 temperature, surface geometry, forces, heat
@harness('C23', 'temperature', functions=FN, bounds='every enthalpy, heat capacity, solidus, melting interval and latent heat in boxes')
def temperature(ctx):
    cp = ctx.real('cp', 1, 4)
    Ts, w, lat = ctx.real('Ts', 2, 5), ctx.real('w', 0.1, 2), ctx.real('L', 0.1, 5)
    hs, hl = cp * Ts, cp * (Ts + w) + lat
    n = (3, 3, 3)
    G = L.closures(L.args(n, heat_capacity=cp, T_solidus=Ts, T_liquidus=Ts + w, latent_heat_fusion=lat, enthalpy_s=hs, enthalpy_l=hl))
    e = ctx.reals('e', (2,), 0.5, 40)
    T = ctx.terms(G['compute_T'](ctx.jax(e)))
    for i in range(2):
        ctx.assume(ctx.either(e[i] >= hs + 1e-6, e[i] <= hs - 1e-6))
        ctx.assume(ctx.either(e[i] >= hl + 1e-6, e[i] <= hl - 1e-6))
        ctx.eq('solid', ctx.where(e[i] < hs, T[i] * cp, e[i]), e[i], 1e-6)
        ctx.eq('mushy', ctx.where(ctx.both(e[i] > hs, e[i] < hl), (T[i] - Ts) * (hl - hs), (e[i] - hs) * w), (e[i] - hs) * w, 1e-6)
        ctx.eq('liquid', ctx.where(e[i] > hl, (T[i] - Ts - w) * cp, e[i] - hl), e[i] - hl, 1e-6)


@harness('C23', 'fill_level', functions=FN, bounds='every density and mass')
def fill_level(ctx):
    import jax.numpy as jnp
    n = (3, 3, 3)
    G = L.closures(L.args(n))
    r, m = ctx.reals('r', (5,), 0.5, 1.5), ctx.reals('m', (5,), -0.5, 1.5)
    ph = [LIQUID, LG, GAS, WALL, LG]
    v = ctx.terms(G['compute_vof'](ctx.jax(r), jnp.asarray(ph), ctx.jax(m)))
    ctx.eq('fill-level', v, [r[0], m[1], 0.0, 1.0, m[4]], 1e-9)


def heights(ctx, vof, p, ax):
    """column sums (7 cells along ax) of the 3x3 columns around p"""
    o = [k for k in range(3) if k != ax]
    H = {}
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            s = 0.0
            for k in range(-3, 4):
                q = list(p)
                q[o[0]] = (p[o[0]] + i) % vof.shape[o[0]]
                q[o[1]] = (p[o[1]] + j) % vof.shape[o[1]]
                q[ax] = (p[ax] + k) % vof.shape[ax]
                s = s + vof[tuple(q)]
            H[i, j] = s
    return H


def _curvature(ax, n):
    """interface roughly normal to axis ax through the middle cell"""
    def h(ctx):
        p = tuple(x // 2 for x in n)
        lo, hi = np.zeros(n), np.zeros(n)
        for q in np.ndindex(*n):
            lo[q], hi[q] = (0.0, 0.1) if q[ax] > p[ax] else (0.9, 1.0) if q[ax] < p[ax] else (0.4, 0.6)
        vof = ctx.reals('v', n, lo, hi)
        G = L.closures(L.args(n))
        phi, kap = (ctx.terms(x) for x in G['compute_curvature'](ids_of(n), ctx.jax(vof)))
        for k in range(3):
            a, b = list(p), list(p)
            a[k], b[k] = p[k] + 1, p[k] - 1
            ctx.eq('gradient', phi[p][k], (vof[tuple(a)] - vof[tuple(b)]) / 2, 1e-8)
        H = heights(ctx, vof, p, ax)
        Hx, Hy = (H[1, 0] - H[-1, 0]) / 2, (H[0, 1] - H[0, -1]) / 2
        Hxx, Hyy = H[1, 0] - 2 * H[0, 0] + H[-1, 0], H[0, 1] - 2 * H[0, 0] + H[0, -1]
        Hxy = (H[1, 1] - H[-1, 1] - H[1, -1] + H[-1, -1]) / 4
        s = 1 + Hx * Hx + Hy * Hy
        ctx.eq('curvature', kap[p], -(Hxx + Hyy + Hxx * Hy * Hy + Hyy * Hx * Hx - 2 * Hxy * Hx * Hy) / (s * ctx.sqrt(s)), 1e-6)
    return h


for _ax, _n in ((0, (7, 3, 3)), (1, (3, 7, 3)), (2, (3, 3, 7))):
    harness('C23', f'curvature_{"xyz"[_ax]}', functions=FN, weight=3, bounds=f'lattice {_n}, every fill field whose steepest direction is {"xyz"[_ax]}')(_curvature(_ax, _n))


def _tgrad(kinds):
    def h(ctx):
        import jax.numpy as jnp
        n = (3, 3, 3)
        ph = np.full(n, LIQUID)
        N = [(2, 1, 1), (0, 1, 1), (1, 2, 1), (1, 0, 1), (1, 1, 2), (1, 1, 0)]
        for q, k in zip(N, kinds):
            ph[q] = k
        T = ctx.reals('T', n, 0.5, 8)
        G = L.closures(L.args(n))
        g = ctx.terms(G['compute_T_grad'](ids_of(n), ctx.jax(T), jnp.asarray(ph)))
        v = [T[1, 1, 1] if ph[q] in (GAS, WALL) else T[q] for q in N]
        ctx.eq('gradient', g[1, 1, 1], [(v[0] - v[1]) / 2, (v[2] - v[3]) / 2, (v[4] - v[5]) / 2], 1e-8)
    return h


for _k in ([LIQUID] * 6, [LG, GAS, WALL, LIQUID, GAS, LG], [GAS, LIQUID, LG, WALL, LIQUID, WALL]):
    harness('C23', 'thermal_gradient_' + ''.join('lig#'[c] for c in _k), functions=FN, bounds=f'every temperature field, neighbours {_k}')(_tgrad(_k))


ONE = dict(h=1.0, dt=1.0, rho0=1.0, T0=1.0, M0=1.0)
UN = dict(h=0.5, dt=0.25, rho0=2.0, T0=3.0, M0=1.5)


def _force(un):
    """force in lattice units from coefficients in physical units"""
    def h(ctx):
        n = (3, 3, 3)
        lu, tu, ru, Tu, Mu = (un[k] for k in ('h', 'dt', 'rho0', 'T0', 'M0'))
        g, st, sg, rp, Lv, Te = ctx.real('g', 0, 1), ctx.real('st', 0, 1), ctx.real('sg', -1, 0), ctx.real('rp', 0, 1), ctx.real('Lv', 1, 4), ctx.real('Te', 6, 10)
        G = L.closures(L.args(n, **un, gravity=g, st_coeff=st, st_grad_coeff=sg, rp_coeff=rp, latent_heat_evap=Lv, T_evap=Te))
        r, v, k, T = (ctx.real(x, 0.5, 1.5) for x in ('r', 'v', 'k', 'T'))
        phi = ctx.reals('p', (3,), [0.1, -0.5, -0.5], [0.5, 0.5, 0.5])
        tg = ctx.reals('t', (3,), -1, 1)
        one = lambda x: ctx.jax(np.asarray(x, dtype=object if ctx.sym else float).reshape((1, 1, 1) + np.shape(x)))
        F = ctx.terms(G['compute_f_source_term'](one(r), one(v), one(phi), one(k), one(T), one(tg)))[0, 0, 0]
        nn = phi[0] * phi[0] + phi[1] * phi[1] + phi[2] * phi[2]
        s = ctx.sqrt(nn)
        pt = sum(phi[i] * tg[i] for i in range(3))
        Tp = T * Tu
        rec = rp * (101325.0 / (ru * lu ** 2 / tu ** 2)) * ctx.exp(Lv * Mu * (Tp - Te) / (8.314 * Tp * Te))
        sc = tu ** 2 / (ru * lu ** 3)
        for i in range(3):
            want = st * sc * k * phi[i] + sg * sc * Tu * (tg[i] - pt * phi[i] / nn) * s * 2 * v + rec * phi[i] - (r * g * (tu ** 2 / lu) if i == 2 else 0.0)
            ctx.eq('force', F[i], want, 1e-4)
    return h


for _u, _nm in ((ONE, 'unit'), (UN, 'scaled')):
    harness('C23', f'force_{_nm}', functions=FN, weight=2, bounds=f'every density, fill level, interface gradient, curvature, temperature, temperature gradient and coefficient; scales {_u}')(_force(_u))


@harness('C23', 'no_interface_force', functions=FN, bounds='every density, temperature; no interface')
def no_interface_force(ctx):
    n = (3, 3, 3)
    g = ctx.real('g', 0, 1)
    G = L.closures(L.args(n, gravity=g, rp_coeff=0.5))
    one = lambda x: ctx.jax(np.asarray(x, dtype=object if ctx.sym else float).reshape((1, 1, 1) + np.shape(x)))
    r, T = ctx.real('r', 0.5, 1.5), ctx.real('T', 0.5, 8)
    F = ctx.terms(G['compute_f_source_term'](one(r), one(r), one([0.0, 0.0, 0.0]), one(0.0), one(T), one(ctx.reals('t', (3,), -1, 1))))[0, 0, 0]
    ctx.eq('gravity-only', F, [0.0, 0.0, -r * g], 1e-7)


def _heat(up, un):
    def h(ctx):
        import math
        n = (3, 4, 3)
        lu, tu, ru, Tu, Mu = (un[k] for k in ('h', 'dt', 'rho0', 'T0', 'M0'))
        P, hc, em, b = ctx.real('P', 0, 5), ctx.real('hc', 0, 1), ctx.real('em', 0, 1000), 1.5
        G = L.closures(L.args(n, **un, laser_power=P, h_conv=hc, emissivity=em, beam_size=b, absorbed_fraction=0.4))
        T, v = ctx.reals('T', n, 0.5, 8), ctx.reals('v', n, 0, 1)
        phi = np.empty(n + (3,), dtype=object)
        for p in np.ndindex(*n):
            phi[p] = ctx.reals('p' + ''.join(map(str, p)), (3,), [0.05, -0.5, -0.5 if up else 0.01], [0.5, 0.5, -0.01 if up else 0.5])
        if not ctx.sym:
            phi = phi.astype(float)
        lx, ly, sw = ctx.real('lx', 0, 3), ctx.real('ly', 0, 4), ctx.real('sw', 0, 1)
        J = ctx.jax
        q = ctx.terms(G['compute_h_source_term'](ids_of(n), J(T), J(v), J(phi), J(ctx.terms(G['cell_centroids'])) if ctx.sym else G['cell_centroids'],
                                                 J(np.asarray(lx)), J(np.asarray(ly)), J(np.asarray(sw))))
        for p in [(0, 0, 0), (1, 2, 1), (2, 0, 2), (0, 3, 1)]:
            x, y = p[0] + 0.5, p[1] + 0.5
            s = ctx.sqrt(phi[p][0] * phi[p][0] + phi[p][1] * phi[p][1] + phi[p][2] * phi[p][2])
            t4 = T[p] * T[p] * T[p] * T[p]
            m3 = ru * lu ** 3 / tu ** 3
            loss = s * (hc * (Tu / m3) * (1 - T[p]) + 5.67e-8 * (Tu ** 4 / m3) * em * (1 - t4)) * 2 * v[p]
            b2 = (b / lu) ** 2
            las = sw * 2 * P * (tu ** 3 / (ru * lu ** 5)) * 0.4 / (math.pi * b2) * ctx.exp(-2 * ((x - lx) * (x - lx) + (y - ly) * (y - ly)) / b2)
            ctx.eq('heat', q[p], loss + (-phi[p][2] * las * 2 * v[p] if up else 0.0), 1e-5)
    return h


for _u, _nm in ((ONE, 'unit'), (UN, 'scaled')):
    harness('C23', f'heat_facing_up_{_nm}', functions=FN, weight=2, bounds=f'every temperature, fill level, interface gradient facing the laser, laser position, power, switch, convection, emissivity; scales {_u}')(_heat(True, _u))
harness('C23', 'heat_facing_down', functions=FN, weight=2, bounds='as before, interface facing away from the laser')(_heat(False, ONE))


# ---------------------------------------------------------------- C24 laser path, units, assembly of a whole step
@harness('C24', 'path_straight', functions=FN, bounds='every start point, two segments of 3 and 2 steps along the axes')
def path_straight(ctx):
    n = (3, 3, 3)
    x0, y0 = ctx.real('x0', 0, 5), ctx.real('y0', 0, 5)
    s1, s2 = ctx.real('s1', 0, 1), ctx.real('s2', 0, 1)
    G = L.closures(L.args(n, dt=0.5, scanning_vel=2.0, laser_path=dict(x_pos=[x0, x0 + 3.0, x0 + 3.0], y_pos=[y0, y0, y0 + 2.0], switch=[s1, s2, 0.0])))
    xs, ys, ps, ts = (ctx.terms(G[k]) for k in ('xs', 'ys', 'ps', 'ts'))
    ctx.eq('x', xs, [x0, x0 + 1, x0 + 2, x0 + 3, x0 + 3, x0 + 3, x0 + 3], 1e-9)
    ctx.eq('y', ys, [y0, y0, y0, y0, y0, y0 + 1, y0 + 2], 1e-9)
    ctx.eq('switch', ps, [s1, s1, s1, s1, s2, s2, s2], 1e-9)
    ctx.eq('time', ts, [0.0, 0.5, 1.0, 1.5, 1.5, 2.0, 2.5], 1e-9)
    ctx.eq('steps', float(G['total_time_steps']), 6.0, 1e-9)


def _laser_step(steps, dirz, first='x'):
    """cold block (temperature of the walls, at rest) under the laser: the enthalpy
    after every step, in physical units and independent of the lattice scaling"""
    def h(ctx):
        import math
        import jax.numpy as jnp
        n = (3, 3, 7)
        ph = pattern(n, [LIQUID, LIQUID, LG, GAS, GAS] if dirz else [GAS, GAS, LG, LIQUID, LIQUID])
        P, cpr, hc = ctx.real('P', 0, 50), 4.0, ctx.real('hc', 0, 2)
        x0, y0 = ctx.real('x0', 0, 2), ctx.real('y0', 0, 2)
        s = ctx.real('s', 0, 1)
        lu, tu, ru, Tu = UN['h'], UN['dt'], UN['rho0'], UN['T0']
        # first segment (one step) along one axis, a second one along the other axis; the corner is visited twice
        s2 = ctx.real('s2', 0, 1)
        dx, dy = (0.5, 0.0) if first == 'x' else (0.0, 0.5)
        path = dict(x_pos=[x0, x0 + dx], y_pos=[y0, y0 + dy], switch=[s, 0.0])
        if steps > 1:
            path = dict(x_pos=[x0, x0 + dx, x0 + 0.5], y_pos=[y0, y0 + dy, y0 + 0.5], switch=[s, s2, 0.0])
        beam, ab, ds = 1.2, 0.3, 0.1
        cp = cpr / (lu ** 2 / tu ** 2 / Tu)
        a = L.args(n, **UN, laser_power=P, beam_size=beam, absorbed_fraction=ab, scanning_vel=2.0, heat_capacity=cpr, h_conv=hc, laser_path=path,
                   thermal_diffusivitity_s=ds, T_solidus=3000.0, T_liquidus=3100.0, T_evap=9000.0, enthalpy_s=12000.0, enthalpy_l=13400.0,
                   st_coeff=0.0, st_grad_coeff=0.0, dynamic_viscosity=0.2)
        mm = ctx.real('m', 0.3, 0.7)
        f, hd, m = np.zeros(n + (19,), dtype=object), np.zeros(n + (19,), dtype=object), np.zeros(n, dtype=object)
        for p in L.inner(ph, LIQUID, LG):
            f[p], hd[p] = W, [w * cp for w in W]
        top = L.inner(ph, LG)[0]
        m[top] = mm
        if not ctx.sym:
            f, hd, m = f.astype(float), hd.astype(float), m.astype(float)
        states = []

        def hook(k, frame, data):
            if k == 0:
                L.set_locals(frame, dict(f_distribute=ctx.jax(f), h_distribute=ctx.jax(hd), phase=jnp.asarray(ph), mass=ctx.jax(m),
                                         total_mass=ctx.jax(np.asarray(2.0 + mm))))
            else:
                states.append([ctx.terms(frame.f_locals[z]) for z in ('f_distribute', 'h_distribute', 'phase', 'mass')] + [ctx.terms(data['T'][0])])
        L.simulate(a, L.box(n), hook)
        # oracle, lattice units
        hx, hy = 1.5 * lu, 1.5 * lu
        cur = {p: [w * cp for w in W] for p in L.inner(ph, LIQUID, LG)}
        tau = 3 * ds * tu / lu ** 2 + 0.5
        lx, ly, sw = [x0 + dx, x0 + dx, x0 + 0.5], [y0 + dy, y0 + dy, y0 + 0.5], [s, s2, s2]
        fill = {LIQUID: 1.0, LG: mm, GAS: 0.0, WALL: 1.0}
        for i in range(steps):
            f2, h2, p2, m2, Tout = states[i]
            post = {}
            for p, hq in cur.items():
                e = mom(hq)
                T = e / cp
                pl = P * (tu ** 3 / (ru * lu ** 5))         # power in lattice units
                las = sw[i] * 2 * pl * ab / (math.pi * (beam / lu) ** 2) * ctx.exp(-2 * ((hx - lx[i]) * (hx - lx[i]) + (hy - ly[i]) * (hy - ly[i])) / beam ** 2)
                hcl = hc * (tu ** 3 * Tu / (ru * lu ** 3))
                # the interface is spread over the cells where the fill level varies (along z only)
                slope = (fill[ph[p[0], p[1], p[2] - 1]] - fill[ph[p[0], p[1], p[2] + 1]]) / 2
                weight = 2 * fill[ph[p]]
                Q = (slope if dirz else -slope) * hcl * (1 - T) * weight + (slope * las * weight if dirz else 0.0)
                post[p] = [(W[q] * e - hq[q]) / tau + hq[q] + W[q] * Q for q in range(19)]
            new = {}
            for p in cur:
                new[p] = []
                for q in range(19):
                    src = nb(p, q, -1)
                    new[p].append(W[q] * cp if ph[src] == WALL else post[p][OPP[q]] if ph[src] == GAS else post[src][q])
                ctx.eq(f'enthalpy-step-{i + 1}', h2[p], new[p], 1e-6)
                ctx.eq(f'rest-step-{i + 1}', f2[p], W, 1e-8)
                ctx.eq(f'output-temperature-{i + 1}', Tout[p] * cp, mom(new[p]) * Tu, 1e-3)
            ctx.eq(f'interface-mass-{i + 1}', m2[top], mm, 1e-7)
            cur = new
    return h


for _s, _ax in ((1, 'x'), (1, 'y'), (3, 'y'), (2, 'x')):
    harness('C24', f'laser_on_surface_{_s}{_ax}', functions=FN, weight=3, bounds=f'{_s} time steps of a column under the laser, every power, laser position, switch, convection coefficient, interface mass; scales {UN}')(_laser_step(_s, True, _ax))
harness('C24', 'laser_behind_surface', functions=FN, weight=3, bounds='one time step, interface facing away from the laser')(_laser_step(1, False))


def _gravity_step(n, fluid_only=False):
    """closed box filled with resting melt: one step of gravity in physical units (fluid-only runs treat everything as molten)"""
    def h(ctx):
        import jax.numpy as jnp
        g, mu = ctx.real('g', 0, 1), ctx.real('mu', 0.05, 1.0)
        lu, tu, ru = UN['h'], UN['dt'], UN['rho0']
        ph = L.box(n)
        a = L.args(n, **UN, gravity=g, dynamic_viscosity=mu)
        cells = L.inner(ph, LIQUID)
        f, hd = np.zeros(n + (19,)), np.zeros(n + (19,))
        for p in cells:
            f[p], hd[p] = W, [w * (1 if fluid_only else 100) for w in W]
        out = {}

        def hook(k, frame, data):
            if k == 0:
                L.set_locals(frame, dict(f_distribute=jnp.asarray(f), h_distribute=jnp.asarray(hd), phase=jnp.asarray(ph), mass=jnp.asarray(f.sum(-1))))
            else:
                out.update(f=ctx.terms(frame.f_locals['f_distribute']), vel=ctx.terms(data['vel'][0]).reshape(n + (3,)))
                raise L.Stop()
        L.simulate(a, ph, hook, **(dict(fluid_only=True) if fluid_only else {}))
        gl = g * tu ** 2 / lu
        tau = 3 * (mu * tu / (ru * lu ** 2)) + 0.5
        u = [0.0, 0.0, -gl / 2]
        post = []
        for q in range(19):
            e = E_[q]
            eu = e[2] * u[2]
            frc = W[q] * 3 * ((e[2] - u[2]) + 3 * eu * e[2]) * (-gl)
            post.append((feq(q, 1.0, u) - W[q]) / tau + W[q] + (1 - 1 / (2 * tau)) * frc)
        for p in cells:
            for q in range(19):
                src = nb(p, q, -1)
                ctx.eq('distribution', out['f'][p][q], post[OPP[q]] if ph[src] == WALL else post[q], 1e-7)
            r = mom(out['f'][p])
            ctx.eq('output-velocity', [out['vel'][p][k] * r for k in range(3)], [mom(out['f'][p], k) * (lu / tu) for k in range(3)], 1e-4)
    return h


harness('C24', 'gravity_4x3x4', functions=FN, weight=3, bounds=f'one step, 4 liquid cells, every gravity and viscosity; scales {UN}')(_gravity_step((4, 3, 4)))
harness('C24', 'gravity_3x4x3', functions=FN, weight=3, bounds=f'one step, 2 liquid cells, every gravity and viscosity; scales {UN}')(_gravity_step((3, 4, 3)))


@harness('C24', 'melted_history', functions=FN, weight=3, bounds='two steps, every pair of enthalpies of two cells, cooled in between')
def melted_history(ctx):
    import jax.numpy as jnp
    n = (4, 3, 3)
    ph = L.box(n)
    f, m = np.zeros(n + (19,)), np.zeros(n)
    A, B = (1, 1, 1), (2, 1, 1)
    f[A] = f[B] = W
    m[A] = m[B] = 1.0
    e = [ctx.real('a', 8.5, 15.0), ctx.real('b', 2.0, 7.5)]
    hot, cold = np.zeros(n + (19,), dtype=object), np.zeros(n + (19,), dtype=object)
    for p, x in ((A, e[0]), (B, e[1])):
        hot[p], cold[p] = np.array([w * x for w in W]), W
    if not ctx.sym:
        hot = hot.astype(float)
    seen = []

    def hook(k, frame, data):
        if k:
            seen.append(ctx.terms(data['melted'][0]))
        if k < 2:
            L.set_locals(frame, dict(f_distribute=jnp.asarray(f), h_distribute=ctx.jax(hot) if k == 0 else jnp.asarray(cold.astype(float)), phase=jnp.asarray(ph), mass=jnp.asarray(m)))
    L.simulate(L.args(n, steps=2, gravity=0.0, st_coeff=0.0, st_grad_coeff=0.0), ph, hook)
    for i in range(2):
        ctx.eq('melted', [seen[i][A], seen[i][B]], [1.0, 0.0], 1e-9)


harness('C24', 'gravity_fluid_only', functions=FN, weight=3, bounds=f'one step in fluid-only mode from a cold start, 2 liquid cells, every gravity and viscosity; scales {UN}')(_gravity_step((4, 3, 3), True))


@harness('C24', 'output_schedule', functions=FN, weight=3, bounds='5 steps, output every 2, every gravity')
def output_schedule(ctx):
    n = (3, 3, 4)
    g = ctx.real('g', 0, 0.1)
    a = L.args(n, steps=5, gravity=g, st_coeff=0.0, st_grad_coeff=0.0, laser_power=0.0)
    a['output_interval'] = 2
    names, steps = [], []

    def hook(k, frame, data):
        import os
        names.append(os.path.basename(data['path']))
        steps.append(ctx.terms(data['vel'][0]).reshape(n + (3,)))
    # only the schedule: the fluid is frozen, so the state stays at rest
    L.simulate(a, L.box(n), hook)
    ctx.true('names', names == ['sol_0000.vtu', 'sol_0001.vtu', 'sol_0002.vtu'])
    ctx.eq('frozen-at-rest', [steps[-1][1, 1, 1], steps[-1][1, 1, 2]], np.zeros((2, 3)), 1e-6)


# the same complete steps also witness the parts of the step they contain
harness('C20', 'gravity_step', functions=FN, weight=3, bounds=f'one complete step, 4 liquid cells at rest, every gravity and viscosity; scales {UN}')(_gravity_step((4, 3, 4)))
harness('C20', 'heat_step', functions=FN, weight=3, bounds='one complete step of a column under the laser, every power, position, switch, convection, interface mass')(_laser_step(1, True))
harness('C21', 'gravity_step', functions=FN, weight=3, bounds=f'one complete step, 2 liquid cells at rest, every gravity and viscosity; scales {UN}')(_gravity_step((3, 4, 3)))
harness('C21', 'heat_step', functions=FN, weight=3, bounds='two complete steps of a column under the laser, every power, position, switch, convection, interface mass')(_laser_step(2, True))
harness('C23', 'heat_step', functions=FN, weight=3, bounds='one complete step of a column under the laser, every power, position, switch, convection, interface mass')(_laser_step(1, True))
harness('C23', 'heat_step_behind', functions=FN, weight=3, bounds='one complete step, interface facing away from the laser')(_laser_step(1, False))
