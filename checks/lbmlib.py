"""Access to the lattice Boltzmann solver: jax_am.lbm.core.simulation keeps its
steps as closures, so it is run with a stand-in for the output mesh.  The
stand-in sees the solver at every output: the first output (before the first
step) gives the closures, or takes a state to start the next step from."""
import copy
import ctypes
import os
import sys
import tempfile
import numpy as np

LIQUID, LG, GAS, WALL = 0, 1, 2, 3

BASE = dict(h=1.0, dt=1.0, rho0=1.0, T0=1.0, M0=1.0, gravity=0.01, dynamic_viscosity=0.1, st_coeff=0.02, st_grad_coeff=-0.003,
            rp_coeff=0.0, laser_power=0.5, beam_size=2.0, absorbed_fraction=0.5, scanning_vel=1.0, heat_capacity=2.0,
            thermal_diffusivitity_l=0.1, thermal_diffusivitity_s=0.05, emissivity=0.0, h_conv=0.02, latent_heat_fusion=1.0,
            latent_heat_evap=3.0, T_liquidus=5.0, T_solidus=4.0, T_evap=9.0, enthalpy_s=8.0, enthalpy_l=11.0)


def args(n, steps=1, **kw):
    v = dict(BASE)
    path = dict(x_pos=[0.5, 0.5 + steps], y_pos=[1.0, 1.0], switch=[1.0, 0.0])
    for k, x in kw.items():
        if k == 'laser_path':
            path = x
        else:
            assert k in v, k
            v[k] = x
    a = {k: {'value': x} for k, x in v.items()}
    a.update(Nx={'value': n[0]}, Ny={'value': n[1]}, Nz={'value': n[2]}, laser_path=path, output_interval=1)
    return a


class Stop(Exception):
    pass


class Mesh:
    """stand-in for the meshio mesh handed to simulation()"""

    def __init__(self, n, hook):
        from jax_am.common import box_mesh
        m = box_mesh(*n, *[float(x) for x in n])
        self.points, self.cells_dict, self.cell_data = m.points, m.cells_dict, {}
        self.hook, self.count = hook, 0

    def write(self, path, *a, **k):
        f = sys._getframe(1)
        while f is not None and f.f_code.co_name != 'simulation':
            f = f.f_back
        k, self.count = self.count, self.count + 1
        self.hook(k, f, dict(self.cell_data, path=path))


def set_locals(frame, values):
    for k, v in values.items():
        assert k in frame.f_locals, k
    d = frame.f_locals
    d.update(values)
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def simulate(a, phase, hook, **kw):
    import contextlib
    import io
    import jax.numpy as jnp
    import jax_am.lbm.core as core
    from vsym.ctx import CURRENT
    if CURRENT[0] is not None and CURRENT[0].sym:
        CURRENT[0].numpy_in(core)
    simulation = core.simulation
    n = tuple(a[k]['value'] for k in ('Nx', 'Ny', 'Nz'))
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d, contextlib.redirect_stdout(io.StringIO()):
        try:
            simulation(a, d, Mesh(n, hook), jnp.asarray(np.asarray(phase, dtype=np.int64)), **kw)
        except Stop:
            pass


def closures(a, phase=None):
    """the solver's functions and constants"""
    n = tuple(a[k]['value'] for k in ('Nx', 'Ny', 'Nz'))
    got = {}

    def hook(k, frame, data):
        got.update(frame.f_locals)
        raise Stop()
    simulate(a, box(n) if phase is None else phase, hook)
    return got


def box(n, fill=LIQUID):
    p = np.full(n, WALL)
    p[1:-1, 1:-1, 1:-1] = fill
    return p


VELS = np.array([[0, 1, -1, 0, 0, 0, 0, 1, -1, 1, -1, 1, -1, -1, 1, 0, 0, 0, 0],
                 [0, 0, 0, 1, -1, 0, 0, 1, -1, -1, 1, 0, 0, 0, 0, 1, -1, 1, -1],
                 [0, 0, 0, 0, 0, 1, -1, 0, 0, 0, 0, 1, -1, 1, -1, 1, -1, -1, 1]]).T
OPP = [[int(j) for j in range(19) if (VELS[j] == -VELS[i]).all()][0] for i in range(19)]
W = [1 / 3] + [1 / 18] * 6 + [1 / 36] * 12


def field(ctx, name, phase, comp, lo, hi, only=(LIQUID, LG), fill=0.0):
    """symbolic values in the cells of the given kinds, zero elsewhere"""
    out = np.full(phase.shape + comp, fill, dtype=object)
    for p in zip(*np.nonzero(np.isin(phase, only))):
        v = ctx.reals(name + ''.join(map(str, p)), comp or (1,), lo, hi)
        out[tuple(int(i) for i in p)] = v if comp else v[0]
    return out if ctx.sym else out.astype(float)


def inner(phase, *kinds):
    return [tuple(int(i) for i in p) for p in zip(*np.nonzero(np.isin(phase, kinds or (LIQUID, LG))))]
