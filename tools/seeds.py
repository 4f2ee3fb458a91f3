HEAD = '''import os, sys, io, contextlib
import numpy as onp
import jax
import jax.numpy as np
jax.config.update("jax_enable_x64", True)


def check(ok, msg):
    if not ok:
        print("BROKEN:", msg)
        sys.exit(1)
'''
MESH = '''
from jax_am.fem.generate_mesh import Mesh
def quads(nx, ny, lx=1., ly=1., xs=None):
    xs = onp.linspace(0, lx, nx + 1) if xs is None else onp.array(xs)
    ys = onp.linspace(0, ly, ny + 1)
    pts = onp.array([[x, y] for x in xs for y in ys])
    c = [[i*(ny+1)+j, (i+1)*(ny+1)+j, (i+1)*(ny+1)+j+1, i*(ny+1)+j+1] for i in range(nx) for j in range(ny)]
    return Mesh(pts, onp.array(c), ele_type='QUAD4')
def hexes(xs, ys, zs):
    nx, ny, nz = len(xs)-1, len(ys)-1, len(zs)-1
    pts = onp.array([[x, y, z] for x in xs for y in ys for z in zs], dtype=float)
    n = lambda i, j, k: (i*(ny+1)+j)*(nz+1)+k
    c = [[n(i,j,k), n(i+1,j,k), n(i+1,j+1,k), n(i,j+1,k), n(i,j,k+1), n(i+1,j,k+1), n(i+1,j+1,k+1), n(i,j+1,k+1)]
         for i in range(nx) for j in range(ny) for k in range(nz)]
    return Mesh(pts, onp.array(c), ele_type='HEX8')
'''
SEEDS = []


def S(id, property, edits, needs, what, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))


CORE, BASIS, SOLVER, MODELS, MMA = ['jax_am/fem/%s.py' % f for f in ('core', 'basis', 'solver', 'models', 'mma')]
CFD, GAMMA, AD = 'jax_am/cfd/cfd_am.py', 'jax_am/cfd/gamma.py', 'jax_am/fem/autodiff_utils.py'

S('c01-tri6-edge-order', 'C01', {BASIS: [('re_order = [0, 1, 2, 5, 3, 4]', 're_order = [0, 1, 2, 5, 4, 3]')]},
  'TRI6 elements with a field that is quadratic (edge nodes not collinear with the vertices)',
  'two midside nodes of the 6-node triangle are swapped, so quadratic fields are not reproduced',
  MESH + '''
from jax_am.fem.models import LinearPoisson
p = onp.array([[0., 0.], [2., 0.3], [0.4, 1.5]])
p = onp.vstack([p, (p[0]+p[1])/2, (p[1]+p[2])/2, (p[2]+p[0])/2])
prob = LinearPoisson(Mesh(p, onp.arange(6)[None, :], ele_type='TRI6'), vec=1, dim=2, ele_type='TRI6')
u = prob.convert_from_dof_to_quad(np.array(p[:, :1]**2))
check(onp.allclose(u[..., 0], prob.get_physical_quad_points()[..., 0]**2), "quadratic field not reproduced on TRI6")
''')

S('c02-slanted-edge-length', 'C02', {BASIS: [('size_jacobian = onp.linalg.norm(jacobian)', 'size_jacobian = onp.abs(jacobian).max()')]},
  'a triangle face that is the image of the reference hypotenuse (local face 0)',
  'the length of the slanted reference edge is 1 instead of sqrt(2), so its surface weights are too small',
  MESH + '''
from jax_am.fem.models import LinearPoisson
p = onp.array([[0., 0.], [2., 0.], [0., 1.]])
prob = LinearPoisson(Mesh(p, onp.arange(3)[None, :], ele_type='TRI3'), vec=1, dim=2, ele_type='TRI3')
_, s = prob.get_face_shape_grads(onp.array([[0, 0], [0, 1], [0, 2]]))
check(onp.allclose(sorted(s.sum(1)), sorted([5**.5, 1., 2.])), f"edge lengths {s.sum(1)}")
''')

S('c03-second-traction-vars', 'C03', {CORE: [("int_vars = internal_vars['neumann'][i]", "int_vars = internal_vars['neumann'][0]")]},
  'two loaded boundaries, both with traction data passed as internal variables',
  'the second loaded boundary uses the traction data of the first',
  MESH + '''
from jax_am.fem.core import FEM
class P(FEM):
    def get_tensor_map(self):
        return lambda x: 0.*x
    def custom_init(self):
        n = [self.convert_neumann_from_dof(np.ones((self.num_total_nodes, 1)), i) for i in range(2)]
        self.internal_vars = {'neumann': [[2.*n[0]], [5.*n[1]]]}
prob = P(quads(2, 2), vec=1, dim=2, ele_type='QUAD4', neumann_bc_info=[[lambda x: np.isclose(x[0], 0.), lambda x: np.isclose(x[0], 1.)],
         [lambda x, q: q, lambda x, q: q]])
r = prob.compute_residual(np.zeros((9, 1)))
check(onp.isclose(float(r.sum()), -7.), f"total load {float(r.sum())} instead of -7")
''')

S('c03-mass-vars-short', 'C03', {CORE: [("            mass_internal_vars = internal_vars['mass']", "            mass_internal_vars = internal_vars['mass'][:1]")]},
  'a mass term with more than one coefficient field, the later one optional in the user map',
  'the second coefficient field of a mass term is dropped silently when the map has a default for it',
  MESH + '''
from jax_am.fem.core import FEM
class P(FEM):
    def get_mass_map(self):
        return lambda u, a, b=0.: a*u + b
prob = P(quads(2, 1), vec=1, dim=2, ele_type='QUAD4')
one = np.ones((2, prob.num_quads, 1))
prob.internal_vars = {'mass': [2.*one, 3.*one]}
r = float(prob.compute_residual(np.ones((6, 1))).sum())
check(onp.isclose(r, 5.), f"mass term integrates to {r} instead of 5")
''')

S('c04-face-tangent-transposed', 'C04', {CORE: [('self.I = onp.hstack((self.I, I_face))', 'self.I = onp.hstack((self.I, J_face))'),
                                                ('self.J = onp.hstack((self.J, J_face))', 'self.J = onp.hstack((self.J, I_face))')]},
  'a solution-dependent surface law that couples components unsymmetrically',
  'the surface part of the tangent is assembled transposed',
  MESH + '''
from jax_am.fem.core import FEM
import scipy.sparse
class P(FEM):
    def get_tensor_map(self):
        return lambda x: x
prob = P(quads(2, 1), vec=2, dim=2, ele_type='QUAD4', cauchy_bc_info=[[lambda x: np.isclose(x[0], 1.)], [lambda u: np.array([3.*u[1], u[0]*0.])]])
s = np.array(onp.random.RandomState(0).rand(6, 2)); d = np.array(onp.random.RandomState(1).rand(6, 2))
prob.newton_update(s)
A = scipy.sparse.csr_array((onp.array(prob.V), (prob.I, prob.J)), shape=(12, 12))
fd = (prob.compute_residual(s + 1e-3*d) - prob.compute_residual(s - 1e-3*d)).reshape(-1)/2e-3
check(onp.allclose(A @ onp.array(d).reshape(-1), fd, atol=1e-7), "tangent is not the derivative of the residual")
''')

S('c04-face-rows-first-subset', 'C04', {CORE: [('kernel, kernel_jac = get_kernel_fn_face(value_fns[i])\n            fn = kernel_jac if jac_flag else kernel',
                                                'kernel, kernel_jac = get_kernel_fn_face(value_fns[i])\n            fn = get_kernel_fn_face(value_fns[0])[1] if jac_flag else kernel')]},
  'two surface laws on different boundary parts',
  'the tangent of every surface part uses the law of the first part, the residual does not',
  MESH + '''
from jax_am.fem.core import FEM
import scipy.sparse
class P(FEM):
    def get_tensor_map(self):
        return lambda x: x
prob = P(quads(2, 1), vec=1, dim=2, ele_type='QUAD4', cauchy_bc_info=[[lambda x: np.isclose(x[0], 1.), lambda x: np.isclose(x[0], 0.)], [lambda u: 2.*u, lambda u: 9.*u]])
s = np.array(onp.random.RandomState(0).rand(6, 1)); d = np.array(onp.random.RandomState(1).rand(6, 1))
prob.newton_update(s)
A = scipy.sparse.csr_array((onp.array(prob.V), (prob.I, prob.J)), shape=(6, 6))
fd = (prob.compute_residual(s + 1e-3*d) - prob.compute_residual(s - 1e-3*d)).reshape(-1)/2e-3
check(onp.allclose(A @ onp.array(d).reshape(-1), fd, atol=1e-7), "tangent is not the derivative of the residual")
''')

S('c05-relative-tolerance', 'C05', {SOLVER: [('''        logger.debug(f"Before, res l_2 = {res_val}")
        tol = 1e-6
        while res_val > tol:
            dofs = linear_incremental_solver(problem,''', '''        logger.debug(f"Before, res l_2 = {res_val}")
        tol = 1e-6 * max(1., float(res_val))
        while res_val > tol:
            dofs = linear_incremental_solver(problem,''')]},
  'a nonlinear solve whose starting residual is much larger than 1 and whose last Newton step lands between the two tolerances',
  'the Newton loop stops at a residual relative to the starting one instead of the absolute tolerance',
  MESH + '''
from jax_am.fem.core import FEM
from jax_am.fem.solver import solver
class P(FEM):
    def get_tensor_map(self):
        return lambda x: x
    def get_mass_map(self):
        return lambda u: 40.*u**3
worst = 0.
for k in (2, 7):
    prob = P(quads(2, 1), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[lambda x: np.isclose(x[0], 0.)], [0], [lambda x: 1.]])
    sol = solver(prob, initial_guess=np.full((6, 1), 3.7*k))
    r = onp.array(prob.compute_residual(sol)).reshape(-1)[2:]
    worst = max(worst, onp.abs(r).max())
check(worst < 2e-6, f"returned with residual {worst}")
''')

S('c05-petsc-row-index', 'C05', {SOLVER: [('''        for i in range(len(problem.node_inds_list)):
            row_inds = onp.array(problem.node_inds_list[i] * problem.vec +
                                 problem.vec_inds_list[i],
                                 dtype=onp.int32)
            A.zeroRows(row_inds)
    else:
        A = row_elimination''', '''        for i in range(len(problem.node_inds_list)):
            row_inds = onp.unique(problem.node_inds_list[i] * problem.vec +
                                 problem.vec_inds_list[0][:1]).astype(onp.int32)
            A.zeroRows(row_inds)
    else:
        A = row_elimination''')]},
  'PETSc solve of a vector problem in which the first condition constrains another component than a later one',
  'the PETSc matrix eliminates the rows of the component of the first condition for every condition',
  MESH + '''
from jax_am.fem.models import LinearElasticity
from jax_am.fem import solver as M
import unittest.mock as mock
left = lambda x: np.isclose(x[0], 0.)
prob = LinearElasticity(quads(2, 1), vec=2, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[left, left], [0, 1], [lambda x: 0., lambda x: 0.2]])
prob.newton_update(np.zeros((6, 2)))
A = M.get_A_fn(prob, True)
from petsc4py import PETSc
D = onp.zeros((12, 12))
ip, ix, v = A.getValuesCSR()
for r in range(12):
    D[r, ix[ip[r]:ip[r+1]]] = v[ip[r]:ip[r+1]]
rows = [0, 1, 2, 3]
check(onp.allclose(D[rows], onp.eye(12)[rows]), "constrained rows of the PETSc matrix are not identity rows")
''')

S('c06-periodic-component', 'C06', {SOLVER: [('''        I_p = onp.hstack((I_p, problem.vec * problem.p_node_inds_list_B[i] +
                          problem.p_vec_inds_list[i]))''', '''        I_p = onp.hstack((I_p, problem.vec * problem.p_node_inds_list_B[i] +
                          problem.p_vec_inds_list[0][0]))''')]},
  'a vector problem with periodic conditions on more than one component',
  'the partner dof of the second periodic group belongs to the component of the first group',
  MESH + '''
from jax_am.fem.models import LinearElasticity
from jax_am.fem import solver as M
l = lambda x: np.isclose(x[0], 0.); r = lambda x: np.isclose(x[0], 1.)
mp = lambda x: x + onp.array([1., 0.])
bot = lambda x: np.isclose(x[1], 0.)
prob = LinearElasticity(quads(2, 1), vec=2, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[bot, bot], [0, 1], [lambda x: 0.1*x[0]*(1.-x[0]), lambda x: 0.]],
    periodic_bc_info=[[l, l], [r, r], [mp, mp], [0, 1]])
sol0 = np.zeros((6, 2))
res = prob.newton_update(sol0).reshape(-1)
aug = M.aug_dof_w_zero_bc(prob, sol0.reshape(-1))
out = M.get_A_fn_and_res_aug(prob, aug, res, 1., False)
A_fn = out[1] if callable(out[1]) else out[0]
n = len(aug)
J = onp.array(jax.jacfwd(lambda a: M.compute_residual_lm(prob, np.zeros(12), a, 1.))(aug))
A = onp.array(jax.vmap(A_fn)(np.eye(n))).T
check(onp.allclose(A[12:, :], J[12:, :]), "constraint rows of the augmented matrix are not the derivative of the constraints")
''')

S('c07-stale-params', 'C07', {SOLVER: [('''    problem.set_params(params)
    problem.newton_update(sol)
    A_fn = get_A_fn(problem, use_petsc)

    if use_petsc:
        A_transpose''', '''    problem.newton_update(sol)
    A_fn = get_A_fn(problem, use_petsc)

    if use_petsc:
        A_transpose''')]},
  'the problem is solved again with other parameters between a forward solve and its backward pass',
  'the adjoint uses the tangent of the most recently set parameters instead of those of the solve being differentiated',
  MESH + '''
from jax_am.fem.core import FEM
from jax_am.fem.solver import ad_wrapper
class P(FEM):
    def get_tensor_map(self):
        return lambda x, k: k*x
    def set_params(self, params):
        self.internal_vars = {'laplace': [np.repeat(params[:, None, None], self.num_quads, axis=1)]}
l = lambda x: np.isclose(x[0], 0.)
prob = P(quads(4, 3), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[l], [0], [lambda x: 0.]], source_info=lambda x: np.array([1.+x[0]]))
f = ad_wrapper(prob, linear=True)
k1 = np.linspace(1., 2., 12); k2 = np.linspace(5., 3., 12)
s1, v1 = jax.vjp(f, k1)
w = np.ones_like(s1)
g_ref, = v1(w)
s1, v1 = jax.vjp(f, k1)
f(k2)
g, = v1(w)
check(onp.allclose(g, g_ref, rtol=1e-4), "gradient depends on a later solve")
''')

S('c08-volume-guard', 'C08', {MODELS: [('J = np.linalg.det(F)', 'J = np.maximum(np.linalg.det(F), 0.5)')]},
  'compression to less than half the volume', 'the volume ratio is clipped, so strong compression gives a wrong, too soft stress',
  MESH + '''
from jax_am.fem.models import HyperElasticity
prob = HyperElasticity(hexes([0, 1], [0, 1], [0, 1]), vec=3, dim=3)
P = prob.get_tensor_map()(np.eye(3)*0.7 - np.eye(3))
J = 0.343; kappa = 1e3/(3*0.4)
check(onp.allclose(P, onp.eye(3)*kappa*(J-1)*0.49, rtol=1e-6), f"stress {P[0,0]} instead of {kappa*(J-1)*.49}")
''')

S('c09-capped-return', 'C09', {MODELS: [('f_yield_plus = np.where(f_yield > 0., f_yield, 0.)', 'f_yield_plus = np.clip(f_yield, 0., 4.*sig0)')]},
  'one load step whose trial stress is beyond five times the yield stress', 'the plastic correction is capped, the stress stays outside the yield surface',
  MESH + '''
from jax_am.fem.models import Plasticity
prob = Plasticity(hexes([0, 1], [0, 1], [0, 1]), vec=3, dim=3)
_, rm = prob.get_maps()
g = onp.zeros((3, 3)); g[0, 1] = 0.05
s = onp.array(rm(np.array(g), np.zeros((3, 3)), np.zeros((3, 3))))
d = s - onp.trace(s)/3*onp.eye(3)
check(onp.sqrt(1.5*(d*d).sum()) < 250.001, f"equivalent stress {onp.sqrt(1.5*(d*d).sum())}")
''')

S('c10-one-face-per-cell', 'C10', {MODELS: [('boundary_inds = self.get_boundary_conditions_inds([location_fn])[0]',
  """boundary_inds = self.get_boundary_conditions_inds([location_fn])[0]
        boundary_inds = boundary_inds[onp.unique(boundary_inds[:, 0], return_index=True)[1]]""")]},
  'a selected boundary in which one cell has two faces (for instance around an edge of the body)',
  'only one face per cell enters surface integrals',
  MESH + """
from jax_am.fem.models import LinearElasticity
prob = LinearElasticity(hexes([0, 1, 4], [0, 1, 2], [0, 1]), vec=3, dim=3)
a = prob.compute_surface_area(lambda x: np.isclose(x[0], 0.) | np.isclose(x[1], 0.), np.zeros((18, 3)))
check(onp.allclose(a, 6.), f"area {a} instead of 6")
""")

S('c11-move-limit-asymptotes', 'C11', {MMA: [('zzz2 = xval+move*(xmax-xmin)', 'zzz2 = xval+move*(upp-low)')]},
  'at least three iterations with steady progress so that the asymptotes have widened beyond the variable range',
  'the upper move limit grows with the asymptotes',
  '''
from jax_am.fem import mma as M
m = M.MMA(); m.setNumConstraints(1); m.setNumDesignVariables(2)
m.setMinandMaxBoundsForDesignVariables(onp.zeros((2, 1)), onp.ones((2, 1)))
m.setScalingParams(1.0, onp.zeros((1, 1)), 1e4*onp.ones((1, 1)), onp.zeros((1, 1))); m.setMoveLimit(0.1)
x = onp.array([[0.05], [0.05]]); m.setLowerAndUpperAsymptotes(x*0+1, x*0+1)
xo1 = xo2 = x; m.registerMMAIter(x, xo1, xo2); worst = 0
for i in range(7):
    m.setObjectiveWithGradient(onp.array(0.), -50*onp.ones((2, 1))); m.setConstraintWithGradient(onp.array([[-5.]]), onp.zeros((1, 2)))
    m.mmasub(x); n = m.getOptimalValues()[0]
    worst = max(worst, onp.abs(n-x).max()); xo2, xo1, x = xo1, x, n
    m.registerMMAIter(x, xo1, xo2)
check(worst <= 0.1 + 1e-9, f"a design variable moved by {worst}")
''')

S('c12-stationary-asymptotes', 'C12', {MMA: [('factor[np.where(zzz<0)] = asydecr', 'factor[np.where(zzz<=0)] = asydecr')]},
  'a design variable that did not move in one of the last two steps (for instance at its bound)',
  'asymptotes of a resting variable are tightened as if it oscillated',
  '''
from jax_am.fem import mma as M
m = M.MMA(); m.setNumConstraints(1); m.setNumDesignVariables(1)
m.setMinandMaxBoundsForDesignVariables(onp.zeros((1, 1)), onp.ones((1, 1)))
m.setScalingParams(1.0, onp.zeros((1, 1)), 1e4*onp.ones((1, 1)), onp.zeros((1, 1))); m.setMoveLimit(0.1)
x = onp.array([[0.5]]); m.setLowerAndUpperAsymptotes(x-0.3, x+0.3)
for _ in range(3):
    m.registerMMAIter(x, x.copy(), x.copy())
m.setObjectiveWithGradient(onp.array(0.), onp.ones((1, 1))); m.setConstraintWithGradient(onp.array([[-5.]]), onp.zeros((1, 1)))
m.mmasub(x); lo, up = m.getAsymptoteValues()
check(onp.allclose([lo, up], [[[0.2]], [[0.8]]]), f"asymptotes {lo} {up}")
''')

S('c13-row-instead-of-neighbour', 'C13', {MMA: [("dvc = np.matmul(ft['H'][None, :, :], rho[None, :, :]*dvc/np.maximum(1e-3, rho[None, :, :])/ft['Hs'][None, :, None])",
                                               "dvc = np.matmul(ft['H'][None, :, :], rho[None, :, :]*dvc/np.maximum(1e-3, rho[None, :, :]))/ft['Hs'][None, :, None]")]},
  'constraint sensitivities that vary over cells with different numbers of neighbours',
  'constraint sensitivities are normalised with the row sum of the receiving cell',
  MESH + '''
from jax_am.fem import mma as M
H = onp.array([[1.5, .5, 0], [.5, 1.5, .5], [0, .5, 1.5]]); Hs = H.sum(1)
rho = onp.array([[1.], [1.], [1.]]); d = onp.array([[[1.], [0.], [0.]]])
_, dv = M.applySensitivityFilter({'H': H, 'Hs': Hs}, rho, onp.ones((3, 1)), d)
check(onp.isclose(dv.sum(), 1.), f"total sensitivity {dv.sum()} instead of 1")
''')

S('c14-areas-2d', 'C14', {CFD: [('''            -self.dX[1],
            self.dX[1],
            -self.dX[0],
            self.dX[0],
''', '''            -self.dX[0],
            self.dX[0],
            -self.dX[1],
            self.dX[1],
''')]},
  'a 2d grid whose cells are not square', 'face lengths of the two directions are swapped',
  '''
from jax_am.cfd import cfd_am as M
g = M.mesh2d([2., 1.], [2, 4])
p = M.poisson(g, mu=1., source_fn=lambda u: 0.*u)
p.set_bc([1, 1, 1, 1], [np.zeros(4), np.ones(4), np.zeros(2), np.zeros(2)])
r = float(p.compute_residual(np.zeros(8)).sum())
check(onp.isclose(r, -1.), f"a unit flux through a wall of length 1 brings {-r}")
''')

S('c15-precond-first-column', 'C15', {CFD: [('self.precond_values = ((self.msh.cell_conn == np.arange(self.msh.cell_num)[:,None])*self.values).sum(axis=1)',
                                           'self.precond_values = self.values[:, 0]')]},
  'cells at a wall, whose missing neighbours are the cell itself', 'the preconditioner is not the diagonal of the matrix for cells at insulated walls',
  '''
from jax_am.cfd import cfd_am as M
g = M.mesh3d([2., 1., 1.], [2, 1, 2])
p = M.poisson(g, mu=1., source_fn=lambda u: -u)
p.newton_update(np.zeros(4))
A = onp.array(jax.vmap(p.compute_linearized_residual)(np.eye(4)))
check(onp.allclose(p.jacobiPreconditioner(np.ones(4)), 1/onp.diag(A)), "preconditioner is not the inverse diagonal")
''')

S('c16-second-ghost-top', 'C16', {CFD: [('fz = np.concatenate((f_gc[4], f_gc[4], f, f_gc[5], f_gc[5]), axis=2)', 'fz = np.concatenate((f_gc[4], f_gc[4], f, f_gc[5], f_gc[4]), axis=2)')]},
  'downward flow through the top face', 'inflow through the top is upwinded with the ghost value of the bottom',
  '''
from jax_am.cfd import cfd_am as M
f = np.arange(1., 4.).reshape(1, 1, 3, 1)
dX = [1., 1., 1.]
z = lambda s: np.zeros(s)
r = M.div(f, (z((2, 1, 3, 1)), z((1, 2, 3, 1)), -np.ones((1, 1, 4, 1))), dX)
top = float(r[0, 0, 2, 0])
# insulated wall: every ghost layer above the top equals the top cell value 3
face = 0.125*(3 + 3)/2 + 0.875*(1.5*3 - .5*3)
low = 0.125*(2 + 3)/2 + 0.875*(1.5*3 - .5*3)
check(onp.isclose(top, -face + low), f"top cell {top} instead of {-face+low}")
''')

AMB = '''
from jax_am.cfd import cfd_am as M
def am(N, Nl, dx, **over):
    dom = [N[i]*dx[i] for i in range(3)]; loc = [Nl[i]*dx[i] for i in range(3)]
    a = dict(mesh=M.mesh3d(dom, list(N)), mesh_local=M.mesh3d(loc, list(Nl)), meshio_mesh=None, data_dir=os.environ['SCRATCH'], heat_source=0,
             eta=0.4, rb=0.5, speed=0.5, P=2.0, t_OFF=1.0, X0=[0.25, 0.4, dom[2]], dt=0.1, T_ref=0.0, Ts=1.0, Tl=2.0,
             latent_heat=0.5, rho=1.5, visco=0.8, Marangoni=-0.3, cp=lambda T: 2.0 + 0.*T, k=lambda T: 1.2 + 0.*T)
    a.update(over)
    return M.AM_3d(a)
'''
S('c17-window-clip', 'C17', {CFD: [('y0 = np.clip(y0,0,self.msh.shape[1]-self.msh_local.shape[1])', 'y0 = np.clip(y0,0,self.msh.shape[0]-self.msh_local.shape[0])')]},
  'a laser track near the far side of a domain that is longer than wide', 'the window can leave the domain in y',
  AMB + '''
s = am((10, 4, 2), (3, 2, 1), (1., 1., 1.), X0=[2., 3.9, 2.])
x0, x1, y0, y1, z0, z1 = [int(v) for v in s.get_moving_box_boundary(0.)]
check(0 <= y0 and y1 <= 4, f"window y {y0}..{y1} outside 0..4")
''')

S('c18-advection-latent', 'C18', {CFD: [("T0) / args['dt'] - args['rho'] * cp_fn(T0) * conv + Q", "T0) / args['dt'] - args['rho'] * args['cp'](T0) * conv + Q")]},
  'advection through a cell inside the melting range', 'advected heat leaves out the latent heat',
  AMB + '''
s = am((2, 2, 2), (2, 2, 2), (1., 1., 1.))
fn = s.eqn_T.step.source_fn
T0 = np.array([1.5]); z = np.zeros(1)
got = fn(T0, T0, np.ones(1), z)
check(onp.allclose(got, -1.5*2.5), f"advected heat {got} instead of {-1.5*2.5}")
''')

S('c18-solid-drag', 'C18', {CFD: [('1 - fl)**2 / (fl**3 + 1e-5) * u', '1 - fl)**2 / (fl**3 + 1e-5) * u0')]},
  'a partly solid cell with a velocity that changes within the step', 'the drag acts on the old velocity, so solid cells are not immobilised',
  AMB + '''
s = am((2, 2, 2), (2, 2, 2), (1., 1., 1.))
fn = s.eqn_V.step.source_fn
z = np.zeros(1)
got = float(fn(np.ones(1), np.ones(1), z, z, z)[0])
g0 = float(fn(np.ones(1), z, z, z, z)[0]) + 1.5/0.1
check(onp.isclose(got, g0, rtol=1e-9), f"drag {g0} with old velocity zero, {got} otherwise")
''')

S('c19-ghost-conductivity', 'C19', {GAMMA: [('T[-2,1:-1,1:-1]-q_x_pos/k[-2,1:-1,1:-1]*dx', 'T[-2,1:-1,1:-1]-q_x_pos/k[-1,1:-1,1:-1]*dx')]},
  'a ghost layer at the +x wall whose temperature differs from the wall cells', 'the +x wall condition uses the conductivity of the ghost layer',
  '''
from jax_am.cfd import gamma as M
g = dict(Ts=1563., Tl=1623., h=100., T0=300., SB=5.67e-8, eps=0.3, eta=0.4, r=5e-5, rho=8440., L=290e3)
T = onp.full((4, 4, 4), 900.); T[-1] = 400.
T = np.array(T); _, k, _ = M.update_mat(T, g)
x = y = np.zeros((2, 2, 2))
n = M.BC_thermal(T, k, 0., 0., x, y, 0., 1e-3, 1e-3, 1e-3, g)
Tw = 650.; q = 100*(Tw-300)+5.67e-8*.3*(Tw**4-300**4)
check(onp.allclose(k[-2, 1, 1]*(900.-n[-1, 1, 1])/1e-3, q, rtol=1e-4), "conduction does not balance the wall loss")
''')

LBM, AC, PFU, COMMON = 'jax_am/lbm/core.py', 'jax_am/phase_field/allen_cahn.py', 'jax_am/phase_field/utils.py', 'jax_am/common.py'
LBMD = '''
import ctypes
from jax_am.lbm.core import simulation
from jax_am.common import box_mesh
LIQ, LG, GAS, WALL = 0, 1, 2, 3
W = onp.array([1/3] + [1/18]*6 + [1/36]*12)
V = onp.array([[0, 1, -1, 0, 0, 0, 0, 1, -1, 1, -1, 1, -1, -1, 1, 0, 0, 0, 0],
               [0, 0, 0, 1, -1, 0, 0, 1, -1, -1, 1, 0, 0, 0, 0, 1, -1, 1, -1],
               [0, 0, 0, 0, 0, 1, -1, 0, 0, 0, 0, 1, -1, 1, -1, 1, -1, -1, 1]]).T
def largs(n, path=None, **kw):
    v = dict(h=1., dt=1., rho0=1., T0=1., M0=1., gravity=0., dynamic_viscosity=.1, st_coeff=0., st_grad_coeff=0., rp_coeff=0., laser_power=0.,
             beam_size=2., absorbed_fraction=.5, scanning_vel=1., heat_capacity=2., thermal_diffusivitity_l=.1, thermal_diffusivitity_s=.05, emissivity=0.,
             h_conv=0., latent_heat_fusion=1., latent_heat_evap=3., T_liquidus=5., T_solidus=4., T_evap=9., enthalpy_s=8., enthalpy_l=11.)
    v.update(kw)
    a = {k: {'value': x} for k, x in v.items()}
    a.update(Nx={'value': n[0]}, Ny={'value': n[1]}, Nz={'value': n[2]}, laser_path=path or dict(x_pos=[.5, 1.5], y_pos=[1., 1.], switch=[0., 0.]), output_interval=1)
    return a
def pat(n, cells):
    p = onp.full(n, WALL)
    p[1:-1, 1:-1, 1:-1] = onp.array(cells).reshape([x - 2 for x in n])
    return p
def equil(rho, u):
    u = onp.array(u)
    return W*rho*(1 + 3*V@u + 4.5*(V@u)**2 - 1.5*u@u)
class Stop(Exception): pass
def lrun(a, phase, states, steps=1):
    """run simulation(); states[k] (dict of state arrays) replaces the state at output k; returns the state after each step"""
    out = []
    class M:
        def __init__(s):
            m = box_mesh(*phase.shape, *[float(x) for x in phase.shape])
            s.points, s.cells_dict, s.cell_data, s.k = m.points, m.cells_dict, {}, 0
        def write(s, *_, **__):
            f = sys._getframe(1)
            while f.f_code.co_name != 'simulation': f = f.f_back
            if s.k: out.append({k: onp.array(f.f_locals[k]) for k in ('f_distribute', 'h_distribute', 'phase', 'mass', 'melted')})
            if s.k == steps: raise Stop()
            if s.k in states:
                d = f.f_locals
                d.update({k: np.asarray(v) for k, v in states[s.k].items()})
                ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(f), ctypes.c_int(0))
            s.k += 1
    with contextlib.redirect_stdout(io.StringIO()):
        try: simulation(a, os.environ['SCRATCH'], M(), np.array(phase))
        except Stop: pass
    return out
def state(phase, rho=1., u=(0., 0., 0.), e=14., mass=0.5):
    wet = onp.isin(phase, (LIQ, LG))
    f = onp.where(wet[..., None], equil(rho, u), 0.)
    h = onp.where(wet[..., None], W*e, 0.)
    m = onp.where(phase == LG, mass, onp.where(phase == LIQ, rho, 0.))
    return dict(f_distribute=f, h_distribute=h, phase=phase, mass=m, total_mass=onp.float64(m.sum()))
'''

S('c20-forcing-second-order', 'C20', {LBM: [('np.sum(ei * u)/cs_sq**2 * ei', 'np.sum(ei * u)/cs_sq * ei')]},
  'a cell that already moves while a force acts on it', 'the momentum flux produced by a force in moving melt is too small',
  LBMD + '''
n = (3, 3, 3); p = pat(n, [LIQ])
s = state(p, u=(0., 0., 0.2))
o = lrun(largs(n, gravity=0.1, dynamic_viscosity=.5), p, {0: s})[0]['f_distribute'][1, 1, 1]
# single cell: everything bounces back, so post-collision values are seen in reversed order
rev = [int(onp.where((V == -v).all(1))[0][0]) for v in V]
post = o[rev]; tau = 2.0; u = onp.array([0, 0, 0.2 - 0.05]); F = onp.array([0, 0, -0.1])
f = s['f_distribute'][1, 1, 1]
want = (equil(1., u) - f)/tau + f + (1 - 1/(2*tau))*W*((((V - u)*3 + 9*(V@u)[:, None]*V))@F)
check(onp.allclose(post, want, atol=1e-8), f"forced populations off by {abs(post-want).max()}")
''')

S('c20-moving-rest-enthalpy', 'C20', {LBM: [('weights[0]*heat_capacity*T*(1 - u_sq/(2.*cs_sq))', 'weights[0]*heat_capacity*T*(1 - u_sq/2.)')]},
  'heat carried by moving melt', 'the rest population of the heat equilibrium is wrong when the melt moves, so collision creates enthalpy',
  LBMD + '''
n = (4, 3, 3); p = pat(n, [LIQ, LIQ])
a = [float((lrun(largs(n), p, {0: state(p, u=(0., 0., v))})[0]['h_distribute'][1:3, 1, 1, :]).sum()) for v in (0.0,)]
o = lrun(largs(n), p, {0: state(p, u=(0., 0.2, 0.))})[0]['h_distribute']
# heat exchanged with the walls: populations lost minus wall populations gained; the +x/-x pair between the two cells stays
T = 5. + (14. - 11.)/2.
u = onp.array([0., 0.2, 0.]); tau = 3*.1 + .5
eq = W*2*T*(1 + 3*V@u + 4.5*(V@u)**2 - 1.5*u@u); eq[0] += 14. - 2*T
post = (eq - W*14.)/tau + W*14.
check(onp.allclose(o[1, 1, 1, 0], post[0], atol=1e-8), f"rest population {o[1,1,1,0]} instead of {post[0]}")
''')

S('c21-gas-pressure', 'C21', {LBM: [('return equilibrium_f(rev[q], rho_g, u_self) + equilibrium_f(q, rho_g, u_self) -', 'return equilibrium_f(rev[q], rho_self, u_self) + equilibrium_f(q, rho_self, u_self) -')]},
  'an interface cell whose density differs from the ambient gas', 'populations arriving from gas are rebuilt with the density of the liquid instead of the ambient pressure',
  LBMD + '''
n = (5, 3, 3); p = pat(n, [LIQ, LG, GAS])
o = lrun(largs(n), p, {0: state(p, rho=1.05)})[0]['f_distribute'][2, 1, 1]
check(onp.allclose(o[2], 2*W[2]*1.0 - W[1]*1.05, atol=1e-8), f"population from gas {o[2]}")
''')

S('c21-interface-exchange-weight', 'C21', {LBM: [('return (f_in - f_out) * (vof_in + vof_out) / 2.', 'return (f_in - f_out) * np.minimum(vof_in, vof_out)')]},
  'two interface cells of different fill level exchanging mass', 'mass exchanged between interface cells is weighted by the smaller fill level',
  LBMD + '''
n = (6, 3, 3); p = pat(n, [GAS, LG, LIQ, LG]); n2 = (4, 4, 3)
p = onp.full(n2, WALL); p[1, 1, 1], p[2, 1, 1], p[1, 2, 1], p[2, 2, 1] = LIQ, LG, LG, GAS
s = state(p); s['mass'] = s['mass'].copy(); s['mass'][2, 1, 1], s['mass'][1, 2, 1] = 0.3, 0.7
f = s['f_distribute'].copy(); f[1, 2, 1, 9] += 0.02; f[1, 2, 1, 0] -= 0.02; s['f_distribute'] = f
s['total_mass'] = onp.float64(2.0)
o = lrun(largs(n2, dynamic_viscosity=1e9), p, {0: s})[0]
d = o['mass'][2, 1, 1] - o['mass'][1, 2, 1]
check(abs(d - (0.3 - 0.7 + 2*0.02*0.5)) < 1e-6, f"interface masses differ by {d}")
''')

S('c22-diagonal-wetting', 'C22', {LBM: [('np.any(phase_local[1:] == ST.LIQUID)', 'np.any(phase_local[1:7] == ST.LIQUID)')]},
  'a cell that fills next to a gas cell it touches only along an edge', 'gas touching new liquid diagonally is not turned into interface, so the liquid itself is turned back',
  LBMD + '''
n = (5, 4, 3); p = onp.full(n, WALL); p[1:4, 1, 1] = LG, LG, GAS; p[1:4, 2, 1] = LG, GAS, GAS
s = state(p); s['mass'] = s['mass'].copy(); s['mass'][1, 1, 1] = 1.2; s['total_mass'] = onp.float64(s['mass'].sum())
o = lrun(largs(n), p, {0: s})[0]
check(o['phase'][1, 1, 1] == LIQ and o['phase'][2, 2, 1] == LG, f"phases {o['phase'][1:3, 1:3, 1]}")
''')

S('c22-no-hysteresis', 'C22', {LBM: [('mass_self < (0-theta)*rho_self', 'mass_self < (0-theta)*rho_self + theta')]},
  'an interface cell whose mass is slightly below zero (within the hysteresis)', 'interface cells vanish before they are empty beyond the hysteresis',
  LBMD + '''
n = (5, 3, 3); p = pat(n, [LIQ, LG, GAS])
s = state(p); s['mass'] = s['mass'].copy(); s['mass'][2, 1, 1] = -0.0005; s['total_mass'] = onp.float64(s['mass'].sum())
o = lrun(largs(n), p, {0: s})[0]
check(o['phase'][2, 1, 1] == LG, f"phase {o['phase'][2, 1, 1]}")
''')

S('c23-saddle-curvature', 'C23', {LBM: [('Hyy*Hx**2. - 2.*Hxy*Hx*Hy)', 'Hyy*Hx**2. + 2.*Hxy*Hx*Hy)')]},
  'an interface tilted in both in-plane directions and twisted', 'the mixed term of the height-function curvature has the wrong sign',
  LBMD + '''
n = (5, 5, 9)
p = onp.full(n, WALL); p[1:-1, 1:-1, 1:-1] = LG
s = state(p); m = onp.zeros(n)
for i in range(5):
    for j in range(5):
        H = 3.5 + .3*i + .2*j + .15*(i-2)*(j-2)
        for k in range(9): m[i, j, k] = min(max(H - k, 0.), 1.)
s['mass'] = onp.where(p == LG, m, 0.)
got = {}
import jax_am.lbm.core as C
o = None
a = largs(n)
class M:
    def __init__(s_):
        b = box_mesh(*n, *[float(x) for x in n]); s_.points, s_.cells_dict, s_.cell_data = b.points, b.cells_dict, {}
    def write(s_, *_, **__):
        f = sys._getframe(1)
        while f.f_code.co_name != 'simulation': f = f.f_back
        got['fn'] = f.f_locals['compute_curvature']; raise Stop()
with contextlib.redirect_stdout(io.StringIO()):
    try: simulation(a, os.environ['SCRATCH'], M(), np.array(p))
    except Stop: pass
phi, kap = got['fn'](np.arange(5*5*9), np.array(m))
h = m[1:4, 1:4, 1:8].sum(2)
h = onp.array([[m[i, j, 1:8].sum() for j in (1, 2, 3)] for i in (1, 2, 3)])
Hx, Hy = (h[2, 1]-h[0, 1])/2, (h[1, 2]-h[1, 0])/2
Hxx, Hyy, Hxy = h[2, 1]-2*h[1, 1]+h[0, 1], h[1, 2]-2*h[1, 1]+h[1, 0], (h[2, 2]-h[0, 2]-h[2, 0]+h[0, 0])/4
k = -(Hxx+Hyy+Hxx*Hy**2+Hyy*Hx**2-2*Hxy*Hx*Hy)/(1+Hx**2+Hy**2)**1.5
check(onp.isclose(float(kap[2, 2, 4]), k, atol=1e-6), f"curvature {float(kap[2,2,4])} instead of {k}")
''')

S('c23-marangoni-units', 'C23', {LBM: [("lbm_args['st_grad_coeff']['value']/(C_force/(C_length*C_temperature))", "lbm_args['st_grad_coeff']['value']/(C_force/C_length)")]},
  'a reference temperature other than one', 'the thermocapillary coefficient is not converted to lattice temperature',
  LBMD + '''
n = (3, 4, 7)
p = onp.full(n, WALL); p[1, 1:3, 1:6] = onp.array([LIQ, LIQ, LG, GAS, GAS])
def mom(T0):
    s = state(p, e=1.)
    h = s['h_distribute'].copy()
    for j in (1, 2): h[1, j, 1:4] = W*(14. + j)
    s['h_distribute'] = h
    o = lrun(largs(n, T0=T0, st_grad_coeff=-.01/T0, heat_capacity=2./T0, T_liquidus=5.*T0, T_solidus=4.*T0, T_evap=9*T0), p, {0: s})[0]
    return onp.einsum('abcq,qk->abck', o['f_distribute'], V)[1, 1, 3, 1]
a, b = mom(1.), mom(4.)
check(abs(a) > 1e-6 and onp.isclose(a, b, rtol=1e-6), f"thermocapillary momentum {b} in scaled units, {a} otherwise")
''')

S('c24-laser-lag-in-y', 'C24', {LBM: [('ys[i + 1]/C_length', 'ys[i]/C_length')]},
  'a scan segment along y', 'the laser lags one step behind along y',
  LBMD + '''
n = (3, 4, 7); p = onp.full(n, WALL); p[1, 1:3, 1:6] = onp.array([LIQ, LIQ, LG, GAS, GAS])
def run(y0, y1):
    o = lrun(largs(n, path=dict(x_pos=[1.5, 1.5], y_pos=[y0, y1], switch=[1., 0.]), laser_power=5., beam_size=1.), p, {0: state(p, e=2.)})
    return o[0]['h_distribute'][1, 1:3, 3].sum(-1)
a, b = run(0.6, 1.6), run(2.6, 1.6)
check(onp.allclose(a, b, atol=1e-6), f"first step at y=1.6 gives {a} or {b} depending on where the laser came from")
''')

S('c24-melted-forgotten', 'C24', {LBM: [('melted = np.where(T > T_solidus, 1., melted)', 'melted = np.where(T > T_solidus, 1., 0.)')]},
  'a cell that melts and then solidifies', 'the record of melted cells only keeps the current state',
  LBMD + '''
n = (3, 3, 3); p = pat(n, [LIQ])
o = lrun(largs(n, path=dict(x_pos=[.5, 2.5], y_pos=[1., 1.], switch=[0., 0.])), p, {0: state(p, e=14.), 1: state(p, e=1.)}, 2)
check(o[0]['melted'][1, 1, 1] == 1 and o[1]['melted'][1, 1, 1] == 1, "melted record lost")
''')

PFD = '''
from jax_am.phase_field import allen_cahn as A
class Poly: pass
def rhs(n, M, dirs=None, h=(1., 1., 1.), **kw):
    a = dict(Nx=n[0], Ny=n[1], Nz=n[2], num_oris=M, dim=3, m_g=2., ad_hoc=3., kappa_g=.5, L0=2., Qg=500., gas_const=8.314, T_liquidus=1600., anisotropy=0.)
    a.update(kw)
    p = Poly(); p.mesh_h_xyz = h
    p.unique_grain_directions = onp.stack([onp.tile(e, (M, 1)) for e in onp.eye(3)]) if dirs is None else dirs
    return A.phase_field(p, a)
'''
S('c25-top-boundary-wraps', 'C25', {AC: [('(eta_xyz[1:, :, :, :], eta_xyz[-1:, :, :, :])', '(eta_xyz[1:, :, :, :], eta_xyz[:1, :, :, :])')]},
  'a grid of several layers whose top and bottom differ', 'the top face takes its neighbour from the bottom of the domain instead of having no flux',
  PFD + '''
e = np.array([[0.], [.2], [.9]])
f = rhs((1, 1, 3), 1, Qg=0., m_g=0.)
got = f(e, 0., [np.full((3, 1), 1000.)])
want = 2*1.5*onp.array([[.2], [.5], [-.7]])
check(onp.allclose(got, want, atol=1e-6), f"rate {got.T}")
''')
S('c25-gradient-direction', 'C25', {AC: [('eta_pos_y - eta_neg_y, eta_pos_z - eta_neg_z), axis=-1))[..., None]', 'eta_pos_y - eta_neg_y, eta_neg_z - eta_pos_z), axis=-1))[..., None]')]},
  'anisotropic growth of a crystal not aligned with the grid', 'the gradient direction used for anisotropy is mirrored in z',
  PFD + '''
dirs = onp.array([[[.6, 0., .8]], [[-.8, 0., .6]], [[0., 1., 0.]]])
e = np.array([[0.], [.3], [.4], [.7]])
r = rhs((2, 1, 2), 1, dirs, Qg=0., m_g=0., anisotropy=.5)(e, 0., [np.full((4, 1), 1000.)])
check(onp.isclose(float(r[0, 0]), 2*1.5*(.3 + .4)*1.5, rtol=1e-5), f"rate {float(r[0,0])}")
''')
S('c26-rk4-last-stage-time', 'C26', {AC: [('k4 = h * f(y_prev + k3, t_prev + h, ode_params)', 'k4 = h * f(y_prev + k3, t_prev + h/2., ode_params)')]},
  'a rate that depends on time explicitly', 'the last stage of the fourth-order integrator is evaluated at the midpoint',
  PFD + '''
(y, t), _ = A.rk4((np.zeros(1), 0.), .5, lambda y, t, p: 3*t**2 + 0*y, [])
check(onp.isclose(float(y[0]), .125, atol=1e-9), f"integral {float(y[0])}")
''')
S('c26-black-regions', 'C26', {AC: [('liquid = T.reshape(-1) > self.pf_args[\'T_liquidus\']\n        eta = pf_sol', 'liquid = onp.logical_and(T.reshape(-1) > self.pf_args[\'T_liquidus\'], onp.max(pf_sol, axis=1) < 0.5)\n        eta = pf_sol')]},
  'a molten cell whose order parameter has not decayed yet', 'freshly molten cells are written with grain colours',
  PFD + '''
p = Poly(); p.mesh_h_xyz = (1., 1., 1.); p.centroids = onp.zeros((2, 3)); p.unique_oris_rgb = onp.full((3, 2, 3), .5)
class M:
    cell_data = {}
    def write(s, *a): pass
p.mesh = M()
a = dict(T_liquidus=1600., data_dir=os.environ['SCRATCH'], write_sol_interval=1)
with contextlib.redirect_stdout(io.StringIO()):
    A.PFSolver(a, p).write_sols(onp.array([[1., 0.], [.9, .1]]), onp.array([[1000.], [1700.]]), 3)
check(onp.allclose(p.mesh.cell_data['ipf_x'][0], [[.5]*3, [0.]*3]), "molten cell is not black")
''')
S('c27-melt-joins-grain', 'C27', {PFU: [('cell_ori_inds[cn] == oris_index and nonliquid[cn]:', 'cell_ori_inds[cn] == oris_index:')]},
  'a molten cell that still carries the orientation of the adjacent grain', 'molten cells are added to adjacent grains and join separate ones',
  '''
from jax_am.phase_field import utils as U
with contextlib.redirect_stdout(io.StringIO()):
    g = U.BFS(U.compute_edges_in_order(dict(Nx=3, Ny=1, Nz=1)), onp.array([True, False, True]), onp.array([0, 0, 0]), dict(num_oris=1))
check(sorted(map(sorted, g)) == [[0], [2]], f"grains {g}")
''')
S('c27-third-layer-cells', 'C27', {PFU: [('polycrystal_next.mesh.cells[0].data + len(polycrystal_next.mesh.points)*layer', 'polycrystal_next.mesh.cells[0].data + len(polycrystal_next.mesh.points)')]},
  'a third layer', 'cells of every layer above the second refer to the points of the second',
  '''
from jax_am.phase_field import utils as U
class B:
    def __init__(s, d): s.data = d
class Me: pass
def fld(*a):
    f = Me(); f.mesh = m = Me()
    m.points = onp.array([[x, y, z] for z in (0., 1.) for y in (0., 1.) for x in (0., 1.)])
    m.cells = [B(onp.array([[0, 1, 3, 2, 4, 5, 7, 6]]))]
    m.cell_data = {k: [onp.array([1])] for k in ('gmsh:physical', 'gmsh:geometrical', 'grain_inds')}
    f.cell_ori_inds = onp.array([0]); f.centroids = onp.full((1, 3), .5)
    return f
U.Field = fld
c = fld()
for l in (1, 2): c = U.generate_new_mesh(dict(domain_z=1.), None, c, l)
m = c.mesh
check(onp.allclose(m.points[m.cells[0].data].mean(1), c.centroids), "cells and centroids disagree")
''')
S('c28-box-height', 'C28', {COMMON: [('z = onp.linspace(0, domain_z, Nz + 1)', 'z = onp.linspace(0, domain_y, Nz + 1)')]},
  'a box whose height differs from its depth', 'the box mesh has the wrong height',
  '''
from jax_am.common import box_mesh
m = box_mesh(2, 3, 4, 1., 2., 5.)
check(onp.allclose(m.points.max(0), [1., 2., 5.]), f"size {m.points.max(0)}")
''')
