"""Contract stand-ins for sparse containers and iterative linear solvers.

In a symbolic run a linear solve  A x = b  returns fresh values x together with
the contract  A(x) = b; everything the code does around the solve (building A,
building b, using x) is executed for real.  Concrete replays use the real
scipy / PETSc / bicgstab."""
import numpy as np
import jax
import jax.numpy as jnp
from . import poly as P
from .poly import Poly, lift, EncodingError
from . import jaxsym as J
from . import ctx as C


def _sym(a):
    return J.Session.current.sym(a)


def obj1(a):
    return J.obj(np.asarray(J.to_terms(a))).reshape(-1)


def contract_solve(matvec, b, tag='x'):
    """fresh x with matvec(x) == b"""
    ctx = C.CURRENT[0]
    if ctx is None:
        raise EncodingError('linear solve outside a harness')
    bt = obj1(b)
    n = len(bt)
    ctx.count_solve()
    x = ctx.fresh(n, -ctx.solve_box, ctx.solve_box, tag=tag)
    ax = obj1(matvec(x))
    if len(ax) != n:
        raise EncodingError('linear operator changes the size')
    r = np.array([lift(p) - lift(q) for p, q in zip(ax, bt)], dtype=object)
    for p in r:
        c = P.cmp('eq', p)
        ctx.contract(c)
    names = [P.ATOMS[list(v.atoms())[0]].name for v in x]

    def complete(env):
        if all(nm in env for nm in names):
            return
        def at(k):
            e = dict(env)
            for i, nm in enumerate(names):
                e[nm] = 1.0 if i == k else 0.0
            ev = P.Evaluator(e)
            return np.array([ev.poly(p) for p in r], dtype=float)
        r0 = at(-1)
        A = np.stack([at(k) - r0 for k in range(n)], axis=1)
        sol = dense_solve(A, -r0)
        for nm, v in zip(names, sol):
            env[nm] = float(v)
    ctx.completers.append(complete)
    ctx.solves.append((x, r))
    return x


def krylov(A, b, x0=None, **kw):
    mv = A if callable(A) else (lambda v: jnp.matmul(A, v))
    shape = np.shape(J.to_terms(b))
    x = contract_solve(lambda v: mv(_sym(v.reshape(shape))), b)
    return _sym(x.reshape(shape)), None


def dense_of(shape, data, row, col):
    D = np.empty(shape, dtype=object)
    D[:] = 0.0
    for v, i, j in zip(obj1(data), np.asarray(row).reshape(-1), np.asarray(col).reshape(-1)):
        D[int(i), int(j)] = D[int(i), int(j)] + v
    return D


class FakeSp:
    """sparse matrix with symbolic entries; pattern = union of triplets"""

    def __init__(self, shape, D, nz, fmt):
        self.shape, self.D, self.nz, self.format = tuple(int(s) for s in shape), D, nz, fmt
        self._compress()

    def _compress(self):
        fmt = self.format
        items = sorted(self.nz) if fmt != 'csc' else sorted(self.nz, key=lambda ij: (ij[1], ij[0]))
        n = self.shape[0] if fmt != 'csc' else self.shape[1]
        ptr = np.zeros(n + 1, dtype=np.int32)
        idx = []
        dat = []
        for i, j in items:
            ptr[(i if fmt != 'csc' else j) + 1] += 1
            idx.append(j if fmt != 'csc' else i)
            dat.append(self.D[i, j])
        self.indptr = np.cumsum(ptr).astype(np.int32)
        self.indices = np.array(idx, dtype=np.int32)
        self.data = np.array(dat, dtype=object)
        self.row = np.array([i for i, _ in items], dtype=np.int32)
        self.col = np.array([j for _, j in items], dtype=np.int32)
        self.nnz = len(items)

    def diagonal(self, k=0):
        from .npsym import SymArray
        return SymArray(np.array([self.D[i, i] for i in range(min(self.shape))], dtype=object))

    def toarray(self):
        from .npsym import SymArray
        return SymArray(self.D.copy())

    todense = toarray

    def _as(self, fmt):
        return FakeSp(self.shape, self.D, self.nz, fmt)

    def tocsr(self, copy=False): return self._as('csr')
    def tocsc(self, copy=False): return self._as('csc')
    def tocoo(self, copy=False): return self._as('coo')
    def asformat(self, f): return self._as(f)
    def copy(self): return FakeSp(self.shape, self.D.copy(), set(self.nz), self.format)
    def sort_indices(self): pass
    def sum_duplicates(self): pass

    def transpose(self):
        return FakeSp(self.shape[::-1], self.D.T.copy(), {(j, i) for i, j in self.nz},
                      {'csr': 'csc', 'csc': 'csr'}.get(self.format, self.format))

    T = property(transpose)

    def __matmul__(self, v):
        from .npsym import SymArray
        w = obj1(v)
        out = [sum((self.D[i, j] * w[j] for j in range(self.shape[1]) if (i, j) in self.nz), 0.0) for i in range(self.shape[0])]
        return SymArray(np.array(out, dtype=object))

    dot = __matmul__

    def __abs__(self):
        D = self.D.copy()
        for ij in self.nz:
            D[ij] = abs(D[ij])
        return FakeSp(self.shape, D, self.nz, self.format)


def sparse_ctor(real, fmt):
    def make(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, FakeSp):
            return arg._as(fmt)
        if isinstance(arg, tuple) and len(arg) == 2 and not np.isscalar(arg[0]) and isinstance(arg[1], tuple):
            data, (row, col) = arg
            if isinstance(data, (list, tuple)):
                from .npsym import _has_obj, _has_tr, _plain
                if _has_obj(list(data)) or _has_tr(list(data)):
                    data = np.array(_plain(list(data)), dtype=object)
            if isinstance(data, J.SymTracer) or (isinstance(data, np.ndarray) and data.dtype == object):
                row, col = np.asarray(row).astype(int), np.asarray(col).astype(int)
                if shape is None:
                    shape = (row.max() + 1, col.max() + 1)
                if row.size and (row.max() >= shape[0] or col.max() >= shape[1] or row.min() < 0 or col.min() < 0):
                    raise ValueError('row index exceeds matrix dimensions')
                if not (len(row) == len(col) == len(obj1(data))):
                    raise ValueError('row, column, and data array must all be the same length')
                D = dense_of(shape, data, row, col)
                return FakeSp(shape, D, set(zip(row.tolist(), col.tolist())), fmt)
        if isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = arg
            if isinstance(data, np.ndarray) and data.dtype == object:
                major = np.repeat(np.arange(len(ptr) - 1), np.diff(ptr))
                row, col = (major, ind) if fmt != 'csc' else (ind, major)
                return make((data, (row, col)), shape=shape)
        if isinstance(arg, np.ndarray) and arg.dtype == object:
            nz = {(i, j) for i in range(arg.shape[0]) for j in range(arg.shape[1])}
            return FakeSp(arg.shape, np.asarray(arg), nz, fmt)
        return real(arg, shape=shape, dtype=dtype, copy=copy)
    make.__wrapped__ = real
    return make


class FakeBCOO:
    def __init__(self, D):
        self.D = D
        self.shape = D.shape
        self.M = _sym(D)

    def sort_indices(self): return self
    def sum_duplicates(self, **k): return self
    def todense(self): return self.M

    def transpose(self, *a, **k):
        return FakeBCOO(self.D.T.copy())

    T = property(transpose)

    def __matmul__(self, v):
        return jnp.matmul(self.M, v)

    def __rmatmul__(self, v):
        return jnp.matmul(v, self.M)


class FakeMat:
    def create(self, *a, **k): return self

    def createAIJ(self, size, csr=None, bsize=None, nnz=None, comm=None):
        ptr, ind, data = csr
        n = int(size[0] if not isinstance(size[0], (tuple, list)) else size[0][0])
        m = int(size[1] if not isinstance(size[1], (tuple, list)) else size[1][0])
        major = np.repeat(np.arange(len(ptr) - 1), np.diff(np.asarray(ptr)))
        self.D = dense_of((n, m), data, major, ind)
        self.nz = set(zip(major.tolist(), np.asarray(ind).tolist()))
        return self

    createAIJWithArrays = createAIJ

    def zeroRows(self, rows, diag=1.0, x=None, b=None):
        for r in np.asarray(rows).reshape(-1):
            for j in range(self.D.shape[1]):
                self.D[int(r), j] = 0.0
            self.D[int(r), int(r)] = diag

    def zeroRowsColumns(self, rows, diag=1.0, x=None, b=None):
        for r in np.asarray(rows).reshape(-1):
            self.D[int(r), :] = 0.0
            self.D[:, int(r)] = 0.0
            self.D[int(r), int(r)] = diag

    def transpose(self, out=None):
        if out is None:
            self.D = self.D.T.copy()
            return self
        out.D = self.D.T.copy()
        return out

    def copy(self):
        m = FakeMat()
        m.D = self.D.copy()
        return m

    def assemble(self, *a, **k): pass
    assemblyBegin = assemblyEnd = assemble
    def getSize(self): return self.D.shape
    size = property(getSize)

    def apply(self, v):
        w = obj1(v)
        return np.array([sum((lift(self.D[i, j]) * w[j] for j in range(self.D.shape[1])
                              if not (isinstance(self.D[i, j], float) and self.D[i, j] == 0.0)), 0.0)
                         for i in range(self.D.shape[0])], dtype=object)

    def mult(self, x, y): y.v = self.apply(x.v)
    def multTranspose(self, x, y):
        t = FakeMat()
        t.D = self.D.T
        y.v = t.apply(x.v)

    def destroy(self): return self

    def getValuesCSR(self):
        n, m = self.D.shape
        s = FakeSp((n, m), self.D, {(i, j) for i in range(n) for j in range(m)}, 'csr')
        return s.indptr, s.indices, s.data


class FakeVec:
    def create(self, *a, **k): return self

    def createSeq(self, n, *a, **k):
        self.v = np.array([0.0] * int(n), dtype=object)
        return self

    def createWithArray(self, a, *x, **k):
        self.v = obj1(a).copy()
        return self

    def setValues(self, idx, vals, *a, **k):
        for i, x in zip(list(idx), obj1(vals)):
            self.v[int(i)] = x

    def setArray(self, a): self.v = obj1(a).copy()

    def getArray(self, readonly=0):
        from .npsym import SymArray
        return SymArray(self.v)

    array = property(getArray, lambda self, a: self.setArray(a))
    def duplicate(self):
        w = FakeVec()
        return w.createSeq(len(self.v))
    def copy(self):
        w = FakeVec()
        w.v = self.v.copy()
        return w
    def assemble(self, *a, **k): pass
    assemblyBegin = assemblyEnd = assemble
    def getSize(self): return len(self.v)
    def destroy(self): return self


class FakePC:
    t = None
    def setType(self, t): self.t = t
    def getType(self): return self.t
    def __getattr__(self, n): return lambda *a, **k: None


class FakeKSP:
    def __init__(self): self.pc = FakePC(); self.t = None
    def create(self, *a, **k): return self
    def setOperators(self, A, Pm=None): self.A = A
    def setType(self, t): self.t = t
    def getType(self): return self.t
    def getPC(self): return self.pc
    def setFromOptions(self): pass
    def solve(self, b, x): x.v = contract_solve(self.A.apply, b.v)
    def solveTranspose(self, b, x):
        t = FakeMat()
        t.D = self.A.D.T
        x.v = contract_solve(t.apply, b.v)
    def __getattr__(self, n): return lambda *a, **k: None


def install():
    """Called once in a symbolic worker, before the repository is imported."""
    import scipy.sparse
    import jax.scipy.sparse.linalg as JL
    from jax.experimental import sparse as JS
    from petsc4py import PETSc
    for fmt in ('csr', 'csc', 'coo'):
        for kind in ('array', 'matrix'):
            nm = f'{fmt}_{kind}'
            setattr(scipy.sparse, nm, sparse_ctor(getattr(scipy.sparse, nm), fmt))
    real = JS.BCOO.from_scipy_sparse

    def from_sp(mat, **k):
        if isinstance(mat, FakeSp):
            return FakeBCOO(mat.D)
        return real(mat, **k)
    JS.BCOO.from_scipy_sparse = staticmethod(from_sp)
    PETSc.Mat, PETSc.Vec, PETSc.KSP = FakeMat, FakeVec, FakeKSP
    for nm in ('bicgstab', 'cg', 'gmres'):
        setattr(JL, nm, krylov)
        setattr(jax.scipy.sparse.linalg, nm, krylov)

    def cls(matvec, b, solve, transpose_solve=None, symmetric=False, has_aux=False):
        return solve(matvec, b)
    jax.lax.custom_linear_solve = cls


# ------------------------------------------------------------------ concrete replays
def dense_solve(M, b):
    if np.linalg.matrix_rank(M) < len(b):
        return np.linalg.lstsq(M, b, rcond=None)[0]
    return np.linalg.solve(M, b)


def direct_krylov(A, b, x0=None, **kw):
    """dense direct solve with the interface of bicgstab/cg/gmres"""
    mv = A if callable(A) else (lambda v: jnp.matmul(A, v))
    n = int(np.size(b))
    shape = np.shape(b)
    cols = [np.asarray(mv(jnp.asarray(np.eye(n)[k].reshape(shape)))).reshape(-1) for k in range(n)]
    M = np.stack(cols, axis=1)
    x = dense_solve(M, np.asarray(b, dtype=float).reshape(-1))
    return jnp.asarray(x.reshape(shape)), None


def install_direct():
    """Replays: same assumption as the symbolic runs (the inner linear solver
    delivers A x = b), realised by a dense direct solve on the real matrices."""
    import jax.scipy.sparse.linalg as JL
    from petsc4py import PETSc
    for nm in ('bicgstab', 'cg', 'gmres'):
        setattr(JL, nm, direct_krylov)
        setattr(jax.scipy.sparse.linalg, nm, direct_krylov)

    def cls(matvec, b, solve, transpose_solve=None, symmetric=False, has_aux=False):
        return solve(matvec, b)
    jax.lax.custom_linear_solve = cls

    class KSP(FakeKSP):
        def solve(self, b, x):
            n, m = self.A.getSize()
            ptr, ind, val = self.A.getValuesCSR()
            D = np.zeros((n, m))
            for i in range(n):
                for k in range(ptr[i], ptr[i + 1]):
                    D[i, ind[k]] += val[k]
            sol = dense_solve(D, np.array(b.getArray()))
            x.setArray(sol)
    PETSc.KSP = KSP
