"""Oracles for the FEM harnesses: reference node tables in meshio order,
polynomial bases, small meshes.  Nothing here is derived from the code under
test."""
import itertools
import numpy as np

HEX = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
HEX_EDGES = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
TET = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
TET_EDGES = [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]
QUAD = [(0, 0), (1, 0), (1, 1), (0, 1)]
QUAD_EDGES = [(0, 1), (1, 2), (2, 3), (3, 0)]
TRI = [(0, 0), (1, 0), (0, 1)]
TRI_EDGES = [(0, 1), (1, 2), (2, 0)]


def _mid(v, edges):
    return [tuple((a + b) / 2 for a, b in zip(v[i], v[j])) for i, j in edges]


NODES = {
    'HEX8': HEX,
    'HEX20': HEX + _mid(HEX, HEX_EDGES),
    'HEX27': HEX + _mid(HEX, HEX_EDGES) + [(0, .5, .5), (1, .5, .5), (.5, 0, .5), (.5, 1, .5), (.5, .5, 0), (.5, .5, 1),
                                          (.5, .5, .5)],
    'TET4': TET, 'TET10': TET + _mid(TET, TET_EDGES),
    'QUAD4': QUAD, 'QUAD8': QUAD + _mid(QUAD, QUAD_EDGES),
    'TRI3': TRI, 'TRI6': TRI + _mid(TRI, TRI_EDGES),
}
DIM = {k: len(v[0]) for k, v in NODES.items()}
ORDER = {'HEX8': 1, 'HEX20': 2, 'HEX27': 2, 'TET4': 1, 'TET10': 2, 'QUAD4': 1, 'QUAD8': 2, 'TRI3': 1, 'TRI6': 2}
REFVOL = {'HEX8': 1, 'HEX20': 1, 'HEX27': 1, 'TET4': 1 / 6, 'TET10': 1 / 6, 'QUAD4': 1, 'QUAD8': 1, 'TRI3': .5, 'TRI6': .5}
SIMPLEX = {'TET4', 'TET10', 'TRI3', 'TRI6'}


def refnodes(et):
    return np.array(NODES[et], dtype=float)


def monomials(dim, degree):
    """exponent tuples of total degree <= degree"""
    return [e for e in itertools.product(range(degree + 1), repeat=dim) if sum(e) <= degree]


def ev(expo, x):
    """monomial value at x (sequence of terms or numbers)"""
    r = 1
    for e, xi in zip(expo, x):
        for _ in range(e):
            r = r * xi
    return r


def dev(expo, x, k):
    """d/dx_k of the monomial at x"""
    if expo[k] == 0:
        return 0
    e = list(expo)
    e[k] -= 1
    return expo[k] * ev(e, x)


def affine_points(et, A, b):
    """physical nodes x = A xi + b, one cell"""
    R = refnodes(et)
    d = DIM[et]
    out = np.empty((len(R), d), dtype=object)
    for n in range(len(R)):
        for i in range(d):
            s = b[i]
            for j in range(d):
                if R[n, j] != 0:
                    s = s + A[i, j] * R[n, j]
            out[n, i] = s
    return out


def numeric(a):
    """object array of python floats -> float array when it is concrete"""
    try:
        return a.astype(float)
    except Exception:
        return a


def grid(et, n, L=None):
    """structured concrete mesh of n[i] cells per direction; returns
    (points, cells).  Cells are affine boxes (hex/quad) or a split of them."""
    d = DIM[et]
    n = list(n)
    L = L or n
    key = {}
    pts, cells = [], []

    def node(p):
        k = tuple(round(v * 1000) for v in p)
        if k not in key:
            key[k] = len(pts)
            pts.append(tuple(p))
        return key[k]
    h = [L[i] / n[i] for i in range(d)]
    # cell order: last index fastest
    for idx in itertools.product(*[range(k) for k in n]):
        org = [idx[i] * h[i] for i in range(d)]
        if et in SIMPLEX:
            if d == 2:
                subs = [[(0, 0), (1, 0), (1, 1)], [(0, 0), (1, 1), (0, 1)]]
            else:
                # Kuhn split into 6 positively oriented tets
                subs = []
                for p in itertools.permutations(range(3)):
                    v = [(0, 0, 0)]
                    cur = [0, 0, 0]
                    for ax in p:
                        cur[ax] = 1
                        v.append(tuple(cur))
                    M = np.array([[v[k + 1][i] - v[0][i] for k in range(3)] for i in range(3)], dtype=float)
                    if np.linalg.det(M) < 0:
                        v[1], v[2] = v[2], v[1]
                    subs.append(v)
            for v in subs:
                V = np.array(v, dtype=float)
                A = np.array([V[k + 1] - V[0] for k in range(d)]).T
                cells.append([node([org[i] + h[i] * (V[0] + A @ xi)[i] for i in range(d)]) for xi in refnodes(et)])
        else:
            cells.append([node([org[i] + h[i] * xi[i] for i in range(d)]) for xi in refnodes(et)])
    return np.array(pts, dtype=float), np.array(cells)


def make_mesh(points, cells, et):
    from jax_am.fem.generate_mesh import Mesh
    return Mesh(points, cells, ele_type=et)
