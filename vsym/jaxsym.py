"""Symbolic execution of JAX programs.

SymTrace is a JAX interpreter (core.Trace): the real repository functions run
unmodified, and every primitive they bind on a symbolic value is evaluated on
object arrays of vsym.poly terms.  Transformations used by the code (vmap,
jvp, vjp, jit) stack on top of it and are performed by JAX itself.
Data-movement primitives are executed by JAX itself on integer position
arrays, so their semantics are JAX's own.
"""
import functools
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from jax import core, lax
from jax._src import core as _core
from jax._src import pjit as _pjit

from . import poly as P
from .poly import Poly, BoolTerm, EncodingError, ite, lift

PRIM_COUNT = {}


def obj(a):
    """ndarray -> object ndarray of terms."""
    a = np.asarray(a)
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    f = out.reshape(-1)
    src = a.reshape(-1)
    if a.dtype == bool:
        for i in range(f.size):
            f[i] = bool(src[i])
    else:
        for i in range(f.size):
            f[i] = Poly.const(src[i].item())
    return f.reshape(a.shape) if a.shape else out_scalar(f[0])


def out_scalar(x):
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def is_concrete_term(x):
    if isinstance(x, Poly):
        return x.is_const()
    return isinstance(x, (bool, np.bool_, int, float, Fraction, np.number))


def to_concrete(a, dtype):
    """object array -> numeric array when every entry is constant, else None"""
    if a.dtype != object:
        return a
    flat = a.reshape(-1)
    for x in flat:
        if not is_concrete_term(x):
            return None
    vals = [(x.cval() if isinstance(x, Poly) else x) for x in flat]
    if np.issubdtype(dtype, np.integer):
        vals = [int(v) for v in vals]
    elif dtype == bool:
        vals = [bool(v) for v in vals]
    else:
        vals = [float(v) for v in vals]
    return np.array(vals, dtype=dtype).reshape(a.shape)


class SymTracer(_core.Tracer):
    __slots__ = ['val', '_aval']

    def __init__(self, trace, val, aval):
        self._trace = trace
        self.val = val
        self._aval = aval

    @property
    def aval(self):
        return self._aval

    def full_lower(self):
        return self

    def __array__(self, dtype=None, copy=None):
        c = self.val
        if dtype is not None and dtype != object and c.dtype == object:
            n = to_concrete(c, np.dtype(dtype))
            if n is not None:
                return n
            return c
        if dtype is not None and c.dtype != object:
            return c.astype(dtype)
        return c

    def __bool__(self):
        v = self.val.reshape(-1)
        if v.size != 1:
            raise ValueError("truth value of an array is ambiguous")
        return bool(v[0])

    def __float__(self):
        return float(self.val.reshape(-1)[0])

    def __int__(self):
        return int(self.val.reshape(-1)[0])

    def __index__(self):
        return self.val.reshape(-1)[0].__index__()

    def item(self):
        return self.val.reshape(-1)[0]

    def tolist(self):
        return self.val.tolist()

    def __repr__(self):
        return f"Sym{self.aval.str_short()}"

    def __format__(self, s):
        return repr(self)

    def copy(self):
        return self

    def block_until_ready(self):
        return self


class SymTrace(_core.Trace):
    def pure(self, val):
        if isinstance(val, SymTracer):
            return val
        a = np.asarray(val)
        return SymTracer(self, a, core.ShapedArray(a.shape, a.dtype))

    lift = pure
    sublift = pure

    def process_primitive(self, prim, tracers, params):
        PRIM_COUNT[prim.name] = PRIM_COUNT.get(prim.name, 0) + 1
        vals = [t.val for t in tracers]
        avals = [t.aval for t in tracers]
        if all(v.dtype != object for v in vals) and prim.name not in CALLS:
            out = prim.bind(*[jnp.asarray(v) for v in vals], **params)
            if prim.multiple_results:
                return [self.pure(np.asarray(o)) for o in out]
            return self.pure(np.asarray(out))
        rule = RULES.get(prim.name)
        if rule is None:
            raise EncodingError(f"primitive {prim.name} has no symbolic rule")
        if prim.name in CALLS:
            outs = rule(self, tracers, params)
            return [o if isinstance(o, SymTracer) else self.pure(o) for o in outs]
        oavals, _ = prim.abstract_eval(*avals, **params)
        res = rule(vals, params, oavals)
        if prim.multiple_results:
            return [self.wrap(r, a) for r, a in zip(res, oavals)]
        return self.wrap(res, oavals)

    def wrap(self, r, aval):
        if not isinstance(r, np.ndarray):
            r = out_scalar(r)
        if r.shape != tuple(aval.shape):
            raise EncodingError(f"internal shape mismatch {r.shape} {aval.shape}")
        if r.dtype == object:
            c = to_concrete(r, aval.dtype) if r.size <= 64 and not np.issubdtype(aval.dtype, np.floating) else None
            if c is not None:
                r = c
        return SymTracer(self, r, core.ShapedArray(aval.shape, aval.dtype))

    def process_call(self, prim, f, tracers, params):
        return f.call_wrapped(*tracers)

    def process_custom_jvp_call(self, prim, fun, jvp, tracers, *, symbolic_zeros):
        return fun.call_wrapped(*tracers)

    def process_custom_vjp_call(self, prim, fun, fwd, bwd, tracers, *, out_trees, symbolic_zeros):
        return fun.call_wrapped(*tracers)


def unnest(a):
    """object array whose entries may be 0-d arrays or tracers -> entries are terms"""
    if not any(isinstance(x, (SymTracer, np.ndarray)) for x in a.reshape(-1)):
        return a
    out = np.empty(a.shape, dtype=object)
    for pos in np.ndindex(*a.shape):
        x = a[pos]
        while isinstance(x, (SymTracer, np.ndarray)):
            x = x.val if isinstance(x, SymTracer) else x.reshape(-1)[0]
        out[pos] = x
    return out


class Session:
    """Context in which symbolic arrays can be fed to JAX code."""
    current = None

    def __enter__(self):
        self.cm = _core.new_main(SymTrace)
        self.main = self.cm.__enter__()
        self.trace = self.main.with_cur_sublevel()
        Session.current = self
        return self

    def __exit__(self, *e):
        Session.current = None
        r = self.cm.__exit__(*e)
        self.main = self.trace = None
        self.cm = None
        return r

    def sym(self, a, dtype=None):
        """object array (of terms) -> JAX value"""
        if isinstance(a, SymTracer):
            return a
        a = np.asarray(a)
        if a.dtype != object:
            return jnp.asarray(a, dtype=dtype)
        a = unnest(a)
        if dtype is None:
            flat = a.reshape(-1)
            dtype = np.bool_ if flat.size and all(isinstance(x, (bool, BoolTerm, np.bool_)) for x in flat) else np.float64
        b = a
        return SymTracer(self.trace, b, core.ShapedArray(a.shape, np.dtype(dtype)))


def to_terms(x):
    """JAX value or numpy array -> numpy array (object if symbolic)"""
    if isinstance(x, SymTracer):
        return x.val
    return np.asarray(x)


# --------------------------------------------------------------------- rules
RULES = {}
CALLS = set()


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


def call(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
            CALLS.add(n)
        return f
    return deco


def ew(fn):
    """elementwise rule with scalar broadcasting as in lax (equal shapes)"""
    def r(vals, params, oaval):
        arrs = [obj(v) for v in vals]
        shape = tuple(oaval.shape)
        out = np.empty(shape, dtype=object)
        flats = [np.broadcast_to(a, shape).reshape(-1) for a in arrs]
        of = out.reshape(-1) if shape else None
        if shape:
            for i in range(of.size):
                of[i] = fn(*[f[i] for f in flats])
            return of.reshape(shape)
        out[()] = fn(*[f[0] for f in flats])
        return out
    return r


def _sub(a, b): return a - b


def smax(a, b):
    a, b = lift(a), lift(b)
    return ite(a >= b, a, b)


def smin(a, b):
    a, b = lift(a), lift(b)
    return ite(a <= b, a, b)


def ssign(a):
    return ite(a > 0, P.ONEP, ite(a < 0, -P.ONEP, P.ZERO))


def spow(a, b):
    return lift(a) ** b


def slog1p(a): return P.apply_fn('log', 1 + a)


def sdiv_int(a, b):
    # lax.div on integers truncates toward zero
    lo, _ = P.interval(lift(a))
    lb, _ = P.interval(lift(b))
    if lo is not None and lo >= 0 and lb is not None and lb > 0:
        return P.intop('idiv', a, b)
    if lb is not None and lb > 0:
        a = lift(a)
        return P.ite(a >= 0, P.intop('idiv', a, b), -P.intop('idiv', -a, b))
    raise EncodingError("integer division by possibly negative symbolic values")


def srem(a, b):
    lo, _ = P.interval(lift(a))
    lb, _ = P.interval(lift(b))
    if lo is not None and lo >= 0 and lb is not None and lb > 0:
        return P.intop('imod', a, b)
    if lb is not None and lb > 0:
        a = lift(a)
        return P.ite(a >= 0, P.intop('imod', a, b), -P.intop('imod', -a, b))
    raise EncodingError("rem by possibly negative symbolic values")


ELEM = {
    'add': lambda a, b: a + b, 'add_any': lambda a, b: a + b, 'sub': _sub, 'mul': lambda a, b: a * b,
    'neg': lambda a: -a, 'pow': spow, 'sqrt': lambda a: a.sqrt(), 'rsqrt': lambda a: a.sqrt().inv(),
    'cbrt': lambda a: a.root(3),
    'exp': lambda a: a.exp(), 'log': lambda a: a.log(), 'log1p': slog1p, 'tanh': lambda a: a.tanh(),
    'expm1': lambda a: a.exp() - 1, 'logistic': lambda a: (1 + (-a).exp()).inv(),
    'sin': lambda a: a.sin(), 'cos': lambda a: a.cos(), 'tan': lambda a: a.tan(), 'atan': lambda a: a.arctan(),
    'acos': lambda a: a.arccos(), 'max': smax, 'min': smin, 'abs': lambda a: abs(a), 'sign': ssign,
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'not': lambda a: P.bnot(a), 'is_finite': lambda a: True, 'square': lambda a: a * a,
    'copy': lambda a: a, 'copy_p': lambda a: a, 'stop_gradient': lambda a: a, 'real': lambda a: a,
    'floor': lambda a: P.apply_fn('floor', a), 'round': lambda a: round(lift(a)), 'device_put': lambda a: a, 'reduce_precision': lambda a: a,
    'optimization_barrier': lambda a: a,
}
for _n, _f in ELEM.items():
    RULES[_n] = ew(_f)


@rule('and', 'or', 'xor')
def _r(vals, params, oaval):
    raise EncodingError('boolean op')


for _n, _f in {'and': P.band, 'or': P.bor, 'xor': P.bxor}.items():
    RULES[_n] = ew(_f)


@rule('div')
def _r(vals, params, oaval):
    if np.issubdtype(oaval.dtype, np.integer):
        return ew(sdiv_int)(vals, params, oaval)
    return ew(lambda a, b: lift(a) / b)(vals, params, oaval)


@rule('rem')
def _r(vals, params, oaval):
    return ew(srem)(vals, params, oaval)


@rule('integer_pow')
def _r(vals, params, oaval):
    y = params['y']
    return ew(lambda a: lift(a) ** y)(vals, params, oaval)


@rule('clamp')
def _r(vals, params, oaval):
    return ew(lambda lo, x, hi: smin(smax(x, lo), hi))(vals, params, oaval)


@rule('nextafter')
def _r(vals, params, oaval):
    return obj(vals[0])


@rule('convert_element_type')
def _r(vals, params, oaval):
    nd = np.dtype(params['new_dtype'])
    def cv(a):
        if nd == np.bool_:
            if isinstance(a, (bool, BoolTerm, np.bool_)):
                return a
            return lift(a) != 0
        if isinstance(a, (bool, BoolTerm, np.bool_)):
            return P.b2p(a)
        if np.issubdtype(nd, np.integer):
            if isinstance(a, Poly) and not all(P.ATOMS[x].isint or P.ATOMS[x].kind == 'flag' for x in a.atoms()):
                if _is_int_valued(a):
                    return a
                fl = P.apply_fn('floor', a)
                lo, _ = P.interval(a)
                if lo is not None and lo >= 0:
                    return fl
                return ite(a >= 0, fl, -P.apply_fn('floor', -a))
        return a
    return ew(cv)(vals, params, oaval)


def _is_int_valued(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            at = P.ATOMS[a]
            if e < 0:
                return False
            if at.isint or at.kind == 'flag' or (at.kind == 'fn' and at.name == 'floor'):
                continue
            if at.kind == 'ite' and _is_int_valued(at.args[1]) and _is_int_valued(at.args[2]):
                continue
            return False
    return True


@rule('select_n')
def _r(vals, params, oaval):
    which, *cases = vals
    def f(w, *cs):
        if isinstance(w, (bool, np.bool_)):
            return cs[int(w)]
        if isinstance(w, BoolTerm):
            return ite(w, cs[1], cs[0])
        w = lift(w)
        if w.is_const():
            return cs[int(w.cval())]
        r = cs[-1]
        for k in range(len(cs) - 2, -1, -1):
            r = ite(w == k, cs[k], r)
        return r
    return ew(f)([which] + cases, params, oaval)


# -- structural primitives: executed by JAX on position arrays
def _ids(shape, off=0):
    return jnp.asarray((np.arange(int(np.prod(shape))) + off).reshape(shape).astype(np.int32))


PRIMS = {}


def _prim(name):
    return PRIMS[name]


for _p in [lax.reshape_p, lax.broadcast_in_dim_p, lax.transpose_p, lax.squeeze_p, lax.slice_p, lax.rev_p,
           lax.dynamic_slice_p, lax.dynamic_update_slice_p, lax.gather_p, lax.scatter_p, lax.scatter_add_p,
           lax.concatenate_p, lax.pad_p, lax.expand_dims_p if hasattr(lax, 'expand_dims_p') else lax.reshape_p]:
    PRIMS[_p.name] = _p


def _take(flat, ids):
    ids = np.asarray(ids)
    out = np.empty(ids.shape, dtype=object)
    if ids.shape == ():
        out[()] = flat[int(ids)]
        return out
    f = out.reshape(-1)
    for i, k in enumerate(ids.reshape(-1)):
        f[i] = flat[k]
    return f.reshape(ids.shape)


@rule('reshape', 'broadcast_in_dim', 'transpose', 'squeeze', 'slice', 'rev')
def _r(vals, params, oaval):
    raise AssertionError


def _structural(name):
    def r(vals, params, oaval):
        a = obj(vals[0])
        ids = PRIMS[name].bind(_ids(a.shape), **params)
        return _take(a.reshape(-1), ids)
    return r


for _n in ['reshape', 'broadcast_in_dim', 'transpose', 'squeeze', 'slice', 'rev']:
    RULES[_n] = _structural(_n)


def _conc(v, what):
    if v.dtype != object:
        return v
    c = to_concrete(v, np.int64)
    if c is None:
        return np.array([int(x) for x in v.reshape(-1)], dtype=np.int64).reshape(v.shape)     # one path per value
    return c


@rule('dynamic_slice')
def _r(vals, params, oaval):
    a = obj(vals[0])
    idx = [jnp.asarray(_conc(v, 'dynamic_slice index').astype(np.int32)) for v in vals[1:]]
    ids = lax.dynamic_slice_p.bind(_ids(a.shape), *idx, **params)
    return _take(a.reshape(-1), ids)


@rule('dynamic_update_slice')
def _r(vals, params, oaval):
    a, u = obj(vals[0]), obj(vals[1])
    idx = [jnp.asarray(_conc(v, 'dynamic_update_slice index').astype(np.int32)) for v in vals[2:]]
    ids = lax.dynamic_update_slice_p.bind(_ids(a.shape), _ids(u.shape, a.size), *idx, **params)
    return _take(np.concatenate([a.reshape(-1), u.reshape(-1)]), ids)


@rule('concatenate')
def _r(vals, params, oaval):
    off, idl, flats = 0, [], []
    for v in vals:
        o = obj(v)
        idl.append(_ids(o.shape, off))
        off += o.size
        flats.append(o.reshape(-1))
    ids = lax.concatenate_p.bind(*idl, **params)
    return _take(np.concatenate(flats), ids)


@rule('pad')
def _r(vals, params, oaval):
    a, pv = obj(vals[0]), obj(vals[1])
    ids = lax.pad_p.bind(_ids(a.shape), jnp.asarray(a.size, dtype=jnp.int32), **params)
    return _take(np.concatenate([a.reshape(-1), pv.reshape(-1)]), ids)


@rule('gather')
def _r(vals, params, oaval):
    a = obj(vals[0])
    try:
        idx = _conc(vals[1], 'gather index')
    except EncodingError:
        return _sym_gather(a, vals[1], params, oaval)
    p = dict(params)
    p['fill_value'] = -1
    ids = np.asarray(lax.gather_p.bind(_ids(a.shape), jnp.asarray(idx), **p))
    if (ids < 0).any():
        raise EncodingError("out-of-bounds gather (result would be NaN)")
    return _take(a.reshape(-1), ids)


def _sym_gather(a, idx, params, oaval):
    """Gather along exactly one symbolic scalar index per row: select chain."""
    idxo = obj(idx)
    # candidate index tuples: each component ranges over its valid interval
    dn = params['dimension_numbers']
    flat = idxo.reshape(-1)
    symat = [i for i, x in enumerate(flat) if not is_concrete_term(x)]
    groups = {}
    for i in symat:
        groups.setdefault(flat[i].key(), []).append(i)
    k = idxo.shape[-1]
    comp = {key: dn.start_index_map[i % k] for key, ii in groups.items() for i in ii[:1]}
    if len(groups) > 12:
        # process row by row: outputs depend only on their own row; evaluate jointly per value
        pass
    base = np.array([0 if not is_concrete_term(x) else int(x.cval() if isinstance(x, Poly) else x) for x in flat],
                    dtype=np.int32)
    p = dict(params)
    p['fill_value'] = -1
    dims = sorted({comp[key] for key in groups})
    if len(dims) != 1:
        raise EncodingError("gather with several symbolic index components")
    n = a.shape[dims[0]]
    fa = a.reshape(-1)
    ids_per = []
    for v in range(n):
        b = base.copy()
        for i in symat:
            b[i] = v
        ids_per.append(np.asarray(lax.gather_p.bind(_ids(a.shape), jnp.asarray(b.reshape(idxo.shape)), **p)))
    # which symbolic index does each output depend on: perturb one group at a time
    owner = np.full(ids_per[0].shape, -1)
    keys = list(groups)
    if n > 1:
        for gi, key in enumerate(keys):
            b = base.copy()
            for i in groups[key]:
                b[i] = 1
            ids1 = np.asarray(lax.gather_p.bind(_ids(a.shape), jnp.asarray(b.reshape(idxo.shape)), **p))
            owner[ids1 != ids_per[0]] = gi
    out = np.empty(owner.shape, dtype=object)
    of = out.reshape(-1) if out.shape else None
    def cell(pos):
        g = owner[pos] if out.shape else owner[()]
        if g < 0:
            return fa[ids_per[0][pos]]
        sym = flat[groups[keys[g]][0]]
        r = fa[ids_per[n - 1][pos]]
        # jnp normalises negative indices before the gather; clip/fill modes only matter out of bounds
        for v in range(n - 2, -1, -1):
            r = ite(sym == v if v > 0 else sym <= 0, fa[ids_per[v][pos]], r)
        return r
    for pos in np.ndindex(*out.shape):
        out[pos] = cell(pos)
    return out


@rule('scatter')
def _r(vals, params, oaval):
    a, u = obj(vals[0]), obj(vals[2])
    idx = _conc(vals[1], 'scatter index')
    p = dict(params)
    ids = lax.scatter_p.bind(_ids(a.shape), jnp.asarray(idx), _ids(u.shape, a.size), **_scatter_params(p))
    return _take(np.concatenate([a.reshape(-1), u.reshape(-1)]), ids)


def _scatter_params(p):
    q = dict(p)
    # the update computation jaxpr is for the original dtype; rebuild for ints
    f = lambda x, y: y
    jx = jax.make_jaxpr(f)(jnp.int32(0), jnp.int32(0))
    q['update_jaxpr'], q['update_consts'] = jx.jaxpr, tuple(jx.consts)
    return q


@rule('scatter-add', 'scatter_add')
def _r(vals, params, oaval):
    a, u = obj(vals[0]), obj(vals[2])
    idx = jnp.asarray(_conc(vals[1], 'scatter index'))
    dn = params['dimension_numbers']
    kw = dict(indices_are_sorted=params['indices_are_sorted'], unique_indices=params['unique_indices'],
              mode=params['mode'])
    z = jnp.zeros(a.shape)
    _, pb = jax.vjp(lambda uu: lax.scatter_add(z, idx, uu, dn, **kw), jnp.zeros(u.shape))
    dest, = pb(jnp.arange(1, a.size + 1, dtype=jnp.float64).reshape(a.shape))
    dest = np.asarray(dest).astype(np.int64).reshape(-1)
    out = a.reshape(-1).copy()
    acc = {}
    uf = u.reshape(-1)
    for i in range(uf.size):
        if dest[i] > 0:
            acc.setdefault(dest[i] - 1, []).append(uf[i])
    for d, l in acc.items():
        out[d] = ssum([out[d]] + l)
    return out.reshape(a.shape)


# -- reductions and contractions
def ssum(l):
    if len(l) == 1:
        return l[0]
    r = {}
    for p in l:
        p = lift(p)
        for m, c in p.t.items():
            v = r.get(m)
            r[m] = c if v is None else v + c
    out = Poly({m: c for m, c in r.items() if c})
    sq = ()
    for p in l:
        p = lift(p)
        if p.sq is not None:
            sq += p.sq
        elif p.t:
            return out
    out.sq = sq
    return out


def _reduce(fn):
    def r(vals, params, oaval):
        a = obj(vals[0])
        axes = tuple(params['axes'])
        keep = [i for i in range(a.ndim) if i not in axes]
        b = np.transpose(a, keep + list(axes)).reshape(tuple(a.shape[i] for i in keep) + (-1,))
        out = np.empty(b.shape[:-1], dtype=object)
        for pos in np.ndindex(*out.shape):
            out[pos] = fn(list(b[pos]))
        return out
    return r


def _fold(f):
    def g(l):
        r = l[0]
        for x in l[1:]:
            r = f(r, x)
        return r
    return g


RULES['reduce_sum'] = _reduce(lambda l: ssum(l) if l else P.ZERO)
RULES['reduce_max'] = _reduce(_fold(smax))
RULES['reduce_min'] = _reduce(_fold(smin))
RULES['reduce_prod'] = _reduce(lambda l: _fold(lambda a, b: a * b)([P.ONEP] + l))
RULES['reduce_and'] = _reduce(lambda l: _fold(P.band)([True] + l))
RULES['reduce_or'] = _reduce(lambda l: _fold(P.bor)([False] + l))


def _argred(better):
    def r(vals, params, oaval):
        a = obj(vals[0])
        ax, = params['axes']
        b = np.moveaxis(a, ax, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for pos in np.ndindex(*out.shape):
            l = list(b[pos])
            best, bi = l[0], P.ZERO
            for k in range(1, len(l)):
                c = better(l[k], best)
                bi = ite(c, Poly.const(k), bi)
                best = ite(c, l[k], best)
            out[pos] = bi
        return out
    return r


RULES['argmax'] = _argred(lambda x, b: x > b)
RULES['argmin'] = _argred(lambda x, b: x < b)


def _cum(fn):
    def r(vals, params, oaval):
        a = np.moveaxis(obj(vals[0]), params['axis'], 0)
        if params['reverse']:
            a = a[::-1]
        out = np.empty(a.shape, dtype=object)
        out[0] = a[0]
        for i in range(1, a.shape[0]):
            prev, cur = out[i - 1], a[i]
            if a.ndim == 1:
                out[i] = fn(prev, cur)
            else:
                o = np.empty(cur.shape, dtype=object)
                for pos in np.ndindex(*cur.shape):
                    o[pos] = fn(prev[pos], cur[pos])
                out[i] = o
        if params['reverse']:
            out = out[::-1]
        return np.moveaxis(out, 0, params['axis'])
    return r


RULES['cumsum'] = _cum(lambda a, b: a + b)
RULES['cumprod'] = _cum(lambda a, b: a * b)


@rule('dot_general')
def _r(vals, params, oaval):
    (lc, rc), (lb, rb) = params['dimension_numbers']
    a, b = obj(vals[0]), obj(vals[1])
    lf = [i for i in range(a.ndim) if i not in lc and i not in lb]
    rf = [i for i in range(b.ndim) if i not in rc and i not in rb]
    A = np.transpose(a, list(lb) + lf + list(lc))
    B = np.transpose(b, list(rb) + rf + list(rc))
    bs = A.shape[:len(lb)]
    ls = A.shape[len(lb):len(lb) + len(lf)]
    rs = B.shape[len(rb):len(rb) + len(rf)]
    A = A.reshape((int(np.prod(bs)), int(np.prod(ls)), -1))
    B = B.reshape((int(np.prod(bs)), int(np.prod(rs)), -1))
    out = np.empty((A.shape[0], A.shape[1], B.shape[1]), dtype=object)
    for n in range(A.shape[0]):
        nzB = [[(k, x) for k, x in enumerate(B[n, j]) if lift(x).t] for j in range(B.shape[1])]
        for i in range(A.shape[1]):
            row = A[n, i]
            for j in range(B.shape[1]):
                l = [row[k] * x for k, x in nzB[j] if lift(row[k]).t]
                out[n, i, j] = ssum(l) if l else P.ZERO
    return out.reshape(tuple(bs) + tuple(ls) + tuple(rs))


# -- dense linear algebra on small matrices
@rule('lu')
def _r(vals, params, oavals):
    a = obj(vals[0])
    n, m = a.shape[-2:]
    batch = a.shape[:-2]
    LU = np.empty(a.shape, dtype=object)
    for bpos in np.ndindex(*batch):
        A = a[bpos].copy()
        for k in range(min(n, m)):
            if lift(A[k, k]).is_const() and lift(A[k, k]).cval() == 0:
                raise EncodingError("lu: zero leading pivot without pivoting")
            ip = lift(A[k, k]).inv()
            for i in range(k + 1, n):
                A[i, k] = A[i, k] * ip
                for j in range(k + 1, m):
                    A[i, j] = A[i, j] - A[i, k] * A[k, j]
        LU[bpos] = A
    piv = np.broadcast_to(np.arange(min(n, m), dtype=np.int32), batch + (min(n, m),))
    perm = np.broadcast_to(np.arange(n, dtype=np.int32), batch + (n,))
    return [LU, piv.copy(), perm.copy()]


@rule('triangular_solve')
def _r(vals, params, oaval):
    a, b = obj(vals[0]), obj(vals[1])
    left, lower, trans, unit = params['left_side'], params['lower'], params['transpose_a'], params['unit_diagonal']
    out = np.empty(b.shape, dtype=object)
    for bp in np.ndindex(*a.shape[:-2]):
        A, B = a[bp], b[bp]
        if trans:
            A = A.T
        low = lower != bool(trans)
        if not left:
            # X A = B  <=>  A^T X^T = B^T
            A, B = A.T, B.T
            low = not low
        n = A.shape[0]
        X = np.empty(B.shape, dtype=object)
        for c in range(B.shape[1]):
            for i in (range(n) if low else range(n - 1, -1, -1)):
                s = lift(B[i, c])
                for j in (range(i) if low else range(i + 1, n)):
                    s = s - A[i, j] * X[j, c]
                X[i, c] = s if unit else s * lift(A[i, i]).inv()
        out[bp] = X if left else X.T
    return out


# -- higher-order primitives
@call('pjit', 'closed_call', 'core_call', 'remat', 'checkpoint', 'custom_jvp_call', 'xla_call', 'remat2',
      'custom_vjp_call', 'custom_vjp_call_jaxpr')
def _r(trace, tracers, params):
    for k in ('jaxpr', 'call_jaxpr', 'fun_jaxpr'):
        if k in params:
            jx = params[k]
            break
    else:
        raise EncodingError(f"call primitive without jaxpr {list(params)}")
    if isinstance(jx, core.ClosedJaxpr):
        return core.eval_jaxpr(jx.jaxpr, jx.consts, *tracers)
    return core.eval_jaxpr(jx, (), *tracers)


@call('custom_linear_solve')
def _r(trace, tracers, params):
    cl, jxs = params['const_lengths'], params['jaxprs']
    lens = list(cl)
    ns = sum(lens)
    consts, b = tracers[:ns], tracers[ns:]
    pos = 0
    groups = []
    for l in lens:
        groups.append(consts[pos:pos + l])
        pos += l
    solve = jxs.solve
    return core.eval_jaxpr(solve.jaxpr, solve.consts, *groups[2], *b)


@call('scan')
def _r(trace, tracers, params):
    jx, length = params['jaxpr'], params['length']
    nc, nk = params['num_consts'], params['num_carry']
    consts, carry, xs = tracers[:nc], list(tracers[nc:nc + nk]), tracers[nc + nk:]
    ys = []
    order = range(length - 1, -1, -1) if params['reverse'] else range(length)
    for i in order:
        out = core.eval_jaxpr(jx.jaxpr, jx.consts, *consts, *carry, *[x[i] for x in xs])
        carry = list(out[:nk])
        ys.append(out[nk:])
    if params['reverse']:
        ys = ys[::-1]
    stacked = [jnp.stack([y[k] for y in ys]) if ys else None for k in range(len(jx.out_avals) - nk)]
    for k in range(len(stacked)):
        if stacked[k] is None:
            av = jx.out_avals[nk + k]
            stacked[k] = jnp.zeros((0,) + av.shape, av.dtype)
    return carry + stacked


MAX_WHILE = [10000]


@call('while')
def _r(trace, tracers, params):
    cj, bj = params['cond_jaxpr'], params['body_jaxpr']
    cn, bn = params['cond_nconsts'], params['body_nconsts']
    cc, bc, carry = tracers[:cn], tracers[cn:cn + bn], list(tracers[cn + bn:])
    n = 0
    while True:
        p, = core.eval_jaxpr(cj.jaxpr, cj.consts, *cc, *carry)
        if not bool(p):
            return carry
        carry = list(core.eval_jaxpr(bj.jaxpr, bj.consts, *bc, *carry))
        n += 1
        if n > MAX_WHILE[0]:
            raise EncodingError("while loop bound exceeded")


@call('cond')
def _r(trace, tracers, params):
    idx, *ops = tracers
    branches = params['branches']
    v = to_terms(idx)
    c = v if v.dtype != object else to_concrete(v, np.int32)
    if c is not None:
        k = int(np.clip(int(c), 0, len(branches) - 1))
        return core.eval_jaxpr(branches[k].jaxpr, branches[k].consts, *ops)
    outs = [core.eval_jaxpr(b.jaxpr, b.consts, *ops) for b in branches]
    w = v.reshape(-1)[0]
    res = []
    for k in range(len(outs[0])):
        cols = [obj(to_terms(o[k])) for o in outs]
        av = branches[0].out_avals[k]
        out = np.empty(av.shape, dtype=object)
        for pos in np.ndindex(*av.shape):
            if isinstance(w, BoolTerm):
                out[pos] = ite(w, cols[1][pos], cols[0][pos])
            else:
                r = cols[-1][pos]
                for j in range(len(cols) - 2, -1, -1):
                    r = ite(lift(w) <= 0 if j == 0 else lift(w) == j, cols[j][pos], r)
                out[pos] = r
        res.append(SymTracer(trace, out, core.ShapedArray(av.shape, av.dtype)))
    return res


def _impl_call(name, impl):
    @call(name)
    def _r(trace, tracers, params):
        out = impl(*tracers, **params)
        return list(out) if isinstance(out, (tuple, list)) else [out]


try:
    from jax.experimental.sparse import bcoo as _bcoo
    for _nm in ['bcoo_dot_general', 'bcoo_todense', 'bcoo_transpose', 'bcoo_extract', 'bcoo_sort_indices']:
        _pp = getattr(_bcoo, _nm + '_p')
        _im = getattr(_bcoo, f'_{_nm}_impl', None)
        if _im is not None:
            _impl_call(_pp.name, _im)
            if not _pp.multiple_results:
                # process_primitive for CALLS returns lists; adapt below
                pass
except Exception:      # pragma: no cover
    pass

SINGLE_RESULT_CALLS = {'bcoo_dot_general', 'bcoo_todense', 'bcoo_extract'}
_orig_pp = SymTrace.process_primitive


def _pp(self, prim, tracers, params):
    r = _orig_pp(self, prim, tracers, params)
    if isinstance(r, list) and not prim.multiple_results:
        return r[0]
    return r


SymTrace.process_primitive = _pp
