"""NumPy on symbolic object arrays, and polynomial stand-ins for small dense
linear algebra (exact over the reals: adjugate formulas)."""
import numpy as np
import jax
import jax.numpy as jnp
from . import poly as P
from .poly import Poly, BoolTerm, lift, ite, EncodingError
from . import jaxsym as J


class SymArray(np.ndarray):
    """object ndarray whose comparisons, max/min, where, linalg ... build terms
    instead of forcing machine values."""

    def __new__(cls, a):
        a = np.asarray(a)
        if a.dtype != object:
            a = J.obj(a)
        return a.view(cls)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [np.asarray(x) if isinstance(x, SymArray) else x for x in inputs]
        if method == '__call__' and ufunc in _UF and not kw.get('where', None):
            ins = [J.obj(np.asarray(x)) for x in ins]
            shape = np.broadcast_shapes(*[x.shape for x in ins])
            fl = [np.broadcast_to(x, shape).reshape(-1) for x in ins]
            res = np.empty(int(np.prod(shape)), dtype=object)
            f = _UF[ufunc]
            for i in range(res.size):
                res[i] = f(*[a[i] for a in fl])
            res = res.reshape(shape)
        elif method == 'reduce' and ufunc in _RED:
            a = J.obj(ins[0])
            ax = kw.get('axis', 0)
            keep = kw.get('keepdims', False)
            if ax is None:
                ax = tuple(range(a.ndim))
            ax = (ax,) if isinstance(ax, (int, np.integer)) else tuple(ax)
            ax = tuple(x % a.ndim for x in ax)
            rest = [i for i in range(a.ndim) if i not in ax]
            b = np.transpose(a, rest + list(ax)).reshape(tuple(a.shape[i] for i in rest) + (-1,))
            res = np.empty(b.shape[:-1], dtype=object)
            for pos in np.ndindex(*res.shape):
                l = list(b[pos])
                r = l[0]
                for x in l[1:]:
                    r = _RED[ufunc](r, x)
                res[pos] = r
            if keep:
                res = res.reshape(tuple(1 if i in ax else a.shape[i] for i in range(a.ndim)))
        else:
            ins = [J.obj(x) if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind == 'f' else x for x in ins]
            outs = None
            if out is not None:
                outs = tuple(np.asarray(o) if isinstance(o, SymArray) else o for o in out)
                kw['out'] = outs
            res = getattr(ufunc, method)(*ins, **kw)
            if out is not None:
                return out[0] if len(out) == 1 else out
            return wrap(res)
        if out is not None:
            o = np.asarray(out[0])
            o[...] = res
            return out[0]
        return wrap(res)

    def __array_function__(self, func, types, args, kwargs):
        f = _AF.get(func)
        if f is not None:
            return wrap(f(*args, **kwargs))
        def strip(x):
            if isinstance(x, SymArray):
                return np.asarray(x)
            if isinstance(x, (list, tuple)):
                return type(x)(strip(y) for y in x)
            return x
        return wrap(func(*strip(args), **{k: strip(v) for k, v in kwargs.items()}))

    def max(self, axis=None, out=None, **k): return _redfn(np.maximum)(self, axis=axis, **k)
    def min(self, axis=None, out=None, **k): return _redfn(np.minimum)(self, axis=axis, **k)
    def all(self, axis=None, out=None, **k): return _redfn(np.logical_and)(self, axis=axis, **k)
    def any(self, axis=None, out=None, **k): return _redfn(np.logical_or)(self, axis=axis, **k)
    def clip(self, min=None, max=None, out=None, **k): return _clip(self, min, max)
    def nonzero(self): return np.nonzero(decided(self))

    def _ix(self, i):
        if isinstance(i, np.ndarray) and i.dtype == object and i.size and isinstance(np.asarray(i).reshape(-1)[0], (bool, np.bool_, BoolTerm)):
            return decided(i)
        if isinstance(i, tuple):
            return tuple(self._ix(x) if isinstance(x, np.ndarray) else x for x in i)
        return i

    def __getitem__(self, i):
        return np.ndarray.__getitem__(self, self._ix(i))

    def __setitem__(self, i, v):
        return np.ndarray.__setitem__(self, self._ix(i), v)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("truth value of an array is ambiguous")
        return bool(self.reshape(-1)[0] if False else np.asarray(self).reshape(-1)[0])


def wrap(x):
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, SymArray):
        if x.ndim == 0:
            return x[()]
        return x.view(SymArray)
    if isinstance(x, (list, tuple)):
        return type(x)(wrap(y) for y in x)
    return x


_UF = {
    np.less: lambda a, b: a < b, np.less_equal: lambda a, b: a <= b, np.greater: lambda a, b: a > b,
    np.greater_equal: lambda a, b: a >= b, np.equal: lambda a, b: a == b, np.not_equal: lambda a, b: a != b,
    np.maximum: J.smax, np.minimum: J.smin, np.absolute: lambda a: abs(a), np.fabs: lambda a: abs(a),
    np.sign: J.ssign, np.logical_and: P.band, np.logical_or: P.bor, np.logical_not: P.bnot,
    np.bitwise_and: P.band, np.bitwise_or: P.bor, np.invert: P.bnot, np.isfinite: lambda a: True,
    np.isnan: lambda a: False,
    np.sqrt: lambda a: lift(a).sqrt(), np.exp: lambda a: lift(a).exp(), np.log: lambda a: lift(a).log(),
    np.tanh: lambda a: lift(a).tanh(), np.arctan: lambda a: lift(a).arctan(), np.arccos: lambda a: lift(a).arccos(),
    np.cos: lambda a: lift(a).cos(), np.sin: lambda a: lift(a).sin(), np.power: lambda a, b: lift(a) ** b,
    np.true_divide: lambda a, b: lift(a) / b, np.square: lambda a: a * a, np.reciprocal: lambda a: 1 / lift(a), np.float_power: lambda a, b: lift(a) ** b,
    np.fmax: J.smax, np.fmin: J.smin, np.hypot: lambda a, b: (lift(a) * a + lift(b) * b).sqrt(),
    np.heaviside: lambda a, b: P.ite(a > 0, 1.0, P.ite(a < 0, 0.0, b)), np.cbrt: lambda a: lift(a).root(3),
}
_RED = {np.maximum: J.smax, np.minimum: J.smin, np.fmax: J.smax, np.fmin: J.smin, np.logical_and: P.band, np.logical_or: P.bor}


def _where(c, *ab):
    if not ab:
        return np.nonzero(decided(c))
    a, b = ab
    c, a, b = (np.asarray(x) for x in (c, a, b))
    shape = np.broadcast_shapes(c.shape, a.shape, b.shape)
    c, a, b = (np.broadcast_to(J.obj(x), shape).reshape(-1) for x in (c, a, b))
    r = np.empty(c.size, dtype=object)
    for i in range(r.size):
        r[i] = ite(c[i], a[i], b[i])
    return r.reshape(shape)


def decided(c):
    """concrete truth values of symbolic conditions (the path forks)"""
    c = np.asarray(c)
    b = np.zeros(c.shape, dtype=bool)
    for pos in np.ndindex(*c.shape):
        x = c[pos]
        b[pos] = bool(x if not isinstance(x, Poly) else (x != 0))
    return b


def _redfn(uf):
    def f(a, axis=None, out=None, keepdims=False, **k):
        a = np.asarray(a)
        if not isinstance(keepdims, (bool, np.bool_)):
            keepdims = False
        return uf.reduce(SymArray(a), axis=axis, keepdims=keepdims)
    return f


class NumpyProxy:
    """numpy for one module under symbolic execution: array constructors keep the
    symbolic array class, so that later ufuncs build terms"""

    def __init__(self, real=np):
        self._np = real

    def __getattr__(self, n):
        return getattr(self._np, n)

    def _mk(self, f, a, k):
        r = f(a, **{q: v for q, v in k.items() if q != 'dtype'}) if _has_obj(a) or _has_tr(a) else f(a, **k)
        return wrap(r)

    def array(self, a, *p, **k):
        if isinstance(a, J.SymTracer):
            return SymArray(np.array(J.to_terms(a)))
        return self._mk(lambda x, **q: np.array(_plain(x), *p, **q), a, k)

    def asarray(self, a, *p, **k):
        if isinstance(a, J.SymTracer):
            return SymArray(np.asarray(J.to_terms(a)))
        return self._mk(lambda x, **q: np.asarray(_plain(x), *p, **q), a, k)


def _has_tr(x):
    if isinstance(x, J.SymTracer):
        return True
    return type(x) in (list, tuple) and any(_has_tr(y) for y in x)


def _plain(x):
    if isinstance(x, J.SymTracer):
        return np.asarray(J.to_terms(x))
    if type(x) in (list, tuple):
        return type(x)(_plain(y) for y in x)
    return x


def proxy_numpy(module):
    for k, v in list(vars(module).items()):
        if v is np:
            setattr(module, k, NumpyProxy())


def det_obj(a):
    a = np.asarray(a)
    a = J.obj(a)
    out = np.empty(a.shape[:-2], dtype=object)
    for pos in np.ndindex(*out.shape):
        out[pos] = _det(a[pos])
    return out if out.shape else out[()]


def _det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    r = P.ZERO
    for j in range(n):
        if not lift(m[0, j]).t:
            continue
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        t = m[0, j] * _det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def inv_obj(a):
    a = J.obj(np.asarray(a))
    out = np.empty(a.shape, dtype=object)
    for pos in np.ndindex(*a.shape[:-2]):
        m = a[pos]
        n = m.shape[0]
        d = lift(_det(m)).inv()
        for i in range(n):
            for j in range(n):
                minor = np.delete(np.delete(m, j, 0), i, 1)
                c = _det(minor) if n > 1 else P.ONEP
                out[pos + (i, j)] = (c if (i + j) % 2 == 0 else -c) * d
    return out


def norm_obj(x, ord=None, axis=None, keepdims=False):
    a = J.obj(np.asarray(x))
    if ord not in (None, 2, 'fro'):
        raise EncodingError(f"norm ord={ord}")
    sq = a * a
    s = sq.sum(axis=axis, keepdims=keepdims)
    if isinstance(s, np.ndarray):
        o = np.empty(s.shape, dtype=object)
        for pos in np.ndindex(*s.shape):
            o[pos] = lift(s[pos]).sqrt()
        return o if o.shape else o[()]
    return lift(s).sqrt()


def solve_obj(a, b):
    """n<=3: adjugate.  Larger: fresh unknowns (contract a x = b) via hook."""
    a, b = J.obj(np.asarray(a)), J.obj(np.asarray(b))
    if a.shape[-1] <= 3:
        return inv_obj(a) @ b
    return SOLVE_HOOK(a, b)


def SOLVE_HOOK(a, b):
    raise EncodingError("np.linalg.solve on a large symbolic matrix")


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = int(num)
    div = n - 1 if endpoint else n
    a, b = lift(start), lift(stop)
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = a + (b - a) * P.snap(i) / div if div else a
    return out


def _clip(a, a_min=None, a_max=None, out=None, **k):
    a_min, a_max = k.get('min', a_min), k.get('max', a_max)
    r = SymArray(a)
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def _select(conds, choices, default=0):
    r = SymArray(np.broadcast_to(J.obj(np.asarray(default)), np.broadcast_shapes(*[np.shape(c) for c in list(conds) + list(choices)])).copy())
    for c, v in zip(reversed(list(conds)), reversed(list(choices))):
        r = _where(c, v, r)
    return r


_AF = {np.where: _where, np.clip: _clip, np.select: _select, np.amax: _redfn(np.maximum), np.amin: _redfn(np.minimum), np.linalg.det: det_obj, np.linalg.inv: inv_obj, np.linalg.norm: norm_obj,
       np.linalg.solve: solve_obj, np.linspace: _linspace, np.max: _redfn(np.maximum), np.min: _redfn(np.minimum),
       np.all: _redfn(np.logical_and), np.any: _redfn(np.logical_or),
       np.nonzero: lambda c: np.nonzero(decided(c)), np.argwhere: lambda c: np.argwhere(decided(c)),
       np.diag: lambda a, k=0: _diag(a, k)}


def _diag(a, k=0):
    a = np.asarray(a)
    if a.ndim == 2:
        return np.diag(a, k)
    n = len(a) + abs(k)
    r = np.empty((n, n), dtype=object)
    r[:] = 0.0
    for i, x in enumerate(a):
        r[i + max(-k, 0), i + max(k, 0)] = x
    return r

_real = {}


def _is_obj(x):
    return isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (Poly, BoolTerm))


def patch_numpy():
    """Extend numpy's linalg/linspace/where to plain object arrays."""
    import builtins
    def mk(real, symf, k=1):
        def f(*a, **kw):
            for x in a[:max(k, 1)]:
                if isinstance(x, J.SymTracer):
                    x = np.asarray(x)
                if _is_obj(x) or isinstance(x, (list, tuple)) and np.asarray(x).dtype == object:
                    a = tuple(np.asarray(y) if isinstance(y, J.SymTracer) else y for y in a)
                    return wrap(symf(*a, **kw))
            return real(*a, **kw)
        return f
    if _real:
        return
    for mod, name, symf, k in [(np.linalg, 'det', det_obj, 1), (np.linalg, 'inv', inv_obj, 1),
                               (np.linalg, 'norm', norm_obj, 1), (np.linalg, 'solve', solve_obj, 2),
                               (np, 'linspace', _linspace, 2), (np, 'where', _where, 3)]:
        _real[name] = getattr(mod, name)
        setattr(mod, name, mk(_real[name], symf, k))


# ---- jnp stand-ins (plain jnp arithmetic, so vmap/jvp/vjp go through them)
def _jdet(a):
    a = jnp.asarray(a)
    n = a.shape[-1]
    if n == 1:
        return a[..., 0, 0]
    if n == 2:
        return a[..., 0, 0] * a[..., 1, 1] - a[..., 0, 1] * a[..., 1, 0]
    if n == 3:
        return (a[..., 0, 0] * (a[..., 1, 1] * a[..., 2, 2] - a[..., 1, 2] * a[..., 2, 1])
                - a[..., 0, 1] * (a[..., 1, 0] * a[..., 2, 2] - a[..., 1, 2] * a[..., 2, 0])
                + a[..., 0, 2] * (a[..., 1, 0] * a[..., 2, 1] - a[..., 1, 1] * a[..., 2, 0]))
    return _real['jdet'](a)


def _jinv(a):
    a = jnp.asarray(a)
    n = a.shape[-1]
    if n > 3:
        return _real['jinv'](a)
    d = 1. / _jdet(a)
    if n == 1:
        return d[..., None, None]
    rows = []
    for i in range(n):
        row = []
        for j in range(n):
            rr = [k for k in range(n) if k != j]
            cc = [k for k in range(n) if k != i]
            m = a[..., rr, :][..., :, cc]
            c = _jdet(m)
            row.append(c * d if (i + j) % 2 == 0 else -c * d)
        rows.append(jnp.stack(row, axis=-1))
    return jnp.stack(rows, axis=-2)


def _jsolve(a, b):
    if a.shape[-1] > 3:
        return _real['jsolve'](a, b)
    ai = _jinv(a)
    return ai @ b


def patch_jnp():
    if 'jdet' in _real:
        return
    _real['jdet'], _real['jinv'], _real['jsolve'] = jnp.linalg.det, jnp.linalg.inv, jnp.linalg.solve
    jnp.linalg.det, jnp.linalg.inv, jnp.linalg.solve = _jdet, _jinv, _jsolve


def unpatch_jnp():
    if 'jdet' in _real:
        jnp.linalg.det, jnp.linalg.inv, jnp.linalg.solve = _real.pop('jdet'), _real.pop('jinv'), _real.pop('jsolve')


def unpatch_numpy():
    for mod, name in [(np.linalg, 'det'), (np.linalg, 'inv'), (np.linalg, 'norm'), (np.linalg, 'solve'),
                      (np, 'linspace'), (np, 'where')]:
        if name in _real:
            setattr(mod, name, _real.pop(name))


# ---- let JAX entry points accept symbolic object arrays
def conv(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        s = J.Session.current
        if s is not None:
            return s.sym(np.asarray(x))
    elif isinstance(x, (Poly, BoolTerm)):
        s = J.Session.current
        if s is not None:
            o = np.empty((), dtype=object)
            o[()] = x
            return s.sym(o)
    return x


def conv_tree(x):
    if isinstance(x, (np.ndarray, Poly, BoolTerm)):
        return conv(x)
    if type(x) in (list, tuple):
        return type(x)(conv_tree(y) for y in x)
    if type(x) is dict:
        return {k: conv_tree(v) for k, v in x.items()}
    return x


def _has_obj(x):
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (Poly, BoolTerm)):
        return True
    if type(x) in (list, tuple):
        return any(_has_obj(y) for y in x)
    if type(x) is dict:
        return any(_has_obj(y) for y in x.values())
    return False


def _wrapfn(f):
    import functools

    @functools.wraps(f)
    def g(*a, **k):
        if any(_has_obj(x) for x in a) or any(_has_obj(x) for x in k.values()):
            a = tuple(conv_tree(x) for x in a)
            k = {kk: conv_tree(v) for kk, v in k.items()}
        return f(*a, **k)
    return g


def _wrapfn_any(f):
    def g(*a, **k):
        return f(*[conv_tree(x) for x in a], **k)
    return g


class _Callable:
    """wrapper that keeps the attributes of a jitted function"""

    def __init__(self, f):
        self.__wrapped__ = f
        self.__name__ = getattr(f, '__name__', 'fn')

    def __call__(self, *a, **k):
        a = tuple(conv_tree(x) for x in a)
        k = {kk: conv_tree(v) for kk, v in k.items()}
        return self.__wrapped__(*a, **k)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        import functools
        return functools.partial(self, obj)

    def __getattr__(self, n):
        return getattr(self.__dict__['__wrapped__'], n)


_installed = []


def install_sym_boundary():
    """Called once in a symbolic worker, before the repository is imported."""
    if _installed:
        return
    _installed.append(1)
    import types
    import jax._src.numpy.ufuncs as U
    import jax._src.numpy.util as UT
    for name in list(vars(jnp)):
        f = getattr(jnp, name)
        if name.startswith('_') or isinstance(f, type) or not callable(f) or isinstance(f, types.ModuleType):
            continue
        if hasattr(f, 'dtype') and not hasattr(f, '__code__') and name in ('float32', 'float64', 'int32', 'int64', 'bool_'):
            continue
        if isinstance(f, np.dtype) or type(f).__name__ == '_ScalarMeta':
            continue
        try:
            setattr(jnp, name, _wrapfn(f))
        except Exception:
            pass
    for name in list(vars(jnp.linalg)):
        f = getattr(jnp.linalg, name)
        if callable(f) and not name.startswith('_') and not isinstance(f, type):
            setattr(jnp.linalg, name, _wrapfn(f))
    for name in ('promote_args', 'promote_args_inexact', 'promote_args_numeric', 'check_arraylike', 'promote_shapes',
                 'promote_dtypes', 'promote_dtypes_inexact', 'promote_dtypes_numeric'):
        if hasattr(U, name):
            o = getattr(U, name)

            def mk(o):
                def f(*a, **k):
                    return o(*[conv(x) for x in a], **k)
                return f
            if name != 'check_arraylike':
                setattr(U, name, mk(o))
            else:
                setattr(U, name, mk(o))
    for name in ('vmap', 'jit', 'grad', 'value_and_grad', 'jacfwd', 'jacrev', 'hessian', 'pmap'):
        o = getattr(jax, name)

        def mk2(o):
            import functools

            @functools.wraps(o)
            def f(*a, **k):
                return _Callable(o(*a, **k))
            return f
        setattr(jax, name, mk2(o))
    for name in ('jvp', 'device_put'):
        o = getattr(jax, name)
        setattr(jax, name, _wrapfn(o))
    for name in ('vjp', 'linearize'):
        o = _wrapfn(getattr(jax, name))

        def mk4(o):
            def f(*a, **k):
                r = o(*a, **k)
                return (r[0], _wrapfn_any(r[1])) + tuple(r[2:])
            return f
        setattr(jax, name, mk4(o))
    # operators on tracers with object arrays on the other side
    for op in ('add', 'sub', 'mul', 'truediv', 'radd', 'rsub', 'rmul', 'rtruediv', 'matmul', 'rmatmul', 'pow', 'lt', 'le',
               'gt', 'ge', 'eq', 'ne'):
        nm = f'__{op}__'
        def mk3(base):
            def f(self, other):
                return base(self, conv(other))
            return f
        from jax._src.array import ArrayImpl
        for cl in (J._core.Tracer, ArrayImpl):
            setattr(cl, nm, mk3(getattr(cl, nm)))
    J.SymTracer.__hash__ = J._core.Tracer.__hash__


def _tr_take(self, indices, axis=None, out=None, mode=None, **k):
    return jnp.take(self, indices, axis=axis)


def _tr_nonzero(self, **k):
    v = self.val
    if v.dtype != object:
        return np.nonzero(v)
    b = np.zeros(v.shape, dtype=bool)
    for pos in np.ndindex(*v.shape):
        b[pos] = bool(v[pos])
    return np.nonzero(b)


J.SymTracer.take = _tr_take
J.SymTracer.nonzero = _tr_nonzero


# ---- Python builtins that would force a machine number
import builtins as _bi
import math as _math


def _is_sym(x):
    if isinstance(x, (J.SymTracer, SymArray)) or isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return True
    return isinstance(x, (P.Poly, P.BoolTerm))


def _scalar(x):
    while isinstance(x, (J.SymTracer, np.ndarray)):
        x = (x.val if isinstance(x, J.SymTracer) else x).reshape(-1)[0]
    return x


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _bi.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, _bi.float)

    def __eq__(cls, o):
        return o is cls or o is _bi.float

    def __hash__(cls):
        return hash(_bi.float)


class sym_float(metaclass=_FloatMeta):
    """float() for code under test: symbolic scalars pass through"""
    dtype = np.dtype(np.float64)

    def __new__(cls, x=0.0):
        if _is_sym(x):
            return lift(_scalar(x))
        return _bi.float(x)


class MathProxy:
    """math module for code under test"""

    def __getattr__(self, k):
        real = getattr(_math, k)
        if not callable(real):
            return real

        def f(*a):
            if not any(_is_sym(x) for x in a):
                return real(*a)
            b = [lift(_scalar(x)) for x in a]
            if k == 'sqrt':
                return b[0].sqrt()
            if k == 'exp':
                return b[0].exp()
            if k == 'tanh':
                return b[0].tanh()
            if k == 'floor':
                return P.apply_fn('floor', b[0])
            if k == 'ceil':
                return -P.apply_fn('floor', -b[0])
            if k == 'fabs':
                return abs(b[0])
            if k == 'isfinite':
                return True
            if k in ('isnan', 'isinf'):
                return False
            if k == 'pow':
                return b[0] ** b[1]
            if k == 'hypot':
                return (b[0] * b[0] + b[1] * b[1]).sqrt()
            raise EncodingError(f'math.{k} of a symbolic value')
        return f


def patch_builtins(mods):
    import importlib
    import sys
    for m in mods:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    for name, mod in list(sys.modules.items()):
        if name.startswith('jax_am.') and mod is not None and 'float' not in vars(mod):
            mod.float = sym_float
            for k, v in list(vars(mod).items()):
                if v is _math:
                    setattr(mod, k, MathProxy())
