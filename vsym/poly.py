"""Symbolic scalars: Laurent polynomials over atoms with exact rational
coefficients, and boolean terms over comparisons of them.

An atom is an input variable or an opaque node (ite, 1/p, sqrt p, f(p), ...).
Arithmetic on these terms is exact real arithmetic; the rounding of machine
floats is outside the model (stated in every evidence file).
"""
import math
from fractions import Fraction
from functools import lru_cache
import numpy as np

Number = (int, float, Fraction, np.integer, np.floating)


class EncodingError(Exception):
    """The encoder met something it cannot model (never a verdict)."""


# ---------------------------------------------------------------- constants
_snap_cache = {}


def snap(x):
    """Exact rational for a machine number.  Doubles that are the nearest
    double of a small rational or short decimal become that rational."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    r = _snap_cache.get(x)
    if r is not None:
        return r
    if not math.isfinite(x):
        raise EncodingError(f"non-finite constant {x}")
    ex = Fraction(x)
    if x == 0:
        r = Fraction(0)
    elif ex.denominator <= 4096:
        r = ex
    else:
        s = repr(x)
        mant = s.split('e')[0].replace('.', '').replace('-', '').strip('0')
        if len(mant) <= 11:
            r = Fraction(s)
        else:
            c = ex.limit_denominator(5000)
            if c != 0 and abs(float(c) - x) <= 4e-16 * abs(x):
                r = c
            else:
                r = ex
    _snap_cache[x] = r
    return r


# -------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'lo', 'hi', 'isint')

    def __init__(self, kind, name, args, lo=None, hi=None, isint=False):
        self.kind, self.name, self.args = kind, name, args
        self.lo, self.hi, self.isint = lo, hi, isint


ATOMS = []
_atom_index = {}
STATS = {'nonzero': {}}


def reset():
    ATOMS.clear()
    SOS.clear()
    _atom_index.clear()
    STATS['nonzero'].clear()
    _mul_mono.cache_clear()
    _ivcache.clear()


def new_atom(kind, name, args, key, lo=None, hi=None, isint=False):
    k = (kind, name, key)
    i = _atom_index.get(k)
    if i is None:
        i = len(ATOMS)
        a = Atom(kind, name, args, lo, hi, isint)
        a.id = i
        ATOMS.append(a)
        _atom_index[k] = i
    return i


@lru_cache(maxsize=1 << 18)
def _mul_mono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        ne = d.get(a, 0) + e
        if ne:
            d[a] = ne
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


MAX_TERMS = 20000
SOS = {}         # sqrt atom -> polynomials whose squares sum to its argument
ONE = ()


class Poly:
    __slots__ = ('t', '_k', '_r', 'sq', 'nn')

    def __init__(self, t):
        self.t = t
        self._k = None
        self.sq = None          # (x_1, x_2, ..) when this is x_1^2 + x_2^2 + ..
        self.nn = 0             # 1: non-negative (weighted sum of squares), -1: non-positive

    # -- construction
    @staticmethod
    def const(c):
        if isinstance(c, (float, np.floating)) and not math.isfinite(c):
            # inf / nan stand for themselves as special atoms
            nm = 'nan' if math.isnan(c) else 'inf'
            i = new_atom('special', nm, (), nm)
            return Poly({((i, 1),): Fraction(-1 if c < 0 else 1)})
        c = snap(c)
        return Poly({ONE: c} if c else {})

    @staticmethod
    def atom(i):
        return Poly({((i, 1),): Fraction(1)})

    # -- inspection
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def cval(self):
        return self.t.get(ONE, Fraction(0))

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        if not b:
            return self if a is self.t else o
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        r = Poly(r)
        if self.sq is not None and o.sq is not None:
            r.sq = self.sq + o.sq
        if self.nn and self.nn == o.nn:
            r.nn = self.nn
        return r

    __radd__ = __add__

    def __neg__(self):
        r = Poly({m: -c for m, c in self.t.items()})
        r.nn = -self.nn
        return r

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return (-self) + o

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) < len(b):
            a, b = b, a
        if len(b) == 1:
            (m2, c2), = b.items()
            if m2 == ONE:
                if c2 == 1:
                    return self if a is self.t else o
                r = Poly({m: c * c2 for m, c in a.items()})
                n = (self if a is self.t else o).nn
                if n:
                    r.nn = n if c2 > 0 else -n
                return r
        if len(a) * len(b) > MAX_TERMS * 50:
            raise EncodingError(f"polynomial product too large: {len(a)}x{len(b)}")
        r = {}
        need = False
        for m1, c1 in b.items():
            for m, c in a.items():
                mm = _mul_mono(m, m1)
                v = r.get(mm)
                r[mm] = c * c1 if v is None else v + c * c1
        r = {m: c for m, c in r.items() if c}
        if len(r) > MAX_TERMS:
            raise EncodingError(f"polynomial too large: {len(r)} terms")
        r = _reduce(r)
        if r.t and (a is b or (len(a) == len(b) and a == b)):
            if r.sq is None:
                r.sq = (self,)
            r.nn = 1
        return r

    __rmul__ = __mul__

    def inv(self):
        if FORK_DIV[0] and not self.is_const():
            # a denominator that counts conditions: one path per count
            p = self
            while True:
                fl = [a for a in p.atoms() if ATOMS[a].kind == 'flag']
                if not fl:
                    break
                c = ATOMS[fl[0]].args[0]
                v = DECIDE(c)
                cs = {c.key(): v}
                nb = bnot(c)
                if isinstance(nb, BoolTerm):
                    cs[nb.key()] = not v
                p = Subst(cs).poly(p)
            if p is not self:
                return p.inv()
        if self.is_const():
            c = self.cval()
            if c == 0:
                return Poly.const(float('nan'))     # undefined; harmless when never selected
            return Poly({ONE: 1 / c})
        if len(self.t) == 1:
            (m, c), = self.t.items()
            # c * prod(a^e)  ->  1/c prod(a^-e)
            r = Poly({ONE: 1 / c})
            for a, e in m:
                STATS['nonzero'].setdefault(a, True)
                at = ATOMS[a]
                if at.kind == 'sqrt':      # s^-1 = s * inv(p)
                    assert e == 1
                    r = r * Poly.atom(a) * at.args[0].inv()
                elif at.kind == 'inv':
                    r = r * (at.args[0] ** e if e > 0 else Poly({((a, -e),): Fraction(1)}))
                elif at.kind == 'fn' and at.name == 'exp':
                    r = r * apply_fn('exp', at.args[0] * (-e))
                else:
                    r = r * Poly({((a, -e),): Fraction(1)})
            return r
        # normalise the content: monic w.r.t. the smallest monomial key
        lead = self.t[min(self.t)]
        q = Poly({m: c / lead for m, c in self.t.items()})
        lo, hi = interval(q)
        i = new_atom('inv', 'inv', (q,), q.key())
        return Poly({((i, 1),): 1 / lead})

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not o.t:
            return o.inv()
        return self * o.inv()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o * self.inv()

    def __pow__(self, n):
        if isinstance(n, Poly):
            if n.is_const():
                n = n.cval()
            else:
                return apply_fn('exp', n * self.log())
        if isinstance(n, (float, np.floating)):
            n = snap(n)
        if isinstance(n, np.integer):
            n = int(n)
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if isinstance(n, int):
            if n < 0:
                return (self ** (-n)).inv()
            r, b = ONEP, self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if isinstance(n, Fraction):
            if n.denominator == 2:
                return self.sqrt() ** n.numerator
            # p^(a/b) = root_b(p)^a
            return self.root(n.denominator) ** n.numerator
        return NotImplemented

    def __rpow__(self, o):
        o = lift(o)
        return apply_fn('exp', self * o.log())

    # -- functions (numpy calls these on object arrays)
    def sqrt(self):
        if self.is_const():
            c = self.cval()
            if c < 0:
                raise EncodingError("sqrt of a negative constant")
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Poly.const(Fraction(n, d))
            return Poly.const(math.sqrt(c))
        if len(self.t) == 1:               # sqrt(c a^2k) = sqrt(c) |a|^k when the sign of a is known
            (m, c), = self.t.items()
            if c > 0 and m and all(e % 2 == 0 for _, e in m):
                out = Poly.const(c).sqrt()
                for at, e in m:
                    lo, hi = atom_interval(at)
                    p = Poly.atom(at)
                    if lo is not None and lo >= 0:
                        out = out * p ** (e // 2)
                    elif hi is not None and hi <= 0:
                        out = out * (-p) ** (e // 2)
                    else:
                        break
                else:
                    return out
        i = new_atom('sqrt', 'sqrt', (self,), self.key())
        if self.sq:
            SOS.setdefault(i, self.sq)
        return Poly.atom(i)

    def root(self, b):
        if self.is_const():
            return Poly.const(float(self.cval()) ** (1.0 / b))
        i = new_atom('root', 'root%d' % b, (self,), self.key())
        return Poly.atom(i)

    def cbrt(self):
        return self.root(3)

    def exp(self): return apply_fn('exp', self)
    def log(self): return apply_fn('log', self)
    def tanh(self): return apply_fn('tanh', self)
    def sin(self): return apply_fn('sin', self)
    def cos(self): return apply_fn('cos', self)
    def tan(self): return apply_fn('tan', self)
    def arctan(self): return apply_fn('arctan', self)
    def arccos(self): return apply_fn('arccos', self)
    def square(self): return self * self
    def conjugate(self): return self
    def reciprocal(self): return self.inv()

    def __abs__(self):
        return ite(self >= 0, self, -self)
    fabs = __abs__
    absolute = __abs__

    def __floordiv__(self, o):
        o = lift(o)
        return intop('idiv', self, o)

    def __rfloordiv__(self, o):
        return intop('idiv', lift(o), self)

    def __mod__(self, o):
        return intop('imod', self, lift(o))

    # -- comparisons
    def __lt__(self, o): return cmp('lt', self - o)
    def __le__(self, o): return cmp('le', self - o)
    def __gt__(self, o): return cmp('lt', lift(o) - self)
    def __ge__(self, o): return cmp('le', lift(o) - self)

    def __eq__(self, o):
        l = lift(o)
        if l is NotImplemented:
            return l
        return cmp('eq', self - l)

    def __ne__(self, o):
        l = lift(o)
        if l is NotImplemented:
            return l
        return ~cmp('eq', self - l)

    __hash__ = None

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        return CONCRETIZE(self, 'float')

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        return CONCRETIZE(self, 'int')

    def __index__(self):
        if self.is_const() and self.cval().denominator == 1:
            return int(self.cval())
        return CONCRETIZE(self, 'index')

    def __round__(self, nd=None):
        if self.is_const():
            return Poly.const(round(self.cval()))
        return apply_fn('floor', self + Fraction(1, 2))

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in list(self.t.items())[:12]:
            s = '*'.join((ATOMS[a].name + f'#{a}' if ATOMS[a].kind != 'var' else ATOMS[a].name)
                         + (f'^{e}' if e != 1 else '') for a, e in m)
            out.append(f'{float(c):.6g}' + ('*' + s if s else ''))
        if len(self.t) > 12:
            out.append(f'...({len(self.t)} terms)')
        return ' + '.join(out)

    def __format__(self, spec):
        return repr(self)


def CONCRETIZE(p, how):
    """An integer-valued term with few possible values: explore each on its own path."""
    if how in ('index', 'int') and p.t and all(c.denominator == 1 for c in p.t.values()) and all(ATOMS[a].isint for m in p.t for a, e in m) \
            and all(e > 0 for m in p.t for _, e in m):
        lo, hi = interval(p)
        if lo is not None and hi is not None and hi - lo <= 16:
            for v in range(int(math.ceil(lo)), int(math.floor(hi)) + 1):
                c = p == v
                if isinstance(c, (bool,)):
                    if c:
                        return v
                elif DECIDE(c):
                    return v
    raise EncodingError(f"cannot turn the symbolic value {p!r} into a machine {how}")


def _reduce(t):
    """Apply s^2 -> p for sqrt atoms, r^b -> p for b-th roots and
    inv(p)^k * stuff stays; var * var^-1 was merged by exponents."""
    for m in t:
        for a, e in m:
            k = ATOMS[a].kind
            if (k == 'sqrt' and (e >= 2 or e < 0)) or (k == 'root' and (e < 0 or e >= int(ATOMS[a].name[4:]))) \
                    or (k == 'fn' and ATOMS[a].name == 'exp' and e != 1) or (k == 'flag' and e > 1):
                return _reduce_slow(t)
    # merge several exp atoms in one monomial
    for m in t:
        n = 0
        for a, e in m:
            if ATOMS[a].kind == 'fn' and ATOMS[a].name == 'exp':
                n += 1
        if n > 1:
            return _reduce_slow(t)
    return Poly(t)


def _reduce_slow(t):
    r = ZERO
    for m, c in t.items():
        keep = []
        extra = None
        exparg = None
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'sqrt' and (e >= 2 or e < 0):
                q, rem = divmod(e, 2)
                f = at.args[0] ** q
                extra = f if extra is None else extra * f
                if rem:
                    keep.append((a, 1))
            elif at.kind == 'root' and (e < 0 or e >= int(at.name[4:])):
                q, rem = divmod(e, int(at.name[4:]))
                f = at.args[0] ** q
                extra = f if extra is None else extra * f
                if rem:
                    keep.append((a, rem))
            elif at.kind == 'fn' and at.name == 'exp':
                f = at.args[0] * e
                exparg = f if exparg is None else exparg + f
            elif at.kind == 'flag' and e > 1:
                keep.append((a, 1))
            else:
                keep.append((a, e))
        if exparg is not None:
            ep = apply_fn('exp', exparg)
            if ep.is_const():
                c = c * ep.cval()
            else:
                ((em, ec),) = ep.t.items()
                c = c * ec
                keep = list(_mul_mono(tuple(keep), em))
        p = Poly({tuple(keep): c})
        if extra is not None:
            p = p * extra
        r = r + p
    return r


ZERO = Poly({})
ONEP = Poly({ONE: Fraction(1)})


def lift(x):
    if type(x) is Poly:
        return x
    if isinstance(x, BoolTerm):
        return b2p(x)
    if isinstance(x, (bool, np.bool_)):
        return ONEP if x else ZERO
    if isinstance(x, Number):
        return Poly.const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return NotImplemented


def var(name, lo=None, hi=None, isint=False):
    i = new_atom('var', name, (), name,
                 None if lo is None else snap(lo), None if hi is None else snap(hi), isint)
    return Poly.atom(i)


FN_NUM = {
    'exp': math.exp, 'log': lambda x: math.log(x) if x > 0 else float('nan'), 'tanh': math.tanh,
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'arctan': math.atan,
    'arccos': lambda x: math.acos(max(-1., min(1., x))), 'arcsin': lambda x: math.asin(max(-1., min(1., x))),
    'floor': math.floor, 'cosh': math.cosh, 'sinh': math.sinh, 'erf': math.erf,
}


def apply_fn(name, p):
    p = lift(p)
    if p.is_const():
        c = p.cval()
        if name == 'exp' and c == 0:
            return ONEP
        if name == 'log' and c == 1:
            return ZERO
        if name in ('sin', 'tanh', 'arctan', 'tan', 'sinh') and c == 0:
            return ZERO
        if name == 'cos' and c == 0:
            return ONEP
        if name == 'floor':
            return Poly.const(math.floor(c))
        try:
            return Poly.const(FN_NUM[name](float(c)))
        except (OverflowError, ValueError) as e:
            if name == 'exp' and c < 0:
                return ZERO
            raise EncodingError(f"{name}({float(c)}): {e}")
    if name == 'tanh':
        lo, hi = interval(p)
        if lo is not None and lo > 40:
            return ONEP             # 1 - tanh is below the resolution of a double
        if hi is not None and hi < -40:
            return -ONEP
    if name in ('sin', 'cos') and any(ATOMS[a].kind in ('fn', 'ite') for a in p.atoms()):
        r = trig_of_arccos(name, p)
        if r is not None:
            return r
    i = new_atom('fn', name, (p,), p.key())
    return Poly.atom(i)


def _arccos_lin(p):
    """p = sum of +-arccos(x_i) + c  ->  ([(sign, x_i)], c) or None"""
    parts, c = [], Fraction(0)
    for m, k in p.t.items():
        if m == ONE:
            c = k
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fn' and ATOMS[m[0][0]].name == 'arccos' and abs(k) == 1:
            parts.append((int(k), ATOMS[m[0][0]].args[0]))
        else:
            return None
    return parts, c


def trig_of_arccos(name, p):
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'ite':
            c, a, b = ATOMS[m[0][0]].args
            if any(ATOMS[x].kind == 'fn' and ATOMS[x].name == 'arccos' for x in deep_atoms([a, b])):
                return ite(c, apply_fn(name, a), apply_fn(name, b))
            return None
    q = _arccos_lin(p)
    if q is None or len(q[0]) != 1:
        return None
    (s, x), c = q[0][0], float(q[1])
    for sh, co in ((0.0, 1), (math.pi, -1), (-math.pi, -1)):
        if abs(c - sh) < 1e-12:
            return x * co if name == 'cos' else (ONEP - x * x).sqrt() * (co * s)
    return None


def _cmp_arccos(op, p):
    """arccos is decreasing: turn comparisons of angles into comparisons of cosines"""
    q = _arccos_lin(p)
    if q is None or not 1 <= len(q[0]) <= 2:
        return None
    parts, c = q
    if len(parts) == 1:
        s, x = parts[0]
        b = -float(c) * s           # arccos(x) vs b
        if not 0 < b < math.pi:
            return None
        d = Poly.const(math.cos(b) if abs(b - math.pi / 2) > 1e-12 else 0) - x
        return cmp(op, d * s)
    (s, x), (t, y) = parts
    if s != t and abs(float(c)) < 1e-12:        # arccos x - arccos y
        return cmp(op, (y - x) * s)
    if s == t and abs(float(c) + s * math.pi) < 1e-12:      # arccos x + arccos y - pi
        return cmp(op, (-x - y) * s)
    return None


def intop(name, a, b):
    a, b = lift(a), lift(b)
    if a.is_const() and b.is_const() and b.cval() != 0:
        import operator
        q = a.cval() // b.cval()
        return Poly.const(q if name == 'idiv' else a.cval() - q * b.cval())
    i = new_atom('int', name, (a, b), (a.key(), b.key()), isint=True)
    return Poly.atom(i)


def uf(name, args, lo=None, hi=None):
    """Uninterpreted function applied to symbolic arguments."""
    args = tuple(lift(a) for a in args)
    i = new_atom('uf', name, args, tuple(a.key() for a in args), lo, hi)
    return Poly.atom(i)


# --------------------------------------------------------------- bool terms
class BoolTerm:
    __slots__ = ('op', 'args', '_k')
    __hash__ = None

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._k = None

    def key(self):
        if self._k is None:
            if self.op in ('lt', 'le', 'eq'):
                self._k = (self.op, self.args[0].key())
            elif self.op == 'var':
                self._k = ('var', self.args[0])
            else:
                self._k = (self.op,) + tuple(a.key() for a in self.args)
        return self._k

    def __bool__(self):
        return DECIDE(self)

    def __and__(self, o): return band(self, o)
    __rand__ = __and__
    def __or__(self, o): return bor(self, o)
    __ror__ = __or__
    def __invert__(self): return bnot(self)
    def logical_not(self): return bnot(self)
    def logical_and(self, o): return band(self, o)
    def logical_or(self, o): return bor(self, o)
    def __xor__(self, o): return bxor(self, o)
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else bnot(self)
        if isinstance(o, BoolTerm):
            return bnot(bxor(self, o))
        return b2p(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return bnot(r)

    def __add__(self, o): return b2p(self) + (b2p(o) if isinstance(o, BoolTerm) else o)
    __radd__ = __add__
    def __sub__(self, o): return b2p(self) - (b2p(o) if isinstance(o, BoolTerm) else o)
    def __rsub__(self, o): return o - b2p(self)
    def __mul__(self, o): return b2p(self) * (b2p(o) if isinstance(o, BoolTerm) else o)
    __rmul__ = __mul__

    def __repr__(self):
        return f"{self.op}({', '.join(map(repr, self.args))})"

    def __format__(self, s):
        return repr(self)


FORK_DIV = [False]      # set by a harness


def DECIDE(b):       # replaced by the path explorer
    raise EncodingError(f"control flow depends on the symbolic condition {b!r}")


TRUE = True
FALSE = False


def cmp(op, p):
    """p OP 0"""
    if p is NotImplemented:
        return NotImplemented
    if p.is_const():
        c = p.cval()
        return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op]
    lo, hi = interval(p)
    if op == 'lt':
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == 'le':
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    else:
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
    if any(ATOMS[a].kind == 'fn' and ATOMS[a].name == 'arccos' for a in p.atoms()):
        r = _cmp_arccos(op, p)
        if r is not None:
            return r
    # normalise scale
    lead = abs(p.t[min(p.t)])
    if lead != 1:
        p = Poly({m: c / lead for m, c in p.t.items()})
    if op == 'eq' and p.t[min(p.t)] < 0:
        p = -p
    return BoolTerm(op, (p,))


def band(a, b):
    if isinstance(a, (bool, np.bool_)):
        return b if a else False
    if isinstance(b, (bool, np.bool_)):
        return a if b else False
    if a.key() == b.key():
        return a
    return BoolTerm('and', (a, b))


def bor(a, b):
    if isinstance(a, (bool, np.bool_)):
        return True if a else b
    if isinstance(b, (bool, np.bool_)):
        return True if b else a
    if a.key() == b.key():
        return a
    return BoolTerm('or', (a, b))


def bnot(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':                    # not p<0  <=> -p<=0
        return BoolTerm('le', (-a.args[0],))
    if a.op == 'le':
        return BoolTerm('lt', (-a.args[0],))
    return BoolTerm('not', (a,))


def bxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


def bvar(name):
    return BoolTerm('var', (name,))


def b2p(b):
    if isinstance(b, (bool, np.bool_)):
        return ONEP if b else ZERO
    return ite(b, ONEP, ZERO)


def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(c, Poly):
        c = (c != 0)
        if isinstance(c, bool):
            return a if c else b
    if isinstance(a, (BoolTerm, bool, np.bool_)) and isinstance(b, (BoolTerm, bool, np.bool_)):
        return bor(band(c, a), band(bnot(c), b))
    a, b = lift(a), lift(b)
    if a.key() == b.key():
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.key() == ONEP.key() and b.key() == ZERO.key():
        i = new_atom('flag', 'flag', (c,), c.key())
        return Poly.atom(i)
    if a.key() == ZERO.key() and b.key() == ONEP.key():
        return ONEP - ite(c, ONEP, ZERO)
    i = new_atom('ite', 'ite', (c, a, b), (c.key(), a.key(), b.key()))
    return Poly.atom(i)


# ---------------------------------------------------------------- intervals
_ivcache = {}


def _imul(a, b):
    if a[0] is None and a[1] is None or b[0] is None and b[1] is None:
        return (None, None)
    if None in a or None in b:
        # only keep sign information
        def sgn(x):
            if x[0] is not None and x[0] >= 0:
                return 1
            if x[1] is not None and x[1] <= 0:
                return -1
            return 0
        s = sgn(a) * sgn(b)
        return (Fraction(0), None) if s > 0 else ((None, Fraction(0)) if s < 0 else (None, None))
    v = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return (min(v), max(v))


def _iadd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0],
            None if a[1] is None or b[1] is None else a[1] + b[1])


def _ipow(iv, e):
    if e < 0:
        lo, hi = _ipow(iv, -e)
        if lo is not None and lo > 0:
            return (Fraction(0) if hi is None else 1 / hi, 1 / lo)
        if hi is not None and hi < 0:
            return (1 / hi, Fraction(0) if lo is None else 1 / lo)
        if lo is not None and lo >= 0:
            return (Fraction(0), None)
        if hi is not None and hi <= 0:
            return (None, Fraction(0))
        return (None, None)
    lo, hi = iv
    if e % 2 == 0:
        if lo is None or hi is None:
            if lo is not None and lo >= 0:
                return (lo ** e, None)
            if hi is not None and hi <= 0:
                return (hi ** e, None)
            return (Fraction(0), None)
        if lo >= 0:
            return (lo ** e, hi ** e)
        if hi <= 0:
            return (hi ** e, lo ** e)
        return (Fraction(0), max(lo ** e, hi ** e))
    return (None if lo is None else lo ** e, None if hi is None else hi ** e)


def _fsqrt(x, up):
    if x is None:
        return None
    if x <= 0:
        return Fraction(0)
    s = Fraction(math.isqrt(int(x * 10 ** 40)), 10 ** 20)
    return s + Fraction(1, 10 ** 19) if up else s


def atom_interval(i):
    r = _ivcache.get(i)
    if r is not None:
        return r
    a = ATOMS[i]
    if a.kind in ('var', 'uf'):
        r = (a.lo, a.hi)
    elif a.kind == 'special':
        r = (Fraction(10) ** 30, None) if a.name == 'inf' else (None, None)
    elif a.kind == 'flag':
        r = (Fraction(0), Fraction(1))
    elif a.kind == 'ite':
        x, y = interval(a.args[1]), interval(a.args[2])
        r = (None if x[0] is None or y[0] is None else min(x[0], y[0]),
             None if x[1] is None or y[1] is None else max(x[1], y[1]))
    elif a.kind == 'inv':
        r = _ipow(interval(a.args[0]), -1)
    elif a.kind == 'sqrt':
        x = interval(a.args[0])
        r = (_fsqrt(x[0], False) if x[0] is not None else Fraction(0), _fsqrt(x[1], True))
    elif a.kind == 'root':
        b = int(a.name[4:])
        x = interval(a.args[0])
        def rt(v, up):
            if v is None:
                return None
            if v <= 0:
                return Fraction(0)
            f = Fraction(float(v) ** (1. / b))
            return f * (1 + Fraction(1, 10 ** 12)) if up else f * (1 - Fraction(1, 10 ** 12))
        r = (rt(x[0], False) if x[0] is not None else Fraction(0), rt(x[1], True))
    elif a.kind == 'fn':
        x = interval(a.args[0])
        if a.name == 'exp':
            def ex(v, up):
                if v is None or v > 200 or v < -600:
                    return None
                f = Fraction(math.exp(v))
                return f * (1 + Fraction(1, 10 ** 12)) if up else f * (1 - Fraction(1, 10 ** 12))
            lo, hi = ex(x[0], False), ex(x[1], True)
            r = (lo if lo is not None else Fraction(0), hi)
        elif a.name == 'tanh':
            r = (Fraction(-1), Fraction(1))
            if x[0] is not None and x[0] >= 0:
                r = (Fraction(0), Fraction(1))
            elif x[1] is not None and x[1] <= 0:
                r = (Fraction(-1), Fraction(0))
        elif a.name in ('sin', 'cos'):
            r = (Fraction(-1), Fraction(1))
        elif a.name == 'arctan':
            r = (Fraction(-1571, 1000), Fraction(1571, 1000))
        elif a.name == 'arccos':
            r = (Fraction(0), Fraction(31416, 10000))
        elif a.name == 'floor':
            r = (None if x[0] is None else Fraction(math.floor(x[0])),
                 None if x[1] is None else Fraction(math.floor(x[1])))
        else:
            r = (None, None)
    elif a.kind == 'int':
        x, y = interval(a.args[0]), a.args[1]
        r = (None, None)
        if y.is_const() and y.cval() > 0:
            n = y.cval()
            if a.name == 'imod':
                r = (Fraction(0), n - 1 if n.denominator == 1 else n)
            else:
                r = (None if x[0] is None else Fraction(x[0] // n), None if x[1] is None else Fraction(x[1] // n))
    else:
        r = (None, None)
    _ivcache[i] = r
    return r


def mono_interval(m):
    iv = (Fraction(1), Fraction(1))
    for a, e in m:
        iv = _imul(iv, _ipow(atom_interval(a), e))
        if iv == (None, None):
            return iv
    return iv


def interval(p):
    iv = (Fraction(0), Fraction(0))
    for m, c in p.t.items():
        x = mono_interval(m)
        x = _imul(x, (c, c)) if m else (c, c)
        iv = _iadd(iv, x)
        if iv == (None, None) and not p.nn:
            return iv
    if p.nn > 0 and (iv[0] is None or iv[0] < 0):
        iv = (Fraction(0), iv[1])
    elif p.nn < 0 and (iv[1] is None or iv[1] > 0):
        iv = (iv[0], Fraction(0))
    return iv


# --------------------------------------------------- evaluation/substitution
class Evaluator:
    """Evaluate terms at a point given as {var name: number}."""

    def __init__(self, env, ufs=None):
        self.env, self.c, self.b = env, {}, {}
        self.ufs = ufs

    def atom(self, i):
        v = self.c.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        if a.kind == 'var':
            v = self.env[a.name]
        elif a.kind == 'special':
            v = float(a.name)
        elif a.kind == 'ite':
            v = self.poly(a.args[1]) if self.bool(a.args[0]) else self.poly(a.args[2])
        elif a.kind == 'flag':
            v = 1.0 if self.bool(a.args[0]) else 0.0
        elif a.kind == 'inv':
            d = self.poly(a.args[0])
            v = 1.0 / d if d != 0 else float('nan')
        elif a.kind == 'sqrt':
            d = self.poly(a.args[0])
            v = math.sqrt(d) if d >= 0 else (0.0 if d > -1e-9 else float('nan'))
        elif a.kind == 'root':
            d = self.poly(a.args[0])
            v = d ** (1.0 / int(a.name[4:])) if d >= 0 else float('nan')
        elif a.kind == 'fn':
            try:
                v = FN_NUM[a.name](self.poly(a.args[0]))
            except OverflowError:
                v = float('inf')
        elif a.kind == 'int':
            x, y = self.poly(a.args[0]), self.poly(a.args[1])
            v = float(x // y) if a.name == 'idiv' else float(x % y)
        elif a.kind == 'uf':
            v = self.ufs(a.name, [self.poly(x) for x in a.args]) if self.ufs else float('nan')
        else:
            raise EncodingError(a.kind)
        self.c[i] = v
        return v

    def poly(self, p):
        if isinstance(p, (bool, np.bool_, BoolTerm)):
            return 1.0 if self.bool(p) else 0.0
        if not isinstance(p, Poly):
            return float(p)
        s = 0.0
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:
                x = self.atom(a)
                if e < 0 and x == 0:
                    v = float('nan')
                    break
                v *= x ** e
            s += v
        return s

    def bool(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        k = b.key()
        r = self.b.get(k)
        if r is not None:
            return r
        if b.op == 'and':
            r = self.bool(b.args[0]) and self.bool(b.args[1])
        elif b.op == 'or':
            r = self.bool(b.args[0]) or self.bool(b.args[1])
        elif b.op == 'not':
            r = not self.bool(b.args[0])
        elif b.op == 'var':
            r = bool(self.env[b.args[0]])
        else:
            v = self.poly(b.args[0])
            r = {'lt': v < 0, 'le': v <= 0, 'eq': abs(v) <= 1e-12}[b.op]
        self.b[k] = r
        return r


class Subst:
    """Rebuild terms under decided conditions {bool key: True/False} and
    variable replacements {var name: Poly}."""

    def __init__(self, conds=None, varmap=None, atommap=None):
        self.conds, self.vars, self.am = conds or {}, varmap or {}, atommap or {}
        self.c, self.bc = {}, {}

    def atom(self, i):
        r = self.c.get(i)
        if r is not None:
            return r
        a = ATOMS[i]
        if i in self.am:
            r = self.am[i]
        elif a.kind == 'var':
            r = self.vars.get(a.name)
            if r is None:
                r = Poly.atom(i)
        elif a.kind == 'ite':
            c = self.bool(a.args[0])
            if isinstance(c, bool):
                r = self.poly(a.args[1] if c else a.args[2])
            else:
                r = ite(c, self.poly(a.args[1]), self.poly(a.args[2]))
        elif a.kind == 'flag':
            r = b2p(self.bool(a.args[0]))
        elif a.kind == 'special':
            r = Poly.atom(i)
        else:
            na = [self.poly(x) for x in a.args]
            if all(x.key() == y.key() for x, y in zip(na, a.args)):
                r = Poly.atom(i)
            elif a.kind == 'inv':
                r = na[0].inv()
            elif a.kind == 'sqrt':
                r = na[0].sqrt()
            elif a.kind == 'root':
                r = na[0].root(int(a.name[4:]))
            elif a.kind == 'fn':
                r = apply_fn(a.name, na[0])
            elif a.kind == 'int':
                r = intop(a.name, *na)
            elif a.kind == 'uf':
                r = uf(a.name, na, a.lo, a.hi)
            else:
                raise EncodingError(a.kind)
        self.c[i] = r
        return r

    def poly(self, p):
        p = lift(p)
        same = True
        for a in p.atoms():
            x = self.atom(a)
            if not (len(x.t) == 1 and next(iter(x.t.items())) == (((a, 1),), 1)):
                same = False
        if same:
            return p
        r = ZERO
        plain = {}
        for m, c in p.t.items():
            q = None
            rest = []
            for a, e in m:
                x = self.atom(a)
                if len(x.t) == 1 and next(iter(x.t.items())) == (((a, 1),), 1):
                    rest.append((a, e))
                else:
                    f = x ** e
                    q = f if q is None else q * f
            if q is None:
                plain[m] = c
            else:
                r = r + Poly({tuple(rest): c}) * q
        return r + Poly(plain)

    def bool(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        k = b.key()
        if k in self.conds:
            return self.conds[k]
        r = self.bc.get(k)
        if r is None:
            if b.op == 'and':
                x = self.bool(b.args[0])
                r = False if x is False else band(x, self.bool(b.args[1]))
            elif b.op == 'or':
                x = self.bool(b.args[0])
                r = True if x is True else bor(x, self.bool(b.args[1]))
            elif b.op == 'not':
                r = bnot(self.bool(b.args[0]))
            elif b.op == 'var':
                r = b
            else:
                nk = bnot(b)
                if isinstance(nk, BoolTerm) and nk.key() in self.conds:
                    r = not self.conds[nk.key()]
                else:
                    r = cmp(b.op, self.poly(b.args[0]))
                    if isinstance(r, BoolTerm) and r.key() in self.conds:
                        r = self.conds[r.key()]
            self.bc[k] = r
        return r


def deep_atoms(terms):
    """All atoms reachable from the given polys / bools, in id order."""
    seen = set()
    stack = list(terms)
    seenb = set()
    while stack:
        x = stack.pop()
        if isinstance(x, BoolTerm):
            k = id(x)
            if k in seenb:
                continue
            seenb.add(k)
            if x.op != 'var':
                stack.extend(x.args)
        elif isinstance(x, Poly):
            for a in x.atoms():
                if a not in seen:
                    seen.add(a)
                    stack.extend(ATOMS[a].args)
    return sorted(seen)


def bool_vars(terms):
    out, stack, seen = set(), list(terms), set()
    sa = set()
    while stack:
        x = stack.pop()
        if isinstance(x, BoolTerm):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.op == 'var':
                out.add(x.args[0])
            else:
                stack.extend(x.args)
        elif isinstance(x, Poly):
            for a in x.atoms():
                if a not in sa:
                    sa.add(a)
                    stack.extend(ATOMS[a].args)
    return out
