"""Exact symbolic reals / complexes used to execute legume symbolically.

R : a real value kept as  c * prod_i f_i**p_i   (c Fraction, p_i in Z, f_i an
    interned polynomial factor: a solver variable or a sum of such products).
S : a complex scalar (re, im) of R, with the full Python arithmetic protocol, so
    it can live inside numpy object arrays.
B : a symbolic boolean.  bool(B) asks the World which way to go (path forking).

Every factor carries a vector of float samples (values of the factor at K random
points of the input domain).  Samples only *guide* (which side of a branch is
feasible without asking the solver, which counterexample to try first, which
atom an argument might coincide with); every such guess is confirmed by the solver.
"""
from fractions import Fraction
import math
import numbers
import numpy as np
import z3

K = 48
TINY = 1e-9


class Unsupported(BaseException):
    """The engine cannot encode this operation."""


class PathAbort(BaseException):
    """Steers path exploration (never caught by code under test)."""


def nice(x):
    """float -> the rational it stands for (reals model of floats)."""
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        return None
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x))
    q = Fraction(x).limit_denominator(5000)
    if abs(float(q) - x) <= 4e-16 * abs(x):
        return q
    return Fraction(repr(x))


W = None      # the current World


def world():
    return W


def set_world(w):
    global W
    W = w


class R:
    __slots__ = ('c', 'f', '_v')

    def __init__(self, c, f=()):
        self.c = c
        self.f = f if c != 0 else ()
        self._v = None

    # ---- inspection
    def is_const(self):
        return not self.f

    @property
    def v(self):
        if self._v is None:
            if not self.f:
                self._v = np.full(K, float(self.c))
            else:
                with np.errstate(all='ignore'):
                    r = np.full(K, float(self.c))
                    for i, p in self.f:
                        s = W.fsample(i)
                        r = r * (s if p == 1 else s ** p if p > 0 else 1.0 / s ** (-p))
                self._v = r
        return self._v

    # ---- algebra
    def __mul__(self, o):
        if self.c == 0 or o.c == 0:
            return ZERO
        if not o.f:
            return R(self.c * o.c, self.f) if o.c != 1 else self
        if not self.f:
            return R(self.c * o.c, o.f) if self.c != 1 else o
        d = dict(self.f)
        for i, p in o.f:
            q = d.get(i, 0) + p
            if q:
                d[i] = q
            else:
                d.pop(i, None)
        return W.mk_mono(self.c * o.c, d)

    def neg(self):
        return R(-self.c, self.f)

    def inv(self):
        if self.c == 0:
            raise ZeroDivisionError
        return R(1 / self.c, tuple((i, -p) for i, p in self.f))

    def __add__(self, o):
        if self.c == 0:
            return o
        if o.c == 0:
            return self
        if self.f == o.f:
            return R(self.c + o.c, self.f)
        return W.add_terms([(self.c, self.f), (o.c, o.f)])

    def __sub__(self, o):
        return self + o.neg()

    def key(self):
        return (self.c, self.f)


ZERO = R(Fraction(0))
ONE = R(Fraction(1))


def rconst(x):
    q = nice(x)
    if q is None:
        return None
    return R(q)


# --------------------------------------------------------------------- complex
class S:
    __slots__ = ('re', 'im', 'nan', 'off')

    def __init__(self, re, im=ZERO, nan=False, off=0.0):
        self.re = re
        self.im = im
        self.nan = nan
        self.off = off      # dropped tiny offset: only breaks ties in comparisons

    # numpy scalar duck typing
    shape = ()
    ndim = 0
    size = 1
    @property
    def real(self):
        return S(self.re, ZERO, self.nan)
    @property
    def imag(self):
        return S(self.im, ZERO, self.nan)
    @property
    def T(self):
        return self
    @property
    def dtype(self):
        return np.dtype(object)
    def copy(self):
        return self
    def item(self):
        return self
    def tolist(self):
        return self
    def astype(self, *_a, **_k):
        return self
    def ravel(self):
        a = np.empty(1, dtype=object); a[0] = self
        return a
    flatten = ravel
    def __copy__(self):
        return self
    def __deepcopy__(self, memo):
        return self
    def round(self, n=0):
        return sround(self, n)
    def __round__(self, n=0):
        return sround(self, n or 0)
    def conjugate(self):
        return S(self.re, self.im.neg(), self.nan)
    conj = conjugate
    def squeeze(self):
        return self

    def is_const(self):
        return self.re.is_const() and self.im.is_const()

    def is_real(self):
        return self.im.c == 0

    def cval(self):
        return complex(float(self.re.c), float(self.im.c))

    @property
    def v(self):
        return self.re.v + 1j * self.im.v

    # ---- coercion
    @staticmethod
    def of(x):
        if isinstance(x, S):
            return x
        if isinstance(x, (bool, np.bool_)):
            return S(R(Fraction(int(x))))
        if isinstance(x, (int, np.integer, Fraction)):
            return S(R(Fraction(x if isinstance(x, Fraction) else int(x))))
        if isinstance(x, (float, np.floating)):
            q = nice(x)
            return NAN if q is None else S(R(q))
        if isinstance(x, (complex, np.complexfloating)):
            a, b = nice(x.real), nice(x.imag)
            return NAN if a is None or b is None else S(R(a), R(b))
        if isinstance(x, B):
            return S(ONE) if bool(x) else S(ZERO)
        if isinstance(x, np.ndarray) and x.shape == ():
            return S.of(x.item())
        return None

    def _bin(self, o):
        if isinstance(o, np.ndarray):
            return None
        return S.of(o)

    def _drop_tiny(self, other_raw, me):
        """x + 1e-20 style regularisers are dropped (stated assumption)."""
        if isinstance(other_raw, (float, complex, np.floating, np.complexfloating)) \
                and 0 < abs(other_raw) <= TINY and not me.is_const():
            W.note('regulariser', repr(other_raw))
            return True
        if isinstance(other_raw, S) and not me.is_const() and other_raw.is_const() \
                and 0 < abs(other_raw.cval()) <= TINY:
            W.note('regulariser', repr(other_raw.cval()))
            return True
        return False

    def _shift(self, t, sgn=1):
        t = t.cval() if isinstance(t, S) else complex(t)
        return S(self.re, self.im, self.nan, self.off + sgn * t.real)

    def __add__(self, o):
        s = self._bin(o)
        if s is None:
            return NotImplemented
        if self.nan or s.nan:
            return NAN
        if self._drop_tiny(o, self):
            return self._shift(o)
        if isinstance(o, S) and s._drop_tiny(self, s):
            return s._shift(self)
        if self.re.c == 0 and self.im.c == 0 and isinstance(o, (float, np.floating)) and 0 < abs(o) <= TINY:
            return S(W.eps_power(o))
        return S(self.re + s.re, self.im + s.im)
    __radd__ = __add__

    def __neg__(self):
        return S(self.re.neg(), self.im.neg(), self.nan)

    def __pos__(self):
        return self

    def __sub__(self, o):
        s = self._bin(o)
        if s is None:
            return NotImplemented
        if self.nan or s.nan:
            return NAN
        if self._drop_tiny(o, self):
            return self._shift(o, -1)
        if self.re.c == 0 and self.im.c == 0 and isinstance(o, (float, np.floating)) and 0 < abs(o) <= TINY:
            return S(W.eps_power(o).neg())
        return S(self.re - s.re, self.im - s.im)

    def __rsub__(self, o):
        s = self._bin(o)
        if s is None:
            return NotImplemented
        return s - self

    def __mul__(self, o):
        s = self._bin(o)
        if s is None:
            return NotImplemented
        if self.nan or s.nan:
            return NAN
        a, b, c, d = self.re, self.im, s.re, s.im
        if b.c == 0 and d.c == 0:
            return S(a * c)
        if b.c == 0:
            return S(a * c, a * d)
        if d.c == 0:
            return S(a * c, b * c)
        return S(a * c - b * d, a * d + b * c)
    __rmul__ = __mul__

    def recip(self):
        if self.nan:
            return NAN
        a, b = self.re, self.im
        if b.c == 0:
            if a.c == 0 or not W.may_divide(a):
                W.note('division_by_zero', '')
                return NAN
            return S(a.inv())
        if a.c == 0:
            if not W.may_divide(b):
                W.note('division_by_zero', '')
                return NAN
            return S(ZERO, b.inv().neg())
        d = a * a + b * b
        if not W.may_divide(d):
            W.note('division_by_zero', '')
            return NAN
        di = d.inv()
        return S(a * di, (b * di).neg())

    def __truediv__(self, o):
        s = self._bin(o)
        if s is None:
            return NotImplemented
        if self.nan or s.nan:
            return NAN
        return self * s.recip()

    def __rtruediv__(self, o):
        s = self._bin(o)
        if s is None:
            return NotImplemented
        return s.__truediv__(self)

    def __pow__(self, o):
        s = self._bin(o)
        if s is None:
            return NotImplemented
        if not s.is_const() or s.im.c != 0:
            raise Unsupported('symbolic exponent')
        return spow(self, s.re.c)

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    def __abs__(self):
        return sabs(self)

    def __mod__(self, o):
        s = self._bin(o)
        if s is None:
            return NotImplemented
        return smod(self, s)

    def __rmod__(self, o):
        s = self._bin(o)
        if s is None:
            return NotImplemented
        return smod(s, self)

    def __floordiv__(self, o):
        return sfloor(self / o)

    def __rfloordiv__(self, o):
        return sfloor(o / self)

    # ---- comparisons
    def _absorbed(self, s):
        """sign of a literal of regulariser size that the difference self - s drops (0: none)"""
        for a, b, sg in ((self, s, -1), (s, self, 1)):
            if b.is_const() and b.re.c and not b.im.c and abs(b.re.c) <= 1e-9 and a.is_real() and not a.re.is_const():
                if (a.re - b.re).key() == a.re.key():
                    return sg if b.re.c > 0 else -sg
        return 0

    def _cmp(self, o, op):
        s = self._bin(o)
        if s is None:
            return NotImplemented
        if self.nan or s.nan:
            return False
        off = self.off - s.off
        if not off and op not in ('eq', 'ne'):
            off = self._absorbed(s)
        if off:
            # a dropped regulariser decides ties
            if op in ('eq', 'ne'):
                return op == 'ne'
            op = {('gt', True): 'ge', ('ge', False): 'gt', ('lt', False): 'le', ('le', True): 'lt'}.get((op, off > 0), op)
        if op == 'eq' or op == 'ne':
            b1 = W.cmp0(self.re - s.re, 'eq')
            b2 = W.cmp0(self.im - s.im, 'eq')
            r = b_and(b1, b2)
            return r if op == 'eq' else b_not(r)
        # order: numpy compares complex lexicographically
        if not (self.is_real() and s.is_real()):
            d = self.im - s.im
            if d.c != 0:
                e = self.re - s.re
                return b_or(W.cmp0(e, op[0] + 't'), b_and(W.cmp0(e, 'eq'), W.cmp0(d, op)))
        return W.cmp0(self.re - s.re, op)

    def __lt__(self, o):
        return self._cmp(o, 'lt')
    def __le__(self, o):
        return self._cmp(o, 'le')
    def __gt__(self, o):
        return self._cmp(o, 'gt')
    def __ge__(self, o):
        return self._cmp(o, 'ge')
    def __eq__(self, o):
        return self._cmp(o, 'eq')
    def __ne__(self, o):
        return self._cmp(o, 'ne')
    def __hash__(self):
        if self.is_const():
            return hash((self.re.c, self.im.c))
        return hash((self.re.key(), self.im.key()))

    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def __float__(self):
        if self.is_const() and self.im.c == 0:
            return float(self.re.c)
        raise Unsupported('float() of a symbolic value outside the shim')

    def __complex__(self):
        if self.is_const():
            return self.cval()
        raise Unsupported('complex() of a symbolic value outside the shim')

    def __int__(self):
        return W.to_int(self)

    def __index__(self):
        if self.is_const() and self.im.c == 0 and self.re.c.denominator == 1:
            return int(self.re.c)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __trunc__(self):
        return W.to_int(self)

    def __repr__(self):
        try:
            if self.nan:
                return '<nan>'
            if self.is_const():
                return '<%s>' % (self.cval() if self.im.c != 0 else float(self.re.c))
            return '<S~%.6g%+.6gj>' % (self.re.v[0], self.im.v[0])
        except Exception:
            return '<S>'

    def __format__(self, spec):
        if not self.nan and self.is_const():
            return format(self.cval() if self.im.c != 0 else float(self.re.c), spec)
        return repr(self)

    # numpy object-loop unary methods
    def sqrt(self):
        return ssqrt(self)
    def exp(self):
        return sexp(self)
    def sin(self):
        return ssincos(self)[0]
    def cos(self):
        return ssincos(self)[1]
    def tan(self):
        s, c = ssincos(self)
        return s / c
    def square(self):
        return self * self
    def floor(self):
        return sfloor(self)
    def ceil(self):
        return -sfloor(-self)
    def rint(self):
        return sround(self, 0)


NAN = S(ZERO, ZERO, True)
S0 = S(ZERO)
S1 = S(ONE)
SI = S(ZERO, ONE)


# --------------------------------------------------------------------- booleans
class B:
    """symbolic boolean: z3 formula + sample mask (np bool array)"""
    __slots__ = ('z', 'm')

    def __init__(self, z, m):
        self.z = z
        self.m = m

    def __bool__(self):
        return W.branch(self)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)


def b_not(a):
    if isinstance(a, B):
        return B(z3.Not(a.z), ~a.m)
    return not a


def b_and(a, b):
    if not isinstance(a, B):
        return b if a else False
    if not isinstance(b, B):
        return a if b else False
    return B(z3.And(a.z, b.z), a.m & b.m)


def b_or(a, b):
    if not isinstance(a, B):
        return True if a else b
    if not isinstance(b, B):
        return True if b else a
    return B(z3.Or(a.z, b.z), a.m | b.m)


# --------------------------------------------------------------------- functions
def spow(x, q):
    if x.nan:
        return NAN
    if q.denominator == 1:
        n = int(q)
        if n == 0:
            return S1
        neg = n < 0
        n = abs(n)
        if x.is_real():
            if neg and (x.re.c == 0 or not W.may_divide(x.re)):
                return NAN
            d = x.re
            c = d.c ** n
            r = R(c, tuple((i, p * n) for i, p in d.f))
            return S(r.inv() if neg else r)
        r = None
        base = x
        while n:
            if n & 1:
                r = base if r is None else r * base
            n >>= 1
            if n:
                base = base * base
        return r.recip() if neg else r
    if q.denominator == 2:
        r = ssqrt(x)
        return spow(r, Fraction(q.numerator))
    raise Unsupported('fractional power')


def sabs(x):
    if x.nan:
        return NAN
    if x.is_real():
        if x.is_const():
            return S(R(abs(x.re.c)))
        return x if W.sign_nonneg(x.re) else -x
    if x.re.c == 0:
        return sabs(S(x.im))
    a = x.re * x.re + x.im * x.im
    return S(W.real_sqrt(a)) if W.rsize(a) > 150 else ssqrt(S(a))


def ssqrt(x):
    if x.nan:
        return NAN
    if x.is_real():
        a = x.re
        if a.c == 0:
            return S0
        if W.sign_nonneg(a):
            return S(W.real_sqrt(a))
        # numpy: sqrt of negative real array is nan; of a complex one is +i*sqrt(-x)
        return S(ZERO, W.real_sqrt(a.neg()))
    return W.complex_sqrt(x)


def sexp(x):
    if x.nan:
        return NAN
    a, b = x.re, x.im
    mag = W.real_exp(a) if a.c != 0 else ONE
    if b.c == 0:
        return S(mag)
    s, c = W.sincos(b)
    return S(mag * c, mag * s)


def ssincos(x):
    if x.nan:
        return NAN, NAN
    if x.is_real():
        s, c = W.sincos(x.re)
        return S(s), S(c)
    e1 = sexp(x * SI)
    e2 = sexp(-(x * SI))
    return (e1 - e2) / S(ZERO, R(Fraction(2))), (e1 + e2) / 2


def sfloor(x):
    if x.nan:
        return NAN
    if x.is_const():
        return S(R(Fraction(math.floor(x.re.c))))
    return S(R(Fraction(W.floor_int(x.re))))


def sround(x, n=0):
    if x.nan:
        return NAN
    n = int(n)
    if x.is_const():
        if n >= 8:
            return x
        def r1(q):
            s = Fraction(10) ** n
            return Fraction(round(q * s)) / s
        return S(R(r1(x.re.c)), R(r1(x.im.c)))
    if n >= 4:
        W.note('rounding', 'round(x,%d) read as x' % n)
        return x
    if n == 0 and x.is_real():
        return S(R(Fraction(W.floor_int(x.re + R(Fraction(1, 2))))))
    raise Unsupported('round of symbolic value to %d digits' % n)


def smod(x, m):
    if x.nan or m.nan:
        return NAN
    if x.is_const() and m.is_const() and x.is_real():
        return S(R(x.re.c % m.re.c))
    return x - m * sfloor(x / m)
