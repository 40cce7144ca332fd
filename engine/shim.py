"""numpy / scipy stand-ins operating on object arrays of symbolic scalars."""
import builtins
import types
from fractions import Fraction
import numpy as np
from . import terms as T
from .terms import S, B, R, ZERO, Unsupported

OBJ = np.dtype(object)


def _isf(dt):
    if dt is None:
        return False
    if dt in (float, complex, FloatT, ComplexT):
        return True
    try:
        return np.dtype(dt).kind in 'fc'
    except TypeError:
        return False


def _isint(dt):
    if dt is None:
        return False
    if dt is IntT or dt is int or dt is NpIntT:
        return True
    try:
        return np.dtype(dt).kind in 'iu'
    except TypeError:
        return False


def _isbool(dt):
    return dt in (bool, np.bool_) or dt == 'bool'


def lift(x):
    """floats -> object arrays of S (ints / bools stay concrete)"""
    if isinstance(x, S):
        return x
    if isinstance(x, B):
        return bool(x)
    if isinstance(x, (float, complex, np.floating, np.complexfloating)):
        return S.of(x)
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fc':
            out = np.empty(x.shape, dtype=object)
            fo, fx = out.reshape(-1), x.reshape(-1)
            for i in range(fx.size):
                fo[i] = S.of(fx[i])
            return out.reshape(x.shape)
        if x.dtype == OBJ:
            return norm(x)
        return x
    return x


def norm(a):
    """every element of an object array becomes an S"""
    f = a.reshape(-1)
    bad = False
    for e in f:
        if not isinstance(e, S):
            bad = True
            break
    if not bad:
        return a
    out = np.empty(a.shape, dtype=object)
    fo = out.reshape(-1)
    for i, e in enumerate(f):
        s = S.of(e) if not isinstance(e, S) else e
        fo[i] = e if s is None else s
    return out.reshape(a.shape)


def has_sym(x):
    if isinstance(x, (S, B)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == OBJ
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def _has_float(x):
    if isinstance(x, (float, complex, np.floating, np.complexfloating)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'fc'
    if isinstance(x, (list, tuple)):
        return any(_has_float(y) for y in x)
    return False


def unwrap0(a):
    if isinstance(a, np.ndarray) and a.shape == () and a.dtype == OBJ:
        return a.item()
    return a


def emap(fn):
    def g(x, *a, **k):
        out_kw = k.pop('out', None)
        k.pop('where', None); k.pop('dtype', None); k.pop('casting', None)
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, B):
            x = S.of(x)
        if isinstance(x, S) or np.isscalar(x):
            return fn(S.of(x), *a)
        x = np.asarray(x)
        out = np.empty(x.shape, dtype=object)
        fo, fx = out.reshape(-1), x.reshape(-1)
        for i in range(fx.size):
            fo[i] = fn(S.of(fx[i]), *a)
        out = out.reshape(x.shape)
        if out_kw is not None:
            out_kw[...] = out
            return out_kw
        return unwrap0(out)
    return g


# --------------------------------------------------------------- constructors
def array(obj, dtype=None, copy=True, ndmin=0, order=None, subok=False, **kw):
    if _isbool(dtype):
        a = np.array(obj, dtype=object)
        return np.array([bool(e) for e in a.reshape(-1)], dtype=bool).reshape(a.shape)
    if _isint(dtype):
        if has_sym(obj):
            a = np.array(obj, dtype=object)
            return np.array([toint(e) for e in a.reshape(-1)], dtype=int).reshape(a.shape)
        return np.array(obj, dtype=int, ndmin=ndmin)
    if has_sym(obj) or _has_float(obj) or _isf(dtype):
        if isinstance(obj, np.ndarray):
            a = obj.astype(object) if obj.dtype != OBJ else obj.copy()
        else:
            a = np.array(obj, dtype=object, ndmin=ndmin)
        if ndmin and a.ndim < ndmin:
            a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
        return lift_obj(a)
    a = np.array(obj, dtype=dtype, ndmin=ndmin)
    return a


def lift_obj(a):
    if a.dtype != OBJ:
        return lift(a)
    # do not touch arrays holding non-numbers
    return norm(a)


def asarray(obj, dtype=None, order=None, **kw):
    if isinstance(obj, np.ndarray) and dtype is None:
        return lift(obj) if obj.dtype.kind in 'fc' else obj
    return array(obj, dtype=dtype)


def _fill(shape, val):
    out = np.empty(shape, dtype=object)
    out.reshape(-1)[:] = [val] * out.size if out.size else []
    f = out.reshape(-1)
    for i in range(f.size):
        f[i] = val
    return out


def zeros(shape, dtype=float, order='C', **k):
    if dtype is None or _isf(dtype) or dtype is object:
        return _fill(toshape(shape), T.S0)
    return np.zeros(toshape(shape), dtype=int if _isint(dtype) else dtype)


def ones(shape, dtype=None, order='C', **k):
    if dtype is None or _isf(dtype) or dtype is object:
        return _fill(toshape(shape), T.S1)
    return np.ones(toshape(shape), dtype=int if _isint(dtype) else dtype)


def empty(shape, dtype=float, order='C', **k):
    if dtype is None or _isf(dtype) or dtype is object:
        return _fill(toshape(shape), T.NAN)
    return np.zeros(toshape(shape), dtype=int if _isint(dtype) else dtype)


def full(shape, fill, dtype=None, **k):
    if dtype is None and not has_sym(fill) and not _has_float(fill):
        return np.full(toshape(shape), fill)
    if _isint(dtype) or _isbool(dtype):
        return np.full(toshape(shape), toint(fill) if _isint(dtype) else bool(fill))
    fill = lift(fill) if isinstance(fill, np.ndarray) else S.of(fill)
    out = np.empty(toshape(shape), dtype=object)
    out[...] = fill
    return out


def toshape(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(_idx(s) for s in shape)
    if isinstance(shape, np.ndarray):
        return tuple(_idx(s) for s in shape)
    return _idx(shape)


def _idx(s):
    if isinstance(s, S):
        return s.__index__()
    if isinstance(s, np.integer):
        return int(s)
    return s


def zeros_like(a, dtype=None, **k):
    if dtype is None:
        dtype = float if (np.asarray(a).dtype == OBJ) else np.asarray(a).dtype
    return zeros(np.shape(a), dtype)


def ones_like(a, dtype=None, **k):
    if dtype is None:
        dtype = float if (np.asarray(a).dtype == OBJ) else np.asarray(a).dtype
    return ones(np.shape(a), dtype)


def empty_like(a, dtype=None, **k):
    if dtype is None:
        dtype = float if (np.asarray(a).dtype == OBJ) else np.asarray(a).dtype
    return empty(np.shape(a), dtype)


def full_like(a, fill, dtype=None, **k):
    if dtype is None and np.asarray(a).dtype == OBJ:
        dtype = float
    return full(np.shape(a), fill, dtype)


def eye(N, M=None, k=0, dtype=float, **kw):
    a = np.eye(_idx(N), M if M is None else _idx(M), k, dtype=int)
    if _isint(dtype) or _isbool(dtype):
        return a
    return lift(a.astype(float))


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = _idx(num)
    div = (num - 1) if endpoint else num
    start = lift(start) if isinstance(start, np.ndarray) else S.of(start)
    stop = lift(stop) if isinstance(stop, np.ndarray) else S.of(stop)
    delta = stop - start
    step = delta * S(R(Fraction(1, div))) if div > 0 else T.NAN
    vals = []
    for i in range(num):
        if div > 0:
            if endpoint and i == num - 1:
                vals.append(stop)
            else:
                vals.append(start + delta * S(R(Fraction(i, div))))
        else:
            vals.append(start)
    if isinstance(start, np.ndarray) or isinstance(stop, np.ndarray):
        out = np.array(vals, dtype=object)
    else:
        out = np.empty(num, dtype=object)
        for i, v in enumerate(vals):
            out[i] = v
    return (out, step) if retstep else out


def arange(*args, dtype=None, **k):
    if not any(has_sym(a) or _has_float(a) for a in args):
        a = np.arange(*args)
        return lift(a.astype(float)) if _isf(dtype) else a
    if len(args) == 1:
        lo, hi, st = S.of(0), S.of(args[0]), S.of(1)
    elif len(args) == 2:
        lo, hi, st = S.of(args[0]), S.of(args[1]), S.of(1)
    else:
        lo, hi, st = map(S.of, args[:3])
    n = -T.sfloor(-((hi - lo) / st))
    n = max(0, toint(n))
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = lo + st * i
    return out


def toint(x):
    if isinstance(x, S):
        return T.world().to_int(x)
    if isinstance(x, B):
        return int(bool(x))
    return int(x)


def _int_(x=0, *a, **k):
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        x = np.asarray(x)
        if x.dtype == OBJ:
            return np.array([toint(e) for e in x.reshape(-1)], dtype=int).reshape(x.shape)
        return x.astype(int)
    return toint(x) if has_sym(x) else np.int_(x)


# --------------------------------------------------------------- unary
sqrt = emap(lambda x: T.ssqrt(x))
exp = emap(T.sexp)
sin = emap(lambda x: T.ssincos(x)[0])
cos = emap(lambda x: T.ssincos(x)[1])


def _tan(x):
    s, c = T.ssincos(x)
    return s / c


def _tanh(x):
    e = T.sexp(x)
    f = T.sexp(-x)
    return (e - f) / (e + f)


tan = emap(_tan)
tanh = emap(_tanh)
sinh = emap(lambda x: (T.sexp(x) - T.sexp(-x)) / 2)
cosh = emap(lambda x: (T.sexp(x) + T.sexp(-x)) / 2)
_abs_obj = emap(T.sabs)
square_obj = emap(lambda x: x * x)
conj_obj = emap(lambda x: x.conjugate())
real_obj = emap(lambda x: x.real)
imag_obj = emap(lambda x: x.imag)
floor = emap(T.sfloor)
ceil = emap(lambda x: -T.sfloor(-x))


def _keepint(f, g):
    def h(x, *a, **k):
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, (int, np.integer, bool, np.bool_)) or (isinstance(x, np.ndarray) and x.dtype.kind in 'iub'):
            return g(x, *a, **k)
        return f(x, *a, **k)
    return h


abs_ = _keepint(_abs_obj, np.abs)
square = _keepint(square_obj, np.square)
conj = _keepint(conj_obj, np.conj)
real = _keepint(real_obj, np.real)
imag = _keepint(imag_obj, np.imag)


def round_(x, decimals=0, out=None):
    if isinstance(x, (int, np.integer)) or (isinstance(x, np.ndarray) and x.dtype.kind in 'iub'):
        return np.round(x, decimals)
    return emap(lambda e: T.sround(e, decimals))(x)


rint = emap(lambda e: T.sround(e, 0))


def trunc(x):
    return emap(lambda e: S.of(T.world().to_int(e)))(x)


def _arg2(x):
    """atan2 angle as uninterpreted value carrying its own direction"""
    if x.nan:
        return T.NAN
    return S(T.world().angle_of(x))


_angle = emap(lambda x: _arg2(x))


def angle(z, deg=False):
    a = _angle(z)
    return a * (S.of(180) / S(T.world().pi)) if deg else a


def arctan2(y, x):
    f = np.frompyfunc(lambda a, b: _arg2(S(S.of(b).re, S.of(a).re)), 2, 1)
    return f(y, x)


def power(x, p):
    f = np.frompyfunc(lambda a, b: (S.of(a) ** b), 2, 1)
    return unwrap0(f(x, p)) if (has_sym(x) or has_sym(p) or _has_float(x) or _has_float(p)) else np.power(x, p)


def isnan(x):
    f = emap(lambda e: e)
    if isinstance(x, S):
        return x.nan
    x = np.asarray(x)
    if x.dtype != OBJ:
        return np.isnan(x)
    return np.array([isinstance(e, S) and e.nan for e in x.reshape(-1)], dtype=bool).reshape(x.shape)


def isfinite(x):
    return ~np.asarray(isnan(x))


def sign(x):
    return emap(lambda e: S1_if(e))(x)


def S1_if(e):
    if bool(e > 0):
        return T.S1
    if bool(e < 0):
        return -T.S1
    return T.S0


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    def f(x, y):
        d = S.of(x) - S.of(y)
        if d.is_const() and S.of(y).is_const():
            return abs(d.cval()) <= atol + rtol * abs(S.of(y).cval())
        T.world().note('isclose', 'isclose read as ==')
        return bool(S.of(x) == S.of(y))
    r = np.frompyfunc(f, 2, 1)(a, b)
    return np.asarray(r, dtype=bool) if isinstance(r, np.ndarray) else bool(r)


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(np.all(isclose(a, b, rtol, atol)))


def array_equal(a, b, **k):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


# --------------------------------------------------------------- linear algebra
def norm_(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if x.dtype != OBJ:
        x = lift(x.astype(float))
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm ord=%r' % (ord,))
    sq = np.empty(x.shape, dtype=object)
    fs, fx = sq.reshape(-1), x.reshape(-1)
    for i in range(fx.size):
        e = S.of(fx[i])
        fs[i] = S(e.re * e.re + e.im * e.im)
    s = np.sum(sq, axis=axis, keepdims=keepdims)
    return sqrt(s)


def det(a):
    a = asarray(a)
    n = a.shape[-1]
    if a.ndim > 2:
        return np.array([det(b) for b in a], dtype=object)
    if n == 0:
        return T.S1
    if n == 1:
        return S.of(a[0, 0])
    if n == 2:
        return S.of(a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0])
    r = T.S0
    for j in range(n):
        m = np.delete(np.delete(a, 0, 0), j, 1)
        t = a[0, j] * det(m)
        r = r + t if j % 2 == 0 else r - t
    return r


def inv(a):
    """Gauss-Jordan; pivot = first entry not identically zero"""
    a = asarray(a)
    if a.ndim > 2:
        return np.array([inv(b) for b in a], dtype=object).reshape(a.shape)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    n = a.shape[0]
    if n == 1:
        out = np.empty((1, 1), dtype=object)
        out[0, 0] = S.of(a[0, 0]).recip()
        return out
    if n <= 3:
        d = det(a)
        di = S.of(d).recip()
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                m = np.delete(np.delete(a, j, 0), i, 1)
                c = det(m)
                out[i, j] = (c if (i + j) % 2 == 0 else -c) * di
        return out
    M = np.concatenate([lift(np.array(a, dtype=object)), eye(n)], axis=1)
    for c in range(n):
        p = None
        for r in range(c, n):
            if _nonzero_entry(M[r, c]):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        if p != c:
            M[[c, p]] = M[[p, c]]
        iv = M[c, c].recip()
        M[c] = M[c] * iv
        for r in range(n):
            if r != c and not (M[r, c].is_const() and M[r, c].re.c == 0 and M[r, c].im.c == 0):
                M[r] = M[r] - M[c] * M[r, c]
    return M[:, n:]


def _nonzero_entry(e):
    w = T.world()
    for r in (e.re, e.im):
        if r.c != 0:
            if r.is_const():
                return True
            al = w.al()
            if np.any(np.abs(r.v[al]) > 1e-9):
                return True
            if w.may_divide(r):
                return True
    return False


def solve(a, b):
    return np.matmul(inv(a), b)


def eigh_default(a, *args, **k):
    raise Unsupported('eigen-decomposition reached without a stub')


# --------------------------------------------------------------- misc
def where(c, *args):
    c = np.asarray(c)
    if c.dtype == OBJ:
        c = np.array([bool(e) for e in c.reshape(-1)], dtype=bool).reshape(c.shape)
    if not args:
        return np.where(c)
    x, y = args
    if has_sym(x) or has_sym(y) or _has_float(x) or _has_float(y):
        return unwrap0(np.where(c, lift_any(x), lift_any(y)))
    return np.where(c, x, y)


def lift_any(x):
    if isinstance(x, (list, tuple)):
        return array(x)
    if isinstance(x, np.ndarray):
        return lift(x.astype(float)) if x.dtype.kind in 'iub' else lift(x)
    a = np.empty((), dtype=object)
    a[()] = S.of(x)
    return a


def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    ar = asarray(ar)
    if ar.dtype != OBJ:
        return np.unique(ar, return_index=return_index, return_inverse=return_inverse,
                         return_counts=return_counts, axis=axis)
    if axis is None:
        rows = [(e,) for e in ar.reshape(-1)]
    else:
        ar2 = np.moveaxis(ar, axis, 0)
        rows = [tuple(r.reshape(-1)) for r in ar2]
    import functools

    def cmp(i, j):
        for a, b in zip(rows[i], rows[j]):
            if bool(a < b):
                return -1
            if bool(a > b):
                return 1
        return -1 if i < j else 1
    order = sorted(range(len(rows)), key=functools.cmp_to_key(cmp))
    first, counts = [], []
    inverse = [0] * len(rows)
    for i in order:
        if first and all(bool(a == b) for a, b in zip(rows[first[-1]], rows[i])):
            counts[-1] += 1
        else:
            first.append(i)
            counts.append(1)
        inverse[i] = len(first) - 1
    if axis is None:
        u = np.empty(len(first), dtype=object)
        for q, i in enumerate(first):
            u[q] = rows[i][0]
    else:
        u = np.moveaxis(ar2[first], 0, axis)
    out = [u]
    if return_index:
        out.append(np.array(first, dtype=int))
    if return_inverse:
        out.append(np.array(inverse, dtype=int))
    if return_counts:
        out.append(np.array(counts, dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def toeplitz(c, r=None):
    c = asarray(c).ravel()
    r = np.array([conj(e) for e in c], dtype=object) if r is None else asarray(r).ravel()
    out = np.empty((len(c), len(r)), dtype=object)
    for i in range(len(c)):
        for j in range(len(r)):
            out[i, j] = c[i - j] if i >= j else r[j - i]
    return norm(out)


def block_diag(*arrs):
    arrs = [np.atleast_2d(lift_any(a) if not isinstance(a, np.ndarray) else a) for a in arrs]
    n = sum(a.shape[0] for a in arrs)
    m = sum(a.shape[1] for a in arrs)
    out = zeros((n, m))
    i = j = 0
    for a in arrs:
        out[i:i + a.shape[0], j:j + a.shape[1]] = a
        i += a.shape[0]
        j += a.shape[1]
    return out


def interp(x, xp, fp, left=None, right=None, period=None):
    xp = asarray(xp)
    fp = asarray(fp)
    n = len(xp)

    def f(q):
        q = S.of(q)
        if bool(q <= xp[0]):
            return S.of(fp[0]) if (left is None or bool(q == xp[0])) else S.of(left)
        if bool(q >= xp[n - 1]):
            return S.of(fp[n - 1]) if (right is None or bool(q == xp[n - 1])) else S.of(right)
        for i in range(n - 1):
            if bool(q <= xp[i + 1]):
                return S.of(fp[i]) + (S.of(fp[i + 1]) - S.of(fp[i])) * ((q - xp[i]) / (S.of(xp[i + 1]) - xp[i]))
        return S.of(fp[n - 1])
    return emap(f)(x)


def floatify(x):
    """all-constant symbolic data -> plain numpy numbers (for functions without a model)"""
    if isinstance(x, S):
        if x.nan:
            return float('nan')
        if not x.is_const():
            raise Unsupported('symbolic argument')
        c = x.cval()
        return c.real if c.imag == 0 else c
    if isinstance(x, np.ndarray) and x.dtype == OBJ:
        vals = [floatify(e) for e in x.reshape(-1)]
        return np.array(vals).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return type(x)(floatify(e) for e in x)
    if isinstance(x, dict):
        return {k: floatify(v) for k, v in x.items()}
    return x


def generic(name, f):
    def g(*a, **k):
        if any(isinstance(x, (B,)) for x in a):
            a = tuple(bool(x) if isinstance(x, B) else x for x in a)
        if not (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            r = f(*a, **k)
            return r
        if 'dtype' in k and (_isf(k['dtype'])):
            k = dict(k); k.pop('dtype')
        try:
            r = f(*a, **k)
            return unwrap0(r)
        except (TypeError, np.linalg.LinAlgError, AttributeError) as e:
            try:
                fa, fk = floatify(a), floatify(k)
            except Unsupported:
                raise Unsupported('numpy.%s on symbolic data: %s' % (name, e))
            return lift(f(*fa, **fk))
    g.__name__ = name
    return g


def lifted(f):
    """functions that must see object arrays rather than floats"""
    def g(*a, **k):
        a = tuple(lift(x) if isinstance(x, np.ndarray) else (array(x) if isinstance(x, (list, tuple)) and (has_sym(x) or _has_float(x)) else x) for x in a)
        k.pop('dtype', None)
        return unwrap0(f(*a, **k))
    return g


def nsum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, S):
        return a
    r = np.sum(a, axis=axis, keepdims=keepdims)
    return lift(r) if isinstance(r, (np.floating, np.complexfloating)) else unwrap0(r)


def mean(a, axis=None, **k):
    a = asarray(a)
    n = a.size if axis is None else a.shape[axis]
    return nsum(a, axis=axis) / S.of(n)


def var(a, axis=None, **k):
    a = asarray(a)
    m = mean(a, axis=axis)
    if axis is not None:
        m = np.expand_dims(m, axis)
    d = a - m
    return mean(d * conj(d), axis=axis)


def divide(a, b, out=None, where=True, **k):
    if where is not True:
        raise Unsupported('divide(where=)')
    return (lift_any(a) if not isinstance(a, S) else a) / (lift_any(b) if not isinstance(b, S) else b)


def cross(a, b, **k):
    return np.cross(lift_any(a), lift_any(b), **k)


def outer(a, b):
    a = asarray(a); b = asarray(b)
    return np.outer(a, b)


def remainder(a, b):
    if not has_sym(a) and not has_sym(b) and not _has_float(a) and not _has_float(b):
        return np.remainder(a, b)
    return unwrap0(np.frompyfunc(lambda x, y: T.smod(S.of(x), S.of(y)), 2, 1)(a, b))


def isscalar(x):
    return True if isinstance(x, S) else np.isscalar(x)


def iscomplexobj(x):
    if isinstance(x, S):
        return not x.is_real()
    x = np.asarray(x)
    if x.dtype == OBJ:
        return any(isinstance(e, S) and not e.is_real() for e in x.reshape(-1))
    return np.iscomplexobj(x)


def fill_diagonal(a, val, wrap=False):
    n = min(a.shape)
    v = np.resize(np.asarray(val).ravel(), n) if not isinstance(val, S) else [val] * n
    for i in range(n):
        a[i, i] = v[i]


def diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    return np.diff(a, n, axis)


def maximum(a, b, **k):
    f = np.frompyfunc(lambda x, y: x if bool(S.of(x) >= y) else y, 2, 1)
    if has_sym(a) or has_sym(b) or _has_float(a) or _has_float(b):
        return unwrap0(f(lift_any(a), lift_any(b)))
    return np.maximum(a, b)


def minimum(a, b, **k):
    f = np.frompyfunc(lambda x, y: x if bool(S.of(x) <= y) else y, 2, 1)
    if has_sym(a) or has_sym(b) or _has_float(a) or _has_float(b):
        return unwrap0(f(lift_any(a), lift_any(b)))
    return np.minimum(a, b)


def clip(a, lo, hi, **k):
    if lo is not None:
        a = maximum(a, lo)
    if hi is not None:
        a = minimum(a, hi)
    return a


def triu(m, k=0):
    m = asarray(m)
    mask = np.tri(*m.shape[-2:], k=k - 1, dtype=bool)
    return np.where(mask, T.S0 if m.dtype == OBJ else 0, m)


def tril(m, k=0):
    m = asarray(m)
    mask = np.tri(*m.shape[-2:], k=k, dtype=bool)
    return np.where(mask, m, T.S0 if m.dtype == OBJ else 0)


def diag(v, k=0):
    v = asarray(v)
    if v.ndim == 1 and v.dtype == OBJ:
        n = len(v) + builtins.abs(k)
        out = zeros((n, n))
        for i, e in enumerate(v):
            out[(i, i + k) if k >= 0 else (i - k, i)] = e
        return out
    return np.diag(v, k)


def dot(a, b, **k):
    a = a if isinstance(a, S) else lift_keep(a)
    b = b if isinstance(b, S) else lift_keep(b)
    if isinstance(a, S) or isinstance(b, S) or getattr(a, 'ndim', 0) == 0 or getattr(b, 'ndim', 0) == 0:
        return a * b
    return unwrap0(_fixempty(np.dot(a, b)))


def _fixempty(x):
    return norm(x) if isinstance(x, np.ndarray) and x.dtype == OBJ else x


def lift_keep(x):
    if isinstance(x, (list, tuple)):
        return array(x)
    if isinstance(x, np.ndarray):
        return lift(x)
    return x


def matmul(a, b, **k):
    return unwrap0(_fixempty(np.matmul(lift_keep(a), lift_keep(b))))


def stackwrap(f):
    def g(seq, *a, **k):
        k.pop('dtype', None)
        seq = [array(x) if isinstance(x, (list, tuple)) else x for x in seq]
        seq = [np.asarray([x], dtype=object).reshape(()) if isinstance(x, S) else x for x in seq]
        return f(seq, *a, **k)
    return g


OVERRIDES = dict(
    array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, zeros=zeros, ones=ones, empty=empty,
    full=full, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like,
    eye=eye, identity=eye, linspace=linspace, arange=arange, sqrt=sqrt, exp=exp, sin=sin, cos=cos,
    tan=tan, tanh=tanh, sinh=sinh, cosh=cosh, abs=abs_, absolute=abs_, fabs=abs_, square=square, conj=conj,
    conjugate=conj, real=real, imag=imag, floor=floor, ceil=ceil, round=round_, around=round_, rint=rint, trunc=trunc,
    angle=angle, arctan2=arctan2, power=power, isnan=isnan, isfinite=isfinite, sign=sign, isclose=isclose,
    allclose=allclose, array_equal=array_equal, where=where, unique=unique, interp=interp, sum=nsum, mean=mean,
    var=var, divide=divide, true_divide=divide, cross=cross, outer=outer, remainder=remainder, mod=remainder,
    isscalar=isscalar, iscomplexobj=iscomplexobj, fill_diagonal=fill_diagonal, diff=diff, maximum=maximum,
    minimum=minimum, clip=clip, triu=triu, tril=tril, diag=diag, dot=dot, matmul=matmul,
    hstack=stackwrap(np.hstack), vstack=stackwrap(np.vstack), stack=stackwrap(np.stack),
    concatenate=stackwrap(np.concatenate), add=lifted(np.add), subtract=lifted(np.subtract),
    multiply=lifted(np.multiply), kron=lifted(np.kron), prod=lifted(np.prod), cumsum=lifted(np.cumsum),
    cumprod=lifted(np.cumprod), trace=lifted(np.trace), tensordot=lifted(np.tensordot), vdot=lambda a, b: dot(conj(asarray(a).ravel()), asarray(b).ravel()),
    inner=lifted(np.inner), negative=lifted(np.negative), reciprocal=emap(lambda x: x.recip()),
    isin=generic('isin', np.isin),
)


def einsum(sub, *ops, **k):
    k.pop('optimize', None)
    return unwrap0(np.einsum(sub, *[lift_keep(o) for o in ops], **k))


OVERRIDES['einsum'] = einsum


class _Num(type):
    def __instancecheck__(cls, x):
        return cls.check(x)

    def __call__(cls, *a, **k):
        return cls.conv(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls.base

    def __hash__(cls):
        return id(cls)


class FloatT(metaclass=_Num):
    base = float
    check = staticmethod(lambda x: isinstance(x, float) or (isinstance(x, S) and x.is_real()))

    @staticmethod
    def conv(x=0.0):
        if isinstance(x, S):
            if not x.is_real():
                raise TypeError("float() argument must be a real number, not 'complex'")
            return x
        if isinstance(x, B):
            return S.of(x)
        if isinstance(x, np.ndarray) and x.dtype == OBJ:
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return FloatT.conv(x.reshape(-1)[0])
        return float(x)


class IntT(metaclass=_Num):
    base = int
    check = staticmethod(lambda x: isinstance(x, int))

    @staticmethod
    def conv(x=0, *a):
        if isinstance(x, (S, B)):
            return toint(x)
        if isinstance(x, np.ndarray) and x.dtype == OBJ and x.size == 1:
            return toint(x.reshape(-1)[0])
        return int(x, *a)


class NpIntT(metaclass=_Num):
    base = int
    check = staticmethod(lambda x: isinstance(x, np.integer))
    conv = staticmethod(_int_)


class ComplexT(metaclass=_Num):
    base = complex
    check = staticmethod(lambda x: isinstance(x, complex) or isinstance(x, S))

    @staticmethod
    def conv(x=0, y=0):
        if has_sym(x) or has_sym(y):
            return S.of(x) + S.of(y) * T.SI
        return complex(x, y)


def _npscalar(nm, f):
    return f


class Linalg(types.ModuleType):
    norm = staticmethod(norm_)
    det = staticmethod(det)
    inv = staticmethod(inv)
    pinv = staticmethod(inv)
    solve = staticmethod(solve)
    eigh = staticmethod(eigh_default)
    eig = staticmethod(eigh_default)
    eigvalsh = staticmethod(eigh_default)
    eigvals = staticmethod(eigh_default)
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        return generic('linalg.' + n, getattr(np.linalg, n))


class NPShim(types.ModuleType):
    def __init__(self, name='numpy'):
        super().__init__(name)
        self.__dict__.update(OVERRIDES)
        self.linalg = Linalg('numpy.linalg')
        self.__path__ = []
        self.float64 = FloatT
        self.float_ = FloatT
        self.double = FloatT
        self.complex128 = ComplexT
        self.complex_ = ComplexT
        self.int64 = NpIntT
        self.int_ = NpIntT
        self.int32 = NpIntT
        self.intp = NpIntT
        self.ndarray = np.ndarray
        self.newaxis = None

    @property
    def pi(self):
        return S(T.world().pi)

    def __getattr__(self, n):
        if n == 'pi':
            return S(T.world().pi)
        x = getattr(np, n)
        if callable(x) and not isinstance(x, type):
            g = generic(n, x)
            if isinstance(x, np.ufunc):
                g.outer = x.outer
                g.reduce = x.reduce
                g.at = x.at
                g.accumulate = x.accumulate
            return g
        return x


# attribute helpers (rewritten  x.real  ->  _a_real(x)  etc.)
def a_real(x):
    return real(x) if isinstance(x, np.ndarray) else x.real


def a_imag(x):
    return imag(x) if isinstance(x, np.ndarray) else x.imag


def a_astype(x):
    def f(dt, *a, **k):
        if isinstance(x, np.ndarray):
            if _isf(dt):
                return lift(x.astype(float)) if x.dtype.kind in 'iub' else lift(x)
            if _isint(dt):
                return _int_(x)
            if _isbool(dt):
                return array(x, dtype=bool)
        return x.astype(dt, *a, **k)
    return f


def a_round(x):
    def f(n=0, *a, **k):
        return round_(x, n) if isinstance(x, np.ndarray) else x.round(n)
    return f


def a_dot(x):
    def f(o, *a, **k):
        return dot(x, o) if isinstance(x, np.ndarray) else x.dot(o, *a, **k)
    return f


def a_mean(x):
    def f(*a, **k):
        return mean(x, *a, **k) if isinstance(x, np.ndarray) else x.mean(*a, **k)
    return f


def a_conj(x):
    def f(*a, **k):
        return conj(x) if isinstance(x, np.ndarray) else x.conj(*a, **k)
    return f


ATTRS = {'real': a_real, 'imag': a_imag, 'astype': a_astype, 'round': a_round, 'dot': a_dot, 'mean': a_mean, 'conj': a_conj, 'conjugate': a_conj}
