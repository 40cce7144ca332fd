"""Harness context: the same harness source runs symbolically and concretely."""
from fractions import Fraction
import contextlib
import numpy as np


class AssumeFail(BaseException):
    pass


class Patches:
    def __init__(self):
        self.undo = []

    def patch(self, obj, name, val):
        d = obj.__dict__ if hasattr(obj, '__dict__') else {}
        had = name in d
        old = d.get(name)
        self.undo.append((obj, name, had, old))
        setattr(obj, name, val)

    def restore(self):
        for obj, name, had, old in reversed(self.undo):
            if had:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
        self.undo = []


# =========================================================================== concrete
class ConcreteCtx:
    symbolic = False

    def __init__(self, lg, inputs, choices, tol=1e-6):
        import importlib
        self.lg = lg
        self.np = np
        self.pi = np.pi
        self.inputs = inputs
        self.choices = choices
        self.failures = []
        self.obs = []
        self.tol = tol
        self.p = Patches()
        self._imp = importlib.import_module
        self.checks = 0

    def mod(self, name):
        return self._imp(name)

    def real(self, name, lo=-1, hi=1, nonzero=False):
        if name not in self.inputs:
            # not reached by the solver's path: any value of the domain
            v = float(Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(37, 100))
            self.inputs[name] = v
        return float(self.inputs[name])

    def reals(self, names, lo=-1, hi=1):
        return [self.real(n, lo, hi) for n in names.split()]

    def cplx(self, name, lo=-1, hi=1):
        return self.real(name + '_r', lo, hi) + 1j * self.real(name + '_i', lo, hi)

    def choice(self, name, options):
        return options[self.choices.get(name, 0)]

    def assume(self, c):
        if not bool(c):
            raise AssumeFail()

    def patch(self, obj, name, val):
        self.p.patch(obj, name, val)

    def stub_fn(self, name, fn):
        """replace np.linalg.<name> (and the backend's and scipy's copies) for this run"""
        import scipy.linalg
        bd = self.mod('legume.backend').backend
        self.patch(np.linalg, name, fn)
        if hasattr(scipy.linalg, name):
            self.patch(scipy.linalg, name, fn)
        if hasattr(bd, name):
            self.patch(bd, name, fn)

    def angle_base(self, a):
        pass

    def split(self, *a):
        """hint: identities are checked coefficient by coefficient in these inputs"""

    def hint_root(self, a):
        pass

    def hint_croot(self, a):
        pass

    def j1(self, x):
        import scipy.special
        return scipy.special.j1(x)

    def nearint(self, x):
        """nearest integer guess (the harness asserts that it is right)"""
        return int(round(float(x)))

    def fval(self, x):
        """numerical value (only for quantities without inputs: orderings, bookkeeping)"""
        return float(np.real(x))

    def arr(self, x):
        return np.array(x)

    def _flat(self, x):
        a = np.asarray(x)
        if a.dtype == object:
            a = np.array([complex(e) for e in a.reshape(-1)]).reshape(a.shape)
        return a

    def observe(self, label, a):
        a = self._flat(a)
        self.obs.append((label, a.reshape(-1).astype(complex)))

    def eq(self, a, b, label, tol=None, scale=None):
        self.checks += 1
        a, b = self._flat(a), self._flat(b)
        self.obs.append((label, a.reshape(-1).astype(complex)))
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                self.failures.append((label, 'shape %s vs %s' % (a.shape, b.shape)))
                return
        if a.size == 0:
            return
        t = self.tol if tol is None else tol
        if scale is None:
            fa = np.abs(a[np.isfinite(a)])
            fb = np.abs(b[np.isfinite(b)])
            sc = max([1e-3] + list(fa[:0]) + ([fb.max()] if fb.size else []) + ([min(fa.max(), 1e6 * (1 + (fb.max() if fb.size else 0)))] if fa.size else []))
        else:
            sc = float(abs(scale))
        d = np.abs(a - b)
        bad = ~(d <= t * sc)
        if bad.any():
            k = np.argmax(np.where(np.isnan(d), np.inf, d))
            self.failures.append((label, 'got %s expected %s (index %d)' % (
                a.reshape(-1)[k], b.reshape(-1)[k], k)))

    def ge(self, a, b, label, tol=None):
        self.checks += 1
        a, b = self._flat(a), self._flat(b)
        self.obs.append((label, a.reshape(-1).astype(complex)))
        a, b = np.broadcast_arrays(np.real(a), np.real(b))
        t = (1e-7 if tol is None else tol) * (1 + np.abs(b))
        bad = ~(a >= b - t)
        if bad.any():
            k = int(np.flatnonzero(bad.reshape(-1))[0])
            self.failures.append((label, 'got %s, must be >= %s' % (a.reshape(-1)[k], b.reshape(-1)[k])))

    def true(self, c, label):
        self.checks += 1
        if not bool(np.all(c)):
            self.failures.append((label, 'condition is false'))

    def same(self, a, b, label):
        """concrete (structural) equality of python data"""
        self.checks += 1
        if not (a == b):
            self.failures.append((label, 'got %r expected %r' % (a, b)))

    def raises(self, exc, fn, label):
        self.checks += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            self.failures.append((label, 'raised %r instead of %s' % (e, exc)))
            return
        self.failures.append((label, 'did not raise %s' % (exc,)))


# =========================================================================== symbolic
class SymCtx:
    symbolic = True

    def __init__(self, L, W, res):
        from . import shim, terms
        self.T = terms
        self.L = L
        self.lg = L.load('legume')
        self.W = W
        self.np = L.np
        self.res = res
        self.p = Patches()
        self.obs = []
        self.failures = []

    def mod(self, name):
        return self.L.load(name)

    @property
    def pi(self):
        return self.T.S(self.W.pi)

    def real(self, name, lo=-1, hi=1, nonzero=False):
        d = self.__dict__.setdefault('_domains', {})
        if d.setdefault(name, (lo, hi)) != (lo, hi):
            raise self.T.Unsupported('input %s used with two domains' % name)
        r = self.W.real(name, lo, hi, nonzero)
        return self.T.S(r)

    def reals(self, names, lo=-1, hi=1):
        return [self.real(n, lo, hi) for n in names.split()]

    def cplx(self, name, lo=-1, hi=1):
        a, b = self.real(name + '_r', lo, hi), self.real(name + '_i', lo, hi)
        return self.T.S(a.re, b.re)

    def choice(self, name, options):
        return self.W.choose(name, options)

    def assume(self, c):
        self.W.assume(c)

    def patch(self, obj, name, val):
        self.p.patch(obj, name, val)

    def stub_fn(self, name, fn):
        bd = self.mod('legume.backend').backend
        self.patch(self.L.np.linalg, name, fn)
        sl = self.L.extern['scipy.linalg']
        if hasattr(sl, name):
            self.patch(sl, name, fn)
        if hasattr(bd, name):
            self.patch(bd, name, fn)

    def angle_base(self, a):
        a = self.T.S.of(a)
        if not a.re.is_const():
            self.W.sincos(a.re)

    def split(self, *a):
        for x in a:
            for e in self._els(x)[0]:
                for r in (e.re, e.im):
                    if len(r.f) == 1 and r.f[0][1] == 1 and self.W.fterms[r.f[0][0]] is None:
                        self.W.trans.add(r.f[0][0])

    def hint_root(self, a):
        a = self.T.S.of(a)
        if a.is_real():
            self.W.hint_root(a.re)
        else:
            self.W.chints.append(a)
    hint_croot = hint_root

    def j1(self, x):
        return self.L._j1(x)

    def nearint(self, x):
        x = self.T.S.of(x)
        al = np.flatnonzero(self.W.alive)
        v = np.broadcast_to(x.re.v, self.W.alive.shape)
        return int(round(float(v[al[0] if len(al) else 0])))

    def fval(self, x):
        x = self.T.S.of(x)
        return float(np.broadcast_to(x.re.v, self.W.alive.shape)[0])

    def arr(self, x):
        return self.np.array(x)

    def _els(self, x):
        from . import shim
        S = self.T.S
        if isinstance(x, S):
            return [x], ()
        if isinstance(x, (list, tuple)):
            x = shim.array(x)
        x = np.asarray(x)
        return [S.of(e) for e in x.reshape(-1)], x.shape

    def observe(self, label, a):
        els, _ = self._els(a)
        self.obs.append((label, els))

    def eq(self, a, b, label, tol=None, scale=None):
        ea, sa = self._els(a)
        eb, sb = self._els(b)
        self.obs.append((label, ea))
        if sa != sb:
            try:
                sh = np.broadcast_shapes(sa, sb)
            except ValueError:
                self.res.fail_path(self.W, label, 'shape %s vs %s' % (sa, sb))
                return
            def bc(e, s):
                o = np.empty(len(e), dtype=object)
                for i, q in enumerate(e):
                    o[i] = q
                return list(np.broadcast_to(o.reshape(s), sh).reshape(-1))
            ea, eb = bc(ea, sa), bc(eb, sb)
        self.res.oblig_eq(self.W, ea, eb, label)

    def ge(self, a, b, label, tol=None):
        ea, sa = self._els(a)
        eb, sb = self._els(b)
        self.obs.append((label, ea))
        if sa != sb:
            sh = np.broadcast_shapes(sa, sb)
            def bc(e, s):
                o = np.empty(len(e), dtype=object)
                for i, q in enumerate(e):
                    o[i] = q
                return list(np.broadcast_to(o.reshape(s), sh).reshape(-1))
            ea, eb = bc(ea, sa), bc(eb, sb)
        for x, y in zip(ea, eb):
            self.res.oblig_ge(self.W, x, y, label)

    def true(self, c, label):
        if isinstance(c, np.ndarray):
            c = bool(np.all([bool(x) for x in c.reshape(-1)]))
        if isinstance(c, self.T.B):
            self.res.oblig_bool(self.W, c, label)
            return
        self.res.stats.obligations += 1
        if not c:
            self.res.fail_path(self.W, label, 'condition is false')

    def same(self, a, b, label):
        self.res.stats.obligations += 1
        if not (a == b):
            self.res.fail_path(self.W, label, 'got %r expected %r' % (a, b))

    def raises(self, exc, fn, label):
        self.res.stats.obligations += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            self.res.fail_path(self.W, label, 'raised %r' % e)
            return
        self.res.fail_path(self.W, label, 'did not raise')
