"""World = one symbolic execution path: variables, atoms, samples, path condition, solver."""
from fractions import Fraction
import hashlib
import math
import random
import time
import numpy as np
import z3
from . import terms as T
from .terms import R, S, B, K, ZERO, ONE, PathAbort, Unsupported

z3.set_param('memory_max_size', 6000)

_VARS_CACHE = {}


def zvars(e):
    """frozenset of names of the constants of a z3 expression (memoised)."""
    k = e.get_id()
    hit = _VARS_CACHE.get(k)
    if hit is not None:
        return hit[1]
    stack = [e]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in _VARS_CACHE:
            stack.pop()
            continue
        ch = x.children()
        if not ch:
            s = frozenset([x.decl().name()]) if (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED) else frozenset()
            _VARS_CACHE[i] = (x, s)
            stack.pop()
            continue
        todo = [c for c in ch if c.get_id() not in _VARS_CACHE]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset().union(*[_VARS_CACHE[c.get_id()][1] for c in ch])
        _VARS_CACHE[i] = (x, s)
        stack.pop()
    return _VARS_CACHE[k][1]


def zrat(q):
    if q.denominator == 1:
        return z3.RealVal(int(q))
    return z3.Q(q.numerator, q.denominator)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.branch_queries = 0
        self.obligations = 0
        self.cvc5 = 0
        self.cvc5_agree = 0

    def as_dict(self):
        return dict(self.__dict__)


BIG = 150


class World:
    def __init__(self, seed, prefix, stats, notes, funcs=None):
        self.seed = seed
        self.prefix = list(prefix)
        self.log = []
        self.pending = []
        self.stats = stats
        self.notes = notes
        self.fnames = []      # factor id -> var name or None
        self.fterms = []      # factor id -> None or tuple of ((ftuple), coeff)
        self.fz = []
        self.fs = []
        self.fsc = []
        self.fvars = []
        self.fpos_ = []
        self.intern = {}
        self.sq = {}          # sqrt atom id -> R it squares to
        self.vid = {}
        self.zv = {}
        self.domain = {}      # var name -> list of z3 constraints
        self.defs = {}        # atom name -> list of z3 constraints defining it
        self.pathc = []       # path condition: list of z3 formulas
        self.alive = np.ones(K, bool)
        self.nz = {}
        self.hints = []       # real R's known >= 0 usable as square roots
        self.chints = []      # complex S principal roots
        self.sqrt_atoms = []  # (argR, atomR)
        self.trans = set()    # atoms an identity is split over (linearly independent over the rest)
        self.xcache = {}
        self.cancel = []
        self.exp_bases = []   # (argR, atomR)
        self.ang_bases = []   # (argR, sinR, cosR, tfactor)
        self.ufs = {}         # name -> list of (argR, atomR)
        self.freepins = {}    # atom name -> sample vector (abstracted atoms)
        self.inputs = {}      # name -> z3 const  (harness inputs)
        self.choices = {}
        self.natoms = 0
        self.pi_ = None
        self.eps = None
        self.branch_timeout = 1500
        self.ob_timeout = 15000
        self.zcache = {}

    # ------------------------------------------------------------ notes
    def note(self, kind, txt):
        self.notes.setdefault(kind, set()).add(txt)

    # ------------------------------------------------------------ factors
    def _newf(self, name, terms, z, s, sc, vs, pos):
        self.fnames.append(name)
        self.fterms.append(terms)
        self.fz.append(z)
        self.fs.append(s)
        self.fsc.append(sc)
        self.fvars.append(vs)
        self.fpos_.append(pos)
        return len(self.fnames) - 1

    def fsample(self, i):
        return self.fs[i]

    def newvar(self, name, sample, constraints, pos=False, is_def=False):
        z = z3.Real(name)
        sample = np.asarray(sample, float)
        i = self._newf(name, None, z, sample, np.abs(sample), None, pos)
        self.vid[name] = i
        self.zv[name] = z
        cs = [c(z) if callable(c) else c for c in constraints]
        (self.defs if is_def else self.domain).setdefault(name, []).extend(cs)
        return R(Fraction(1), ((i, 1),))

    def real(self, name, lo, hi, nonzero=False):
        """harness input lo < name < hi (rational bounds), rational samples"""
        lo, hi = Fraction(lo), Fraction(hi)
        h = int(hashlib.sha256(('%s/%s' % (self.seed, name)).encode()).hexdigest()[:8], 16)
        rg = random.Random(h)
        samp = []
        for _ in range(K):
            while True:
                k = rg.randint(1, 997)
                q = lo + (hi - lo) * Fraction(k, 998)
                q = q.limit_denominator(1000)
                if lo < q < hi and q != 0:
                    break
            samp.append(q)
        cons = [lambda z: z > zrat(lo), lambda z: z < zrat(hi)]
        if nonzero:
            cons.append(lambda z: z != 0)
        r = self.newvar(name, [float(q) for q in samp], cons, pos=lo >= 0)
        self.inputs[name] = samp
        return r

    def atom(self, kind, sample, constraints, pos=False, free=False):
        self.natoms += 1
        name = '%s!%d' % (kind, self.natoms)
        r = self.newvar(name, sample, constraints, pos=pos, is_def=True)
        if free:
            self.freepins[name] = np.asarray(sample, float)
        return r

    @property
    def pi(self):
        if self.pi_ is None:
            self.pi_ = self.newvar('pi!', np.full(K, math.pi), [
                lambda z: z > z3.Q(31415926535, 10**10), lambda z: z < z3.Q(31415926536, 10**10)],
                pos=True, is_def=True)
            self.freepins['pi!'] = np.full(K, math.pi)
        return self.pi_

    def eps_deg(self, r):
        if self.eps is None:
            return 0
        return dict(r.f).get(self.eps, 0)

    def eps_power(self, lit):
        """0 + 1e-N: the N-th power of a formal infinitesimal; sums keep the leading order"""
        if self.eps is None:
            rg = random.Random(7)
            self.eps_r = self.newvar('eps!', [rg.uniform(0.8, 1.25) for _ in range(K)], [lambda z: z > 0], pos=True, is_def=True)
            self.eps = self.eps_r.f[0][0]
        n = int(round(-math.log10(abs(lit))))
        self.note('regulariser', '0%+g as an infinitesimal of order %d' % (lit, n))
        return R(Fraction(1 if lit > 0 else -1), ((self.eps, n),))

    # ------------------------------------------------------------ algebra
    def mk_mono(self, c, d):
        if self.sq:
            hit = [i for i, p in d.items() if i in self.sq and (p >= 2 or p <= -2)]
            if hit:
                d = dict(d)
                r = None
                for i in hit:
                    p = d.pop(i)
                    k = int(p / 2)
                    rest = p - 2 * k
                    if rest:
                        d[i] = rest
                    x = self.sq[i]
                    xp = R(x.c ** k, tuple((j, q * k) for j, q in x.f))
                    r = xp if r is None else r * xp
                base = R(c, tuple(sorted(d.items())))
                return base * r
        return R(c, tuple(sorted(d.items())))

    def add_terms(self, terms):
        # flatten pure sums
        if self.eps is not None:
            dg = [dict(f).get(self.eps, 0) for _, f in terms]
            m = min(dg)
            if any(g != m for g in dg):
                terms = [t for t, g in zip(terms, dg) if g == m]
        acc = {}
        def put(c, f):
            n = acc.get(f, 0) + c
            if n:
                acc[f] = n
            else:
                acc.pop(f, None)
        def flat(c, f):
            if len(f) == 1 and f[0][1] == 1:
                t = self.fterms[f[0][0]]
                if t is not None and len(t) <= 80:
                    for g, cc in t:
                        put(c * cc, g)
                    return
            put(c, f)
        # common factor of the incoming terms first (keeps shared sums shared)
        common = self._common([f for _, f in terms])
        if common:
            cd = dict(common)
            terms = [(c, self._divf(f, cd)) for c, f in terms]
        for c, f in terms:
            flat(c, f)
        r = self._sum(acc)
        if common:
            r = r * R(Fraction(1), common)
        return r

    def _denoise(self, acc):
        """terms that are relatively ~1e-10 of the sum at every sample and in coefficient
        (1e-10/1e-20 regularisers of the source) are dropped"""
        cs = [abs(c) for c in acc.values()]
        mc = max(cs)
        if min(cs) * 10**9 > mc:
            return
        vals = {f: np.abs(R(c, f).v) for f, c in acc.items()}
        with np.errstate(all='ignore'):
            tot = np.max(np.array(list(vals.values())), axis=0)
            for f in list(acc):
                if abs(acc[f]) * 10**9 <= mc and np.all((vals[f] <= 1e-8 * tot) | ~np.isfinite(tot)):
                    self.note('regulariser', 'term of relative size < 1e-8 dropped')
                    del acc[f]

    def _common(self, fs):
        ks = None
        allk = set()
        for f in fs:
            for i, _ in f:
                allk.add(i)
        out = []
        ds = [dict(f) for f in fs]
        for i in allk:
            m = min(d.get(i, 0) for d in ds)
            if m:
                out.append((i, m))
        return tuple(sorted(out))

    @staticmethod
    def _divf(f, cd):
        d = dict(f)
        for i, p in cd.items():
            q = d.get(i, 0) - p
            if q:
                d[i] = q
            else:
                d.pop(i, None)
        return tuple(sorted(d.items()))

    def _sum(self, acc):
        if len(acc) > 1:
            self._denoise(acc)
        if not acc:
            return ZERO
        if len(acc) == 1:
            (f, c), = acc.items()
            return R(c, f)
        common = self._common(list(acc))
        if common:
            cd = dict(common)
            acc2 = {}
            for f, c in acc.items():
                g = self._divf(f, cd)
                acc2[g] = acc2.get(g, 0) + c
            acc = {f: c for f, c in acc2.items() if c}
            if len(acc) <= 1:
                return self._sum(acc) * R(Fraction(1), common)
        items = sorted(acc.items())
        lead = items[-1][1]
        items = tuple((f, c / lead) for f, c in items)
        i = self.intern.get(items)
        if i is None:
            with np.errstate(all='ignore'):
                s = np.zeros(K)
                sc = np.zeros(K)
                pos = True
                strict = False
                for f, c in items:
                    t = np.full(K, float(c))
                    for j, p in f:
                        t = t * self.fs[j] ** p
                    s = s + t
                    sc = sc + np.abs(t)
                    if c < 0 or any(p % 2 and not self.fpos_[j] for j, p in f):
                        pos = False
                    elif all(self.fpos_[j] for j, p in f):
                        strict = True
            i = self._newf(None, items, None, s, sc, None, pos and strict)
            self.intern[items] = i
        r = R(lead, ((i, 1),))
        if common:
            r = r * R(Fraction(1), common)
        return r

    def fexpr(self, i):
        z = self.fz[i]
        if z is None:
            todo = [i]
            while todo:
                j = todo[-1]
                if self.fz[j] is not None:
                    todo.pop()
                    continue
                need = [k for f, _ in self.fterms[j] for k, _p in f if self.fz[k] is None]
                if need:
                    todo.extend(need)
                    continue
                self.fz[j] = z3.Sum(*[self.monoz(c, f) for f, c in self.fterms[j]])
                todo.pop()
            z = self.fz[i]
        return z

    def monoz(self, c, f):
        parts = []
        for j, p in f:
            e = self.fz[j]
            if e is None:
                e = self.fexpr(j)
            parts.extend([e] * p)
        if not parts:
            return zrat(c)
        if c != 1:
            parts.insert(0, zrat(c))
        return parts[0] if len(parts) == 1 else z3.Product(*parts)

    def numden(self, r):
        """z3 numerator / denominator of R"""
        n = tuple((i, p) for i, p in r.f if p > 0)
        d = tuple((i, -p) for i, p in r.f if p < 0)
        return self.monoz(r.c, n), self.monoz(Fraction(1), d), [i for i, _ in d]

    # ------------------------------------------------------------ comparisons
    def numsign(self, i):
        """sign of a factor that involves no input (pi, roots and trigonometric values of numbers) and is clearly non-zero, else 0"""
        v = self.xcache.get(('ns', i))
        if v is None:
            v = 0
            x = self.fs[i]
            if self.fterms[i] is not None and np.all(np.abs(x) <= 1e-13 * self.fsc[i]):
                if self.inputfree(i):
                    v = 2
                    self.note('numbers', 'closed numbers equal to 13 digits are taken as equal in comparisons')
            elif np.all(np.abs(x) > 1e-11 * np.maximum(self.fsc[i], 1e-300)) and np.ptp(x) <= 1e-12 * self.fsc[i].max():
                if self.inputfree(i):
                    v = 1 if x[0] > 0 else -1
            self.xcache[('ns', i)] = v
        return v

    def inputfree(self, i):
        t = self.fterms[i]
        if t is not None:
            return all(self.inputfree(j) for f, _ in t for j, _p in f)
        k = ('if', i)
        v = self.xcache.get(k)
        if v is None:
            seen, todo = set(), [self.fnames[i]]
            v = True
            while todo and v:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                if n in self.inputs or n == 'eps!' or n not in self.defs:
                    v = False
                for c in self.defs.get(n, ()):
                    todo.extend(zvars(c))
            self.xcache[k] = v
        return v

    def cmp0(self, r, op):
        if not r.is_const():
            keep, c = [], r.c
            for i, p in r.f:
                g = self.numsign(i)
                if g == 2 and p > 0:
                    return op in ('eq', 'le', 'ge')
                if g in (0, 2):
                    keep.append((i, p))
                elif g < 0 and p % 2:
                    c = -c
            if len(keep) < len(r.f):
                if not keep:
                    return {'eq': False, 'ne': True, 'lt': c < 0, 'le': c < 0, 'gt': c > 0, 'ge': c > 0}[op]
                r = R(c, tuple(keep))
        if r.is_const():
            c = r.c
            return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[op]
        if op in ('eq', 'ne'):
            fs = [i for i, p in r.f if p > 0 and not self.fpos_[i]]
            zs, m = [], np.zeros(K, bool)
            for i in fs:
                zs.append(self.fexpr(i) == 0)
                m |= np.abs(self.fs[i]) <= 1e-11 * np.maximum(self.fsc[i], 1e-300)
            if not zs:
                return op == 'ne'
            b = B(z3.Or(*zs) if len(zs) > 1 else zs[0], m)
            return b if op == 'eq' else T.b_not(b)
        odd = [i for i, p in r.f if p % 2 and not self.fpos_[i]]
        even = [i for i, p in r.f if p % 2 == 0 and p > 0 and not self.fpos_[i]]
        s = np.full(K, 1.0 if r.c > 0 else -1.0)
        for i in odd:
            v = self.fs[i]
            s = s * np.where(np.abs(v) <= 1e-11 * np.maximum(self.fsc[i], 1e-300), 0.0, np.sign(v))
        for i in even:
            v = self.fs[i]
            s = s * np.where(np.abs(v) <= 1e-11 * np.maximum(self.fsc[i], 1e-300), 0.0, 1.0)
        if not odd and not even:
            return {'lt': r.c < 0, 'le': r.c < 0, 'gt': r.c > 0, 'ge': r.c > 0}[op]
        z = self.monoz(Fraction(1), tuple((i, 1) for i in odd) + tuple((i, 2) for i in even)) if True else None
        pos = r.c > 0
        o = op if pos else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[op]
        zz = {'lt': z < 0, 'le': z <= 0, 'gt': z > 0, 'ge': z >= 0}[o]
        mm = {'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0}[op]
        return B(zz, mm)

    # ------------------------------------------------------------ solver
    def cone(self, formulas, with_path=True, hops=99):
        """formulas + everything constraining their variables"""
        vs = set()
        for f in formulas:
            vs |= zvars(f)
        out = []
        usedp = [False] * len(self.pathc)
        seen = set()
        h = 0
        while True:
            new = vs - seen
            if not new and h > 0:
                break
            for v in new:
                seen.add(v)
                for c in self.domain.get(v, ()):
                    out.append(c)
                    vs |= zvars(c)
                for c in self.defs.get(v, ()):
                    out.append(c)
                    vs |= zvars(c)
            if with_path and h < hops:
                cur = set(vs)
                for i, c in enumerate(self.pathc):
                    if not usedp[i] and (zvars(c) & cur):
                        usedp[i] = True
                        out.append(c)
                        vs |= zvars(c)
            h += 1
        return out, vs

    def solve(self, formulas, timeout, kind='ob', tactic=None):
        t = time.time()
        s = z3.Tactic('qfnra-nlsat').solver() if tactic is None else tactic
        s.set('timeout', int(timeout))
        for f in formulas:
            s.add(f)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.queries += 1
        self.stats.time += time.time() - t
        if kind == 'br':
            self.stats.branch_queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            return 'sat', s.model()
        if r == z3.unsat:
            self.stats.unsat += 1
            return 'unsat', None
        self.stats.unknown += 1
        return 'unknown', None

    def nzcons(self, vs, limit=12):
        out = []
        for i in list(self.nz):
            if len(out) >= limit:
                break
            e = self.fexpr(i)
            if zvars(e) <= vs:
                out.append(e != 0)
        return out

    def feasible(self, z, m=None):
        if m is not None and np.any(m & self.alive):
            return True
        k = ('f', z.get_id(), len(self.pathc))
        if k in self.zcache:
            return self.zcache[k][1]
        cons, vs = self.cone([z])
        cons = [z] + cons + self.nzcons(vs)
        r, _ = self.solve(cons, self.branch_timeout, 'br')
        res = r != 'unsat'
        self.zcache[k] = (z, res)
        return res

    def add_path(self, z):
        self.pathc.append(z)

    def branch(self, b):
        z = z3.simplify(b.z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        n = len(self.log)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            ft = self.feasible(b.z, b.m)
            nz_ = z3.Not(b.z)
            ff = self.feasible(nz_, ~b.m) if ft else True
            if not ft:
                d = False
            elif not ff:
                d = True
            else:
                # prefer the side with more samples
                nt = int(np.sum(b.m & self.alive))
                nf = int(np.sum(~b.m & self.alive))
                d = nt >= nf
                self.pending.append(self.log + [not d])
        self.log.append(d)
        self.add_path(b.z if d else z3.Not(b.z))
        self.alive = self.alive & (b.m if d else ~b.m)
        return d

    def choose(self, name, options):
        n = len(self.log)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            d = 0
            for k in range(1, len(options)):
                self.pending.append(self.log + [k])
        self.log.append(d)
        self.choices[name] = d
        return options[d]

    def assume(self, b):
        if b is True or (not isinstance(b, B) and b):
            return
        if not isinstance(b, B):
            raise PathAbort('assumption false')
        if not self.feasible(b.z, b.m):
            raise PathAbort('assumption infeasible')
        self.add_path(b.z)
        self.alive = self.alive & b.m

    def sign_nonneg(self, r):
        if r.is_const():
            return r.c >= 0
        c = self.cmp0(r, 'ge')
        return bool(c)

    def decided_sign(self, r):
        """+1 / -1 if the path condition fixes the (weak) sign of r, else 0; no forking"""
        c = self.cmp0(r, 'ge')
        if not isinstance(c, B):
            return 1 if c else -1
        k = ('s', c.z.get_id(), len(self.pathc))
        if k in self.zcache:
            return self.zcache[k][1]
        res = 0
        mt = c.m & self.alive
        mf = ~c.m & self.alive
        if not (mt.any() and mf.any()):
            if not mf.any() and not self.feasible(z3.Not(c.z)):
                res = 1
            elif not mt.any():
                c2 = self.cmp0(r, 'le')
                if isinstance(c2, B):
                    if not self.feasible(z3.Not(c2.z)):
                        res = -1
                elif c2:
                    res = -1
        self.zcache[k] = (c.z, res)
        return res

    def may_divide(self, r):
        if r.is_const():
            return r.c != 0
        for i, p in r.f:
            if p <= 0 or self.fpos_[i] or i in self.nz:
                continue
            al = self.alive if self.alive.any() else np.ones(K, bool)
            zero = np.abs(self.fs[i][al]) <= 1e-11 * np.maximum(self.fsc[i][al], 1e-300)
            if zero.all():
                e = self.fexpr(i)
                if not self.feasible(e != 0):
                    return False
            self.nz[i] = True
        return True

    # ------------------------------------------------------------ identities split over atoms
    def _has_trans(self, i):
        v = self.xcache.get(('h', i))
        if v is None:
            if i in self.trans:
                v = True
            elif self.fterms[i] is None:
                v = False
            else:
                v = any(self._has_trans(j) for f, _ in self.fterms[i] for j, _p in f)
            self.xcache[('h', i)] = v
        return v

    def _xmul(self, a, b, lim):
        out = {}
        if len(a) * len(b) > 20 * lim:
            return None
        for ma, ra in a.items():
            for mb, rb in b.items():
                d = dict(ma)
                for i, p in mb:
                    d[i] = d.get(i, 0) + p
                big = [i for i, p in d.items() if p >= 2 and i in self.sq]
                r = ra * rb
                if not big:
                    k = tuple(sorted(d.items()))
                    out.setdefault(k, []).append(r)
                    continue
                cur = None
                for i in big:
                    p = d.pop(i)
                    if p % 2:
                        d[i] = 1
                    e = self._xr(self.sq[i], lim)
                    if e is None:
                        return None
                    for _ in range(p // 2):
                        cur = e if cur is None else self._xmul(cur, e, lim)
                        if cur is None:
                            return None
                cur = self._xmul({tuple(sorted(d.items())): r}, cur, lim)
                if cur is None:
                    return None
                for k, v in cur.items():
                    out.setdefault(k, []).append(v)
        return self._xcollect(out, lim)

    def _xcollect(self, out, lim):
        res = {}
        for k, v in out.items():
            r = v[0] if len(v) == 1 else self.add_terms([(x.c, x.f) for x in v if x.c])
            if r.c:
                res[k] = r
            elif len(v) > 1:
                com = dict(self._common([x.f for x in v]))
                self.cancel.append(z3.Sum(*[self.monoz(x.c, self._divf(x.f, com)) for x in v]) != 0)
        return res if len(res) <= lim else None

    def flush_cancel(self):
        """the cancellations done while splitting, put to the solver as one query"""
        c, self.cancel = self.cancel, []
        if c:
            r, _ = self.solve([z3.Or(*c) if len(c) > 1 else c[0]], 20000)
            if r == 'unknown':
                self.stats.unknown -= 1     # settled by exact rational arithmetic alone
                self.note('normal form', 'cancellation batch not confirmed by z3 in 20 s')
            elif r == 'sat':
                raise Unsupported('engine: solver contradicts the normal form')

    def _xf(self, i, lim):
        """expansion {monomial over self.trans: R} of factor i"""
        key = ('x', i)
        if key in self.xcache:
            return self.xcache[key]
        if i in self.trans:
            e = {((i, 1),): ONE}
        elif not self._has_trans(i):
            e = {(): R(Fraction(1), ((i, 1),))}
        else:
            out = {}
            e = None
            for f, c in self.fterms[i]:
                t = self._xr(R(c, f), lim)
                if t is None:
                    break
                for k, v in t.items():
                    out.setdefault(k, []).append(v)
            else:
                e = self._xcollect(out, lim)
        self.xcache[key] = e
        return e

    def _xr(self, r, lim):
        cur = {(): R(r.c, tuple((i, p) for i, p in r.f if not self._has_trans(i)))}
        for i, p in r.f:
            if not self._has_trans(i):
                continue
            if p < 0:
                return None
            e = self._xf(i, lim)
            if e is None:
                return None
            for _ in range(p):
                cur = self._xmul(cur, e, lim)
                if cur is None:
                    return None
        return cur

    def split_zero(self, fid, timeout, with_path, lim=4000, kind='ob', left=None):
        """every coefficient of factor fid, as a polynomial in the transcendental/irrational
        atoms, is zero (solver-decided): sufficient for fid == 0"""
        if not self._has_trans(fid):
            return False
        e = self._xf(fid, lim)
        if kind == 'ob':
            self.flush_cancel()
        if e is None:
            return False
        for r in e.values():
            if r.is_const():
                return False
            with np.errstate(all='ignore'):
                al = self.al()
                v = r.v[al]
            fs = [i for i, p in r.f if p > 0]
            ok = False
            for i in fs:
                if np.all(np.abs(self.fs[i][al]) <= 1e-7 * np.maximum(self.fsc[i][al], 1e-300)):
                    ok = True
            if not ok:
                return False
        for r in e.values():
            fs = [i for i, p in r.f if p > 0]
            z = z3.And(*[self.fexpr(i) != 0 for i in fs]) if len(fs) > 1 else self.fexpr(fs[0]) != 0
            k = ('e0', z.get_id(), len(self.pathc) if with_path else -1)
            if k in self.zcache:
                if not self.zcache[k][1]:
                    return False
                continue
            cons, vs = self.cone([z], with_path=with_path)
            res, _ = self.solve([z] + cons + self.nzcons(vs), timeout, kind)
            self.zcache[k] = (z, res == 'unsat')
            if res != 'unsat':
                return False
        return True

    # ------------------------------------------------------------ valid(eq) under path
    def same(self, a, b, timeout=4000):
        """solver-confirmed equality of two R on the current path"""
        d = a - b
        if d.is_const():
            return d.c == 0
        fs = [i for i, p in d.f if p > 0]
        z = z3.And(*[self.fexpr(i) != 0 for i in fs])
        k = ('e', z.get_id(), len(self.pathc))
        if k in self.zcache:
            return self.zcache[k][1]
        for i in fs:
            if self.split_zero(i, timeout, False, lim=150, kind='br'):
                self.zcache[k] = (z, True)
                return True
        res = False
        cons, vs = self.cone([z], with_path=False)
        r, _ = self.solve([z] + cons + self.nzcons(vs), timeout, 'br')
        if r == 'unsat':
            res = True
        else:
            cons, vs = self.cone([z])
            r, _ = self.solve([z] + cons + self.nzcons(vs), timeout, 'br')
            res = r == 'unsat'
        self.zcache[k] = (z, res)
        return res

    def al(self):
        return self.alive if self.alive.any() else np.ones(K, bool)

    def close(self, a, b, tol=1e-8):
        with np.errstate(all='ignore'):
            al = self.al()
            x, y = a[al], b[al]
            return bool(np.all(np.abs(x - y) <= tol * (np.abs(x) + np.abs(y) + 1e-300)))

    # ------------------------------------------------------------ sqrt / exp / trig / uf
    def hint_root(self, r):
        """r >= 0 : candidate square root"""
        if not r.is_const():
            self.hints.append(r)

    def fsize(self, i):
        """number of leaf terms of a factor"""
        k = ('sz', i)
        v = self.xcache.get(k)
        if v is None:
            t = self.fterms[i]
            v = 1 if t is None else sum(max([1] + [self.fsize(j) for j, _p in f]) for f, _ in t)
            self.xcache[k] = v
        return v

    def rsize(self, r):
        return max([1] + [self.fsize(i) for i, _ in r.f])

    def real_sqrt(self, x):
        c = x.c
        # rational square part
        n = c.numerator * c.denominator
        den = c.denominator
        k, sqf = 1, abs(n)
        p = 2
        while p * p <= sqf and p < 2000:
            while sqf % (p * p) == 0:
                sqf //= p * p
                k *= p
            p += 1
        rt = math.isqrt(sqf)
        if rt * rt == sqf:
            k *= rt
            sqf = 1
        sgn = 1 if n > 0 else -1
        out = R(Fraction(k, den))
        inner = R(Fraction(sgn * sqf))
        outd = []
        for i, p in x.f:
            if p % 2:
                inner = inner * R(Fraction(1), ((i, 1),))
                p -= 1
            if p:
                if self.fpos_[i]:
                    out = out * R(Fraction(1), ((i, p // 2),))
                else:
                    f1 = R(Fraction(1), ((i, 1),))
                    sg = self.decided_sign(f1) if self.fsize(i) <= BIG else 0
                    if sg == 0:
                        if (p // 2) % 2 == 0:
                            out = out * R(Fraction(1), ((i, p // 2),))
                        else:
                            inner = inner * R(Fraction(1), ((i, p),))
                    else:
                        out = out * R(Fraction(1 if sg > 0 or (p // 2) % 2 == 0 else -1), ((i, p // 2),))
        if inner.is_const() and inner.c == 1:
            return out
        # hints
        vin = inner.v
        for h in self.hints:
            hv = h.v
            if self.close(hv * hv, vin):
                if self.same(h * h, inner):
                    return out * h
            # up to a positive rational scale: sqrt(q h^2)
        # whole-value hints (root of x, not only of the square-free part)
        vx = x.v
        for h in self.hints:
            if self.close(h.v * h.v, vx) and self.same(h * h, x):
                return h
        for a, s in self.sqrt_atoms:
            if self.close(a.v, vin) and self.same(a, inner):
                return out * s
        # the same up to a positive rational scale
        al = np.flatnonzero(self.alive)
        if al.size and not inner.is_const():
            for a, s in self.sqrt_atoms:
                if a.is_const():
                    continue
                with np.errstate(all='ignore'):
                    q = vin[al] / a.v[al]
                if np.all(np.isfinite(q)) and q[0] > 0 and np.all(np.abs(q - q[0]) <= 1e-12 * q[0]):
                    fq = Fraction(float(q[0])).limit_denominator(4096)
                    if abs(float(fq) - q[0]) <= 1e-12 * q[0] and self.same(a * R(fq), inner):
                        return out * s * self.real_sqrt(R(fq))
        with np.errstate(all='ignore'):
            samp = np.sqrt(np.where(vin > 0, vin, 0.0))
        nz_, dz_, _ = self.numden(inner)
        s = self.atom('sqrt', samp, [lambda z: z >= 0, lambda z: z * z * dz_ == nz_],
                      pos=self.is_pos(inner))
        i = s.f[0][0]
        self.sq[i] = inner
        self.trans.add(i)
        self.sqrt_atoms.append((inner, s))
        return out * s

    def is_pos(self, r):
        if r.is_const():
            return r.c > 0
        return r.c > 0 and all(self.fpos_[i] for i, _ in r.f)

    def complex_sqrt(self, x):
        for h in self.chints:
            hv = h.v
            if self.close(hv * hv, x.v):
                h2 = h * h
                if self.same(h2.re, x.re) and self.same(h2.im, x.im):
                    return h
        half = R(Fraction(1, 2))
        if max(self.rsize(x.re), self.rsize(x.im)) > BIG and (self.is_pos(x.re) or self.may_divide(x.im)):
            # u = Re sqrt(x) >= 0 with 4 u^4 - 4 Re(x) u^2 = Im(x)^2
            k = ('cs', x.re.c, x.re.f, x.im.c, x.im.f)
            u = self.xcache.get(k)
            if u is None:
                with np.errstate(all='ignore'):
                    samp = np.sqrt(np.broadcast_to(x.re.v, (K,)) + 1j * np.broadcast_to(x.im.v, (K,))).real
                n1, d1, _ = self.numden(x.re)
                n2, d2, _ = self.numden(x.im)
                u = self.atom('csqrt', samp, [lambda z: z > 0, lambda z: (4 * z * z * z * z * d1 - 4 * n1 * z * z) * d2 * d2 == n2 * n2 * d1], pos=True)
                self.xcache[k] = u
            return S(u, x.im * half * u.inv())
        m = self.real_sqrt(x.re * x.re + x.im * x.im)
        u = self.real_sqrt((m + x.re) * half)
        if not self.may_divide(u):
            raise Unsupported('complex sqrt on the branch cut')
        v = x.im * half * u.inv()
        return S(u, v)

    def _decompose(self, arg, bases, extra=()):
        """integer coefficients with arg = sum n_k base_k (+ q*extra), guessed from samples"""
        fin = np.isfinite(arg.v)
        for b in list(bases) + list(extra):
            fin = fin & np.isfinite(b.v)
        r = self._decompose_on(np.flatnonzero(fin), arg, bases, extra)
        if r is None and not self.alive.all():
            r = self._decompose_on(np.flatnonzero(self.al() & fin), arg, bases, extra)
        return r

    def _decompose_on(self, al, arg, bases, extra):
        if not len(al):
            return None
        tgt = arg.v[al]
        cols = [b.v[al] for b in bases] + [e.v[al] for e in extra]
        if not cols:
            return None
        # one base at a time first
        single = []
        for k, cvec in enumerate(cols):
            with np.errstate(all='ignore'):
                q = tgt / cvec
            if np.all(np.isfinite(q)) and np.all(np.abs(q - q[0]) <= 1e-9 * (1 + abs(q[0]))):
                f = Fraction(float(q[0])).limit_denominator(24)
                if abs(float(f) - q[0]) < 1e-8 and abs(f) < 200:
                    out = [Fraction(0)] * len(cols)
                    out[k] = f
                    single.append(((abs(f) != 1, f.denominator, k), out))
        if single:
            return min(single)[1]
        A = np.array(cols).T
        if A.shape[0] <= A.shape[1]:
            return None
        scale = np.max(np.abs(A), axis=0)
        scale[scale == 0] = 1
        x, _res, rank, _sv = np.linalg.lstsq(A / scale, tgt, rcond=1e-11)
        if rank < A.shape[1]:
            # dependent columns: keep an independent subset, in order
            keep, Q = [], np.zeros((A.shape[0], 0))
            for k in range(A.shape[1]):
                u = A[:, k] / scale[k]
                w = u - Q @ (Q.T @ u)
                w = w - Q @ (Q.T @ w)
                if np.linalg.norm(w) > 1e-9 * (np.linalg.norm(u) + 1e-300):
                    keep.append(k)
                    Q = np.column_stack([Q, w / np.linalg.norm(w)])
            y = np.linalg.lstsq(A[:, keep] / scale[keep], tgt, rcond=None)[0]
            x = np.zeros(A.shape[1])
            x[keep] = y
        x = x / scale
        if np.max(np.abs(A @ x - tgt)) > 1e-8 * (1e-300 + np.max(np.abs(tgt))):
            return None
        out = []
        for q in x:
            f = Fraction(float(q)).limit_denominator(24)
            if abs(float(f) - q) > 1e-6 or abs(f) > 200:
                return None
            out.append(f)
        return out

    def _confirm(self, arg, coefs, bases):
        acc = ZERO
        for q, b in zip(coefs, bases):
            if q:
                acc = acc + b * R(q)
        return self.same(arg, acc)

    def real_exp(self, a):
        if a.c == 0 or self.eps_deg(a) > 0:
            return ONE
        bases = [b for b, _ in self.exp_bases]
        co = self._decompose(a, bases)
        if co is not None and self._confirm(a, co, bases):
            dens = 1
            for q in co:
                dens = dens * q.denominator // math.gcd(dens, q.denominator)
            if dens == 1:
                r = ONE
                for q, (_, e) in zip(co, self.exp_bases):
                    if q:
                        n = int(q)
                        i = e.f[0][0]
                        r = r * R(Fraction(1), ((i, n),))
                return r
            # exp(b*p/q): a finer base e' with e'^q = e
            nz_ = [k for k, q in enumerate(co) if q]
            if len(nz_) == 1:
                k = nz_[0]
                b, e = self.exp_bases[k]
                q = co[k].denominator
                with np.errstate(all='ignore'):
                    fine = self.atom('exp', np.exp(b.v / q), [lambda z: z > 0], pos=True)
                ez = self.fexpr(e.f[0][0])
                fz = self.fexpr(fine.f[0][0])
                self.defs['exp!dummy'] = []
                nm = self.fnames[fine.f[0][0]]
                self.defs[nm].append(z3.Product(*([fz] * q)) == ez)
                self.exp_bases.append((b * R(Fraction(1, q)), fine))
                self.trans.add(fine.f[0][0])
                return R(Fraction(1), ((fine.f[0][0], int(co[k].numerator)),))
        with np.errstate(all='ignore'):
            e = self.atom('exp', np.exp(a.v), [lambda z: z > 0], pos=True, free=True)
        self.exp_bases.append((a, e))
        self.trans.add(e.f[0][0])
        return e

    def angle_base(self, a):
        """make a (an R) an elementary angle: (cos, sin) a point of the unit circle,
        parametrised by t = tan(a/2)"""
        with np.errstate(all='ignore'):
            t = self.atom('tanh', np.tan(a.v / 2), [], free=True)
            zt = self.fz[t.f[0][0]]
            c = self.atom('cos', np.cos(a.v), [lambda z: z * (1 + zt * zt) == 1 - zt * zt])
            zc = self.fz[c.f[0][0]]
            s = self.atom('sin', np.sin(a.v), [lambda z: z * (1 + zt * zt) == 2 * zt,
                                              lambda z: z * z + zc * zc == 1])
        self.sq[s.f[0][0]] = ONE - c * c
        self.trans.update((s.f[0][0], c.f[0][0]))
        self.ang_bases.append((a, s, c, t))
        return s, c

    def sincos(self, b):
        if b.c == 0:
            return ZERO, ONE
        if self.eps_deg(b) > 0:
            return b, ONE
        if abs(b.c) <= Fraction(1, 10**9) and np.all(np.abs(b.v[self.al()]) <= 1e-6):
            self.note('regulariser', 'angle of size < 1e-6 with a coefficient < 1e-9 taken as 0')
            return ZERO, ONE
        bases = [x[0] for x in self.ang_bases]
        co = self._decompose(b, bases, extra=(self.pi,))
        if co is not None and self._confirm(b, co, bases + [self.pi]):
            q = co[-1]
            kk = co[:-1]
            if all(f.denominator == 1 for f in kk) and (q * 12).denominator == 1:
                s, c = self._pi_sincos(q)
                for f, (_, bs, bc, _t) in zip(kk, self.ang_bases):
                    n = int(f)
                    if n:
                        s2, c2 = self._multi(bs, bc, n)
                        s, c = s * c2 + c * s2, c * c2 - s * s2
                return s, c
            # single base, finer angle needed
            nzk = [k for k, f in enumerate(kk) if f.denominator != 1]
            if len(nzk) == 1 and kk[nzk[0]].denominator == 2:
                k = nzk[0]
                b0, s0, c0, t0 = self.ang_bases[k]
                sh, ch = self.angle_base(b0 * R(Fraction(1, 2)))
                th = self.ang_bases[-1][3]
                zt0 = self.fexpr(t0.f[0][0])
                zth = self.fexpr(th.f[0][0])
                nm = self.fnames[th.f[0][0]]
                self.defs[nm].append(zt0 * (1 - zth * zth) == 2 * zth)
                self.freepins.pop(nm, None)
                self.ang_bases.insert(k, self.ang_bases.pop())
                return self.sincos(b)
        s, c = self.angle_base(b)
        return s, c

    def _multi(self, s, c, n):
        if n < 0:
            s = s.neg()
            n = -n
        rs, rc = ZERO, ONE
        for _ in range(n):
            rs, rc = rs * c + rc * s, rc * c - rs * s
        return rs, rc

    def _pi_sincos(self, q):
        k = int(q * 12) % 24
        table = {0: (0, 1), 6: (1, 0), 12: (0, -1), 18: (-1, 0)}
        if k in table:
            s, c = table[k]
            return R(Fraction(s)), R(Fraction(c))
        h = Fraction(1, 2)
        r2 = lambda: self.real_sqrt(R(Fraction(2))) * R(h)
        r3 = lambda: self.real_sqrt(R(Fraction(3))) * R(h)
        hh = R(h)
        quad, rem = divmod(k, 6)
        if rem == 2:
            s, c = hh, r3()
        elif rem == 4:
            s, c = r3(), hh
        elif rem == 3:
            s, c = r2(), r2()
        else:
            s15 = (self.real_sqrt(R(Fraction(6))) - self.real_sqrt(R(Fraction(2)))) * R(Fraction(1, 4))
            c15 = (self.real_sqrt(R(Fraction(6))) + self.real_sqrt(R(Fraction(2)))) * R(Fraction(1, 4))
            s, c = (s15, c15) if rem == 1 else (c15, s15)
        for _ in range(quad):
            s, c = c, s.neg()
        return s, c

    def uf(self, name, arg, fn, constraints=(), odd=None):
        """uninterpreted real function with solver-checked congruence"""
        lst = self.ufs.setdefault(name, [])
        va = arg.v
        for a, r in lst:
            if self.close(a.v, va) and self.same(a, arg):
                return r
            if odd is not None and self.close(a.v, -va) and self.same(a, arg.neg()):
                return r.neg() if odd else r
        with np.errstate(all='ignore'):
            s = fn(va)
        r = self.atom(name, s, list(constraints), free=True)
        self.trans.add(r.f[0][0])
        lst.append((arg, r))
        return r

    def angle_of(self, x):
        """principal argument of x in (-pi, pi]"""
        re, im = x.re, x.im
        if im.c == 0:
            return ZERO if self.sign_nonneg(re) else self.pi
        if re.c == 0:
            h = self.pi * R(Fraction(1, 2))
            return h if self.sign_nonneg(im) else h.neg()
        m = self.real_sqrt(re * re + im * im)
        if not self.may_divide(m):
            return ZERO
        mi = m.inv()
        s, c = im * mi, re * mi
        for a, s2, c2, _t in self.ang_bases:
            if getattr(a, 'f', None) and self.close(s2.v, s.v) and self.close(c2.v, c.v) \
                    and np.all(np.abs(a.v[self.al()]) <= math.pi) and self.same(s2, s) and self.same(c2, c):
                return a
        pz = self.zv[self.fnames[self.pi.f[0][0]]]
        n, d, _ = self.numden(im)
        a = self.atom('ang', np.arctan2(im.v, re.v),
                      [lambda z: z3.And(z > -pz, z <= pz), lambda z: (z >= 0) == (n * d >= 0)], free=True)
        self.ang_bases.append((a, s, c, None))
        return a

    def floor_int(self, r):
        if r.is_const():
            return math.floor(r.c)
        tried = set()
        for _ in range(40):
            al = np.flatnonzero(self.alive)
            k = None
            for a in al:
                kk = math.floor(r.v[a] + 1e-12)
                if kk not in tried:
                    k = kk
                    break
            if k is None:
                n, d, _ = self.numden(r)
                zt = z3.Real('floor!t')
                cons, vs = self.cone([n == n, d == d] if False else [zt * d == n])
                res, m = self.solve([zt * d == n] + cons, 3 * self.branch_timeout, 'br')
                if res == 'unsat':
                    raise PathAbort('floor: no value')
                if res == 'unknown':
                    raise Unsupported('floor of a symbolic value')
                val = m.eval(zt, model_completion=True)
                k = math.floor(_zfloat(val))
            tried.add(k)
            lo = self.cmp0(r - R(Fraction(k)), 'ge')
            hi = self.cmp0(r - R(Fraction(k + 1)), 'lt')
            b = T.b_and(lo, hi)
            if (b is True) or (isinstance(b, B) and bool(b)):
                return k
        raise Unsupported('floor: too many integer values')

    def to_int(self, x):
        if x.nan:
            raise ValueError('cannot convert float NaN to integer')
        if not x.is_real():
            raise TypeError("can't convert complex to int")
        if x.is_const():
            return math.trunc(x.re.c)
        if bool(self.cmp0(x.re, 'ge')):
            return self.floor_int(x.re)
        return -self.floor_int(x.re.neg())

    # ------------------------------------------------------------ models
    def pin(self, j, names=None):
        """formulas fixing variables to sample j"""
        out = []
        for n, samp in self.inputs.items():
            if names is None or n in names:
                out.append(self.zv[n] == zrat(samp[j]))
        return out

    def pin_free(self, j, names=None):
        out = []
        for n, v in self.freepins.items():
            if n == 'pi!' or not np.isfinite(v[j]):
                continue
            if names is None or n in names:
                q = Fraction(float(v[j])).limit_denominator(10**7)
                out.append(self.zv[n] == zrat(q))
        return out

    def model_inputs(self, m):
        out = {}
        for n in self.inputs:
            v = m.eval(self.zv[n], model_completion=False)
            if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                # unconstrained by the query: take a sample value
                al = np.flatnonzero(self.al())
                out[n] = float(self.inputs[n][al[0]])
            else:
                out[n] = _zfloat(v)
        return out


def _zfloat(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise Unsupported('non-numeric model value')
