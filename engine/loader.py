"""Loads legume from /repo's current source on top of the symbolic shim.

Every run re-reads the source.  The AST is transformed minimally: attribute loads
.real/.imag/.astype/... go through helpers (numpy object arrays have no useful
.real), and every function notes its own entry (reported as 'functions encoded').
"""
import ast
import builtins
import os
import sys
import types
from . import shim
from . import terms as T
from .shim import NPShim, FloatT, IntT, ComplexT

REPO = os.environ.get('VERIF_REPO', '/repo')


class Rewriter(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in shim.ATTRS and isinstance(node.ctx, ast.Load):
            if isinstance(node.value, ast.Name) and node.value.id in (
                    'np', 'npa', 'bd', 'numpy', 'backend', 'scipy', 'sp', 'spa', 'cls'):
                return node
            return ast.copy_location(ast.Call(
                func=ast.Name(id='__verif_attr_' + node.attr + '__', ctx=ast.Load()),
                args=[node.value], keywords=[]), node)
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        q = self.mod + '.' + '.'.join(self.stack)
        self.stack.pop()
        call = ast.Expr(ast.Call(func=ast.Name(id='__verif_enter__', ctx=ast.Load()),
                                 args=[ast.Constant(q)], keywords=[]))
        ast.copy_location(call, node)
        ast.fix_missing_locations(call)
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(getattr(node.body[0], 'value', None), ast.Constant):
            i = 1
        node.body.insert(i, call)
        return node

    visit_FunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_BinOp(self, node):
        # "text %4e" % values: messages only, formatted with a sample value
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(func=ast.Name(id='__verif_fmt__', ctx=ast.Load()),
                                              args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        # np.real(x) etc. untouched; type(x) == np.ndarray untouched
        return node


def attr_helper(n):
    f = shim.ATTRS[n]

    def g(x):
        import numpy as np
        if isinstance(x, np.ndarray):
            return f(x)
        return getattr(x, n)
    return g


def fmt_helper(text, vals):
    import numpy as np
    one = lambda x: x if not isinstance(x, T.S) else float(np.ravel(x.re.v)[0])
    return text % (tuple(one(x) for x in vals) if isinstance(vals, tuple) else one(vals))


class Stub(types.ModuleType):
    """A module whose every attribute is a do-nothing callable/stub (formatting, plotting)"""
    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return StubObj(self.__name__ + '.' + n)


class StubObj:
    def __init__(self, n='stub'):
        self._n = n

    def __call__(self, *a, **k):
        return StubObj(self._n)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return StubObj(self._n + '.' + n)

    def __mro_entries__(self, bases):
        return (object,)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(())

    def __getitem__(self, k):
        return StubObj(self._n)

    def __add__(self, o):
        return self


class SymLegume:
    """One loaded copy of legume (module registry)."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.entered = set()
        self.np = NPShim('numpy')
        self.extern = {}
        self._externs()
        self.depth = 0

    def _externs(self):
        import numpy as np
        E = self.extern
        E['numpy'] = self.np
        E['numpy.linalg'] = self.np.linalg

        def mod(name, **kw):
            m = types.ModuleType(name)
            m.__path__ = []
            m.__dict__.update(kw)
            E[name] = m
            return m
        import scipy.constants
        special = mod('scipy.special', j1=self._j1, jv=self._jv)
        lin = mod('scipy.linalg', toeplitz=shim.toeplitz, block_diag=shim.block_diag, inv=shim.inv, solve=shim.solve,
                  eigh=shim.eigh_default, eig=shim.eigh_default, det=shim.det, norm=shim.norm_)
        opt = mod('scipy.optimize', brentq=self._need_stub('brentq'), minimize=self._need_stub('minimize'),
                  bisect=self._need_stub('bisect'))
        from . import sparse as sps
        spl = mod('scipy.sparse.linalg', eigsh=shim.eigh_default, cg=self._need_stub('cg'), eigs=shim.eigh_default)
        sparse = mod('scipy.sparse', coo_matrix=sps.coo_matrix, csr_matrix=sps.csr_matrix, csc_matrix=sps.csc_matrix,
                     coo_array=sps.coo_matrix, linalg=spl, issparse=sps.issparse, block_diag=sps.block_diag)
        mod('scipy', special=special, linalg=lin, optimize=opt, sparse=sparse, constants=scipy.constants)
        E['scipy.constants'] = scipy.constants
        mpath = mod('matplotlib.path', Path=SymPath)
        mod('matplotlib', path=mpath).__class__ = Stub
        from . import agstub
        agstub.install(self)

    def _need_stub(self, n):
        def f(*a, **k):
            raise T.Unsupported('%s reached without a stub' % n)
        return f

    def _j1(self, x):
        import scipy.special as ss
        return shim.emap(lambda e: bessel(e, 1))(x)

    def _jv(self, n, x):
        return shim.emap(lambda e: bessel(e, int(n)))(x)

    # ------------------------------------------------ importing
    def imp(self, name):
        if name in self.extern:
            return self.extern[name]
        top = name.split('.')[0]
        if top == 'legume':
            return self.load(name)
        if top in ('rich', 'matplotlib', 'gdspy', 'skimage', 'tqdm', 'mpl_toolkits'):
            parts = name.split('.')
            for i in range(len(parts)):
                n = '.'.join(parts[:i + 1])
                if n not in self.extern:
                    self.extern[n] = Stub(n)
                    if i:
                        setattr(self.extern['.'.join(parts[:i])], parts[i], self.extern[n])
            return self.extern[name]
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__']
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        top = name.split('.')[0]
        if name.startswith(('numpy.core.', 'numpy._core.')):    # numpy itself, called with numbers only
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if top not in ('legume', 'numpy', 'scipy', 'autograd', 'rich', 'matplotlib', 'gdspy', 'skimage', 'tqdm', 'mpl_toolkits'):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        m = self.imp(name)
        if m is None:
            raise ImportError('no stand-in for module %s' % name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        sub = self.imp(name + '.' + f)
                    except ImportError:
                        sub = None
                    if sub is not None and not isinstance(m, Stub):
                        setattr(m, f, sub)
            return m
        # import a.b.c  -> returns a
        if '.' in name:
            parts = name.split('.')
            for i in range(1, len(parts)):
                self.imp('.'.join(parts[:i + 1]))
            r = self.imp(parts[0])
            return r
        return m

    def _find(self, name):
        rel = name.replace('.', '/')
        p = os.path.join(self.repo, rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, ispkg = self._find(name)
        if path is None:
            raise ImportError('No module named %r' % name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        src = open(path).read()
        tree = ast.parse(src, path)
        tree = Rewriter(name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        b['float'] = FloatT
        b['int'] = IntT
        b['complex'] = ComplexT
        b['range'] = sym_range
        b['sum'] = sym_sum
        b['print'] = lambda *a, **k: None
        b['__verif_enter__'] = self.entered.add
        b['isinstance'] = sym_isinstance
        b['__verif_fmt__'] = fmt_helper
        b['type'] = sym_type
        for n in shim.ATTRS:
            b['__verif_attr_' + n + '__'] = attr_helper(n)
        m.__dict__['__builtins__'] = b
        m.__dict__['legume'] = self.mods.get('legume', m)
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if m.__dict__.get('legume') is self.mods.get('legume') and name != 'legume' and 'legume' not in src:
            m.__dict__.pop('legume', None)
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m


class SymPath:
    """matplotlib.path.Path stand-in: even-odd rule on symbolic coordinates"""

    def __init__(self, vertices, *a, **k):
        self.v = shim.asarray(vertices)
        self.vertices = self.v

    def contains_points(self, pts, *a, **k):
        import numpy as np
        pts = shim.asarray(pts)
        out = []
        n = len(self.v)
        for (x, y) in pts:
            inside = False
            for i in range(n):
                x1, y1 = self.v[i]
                x2, y2 = self.v[(i + 1) % n]
                up1, up2 = bool(T.S.of(y1) > y), bool(T.S.of(y2) > y)
                if up1 != up2:
                    # crossing to the right of the point?
                    cr = (T.S.of(x2) - x1) * (T.S.of(y) - y1) - (T.S.of(x) - x1) * (T.S.of(y2) - y1)
                    if bool(cr > 0) == up2:
                        inside = not inside
            out.append(inside)
        return np.array(out, dtype=bool)


def bessel(e, n):
    import numpy as np
    import scipy.special as ss
    if not e.nan and n == 1 and e.is_real() and e.re.c != 0 and (T.world().eps_deg(e.re) > 0 or np.all(np.abs(e.re.v) < 1e-8)):
        T.world().note('regulariser', 'J1(x) = x/2 for infinitesimal x')
        return e / 2
    if e.nan:
        return T.NAN
    if not e.is_real():
        raise T.Unsupported('bessel of complex')
    if e.re.c == 0:
        return T.S0 if n > 0 else T.S1
    return T.S(T.world().uf('J%d' % n, e.re, lambda v: ss.jv(n, v), odd=(n % 2 == 1)))


def sym_range(*a):
    return range(*[x.__index__() if isinstance(x, T.S) else x for x in a])


def sym_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sym_isinstance(x, t):
    if isinstance(x, T.S):
        ts = t if isinstance(t, tuple) else (t,)
        for q in ts:
            if q is FloatT or q is float:
                if x.is_real():
                    return True
            elif q is ComplexT or q is complex:
                if not x.is_real():
                    return True
            elif isinstance(q, type) and q is not FloatT and q.__module__ == 'numbers':
                return True
        return False
    return isinstance(x, t)


def sym_type(*a):
    if len(a) == 1 and isinstance(a[0], T.S):
        return FloatT if a[0].is_real() else ComplexT
    if len(a) == 1 and type(a[0]) is float:
        return FloatT
    if len(a) == 1 and type(a[0]) is int:
        return IntT
    return type(*a)
