"""C32 progress reports, clocks and descriptions never change or stop a calculation"""
import re
from props.C19 import make as gme_make
from props.C23 import make as exc_make
from props.C24 import setup as pol_setup
BOUNDS = ('every duration of each step between two clock readings: positive, zero, or (clock set back) negative; verbose on and off, both print backends; guided-mode expansion with interpolated and exact guided modes, with and without '
          'symmetry separation, with losses; exciton and polariton solver; progress bars of every length and every fraction')
OUTSIDE = 'terminal rendering by the rich package (its Table and Console are recorders); wording of the report lines beyond the quantity each one names'
STUBS = 'the steps of each calculation (guided modes, permittivity, matrix elements, separation, eigh/eig, losses) advance the clock by a symbolic amount; print, stdout, rich Table and Console record what they are given'


class Sec:
    """python float of symbolic value: dividing by zero raises, formatting leaves a token"""
    def __init__(s, ctx, v, log):
        s.ctx, s.v, s.log = ctx, v, log

    def _v(s, o):
        return o.v if isinstance(o, Sec) else o

    def _new(s, v):
        return Sec(s.ctx, v, s.log)
    def __add__(s, o): return s._new(s.v + s._v(o))
    __radd__ = __add__
    def __sub__(s, o): return s._new(s.v - s._v(o))
    def __rsub__(s, o): return s._new(s._v(o) - s.v)
    def __mul__(s, o): return s._new(s.v * s._v(o))
    __rmul__ = __mul__
    def __neg__(s): return s._new(-s.v)

    def _div(s, a, b):
        if bool(b == 0):
            raise ZeroDivisionError('float division by zero')
        return s._new(a / b)
    def __truediv__(s, o): return s._div(s.v, s._v(o))
    def __rtruediv__(s, o): return s._div(s._v(o), s.v)
    def __bool__(s): return not bool(s.v == 0)
    def __eq__(s, o): return bool(s.v == s._v(o))
    def __ne__(s, o): return not bool(s.v == s._v(o))
    def __lt__(s, o): return bool(s.v < s._v(o))
    def __le__(s, o): return bool(s.v <= s._v(o))
    def __gt__(s, o): return bool(s.v > s._v(o))
    def __ge__(s, o): return bool(s.v >= s._v(o))
    def __abs__(s): return s._new(s.ctx.np.abs(s.v))
    __hash__ = None

    def __format__(s, spec):
        s.log.append((s.v, spec))
        return '{#%d}' % (len(s.log) - 1)
    def __str__(s): return format(s, '')
    __repr__ = __str__


class Clock:
    def __init__(s, ctx, kind):
        s.ctx, s.kind, s.log, s.n = ctx, kind, [], {}
        s.d = {}
        s.now = Sec(ctx, 1000., s.log)

    def dt(s, name):
        if name not in s.d:
            lo, hi = dict(forward=(0.125, 4), still=(0, 0), any=(-1, 1))[s.kind]
            s.d[name] = s.ctx.real('t_' + name, lo, hi) if s.kind != 'still' else 0.
        return s.d[name]

    def tick(s, name):
        s.n[name] = s.n.get(name, 0) + 1
        s.now = s.now + s.dt(name)

    def total(s, *names):
        return sum([s.n.get(x, 0) * s.dt(x) for x in names], 0.)

    def wrap(s, obj, name, tick):
        f = getattr(obj, name, None)
        if f is None:       # no such step: it takes no time
            return

        def g(*a, **k):
            s.tick(tick)
            return f(*a, **k)
        s.ctx.patch(obj, name, g)

    def install(s, *mods):
        class T:
            time = perf_counter = monotonic = staticmethod(lambda: s.now)
        for m in mods:
            s.ctx.patch(s.ctx.mod(m), 'time', T)


class Out:
    """what was printed: list of lines (a table row is a line)"""
    def __init__(s, ctx, backend, clock):
        s.lines, s.clock = [], clock
        pu = ctx.mod('legume.print_utils')
        out = s

        class Table:
            def __init__(t, *a, **k): t.rows = []
            def add_column(t, *a, **k): t.rows.append(' '.join(map(str, a)))
            def add_row(t, *a, **k): t.rows.append(' '.join(map(str, a)))
            def add_section(t, *a, **k): pass

        class Console:
            def __init__(t, *a, **k): pass
            def print(t, table, *a, **k): out.lines.extend(table.rows)

        class Std:
            write = staticmethod(lambda t: out.lines.append(t))
            flush = staticmethod(lambda: None)

        class Sys:
            stdout = Std
        ctx.patch(pu, 'print', lambda *a, **k: out.lines.append(' '.join(map(str, a))))
        ctx.patch(pu, 'Table', Table)
        ctx.patch(pu, 'Console', Console)
        ctx.patch(pu, 'sys', Sys)
        bar = pu.load_bar

        def load_bar(p, *a, **k):
            return bar(p, *a, **k) if not isinstance(p, Sec) else 'bar' + format(p, 'bar')
        ctx.patch(pu, 'load_bar', load_bar)
        be = ctx.mod('legume.print_backend')
        be.set_print_backend(backend)

    def text(s):
        return [x for x in s.lines if x.strip()]

    def line(s, ctx, part, secs, perc=None):
        """the line that names this step gives its seconds and its share"""
        L = [x for x in s.lines if part in x.lower() and '{#' in x]
        ctx.same(len(L), 1, 'one line for %s' % part)
        if len(L) != 1:
            return
        tok = [s.clock.log[int(i)] for i in re.findall(r'\{#(\d+)\}', L[0])]
        ctx.eq(tok[0][0], secs, 'seconds of %s' % part)
        for v, spec in tok[1:]:
            if perc is not None:
                ctx.eq(v, perc, 'share of %s' % part)
        ctx.same(len(tok) > 1, perc is not None, 'share given for %s' % part)


def quiet(ctx, out, verbose):
    if verbose:
        ctx.same(len(out.text()) > 0, True, 'report printed')
    else:
        ctx.same(out.text(), [], 'nothing printed')


def h_gme(ctx, backend='base', verbose=True, kind='forward', exact=False, symm=None, sparse=False, im=True, nk=1):
    np = ctx.np
    gm = ctx.mod('legume.gme.gme')
    g, N = gme_make(ctx, 'rectangular', 1.2, (0, 1), 0)
    c = Clock(ctx, kind)
    out = Out(ctx, backend, c)
    c.wrap(gm, 'guided_modes', 'guided')
    c.wrap(g, 'compute_eps_inv', 'inv')
    me = ctx.mod('legume.gme.matrix_elements')
    for f in ('mat_te_te', 'mat_tm_tm', 'mat_te_tm', 'mat_tm_te'):
        c.wrap(me, f, 'mat')
    if symm:
        c.wrap(g, '_separate_hamiltonian_sparse' if sparse else '_separate_hamiltonian_dense', 'sym')
    seen = []

    def eigh(A, *a, **k):
        c.tick('eig')
        seen.append(A.shape[0])
        n = A.shape[0]
        return np.array([1.25 + 0.5 * i for i in range(n)]), np.eye(n) + 0j
    ctx.stub_fn('eigh', eigh)

    def rad(kind, minds=(0,)):
        c.tick('rad')
        z = [[] for _ in minds]
        return (np.array([0.5 * (m + 1) for m in minds]), np.array([0.25] * len(minds)), np.array([0.25] * len(minds)), {x: z for x in ('l_te', 'l_tm', 'u_te', 'u_tm')}, {'l': z, 'u': z})
    ctx.patch(g, 'compute_rad_sp', rad)
    c.install('legume.gme.gme')
    k = np.array([[0.5, 0.25][:nk], [0., 0.][:nk]])
    o = dict(kz_symmetry=symm, use_sparse=sparse, symm_thr=1.) if symm else {}
    if symm:
        o['angles'] = np.array([0.] * nk)
    g.run(kpoints=k, gmode_inds=[0, 1], numeig=2, verbose=verbose, compute_im=im, gmode_compute='exact' if exact else 'interp', gmode_npts=3, delta_gx=0., delta_gabs=0., **o)
    nsep = (2 if symm == 'both' else 1) if symm else 1
    ctx.same(len(seen), nk * nsep, 'all diagonalisations done')
    w = [1.25, 1.75] if symm != 'both' else [1.25, 1.25]
    for q in range(nk):
        for m in range(2):
            ctx.eq((2 * ctx.pi * g.freqs[q, m]) ** 2, w[m] - 1, 'frequencies are those of the matrix')
        if im:
            ctx.eq(g.freqs_im[q], [0.5, 1.], 'losses')
    tot = c.total('guided', 'inv', 'mat', 'sym', 'eig')
    v = lambda x: x.v if isinstance(x, Sec) else x
    ctx.eq(v(g.total_time), tot, 'total time')
    ctx.eq(v(g.t_guided), c.total('guided'), 'time of the guided modes')
    ctx.eq(v(g.t_eps_inv), c.total('inv'), 'time of the permittivity')
    ctx.eq(v(g.t_creat_mat), c.total('mat'), 'time of the matrix')
    ctx.eq(v(g.t_eig), c.total('eig', 'sym'), 'time of the diagonalisation')
    ctx.eq(v(g.t_symmetry), c.total('sym'), 'time of the separation')
    if im:
        ctx.eq(v(g.t_imag), c.total('rad'), 'time of the losses')
    quiet(ctx, out, verbose)
    if verbose:
        p = lambda *x: (c.total(*x) / tot * 100 if kind == 'forward' else None)
        if kind == 'forward':
            out.line(ctx, 'guided modes comp', c.total('guided'), p('guided'))
            out.line(ctx, 'permittivity', c.total('inv'), p('inv'))
            out.line(ctx, 'gme matrix', c.total('mat'), p('mat'))
            out.line(ctx, 'diagionalization', c.total('eig'), p('eig'))
            L = [x for x in out.lines if 'total time for real part' in x.lower()]
            ctx.same(len(L), 1, 'one line for the total')
            ctx.eq(c.log[int(re.findall(r'\{#(\d+)\}', L[0])[0])][0], tot, 'total seconds')
            if symm:
                out.line(ctx, 'change of basis', c.total('sym'), p('sym'))
            if im:
                out.line(ctx, 'imaginary part of freq', c.total('rad'))


def h_exc(ctx, backend='base', verbose=True, kind='forward', nk=1):
    np = ctx.np
    e = exc_make(ctx, 'square', 'abs', 1.2, 4, False)[0]
    c = Clock(ctx, kind)
    out = Out(ctx, backend, c)

    def eigh(A, *a, **k):
        c.tick('eig')
        n = A.shape[0]
        return np.array([1.25 + 0.5 * i for i in range(n)]), np.eye(n) + 0j
    ctx.stub_fn('eigh', eigh)
    c.wrap(e, '_compute_matrix', 'pot')
    c.install('legume.exc.exc')
    e.run(kpoints=np.array([[0.5, 0.25][:nk], [0.25, 0.][:nk]]), numeig_ex=2, verbose_ex=verbose)
    for q in range(nk):
        ctx.eq(e.eners[q], [1.25 + 0j, 1.75 + 0j], 'energies are those of the matrix')
    v = lambda x: x.v if isinstance(x, Sec) else x
    ctx.eq(v(e.t_eig), c.total('eig'), 'time of the diagonalisation')
    ctx.eq(v(e.total_time), c.total('eig', 'pot'), 'total time')
    quiet(ctx, out, verbose)
    if verbose and kind == 'forward':
        out.line(ctx, 'diagonalization', c.total('eig'), c.total('eig') / c.total('eig', 'pot') * 100 if backend == 'rich' else None)
        out.line(ctx, 'total time for excitonic' if backend == 'rich' else 'total time', c.total('eig', 'pot'))


def h_pol(ctx, backend='base', verbose=True, kind='forward', nk=1):
    np = ctx.np
    pol, P = pol_setup(ctx, 1, 1, 1, nk)
    c = Clock(ctx, kind)
    out = Out(ctx, backend, c)

    def eig(A, *x, **k):
        c.tick('eig')
        n = A.shape[0]
        return np.array([1 + (i + 1) * 0.25 if i < n // 2 else 1 - (i + 1) * 0.25 for i in range(n)]) + 0j, np.eye(n) + 0j
    ctx.stub_fn('eig', eig)
    c.wrap(pol, '_construct_Hopfield', 'mat')
    c.install('legume.pol.pol')
    pol.run(gme_options=dict(gmode_inds=[0], numeig=1, verbose=False, delta_gx=0., delta_gabs=0.), exc_options=dict(numeig_ex=1, verbose_ex=False), kpoints=np.array([[0.5, 0.25][:nk], [0.25, 0.75][:nk]]), verbose=verbose)
    for q in range(nk):
        ctx.eq(pol.eners[q], [0.25], 'energies are those of the matrix')
    ctx.eq(pol.total_time.v, c.total('eig', 'mat'), 'total time')
    quiet(ctx, out, verbose)
    if verbose and kind == 'forward':
        out.line(ctx, 'total time', c.total('eig', 'mat'))


def h_bar(ctx, n=30, lo=0, hi=100):
    pu = ctx.mod('legume.print_utils')
    p = ctx.real('p', lo, hi)
    b = pu.load_bar(p, precision=n) if n != 20 else pu.load_bar(p)
    b = b.strip('\u2502')
    full = b.count('\u2588')
    ctx.same((b, len(b)), ('\u2588' * full + '-' * (n - full), n), 'a bar of this length')
    ctx.ge(p * n / 100, full, 'filled part')
    ctx.ge(full + 1, p * n / 100, 'filled part')


def h_prog(ctx, backend='base'):
    c = Clock(ctx, 'forward')
    out = Out(ctx, backend, c)
    pr = ctx.mod('legume.print_backend').print_backend
    n = ctx.choice('n', [1, 2, 3, 7])
    i = ctx.choice('i', [0, 1, 2, 6])
    if i >= n:
        return
    pr.update_prog(i, n, False, 'Working')
    ctx.same(out.text(), [], 'nothing printed')
    pr.update_prog(i, n, True, 'Working')
    t = ''.join(out.text())
    ctx.same(('Working' in t, '%d of %d' % (i + 1, n) in t, t.count('\u2588')), (True, True, int((i + 1) / n * 100 / 100 * 30)), 'progress shown')


def h_choose(ctx):
    be = ctx.mod('legume.print_backend')
    b = be.print_backend
    ctx.same(ctx.lg.print_backend is b, True, 'one print backend')
    for name, fn in (('base', 'print_GME_report'), ('rich', 'print_GME_report_rich'), ('base', 'print_GME_report')):
        ctx.lg.set_print_backend(name)
        pu = ctx.mod('legume.print_utils')
        ctx.same((b.GME_report is getattr(pu, fn), b.GME_im_report is getattr(pu, fn.replace('GME', 'GME_im')), b.ESE_report is getattr(pu, fn.replace('GME', 'ESE')), b.HP_report is getattr(pu, fn.replace('GME', 'HP'))), (True,) * 4, 'reports of the backend chosen')
        ctx.same(repr(b), name.capitalize() + 'PrintBackend', 'its name')
    ctx.raises(ValueError, lambda: be.set_print_backend('fancy'), 'unknown backend raises')
    ctx.same(repr(b), 'BasePrintBackend', 'backend unchanged by a failed choice')
    ctx.patch(be, 'RICH_AVAILABLE', False)
    ctx.raises(ValueError, lambda: be.set_print_backend('rich'), 'rich not installed raises')
    ctx.same(repr(b), 'BasePrintBackend', 'backend unchanged by a failed choice')


def h_repr(ctx, stage='new'):
    """every object can be described at any stage"""
    np = ctx.np
    a1, a2 = [1., 0.], [0., 0.25]
    x, y, e, s, d = ctx.reals('x y e s d', 0.25, 1)
    L = ctx.lg.Lattice(a1, a2)
    ph = ctx.lg.PhotCryst(L)
    t = repr(ph)
    ctx.same(('0.2500' in t, '1.0000' in t), (True, True), 'lattice described')
    ph.add_layer(d=d, eps_b=e)
    shapes = [ctx.lg.Circle(eps=e, x_cent=x, y_cent=y, r=s), ctx.lg.Ellipse(eps=e, x_cent=x, y_cent=y, rx=s, ry=s), ctx.lg.Square(eps=e, x_cent=x, y_cent=y, a=s), ctx.lg.Hexagon(eps=e, x_cent=x, y_cent=y, a=s),
              ctx.lg.Poly(eps=e, x_edges=[0., 1., 1.], y_edges=[0., 0., 1.]), ctx.lg.FourierShape(eps=e, x_cent=0.25, y_cent=0.5, f_as=np.array([0.5]), f_bs=np.array([]), npts=4)]
    for sh in shapes:
        ph.add_shape(sh)
    t = repr(ph)
    for name in ('Circle', 'Ellipse', 'Square', 'Hexagon', 'Poly', 'FourierShape'):
        ctx.same(t.count(name), 1, 'each shape described once')
    f = lambda v, n: ('%.' + str(n) + 'f') % ctx.fval(v)
    if not ctx.symbolic:
        for v, n in ((x, 4), (y, 4), (s, 4), (e, 2), (d, 2)):
            ctx.same(f(v, n) in t, True, 'values described')
    ph.add_qw(z=0.125, V_shapes=0., a=1e-7, M=1e-31, E0=1.5, loss=1e-5, osc_str=np.array([1., 2., 3.]))
    ctx.same(repr(ph).count('QuantumWellLayer'), 1, 'well described')


G = [dict(backend=b, verbose=v) for b in ('base', 'rich') for v in (True, False)]
CASES = []
for g_ in G:
    n_ = '-%s-%s' % (g_['backend'], 'verbose' if g_['verbose'] else 'quiet')
    CASES += [dict(name='gme' + n_, fn=h_gme, args=dict(g_, nk=2)), dict(name='gme-exact' + n_, fn=h_gme, args=dict(g_, exact=True)), dict(name='gme-both' + n_, fn=h_gme, args=dict(g_, symm='both')),
              dict(name='gme-even' + n_, fn=h_gme, args=dict(g_, symm='even', sparse=True, im=False)),
              dict(name='exc' + n_, fn=h_exc, args=dict(g_, nk=2)), dict(name='pol' + n_, fn=h_pol, args=dict(g_))]
    for k_ in ('still', 'any'):
        CASES += [dict(name='gme-%s' % k_ + n_, fn=h_gme, args=dict(g_, kind=k_)), dict(name='exc-%s' % k_ + n_, fn=h_exc, args=dict(g_, kind=k_)), dict(name='pol-%s' % k_ + n_, fn=h_pol, args=dict(g_, kind=k_))]
CASES += [dict(name='bar', fn=h_bar), dict(name='bar-20', fn=h_bar, args=dict(n=20)), dict(name='bar-1', fn=h_bar, args=dict(n=1)), dict(name='progress', fn=h_prog), dict(name='progress-rich', fn=h_prog, args=dict(backend='rich')), dict(name='choose', fn=h_choose), dict(name='repr', fn=h_repr)]
