"""C30 the guided-mode search finds every mode"""
BOUNDS = ('any dispersion with up to three guided modes (arbitrary frequencies, separated by more than the search step, at one to three wavevectors, group velocity between 0 and 1, modes appearing at any wavevector), '
          'search grids of 3 to 9 points, one or two inner layers, requests for 1 to 3 modes, arbitrary layer thickness and polarisation')
OUTSIDE = 'frequency exactly on a point of the search grid; modes closer to each other than the step, or to a light line than the tolerance; brentq itself (an exact root in its bracket)'
STUBS = 'D22, D22s_vec: an arbitrary function with the given zeros and sign changes (the dispersion relation itself is C13); brentq: the root in the bracket; field coefficients: C13, C14'


class Disp:
    """an arbitrary dispersion relation: the frequencies of the modes at each wavevector"""

    def __init__(self, ctx, sm, eps, d, modes, pol, sign=1):
        self.ctx, self.eps, self.d, self.modes, self.pol, self.brackets, self.solved = ctx, eps, d, modes, pol, [], 0
        self.amp = ctx.real('amp', 0.5, 1) * sign
        ctx.patch(sm, 'D22', self.one)
        ctx.patch(sm, 'D22s_vec', self.vec)
        ctx.patch(ctx.mod('legume.utils'), 'brentq', self.brentq)
        ctx.patch(sm, 'AB_matrices', self.ab)
        ctx.patch(sm, 'normalization_coeff', self.norm)

    def check(self, g, eps, d, pol):
        self.ctx.eq(list(eps), self.eps, 'permittivities')
        self.ctx.eq(list(d), self.d, 'thicknesses')
        self.ctx.same(pol.lower(), self.pol.lower(), 'polarisation')

    def roots(self, g):
        for gm, r in self.modes:
            if self.ctx.symbolic and gm is g or abs(self.ctx.fval(gm) - self.ctx.fval(g)) < 1e-9:
                return r
        self.ctx.true(False, 'wavevector')
        return []

    def value(self, om, g):
        v = self.amp
        for r in self.roots(g):
            self.ctx.assume(om != r)
            v = v * (om - r)
        # sign is that of the product, the value is not
        return v * (1. + om * om)

    def one(self, omega, g, eps_array, d_array, pol='TM'):
        self.check(g, eps_array, d_array, pol)
        return self.value(omega, g) + 0j

    def vec(self, omegas, g, eps_array, d_array, pol='TM'):
        self.check(g, eps_array, d_array, pol)
        self.grid = list(omegas)
        return self.ctx.arr([self.value(o, g) + 0j for o in self.grid])

    def brentq(self, f, a, b, args=(), **kw):
        fa, fb = f(a, *args), f(b, *args)
        self.ctx.ge(0, fa * fb, 'sign change over the bracket')
        self.ctx.true(b > a, 'bracket')
        self.solved += 1
        for r in self.roots(args[0]):
            if a < r and r < b:
                return r
        return b

    def ab(self, omega, g, eps_array, d_array, chi_array=None, pol='TE'):
        self.check(g, eps_array, d_array, pol)
        return self.ctx.arr([[omega * omega + 0j, 3 * g * omega + 0j]])

    def norm(self, omega, g, eps_array, d_array, chi_array, AB, pol='TE'):
        self.check(g, eps_array, d_array, pol)
        return omega * omega


def expect(ctx, om, co, g, roots, n, label):
    roots = roots[:n]
    ctx.same(len(om), len(roots), label + ': number of modes')
    ctx.same(len(co), len(roots), label + ': number of coefficients')
    if len(om) != len(roots):
        return
    for o, c, r in zip(om, co, roots):
        ctx.eq(o, r, label + ': frequency of the mode')
        ctx.eq([c[0, 0], c[0, 1]], [r, 3 * g], label + ': coefficients of that mode, normalised')


def h_single(ctx, n_modes, nr, layers=1, pol='TE', bounds=True, frac=(0.125,)):
    """all modes between the light lines at one wavevector"""
    sm = ctx.mod('legume.gme.slab_modes')
    eps = [1., 4., 1.5625] if layers == 1 else [1.5625, 2.25, 4., 1.]
    d = [ctx.real('d%d' % i, 0.1, 1) for i in range(layers)]
    g = ctx.real('g', 2, 2.0625)
    tol, step = 1 / 64, 0.15625
    lb, ub = g / 2, g / 1.25
    kw = {} if bounds else dict(omega_lb=lb, omega_ub=ub)
    r, low = [], lb * (1 + tol)
    for j in range(nr):
        x = ctx.real('r%d' % j, 1, 1.7)
        if j == 0:
            ctx.assume(x > low)
        else:
            ctx.assume(x > low + step)
        r.append(x)
        low = x
    ctx.assume(low < ub * (1 - tol))
    D = Disp(ctx, sm, eps, d, [(g, r)], pol, -1 if n_modes == 2 else 1)
    om, co = sm.guided_mode_given_g(g, ctx.np.array(eps), ctx.arr(d), n_modes=n_modes, step=step, tol=tol, pol=pol, **kw)
    expect(ctx, om, co, g, r, n_modes, 'mode')
    ctx.same(D.solved, min(nr, n_modes), 'one root search per mode')


def h_array(ctx, gs, n_modes, start, pol='TM', step=0.25):
    """modes along an ascending list of wavevectors; mode j exists from wavevector number start[j] on"""
    sm = ctx.mod('legume.gme.slab_modes')
    eps = [1., 4., 1.]
    d = [ctx.real('d0', 0.1, 1)]
    tol = 1 / 64
    modes, prev, table = [], {}, []
    for q, g in enumerate(gs):
        lb, ub = g / 2 * (1 + tol), g * (1 - tol)
        if q and g == gs[q - 1]:
            table.append(table[-1])
            continue
        r, low = [], None
        for j in range(len(start)):
            if start[j] > q:
                continue
            x = ctx.real('r%d_%d' % (q, j), 0, g)
            ctx.assume(x > lb if low is None else x > low + step)
            if j in prev:
                # group velocity between 0 and 1
                ctx.assume(x >= prev[j])
                ctx.assume(x <= prev[j] + (g - gs[q - 1]))
            r.append(x)
            low = x
            prev[j] = x
        if low is not None:
            ctx.assume(low < ub)
        modes.append((max(g, 1e-4), r))
        table.append(r)
    Disp(ctx, sm, eps, d, modes, pol)
    om, co = sm.guided_modes(ctx.np.array(gs), ctx.np.array(eps), ctx.arr(d), n_modes=n_modes, step=step, tol=tol, pol=pol)
    ctx.same((len(om), len(co)), (len(gs), len(gs)), 'one entry per wavevector')
    for q, g in enumerate(gs):
        expect(ctx, om[q], co[q], max(g, 1e-4), table[q], n_modes, 'wavevector %d' % q)


def h_none(ctx, g):
    """no mode between the light lines (also for wavevectors too small for the step)"""
    sm = ctx.mod('legume.gme.slab_modes')
    d = [ctx.real('d0', 0.1, 1)]
    Disp(ctx, sm, [1., 4., 1.], d, [(max(g, 1e-4), [])], 'TE')
    om, co = sm.guided_modes(ctx.np.array([g]), ctx.np.array([1., 4., 1.]), ctx.arr(d), n_modes=2, step=0.25, tol=1 / 64, pol='TE')
    ctx.same(([len(x) for x in om], [len(x) for x in co]), ([0], [0]), 'no mode')


CASES = [
    dict(name='one', fn=h_single, args=dict(n_modes=1, nr=1), max_paths=200),
    dict(name='two', fn=h_single, args=dict(n_modes=2, nr=2, pol='TM'), max_paths=200, wall=60),
    dict(name='first_of_two', fn=h_single, args=dict(n_modes=1, nr=2, bounds=False), max_paths=200, wall=60),
    dict(name='fewer_than_asked', fn=h_single, args=dict(n_modes=3, nr=1, pol='TM'), max_paths=200),
    dict(name='two_layers', fn=h_single, args=dict(n_modes=2, nr=2, layers=2, pol='te'), max_paths=200, wall=60),
    dict(name='three', fn=h_single, args=dict(n_modes=3, nr=3, pol='tm'), max_paths=300, wall=90),
    dict(name='array_1', fn=h_array, args=dict(gs=[1., 2.], n_modes=1, start=[0]), max_paths=200),
    dict(name='array_same', fn=h_array, args=dict(gs=[1.5, 1.5, 2.], n_modes=1, start=[0, 2]), max_paths=200, wall=60),
    dict(name='array_appears', fn=h_array, args=dict(gs=[1., 2.], n_modes=2, start=[0, 1]), max_paths=300, wall=60),
    dict(name='array_2', fn=h_array, args=dict(gs=[1.5, 2.], n_modes=2, start=[0, 0], pol='TE'), max_paths=300, wall=60),
    dict(name='array_3', fn=h_array, args=dict(gs=[1., 1.5, 2.], n_modes=1, start=[0, 1], pol='TE'), max_paths=400, wall=90),
    dict(name='array_4', fn=h_array, args=dict(gs=[1., 1.25, 2., 2.5], n_modes=2, start=[0, 1], pol='TE'), max_paths=1500, wall=400, tier='thorough'),
    dict(name='none', fn=h_none, args=dict(g=2.)),
    dict(name='none_small', fn=h_none, args=dict(g=0.)),
]
