"""C13 slab guided modes satisfy the interface conditions"""
BOUNDS = ('1..3 inner layers with arbitrary thickness in (0.2,1) and permittivity, claddings with arbitrary permittivity, arbitrary frequency and in-plane wavevector '
          'between the light lines (so the claddings are evanescent); inner layers propagating, or one of them evanescent; both polarisations')
OUTSIDE = 'more layers; frequency exactly at a light line of a layer'
STUBS = 'none (sin, cos, exp of arbitrary arguments are symbols tied by their algebraic identities)'


def slab(ctx, n, ev=()):
    """g in (1,1.1), omega in (0.6,0.7): eps>5 propagating, eps<2 evanescent"""
    g = ctx.real('g', 1.0, 1.1)
    om = ctx.real('om', 0.6, 0.7)
    e = [ctx.real('e%d' % i, 1.0, 2.0) if (i in (0, n + 1) or i in ev) else ctx.real('e%d' % i, 5.0, 9.0) for i in range(n + 2)]
    d = [ctx.real('d%d' % i, 0.2, 1.0) for i in range(n)]
    return g, om, e, d


def chis(ctx, g, om, e, prop):
    """z wavevector of each layer"""
    out = []
    for i, x in enumerate(e):
        if prop[i]:
            out.append(ctx.np.sqrt(x * om * om - g * g) + 0j)
        else:
            out.append(1j * ctx.np.sqrt(g * g - x * om * om))
    return out


def field(ctx, A, B, c, z):
    """value and z-derivative of A exp(icz) + B exp(-icz)"""
    p, m = ctx.np.exp(1j * c * z), ctx.np.exp(-1j * c * z)
    return A * p + B * m, 1j * c * (A * p - B * m)


def match(ctx, AB, c, d, e, pol, label):
    """tangential fields continuous at every interface; coefficients refer to layer centres (claddings: to the interface)"""
    n = len(d)
    for i in range(n + 1):
        zl = 0 if i == 0 else d[i - 1] / 2
        zr = 0 if i == n else -d[i] / 2
        f1, g1 = field(ctx, AB[i][0], AB[i][1], c[i], zl)
        f2, g2 = field(ctx, AB[i + 1][0], AB[i + 1][1], c[i + 1], zr)
        if pol == 'TM':
            g1, g2 = g1 / e[i], g2 / e[i + 1]
        ctx.eq(f1, f2, label + ': field continuous', scale=1)
        ctx.eq(g1, g2, label + ': derivative continuous', scale=1)


def h_ab(ctx, n=1, ev=(), pol='TE', given=False):
    sm = ctx.mod('legume.gme.slab_modes')
    g, om, e, d = slab(ctx, n, ev)
    prop = [not (i in (0, n + 1) or i in ev) for i in range(n + 2)]
    c = chis(ctx, g, om, e, prop)
    ca = sm.chi(om, g, ctx.arr(e))
    for i in range(n + 2):
        ctx.eq(ca[i], c[i], 'chi', scale=1)
    AB = sm.AB_matrices(om, g, ctx.arr(e), ctx.arr(d), ca if given else None, pol)
    ctx.same(tuple(AB.shape), (n + 2, 2, 1), 'one pair of coefficients per layer')
    ab = [(AB[i, 0, 0], AB[i, 1, 0]) for i in range(n + 2)]
    ctx.eq(ab[0][0], 0, 'only the decaying wave in the lower cladding', scale=1)
    ctx.eq(ab[0][1], 1, 'unit amplitude below', scale=1)
    match(ctx, ab, c, d, e, pol, 'guided mode')
    # the mode condition is the growing amplitude in the upper cladding
    D = sm.D22(om, g, ctx.arr(e), ctx.arr(d), pol=pol)
    Dv = sm.D22s_vec(ctx.arr([om, om]), g, ctx.arr(e), ctx.arr(d), pol=pol)
    B = ab[n + 1][1]
    k = 1
    if n == 1:
        x = [c[i] / e[i] if pol == 'TM' else c[i] for i in range(3)]
        k = -2j * x[1] * x[2]
    D = ctx.np.ravel(D)[0]
    ctx.eq(D, k * B, 'D22 is the growing amplitude above', scale=1)
    ctx.eq(ctx.np.imag(D), 0, 'D22 is real for a guided mode', scale=1)
    ctx.same(tuple(Dv.shape), (2,), 'vectorised D22 has one value per frequency')
    for i in (0, 1):
        ctx.eq(Dv[i], D, 'vectorised D22 equals D22', scale=1)


def h_vec(ctx, n=2, pol='TE'):
    """different frequencies do not mix in the vectorised form"""
    sm = ctx.mod('legume.gme.slab_modes')
    g, om, e, d = slab(ctx, n)
    om2 = ctx.real('om2', 0.7, 0.75)
    D = [ctx.np.ravel(sm.D22(o, g, ctx.arr(e), ctx.arr(d), pol=pol))[0] for o in (om, om2)]
    Dv = sm.D22s_vec(ctx.arr([om, om2]), g, ctx.arr(e), ctx.arr(d), pol=pol)
    for i in (0, 1):
        ctx.eq(Dv[i], D[i], 'vectorised D22 equals D22', scale=1)


def h_err(ctx):
    sm = ctx.mod('legume.gme.slab_modes')
    e, d = ctx.np.array([1., 5., 6., 1.]), ctx.np.array([0.5, 0.5])
    ctx.raises(Exception, lambda: sm.AB_matrices(0.6, 1.0, e, d, None, 'TX'), 'unknown polarisation raises')
    ctx.raises(Exception, lambda: sm.D22(0.6, 1.0, e, d, pol='TX'), 'unknown polarisation raises')
    ctx.raises(Exception, lambda: sm.AB_matrices(0.6, 1.0, e, d[:1], None, 'TE'), 'wrong number of thicknesses raises')


CASES = [dict(name='ab-%d%s-%s' % (n, ''.join(map(str, ev)), pol), fn=h_ab, args=dict(n=n, ev=ev, pol=pol, given=n == 1))
         for pol in ('TE', 'TM') for n, ev in ((1, ()), (2, ()), (2, (1,)), (2, (2,)))]
CASES += [dict(name='ab-3-%s' % pol, fn=h_ab, args=dict(n=3, pol=pol)) for pol in ('TE', 'TM')]
CASES += [dict(name='vec-%d-%s' % (n, pol), fn=h_vec, args=dict(n=n, pol=pol)) for pol in ('TE', 'tm') for n in (1, 2)]
CASES += [dict(name='err', fn=h_err)]
