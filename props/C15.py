"""C15 radiative (scattering) states of the slab"""
from props.C13 import chis, field
BOUNDS = ('1..3 inner layers, arbitrary thicknesses and permittivities, arbitrary frequency, one or two arbitrary in-plane wavevectors (and zero); every layer propagating, or an inner layer or the '
          'opposite cladding evanescent; both polarisations, radiation into the lower or upper cladding')
OUTSIDE = 'more layers; frequency exactly at a light line'
STUBS = 'none'


def h_rad(ctx, n=1, pol='te', clad=0, ev=(), ng=1, zero=False, name=None):
    sm = ctx.mod('legume.gme.slab_modes')
    # g in (1,1.1), omega in (0.6,0.7): eps > 5 propagating, eps < 2 evanescent
    gs = [ctx.real('g%d' % i, 1.0, 1.1) for i in range(ng)]
    if zero:
        gs[0] = 0. * gs[0]
    om = ctx.real('om', 0.6, 0.7)
    e = [ctx.real('e%d' % i, 1.0, 2.0) if i in ev else ctx.real('e%d' % i, 5.0, 9.0) for i in range(n + 2)]
    d = [ctx.real('d%d' % i, 0.2, 1.0) for i in range(n)]
    X, Y = sm.rad_modes(om, ctx.arr(gs), ctx.arr(e), ctx.arr(d), pol=name or pol, clad=clad)
    ctx.same((tuple(X.shape), tuple(Y.shape)), ((n + 2, ng), (n + 2, ng)), 'one coefficient per layer and wavevector')
    for q in range(ng):
        c = chis(ctx, gs[q], om, e, [i not in ev for i in range(n + 2)])
        # wave in layer l: X exp(-i chi z) + Y exp(i chi z), from the layer centre (claddings: from the interface)
        for i in range(n + 1):
            zl = 0 if i == 0 else d[i - 1] / 2
            zr = 0 if i == n else -d[i] / 2
            f1, g1 = field(ctx, Y[i, q], X[i, q], c[i], zl)
            f2, g2 = field(ctx, Y[i + 1, q], X[i + 1, q], c[i + 1], zr)
            if pol == 'tm':
                g1, g2 = g1 / e[i], g2 / e[i + 1]
            ctx.eq(f1, f2, 'field continuous', scale=1)
            ctx.eq(g1, g2, 'derivative continuous', scale=1)
        unit = 1 / (ctx.np.sqrt(e[0 if clad == 0 else n + 1]) * om) if pol == 'te' else 1
        if clad == 0:
            ctx.eq(Y[0, q], unit, 'unit amplitude in the lower cladding', scale=1)
            ctx.eq(X[n + 1, q], 0, 'no incoming wave above', scale=1)
        else:
            ctx.eq(X[n + 1, q], unit, 'unit amplitude in the upper cladding', scale=1)
            ctx.eq(Y[0, q], 0, 'no incoming wave below', scale=1)


def h_empty(ctx, pol='te', clad=0):
    sm = ctx.mod('legume.gme.slab_modes')
    e, d = ctx.np.array([1., 5., 1.]), ctx.np.array([0.5])
    X, Y = sm.rad_modes(0.6, ctx.np.array([]), e, d, pol=pol, clad=clad)
    ctx.same((X.shape[0], X.size, Y.shape[0], Y.size), (3, 0, 3, 0), 'no wavevectors: empty with one row per layer')


CASES = [dict(name='%s-%d-n%d' % (pol, cl, n), fn=h_rad, args=dict(pol=pol, clad=cl, n=n)) for pol in ('te', 'tm') for cl in (0, 1) for n in (1, 2)]
CASES += [dict(name='%s-%d-n3' % (pol, cl), fn=h_rad, args=dict(pol=pol, clad=cl, n=3)) for pol, cl in (('te', 0), ('tm', 1))]
CASES += [dict(name='%s-%d-tir' % (pol, cl), fn=h_rad, args=dict(pol=pol, clad=cl, n=1, ev=(2,) if cl == 0 else (0,))) for pol in ('te', 'tm') for cl in (0, 1)]
CASES += [dict(name='%s-%d-ev' % (pol, cl), fn=h_rad, args=dict(pol=pol, clad=cl, n=2, ev=(1,))) for pol, cl in (('te', 1), ('tm', 0))]
CASES += [dict(name='%s-%d-two' % (pol, cl), fn=h_rad, args=dict(pol=pol, clad=cl, n=1, ng=2)) for pol, cl in (('te', 0), ('tm', 1))]
CASES += [dict(name='%s-%d-zero' % (pol, cl), fn=h_rad, args=dict(pol=pol, clad=cl, n=1, ng=1, zero=True)) for pol, cl in (('te', 0), ('tm', 1))]
CASES += [dict(name='empty-%s-%d' % (pol, cl), fn=h_empty, args=dict(pol=pol, clad=cl)) for pol in ('te', 'tm') for cl in (0, 1)]
CASES += [dict(name='%s-%d' % (pol.upper(), cl), fn=h_rad, args=dict(pol=pol, clad=cl, n=1, name=pol.upper())) for pol in ('te', 'tm') for cl in (0, 1)]
