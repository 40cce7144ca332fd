"""C06 layer permittivity in Fourier space"""
BOUNDS = ('one layer over an arbitrary lattice, background and shape permittivities in (1,15), 0..3 shapes (circle, ellipse, square, triangle) '
          'with arbitrary real parameters; wavevectors G arbitrary in (-9,9)^2, -G and 0')
OUTSIDE = 'more shapes (the sum is over shapes); freeform layers (not implemented by the package)'
STUBS = 'J1 as an uninterpreted odd function'


def lattice(ctx):
    a = [ctx.real('a1x', 0.5, 2), ctx.real('a1y', -0.3, 0.3), ctx.real('a2x', -0.3, 0.3), ctx.real('a2y', 0.5, 2)]
    return ctx.lg.Lattice([a[0], a[1]], [a[2], a[3]]), a[0] * a[3] - a[1] * a[2]


def mk(ctx, kind, i):
    eps = ctx.real('eps%d' % i, 1, 15)
    xc, yc = ctx.reals('xc%d yc%d' % (i, i), -1, 1)
    lg = ctx.lg
    if kind == 'circle':
        r = ctx.real('r%d' % i, 0.05, 1)
        return lg.Circle(eps=eps, x_cent=xc, y_cent=yc, r=r), eps, ctx.pi * r * r
    if kind == 'ellipse':
        r, s = ctx.real('r%d' % i, 0.05, 1), ctx.real('s%d' % i, 0.05, 1)
        return lg.Ellipse(eps=eps, x_cent=xc, y_cent=yc, rx=r, ry=s), eps, ctx.pi * r * s
    if kind == 'square':
        a = ctx.real('l%d' % i, 0.05, 1)
        return lg.Square(eps=eps, x_cent=xc, y_cent=yc, a=a), eps, a * a
    w, h = ctx.real('w%d' % i, 0.05, 1), ctx.real('h%d' % i, 0.05, 1)
    return lg.Poly(eps=eps, x_edges=[xc, xc + w, xc], y_edges=[yc, yc, yc + h]), eps, w * h / 2


def h_layer(ctx, kinds=('circle',), how='one', where='layer'):
    np = ctx.np
    lat, A = lattice(ctx)
    eb = ctx.real('eb', 1, 15)
    other = ctx.real('eo', 1, 15)
    ph = ctx.lg.PhotCryst(lat, eps_l=eb if where == 'l' else other, eps_u=eb if where == 'u' else other)
    for k in range(3):
        ph.add_layer(d=0.3, eps_b=eb if where in ('layer', 'last') and k == (1 if where == 'layer' else 2) else other)
    lay = {'layer': ph.layers[1], 'last': ph.layers[2], 'l': ph.claddings[0], 'u': ph.claddings[1]}[where]
    kw = {'layer': dict(layer=1), 'last': {}, 'l': dict(cladding=0), 'u': dict(cladding='u')}[where]
    sh = [mk(ctx, k, i) for i, k in enumerate(kinds)]
    if how == 'one':
        for s in sh:
            ph.add_shape(s[0], **kw)
    else:
        ph.add_shape([s[0] for s in sh], **kw)
    gx, gy = ctx.reals('gx gy', -9, 9)
    ctx.assume(gx * gx > 0.01)
    ctx.assume(gy * gy > 0.01)
    z = 0 * gx
    G = np.array([[gx, z, -gx], [gy, z, -gy]])
    avg = eb
    want = 0
    for s, eps, area in sh:
        avg = avg + (eps - eb) * area / A
        want = want + (eps - eb) * s.compute_ft(np.array([[gx], [gy]]))[0] / A
    ft = lay.compute_ft(G)
    ctx.same(tuple(ft.shape), (3,), 'one coefficient per wavevector')
    ctx.eq(lay.eps_avg, avg, 'eps_avg is the area-weighted mean')
    ctx.same(tuple(np.shape(lay.eps_avg)), (), 'eps_avg is a scalar')
    ctx.eq(ft[1], avg, 'zero component is the average')
    ctx.eq(ft[0], want + z, 'superposition of the shapes', scale=1)
    ctx.eq(ft[2], np.conj(ft[0]), 'conjugate symmetric', scale=1)
    for l in ph.layers + ph.claddings:
        if l is not lay:
            ctx.eq(l.eps_avg, other, 'other layers untouched')
            f = l.compute_ft(G)
            ctx.eq(f[0], z, 'other layers untouched', scale=1)
            ctx.eq(f[1], other, 'other layers untouched')
            ctx.same(len(l.shapes), 0, 'other layers untouched')
    ctx.same(lay.shapes == [s[0] for s in sh], True, 'shapes kept in order')
    ctx.eq(lay.eps_b, eb, 'background kept')


def h_errors(ctx):
    lat = ctx.lg.Lattice('square')
    ph = ctx.lg.PhotCryst(lat)
    ph.add_layer(d=0.5, eps_b=3.)
    c = ctx.lg.Circle(eps=2., r=0.2)
    ctx.raises(ValueError, lambda: ph.add_shape(c, layer=1), 'layer index too large')
    ctx.raises(ValueError, lambda: ph.add_shape(c, cladding='x'), 'unknown cladding')
    ctx.raises(ValueError, lambda: ph.add_shape([c, 3]), 'not a shape')
    ctx.raises(ValueError, lambda: ph.add_layer(d=0.1, layer_type='nope'), 'unknown layer type')
    ctx.raises((NotImplementedError,), lambda: ctx.lg.Shape(2.).compute_ft(ctx.arr([[0.], [0.]])), 'abstract shape')


CASES = [
    dict(name='none', fn=h_layer, args=dict(kinds=())),
    dict(name='circle', fn=h_layer, args=dict(kinds=('circle',))),
    dict(name='circle-upper', fn=h_layer, args=dict(kinds=('circle',), where='u')),
    dict(name='circle-lower', fn=h_layer, args=dict(kinds=('circle',), where='l')),
    dict(name='circle-last', fn=h_layer, args=dict(kinds=('circle',), where='last')),
    dict(name='2circles', fn=h_layer, args=dict(kinds=('circle', 'circle'))),
    dict(name='2circles-list', fn=h_layer, args=dict(kinds=('circle', 'circle'), how='list')),
    dict(name='ellipse', fn=h_layer, args=dict(kinds=('ellipse',))),
    dict(name='square', fn=h_layer, args=dict(kinds=('square',))),
    dict(name='poly', fn=h_layer, args=dict(kinds=('poly',))),
    dict(name='square+circle', fn=h_layer, args=dict(kinds=('square', 'circle'), how='list', where='u')),
    dict(name='3circles-list', fn=h_layer, args=dict(kinds=('circle', 'circle', 'circle'), how='list', where='last')),
    dict(name='errors', fn=h_errors),
]
