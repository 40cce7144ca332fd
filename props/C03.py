"""C03 circles and ellipses"""
BOUNDS = ('circle/ellipse with arbitrary real centre in (-3,3)^2, radii in (0.05,2), rotation in (-3,3); arbitrary '
          'wavevectors in (-9,9)^2 plus G=0; arbitrary query points in (-3,3)^2')
OUTSIDE = 'values of the Bessel function itself (J1 is an uninterpreted function with solver-checked congruence)'
STUBS = 'scipy.special.j1 as an uninterpreted odd function'


def _par(ctx, kind):
    xc, yc = ctx.reals('xc yc', -3, 3)
    eps = ctx.real('eps', 1, 15)
    if kind == 'circle':
        r = ctx.real('r', 0.05, 2)
        return ctx.lg.Circle(eps=eps, x_cent=xc, y_cent=yc, r=r), xc, yc, r, r, None, eps
    rx, ry = ctx.real('rx', 0.05, 2), ctx.real('ry', 0.05, 2)
    if kind == 'ellipse0':
        return ctx.lg.Ellipse(eps=eps, x_cent=xc, y_cent=yc, rx=rx, ry=ry), xc, yc, rx, ry, None, eps
    phi = ctx.real('phi', -3, 3)
    ctx.angle_base(phi)
    if kind == 'round':
        ry = rx
    return ctx.lg.Ellipse(eps=eps, x_cent=xc, y_cent=yc, rx=rx, ry=ry, phi=phi), xc, yc, rx, ry, phi, eps


def h_ft(ctx, kind='circle', form='array'):
    np, pi = ctx.np, ctx.pi
    s, xc, yc, rx, ry, phi, eps = _par(ctx, kind)
    gx, gy = ctx.reals('gx gy', -9, 9)
    ctx.assume(gx * gx + gy * gy > 0.01)
    ctx.angle_base(gx * xc + gy * yc)
    z = 0 * gx
    G = [[gx, z, -gx], [gy, z, -gy]]
    if form == 'array':
        G = np.array(G)
    elif form == 'transposed':
        G = np.array([[G[0][i], G[1][i]] for i in range(3)])
    elif form == 'gx0':
        gx = z
        G = np.array([[z, z, z], [gy, z, -gy]])
    ft = s.compute_ft(G)
    ctx.same(tuple(ft.shape), (3,), 'one value per wavevector')
    if kind == 'circle':
        q = np.sqrt(gx * gx + gy * gy) * rx
    elif phi is None:
        q = np.sqrt(gx * gx * rx * rx + gy * gy * ry * ry)
    else:
        u = gx * np.cos(phi) + gy * np.sin(phi)
        v = gy * np.cos(phi) - gx * np.sin(phi)
        q = np.sqrt((u * rx) ** 2 + (v * ry) ** 2)
    base = 2 * pi * rx * ry * ctx.j1(q) / q
    ctx.eq(ft[0], base * np.exp(-1j * (gx * xc + gy * yc)), 'FT(G)')
    ctx.eq(ft[1], pi * rx * ry, 'FT(0) is the area')
    ctx.eq(ft[2], np.conj(ft[0]), 'FT(-G) = conj FT(G)')
    ctx.eq(s.area, pi * rx * ry, 'area')
    ctx.eq(s.eps, eps, 'eps stored')


def h_in(ctx, kind='circle'):
    np = ctx.np
    s, xc, yc, rx, ry, phi, eps = _par(ctx, kind)
    x, y = ctx.reals('x y', -3, 3)
    X, Y = np.array([[x, xc]]), np.array([[y, yc]])
    ins = s.is_inside(X, Y)
    ctx.same(tuple(ins.shape), (1, 2), 'shape of the mask')
    dx, dy = x - xc, y - yc
    if phi is not None:
        c, sn = np.cos(phi), np.sin(phi)
        dx, dy = dx * c + dy * sn, dy * c - dx * sn
    lhs = dx * dx * ry * ry + dy * dy * rx * rx
    if bool(ins[0, 0]):
        ctx.ge(rx * rx * ry * ry, lhs, 'reported inside')
    else:
        ctx.ge(lhs, rx * rx * ry * ry, 'reported outside')
    ctx.same(bool(ins[0, 1]), True, 'the centre is inside')


def h_repr(ctx):
    if not ctx.symbolic:
        e = ctx.lg.Ellipse(eps=2., x_cent=0.1, y_cent=0.2, rx=0.3, ry=0.4, phi=0.5)
        c = ctx.lg.Circle(eps=2., x_cent=0.1, y_cent=0.2, r=0.3)
        repr(e), repr(c)
    ctx.same(1, 1, 'repr')


def h_malformed(ctx):
    np, lg = ctx.np, ctx.lg
    r = ctx.real('r', 0.1, 1)
    for s in (lg.Circle(eps=2., r=r), lg.Ellipse(eps=2., rx=r, ry=0.25), lg.Square(eps=2., a=r)):
        for bad, e in (([1., 2.], ValueError), ([[1., 2., 3.]], ValueError), ([[1.] * 3] * 3, ValueError), ([[[1., 2.]]], ValueError), (3., TypeError), ('g', TypeError)):
            ctx.raises((e,), lambda: s.compute_ft(bad if e is TypeError else np.array(bad)), 'malformed wavevectors %s' % (bad,))
        good = [[1., 0.5, -2.], [0.25, 1., 3.]]
        a = s.compute_ft(good)
        ctx.eq(s.compute_ft(np.array(good)), a, 'list or array')
        ctx.eq(s.compute_ft(np.array(good).T), a, 'rows or columns')


CASES = [dict(name='ft-%s-%s' % (k, f), fn=h_ft, args=dict(kind=k, form=f))
         for k, f in (('circle', 'array'), ('circle', 'list'), ('circle', 'transposed'), ('circle', 'gx0'),
                      ('ellipse0', 'array'), ('ellipse', 'array'), ('ellipse', 'gx0'), ('round', 'array'))]
CASES += [dict(name='inside-' + k, fn=h_in, args=dict(kind=k)) for k in ('circle', 'ellipse0', 'ellipse', 'round')]
CASES += [dict(name='repr', fn=h_repr), dict(name='malformed', fn=h_malformed)]
