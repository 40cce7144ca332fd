"""C01 reciprocal-lattice duality"""
BOUNDS = 'all real primitive vectors with components in (-4,4) (non-collinear); the two named lattices'
OUTSIDE = 'collinear primitive vectors; float rounding (floats are modelled as reals)'
STUBS = 'none'


def h_custom(ctx, form='list'):
    np = ctx.np
    a = [ctx.real('a1x', -4, 4), ctx.real('a1y', -4, 4), ctx.real('a2x', -4, 4), ctx.real('a2y', -4, 4)]
    cr = a[0] * a[3] - a[1] * a[2]
    ctx.assume(cr != 0)
    if form == 'rect':
        a[1] = a[1] * 0
        a[2] = a[2] * 0
        ctx.assume(a[0] * a[3] != 0)
        cr = a[0] * a[3]
    if form == 'tilted':
        # scaled by a power of two: orthogonal in floats as well
        a[2], a[3] = -2 * a[1], 2 * a[0]
        cr = 2 * (a[0] * a[0] + a[1] * a[1])
        ctx.assume(cr != 0)
    v1, v2 = [a[0], a[1]], [a[2], a[3]]
    if form == 'array':
        v1, v2 = np.array(v1), np.array(v2)
    lat = ctx.lg.Lattice(v1, v2)
    ctx.same(lat.type, 'rectangular' if bool(a[0] * a[2] + a[1] * a[3] == 0) else 'custom', 'type')
    if form == 'tilted':
        ctx.same(lat.type, 'rectangular', 'type')
    _dual(ctx, lat, v1, v2, cr)


def _dual(ctx, lat, v1, v2, cr):
    pi = ctx.pi
    ctx.eq(lat.a1, ctx.arr([v1[0], v1[1]]), 'a1 stored')
    ctx.eq(lat.a2, ctx.arr([v2[0], v2[1]]), 'a2 stored')
    for i, (av) in enumerate((v1, v2)):
        for j, b in enumerate((lat.b1, lat.b2)):
            ctx.eq(av[0] * b[0] + av[1] * b[1], 2 * pi if i == j else 0 * pi, 'a%d.b%d' % (i + 1, j + 1))
    ctx.eq(lat.ec_area ** 2, cr ** 2, 'cell area')
    ctx.ge(lat.ec_area, 0, 'cell area positive')
    ctx.ge(lat.bz_area, 0, 'bz area positive')
    ctx.eq(lat.bz_area * lat.ec_area, 4 * pi ** 2, 'areas reciprocal')


def h_named(ctx, name='square'):
    lat = ctx.lg.Lattice(name)
    if name == 'square':
        v1, v2, cr = [1, 0], [0, 1], 1
    else:
        r3 = ctx.np.sqrt(3)
        v1, v2 = [0.5, r3 / 2], [0.5, -r3 / 2]
        cr = -r3 / 2
    ctx.same(lat.type, name, 'type')
    _dual(ctx, lat, v1, v2, ctx.np.array(cr) * 1.0)


CASES = [
    dict(name='custom-list', fn=h_custom),
    dict(name='custom-array', fn=h_custom, args=dict(form='array')),
    dict(name='rectangular', fn=h_custom, args=dict(form='rect')),
    dict(name='tilted', fn=h_custom, args=dict(form='tilted')),
    dict(name='square', fn=h_named),
    dict(name='hexagonal', fn=h_named, args=dict(name='hexagonal')),
]
