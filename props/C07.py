"""C07 permittivity in real space"""
BOUNDS = ('one point anywhere in a 3x3 block of cells of the square lattice (home cell for oblique lattices); 1..2 circles or a square with arbitrary centre in the home '
          'cell, arbitrary size up to the cell, arbitrary permittivities; 1..3 layers of arbitrary thickness, any height z; points exactly on a curve excluded')
OUTSIDE = 'more shapes; points further away than the stated block'
STUBS = 'none (floor is exact)'
LATS = dict(square=([1., 0.], [0., 1.]), hex=([0.5, 0.875], [0.5, -0.875]),
            rect=([1., 0.], [0., 0.5]), skew=([1., 0.], [0.96875, 0.25]))


def images(a1, a2, N):
    for n in range(-N, N + 1):
        for m in range(-N, N + 1):
            yield n * a1[0] + m * a2[0], n * a1[1] + m * a2[1]


def cell_point(ctx, nm, a1, a2, w=0.5):
    s, t = ctx.real('s' + nm, -w, w), ctx.real('t' + nm, -w, w)
    return s * a1[0] + t * a2[0], s * a1[1] + t * a2[1]


def inside_circle(ctx, x, y, xc, yc, r, a1, a2, N):
    hit = False
    for ox, oy in images(a1, a2, N):
        q = (x + ox - xc) ** 2 + (y + oy - yc) ** 2 - r * r
        if bool(q == 0):
            ctx.assume(q < -1)
        if bool(q < 0):
            hit = True
            break
    return hit


def h_layer(ctx, lat='square', n=1, w=0.5, rmax=0.49, N=2, home=False):
    a1, a2 = LATS[lat]
    np = ctx.np
    L = ctx.lg.Lattice(list(a1), list(a2))
    ph = ctx.lg.PhotCryst(L)
    eb = ctx.real('eb', 1, 2)
    ph.add_layer(d=0.5, eps_b=eb)
    sh = []
    for i in range(n):
        xc, yc = (0., 0.) if home else cell_point(ctx, 'c%d' % i, a1, a2)
        r = ctx.real('r%d' % i, 0.05, rmax)
        e = ctx.real('e%d' % i, 3 + 3 * i, 5 + 3 * i)
        ph.add_shape(ctx.lg.Circle(eps=e, x_cent=xc, y_cent=yc, r=r))
        sh.append((xc, yc, r, e))
    x, y = cell_point(ctx, 'p', a1, a2, w)
    out = ph.layers[0].get_eps((np.array([x]), np.array([y])))
    ctx.same(tuple(out.shape), (1,), 'shape of the result')
    want = eb
    for xc, yc, r, e in reversed(sh):
        if inside_circle(ctx, x, y, xc, yc, r, a1, a2, N):
            want = e
            break
    ctx.eq(out[0], want, 'permittivity at the point: the last shape whose periodic image contains it, else the background')


def h_square(ctx):
    """a polygon, periodic over the cells"""
    np = ctx.np
    L = ctx.lg.Lattice('square')
    ph = ctx.lg.PhotCryst(L)
    eb, e = ctx.real('eb', 1, 2), ctx.real('e', 3, 5)
    ph.add_layer(d=0.5, eps_b=eb)
    a = ctx.real('a', 0.1, 0.9)
    xc, yc = ctx.reals('xc yc', -0.5, 0.5)
    ph.add_shape(ctx.lg.Square(eps=e, x_cent=xc, y_cent=yc, a=a))
    x, y = ctx.reals('x y', -0.5, 0.5)
    out = ph.layers[0].get_eps((np.array([[x]]), np.array([[y]])))
    ctx.same(tuple(out.shape), (1, 1), 'shape of the result')
    hit = False
    for ox, oy in images((1, 0), (0, 1), 1):
        u, v = x + ox - xc, y + oy - yc
        m = True
        for q in (u - a / 2, u + a / 2, v - a / 2, v + a / 2):
            if bool(q == 0):
                ctx.assume(q < -9)
        m = bool(u < a / 2) and bool(u > -a / 2) and bool(v < a / 2) and bool(v > -a / 2)
        hit = hit or m
    ctx.eq(out[0, 0], e if hit else eb, 'permittivity at the point')


def h_z(ctx, n=2):
    np = ctx.np
    el, eu = ctx.reals('el eu', 1, 15)
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice('square'), eps_l=el, eps_u=eu)
    d = [ctx.real('d%d' % i, 0.05, 2) for i in range(n)]
    e = [ctx.real('e%d' % i, 1, 15) for i in range(n)]
    edges = [0 * d[0]]
    for i in range(n):
        ph.add_layer(d=d[i], eps_b=e[i])
        edges.append(edges[-1] + d[i])
    # one circle per layer and cladding
    s = [ctx.real('h%d' % i, 1, 15) for i in range(n + 2)]
    for i in range(n + 2):
        kw = dict(cladding='l') if i == 0 else dict(cladding='u') if i == n + 1 else dict(layer=i - 1)
        ph.add_shape(ctx.lg.Circle(eps=s[i], r=0.25), **kw)
    z = ctx.real('z', -3, 9)
    P = np.array([z, z])
    out = ph.get_eps((np.array([0.1, 0.4]), np.array([0., 0.]), P))
    ctx.same(tuple(out.shape), (2,), 'shape of the result')
    eb = [el] + e + [eu]
    for i, c in enumerate(edges):
        if bool(z == c):
            ctx.eq((out[0] - s[i]) * (out[0] - s[i + 1]), 0 * z, 'interface belongs to one of its sides', scale=1)
            ctx.eq((out[1] - eb[i]) * (out[1] - eb[i + 1]), 0 * z, 'interface belongs to one of its sides', scale=1)
            return
    k = sum(1 for c in edges if bool(z > c))
    ctx.eq(out[0], s[k], 'the shape of the layer at height z')
    ctx.eq(out[1], eb[k], 'the background of the layer at height z')


def h_shape_errors(ctx):
    np = ctx.np
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice('square'))
    ph.add_layer(d=0.5, eps_b=3.)
    a, b = np.array([0.1, 0.2]), np.array([0.1])
    ctx.raises(ValueError, lambda: ph.get_eps((a, a, b)), 'mismatching meshes')
    ctx.raises(ValueError, lambda: ph.get_eps((a, b, a)), 'mismatching meshes')
    ctx.raises(ValueError, lambda: ph.layers[0].get_eps((a, b)), 'mismatching meshes')


CASES = [
    dict(name='square-1', fn=h_layer, args=dict(w=0.5)),
    dict(name='square-far', fn=h_layer, args=dict(w=1.5, home=True, N=2), max_paths=2000),
    dict(name='square-2', fn=h_layer, args=dict(n=2, w=0.5, N=1), max_paths=3000),
    dict(name='rect-1', fn=h_layer, args=dict(lat='rect', N=3), max_paths=2000),
    dict(name='hex-1', fn=h_layer, args=dict(lat='hex'), max_paths=2000),
    dict(name='hex-2', fn=h_layer, args=dict(lat='hex', n=2, N=2, rmax=0.3, home=True), max_paths=3000),
    dict(name='skew-1', fn=h_layer, args=dict(lat='skew', home=True, N=3, rmax=0.3), max_paths=3000),
    dict(name='polygon', fn=h_square, max_paths=3000),
    dict(name='z-1', fn=h_z, args=dict(n=1)),
    dict(name='z-3', fn=h_z, args=dict(n=3)),
    dict(name='mesh-errors', fn=h_shape_errors),
]
