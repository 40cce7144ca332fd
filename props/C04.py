"""C04 polygons"""
from .poly import poly_ft, shoelace

BOUNDS = ('triangles with arbitrary real vertices, quadrilaterals/squares/hexagons with arbitrary centre and size, '
          'FourierShape with 4..8 points and up to two cosine / one sine coefficient; arbitrary G with both components '
          'non-zero, G on the y axis, and G=0; orientation and membership for arbitrary triangles and points')
OUTSIDE = ('G exactly perpendicular to an edge (there legume relies on a 1e-10 regulariser and float cancellation, '
           'which the real-number model does not contain); polygons with more vertices')
STUBS = 'matplotlib.path.Path.contains_points as the even-odd rule (its documented contract)'


def _verts(ctx, kind):
    lg, np = ctx.lg, ctx.np
    if kind == 'tri':
        vx = ctx.reals('x0 x1 x2', -2, 2)
        vy = ctx.reals('y0 y1 y2', -2, 2)
        ctx.assume(shoelace(vx, vy) > 0.01)
        return vx, vy, lambda: lg.Poly(eps=5., x_edges=vx, y_edges=vy)
    if kind == 'quad':
        w, h, s = ctx.real('w', 0.2, 2), ctx.real('h', 0.2, 2), ctx.real('s', 0.1, 0.4)
        vx = [0 * w, w, w + s, s]
        vy = [0 * w, s * h, h + s * h, h]
        return vx, vy, lambda: lg.Poly(eps=5., x_edges=np.array(vx), y_edges=np.array(vy))
    xc, yc = ctx.reals('xc yc', -2, 2)
    a = ctx.real('a', 0.1, 2)
    if kind == 'square':
        h = a / 2
        return [xc - h, xc + h, xc + h, xc - h], [yc - h, yc - h, yc + h, yc + h], \
            lambda: lg.Square(eps=5., x_cent=xc, y_cent=yc, a=a)
    if kind == 'hexagon':
        r3 = np.sqrt(3) / 2
        return [xc + a, xc + a / 2, xc - a / 2, xc - a, xc - a / 2, xc + a / 2], \
            [yc, yc + r3 * a, yc + r3 * a, yc, yc - r3 * a, yc - r3 * a], \
            lambda: lg.Hexagon(eps=5., x_cent=xc, y_cent=yc, a=a)


def h_ft(ctx, kind='tri', g='gen'):
    np = ctx.np
    vx, vy, mk = _verts(ctx, kind)
    n = len(vx)
    gy = ctx.real('gy', -9, 9)
    gx = ctx.real('gx', -9, 9) if g == 'gen' else 0 * gy
    ctx.assume(gy * gy > 0.01)
    if g == 'gen':
        ctx.assume(gx * gx > 0.01)
    for j in range(n):
        k = (j + 1) % n
        u = gx * (vx[k] - vx[j]) + gy * (vy[k] - vy[j])
        ctx.assume(u * u > 0.0001)
        ctx.assume((vx[k] - vx[j]) ** 2 + 0 * gy > 0.0001) if kind == 'tri' else None
        ctx.assume((vy[k] - vy[j]) ** 2 + 0 * gy > 0.0001) if kind == 'tri' else None
    if kind in ('square', 'hexagon'):
        xc, yc = (vx[0] + vx[2]) / 2, (vy[0] + vy[2]) / 2
        if kind == 'hexagon':
            xc, yc = vx[1] - (vx[0] - vx[3]) / 4, vy[0]
            r3 = np.sqrt(3) / 2
            a = (vx[0] - vx[3]) / 2
            ctx.angle_base(gx * xc + gy * yc)
            ctx.angle_base(gx * a / 2)
            ctx.angle_base(gy * r3 * a)
        else:
            ctx.angle_base(gx * xc + gy * yc)
            ctx.angle_base(gx * (vx[1] - vx[0]) / 2)
            ctx.angle_base(gy * (vy[2] - vy[0]) / 2)
    else:
        for j in range(n):
            ctx.angle_base(gx * vx[j] + gy * vy[j])
    s = mk()
    z = 0 * gy
    G = np.array([[gx, z, -gx], [gy, z, -gy]])
    ft = s.compute_ft(G)
    want = poly_ft(ctx, vx, vy, gx, gy)
    ctx.same(tuple(ft.shape), (3,), 'one value per wavevector')
    ctx.eq(ft[0], want, 'FT(G)', scale=1)
    ctx.eq(ft[1], shoelace(vx, vy), 'FT(0) is the area', scale=1)
    ctx.eq(ft[2], np.conj(want), 'FT(-G)', scale=1)
    ctx.eq(s.area, shoelace(vx, vy), 'area')
    ctx.eq(s.compute_ft([[gx], [gy]])[0], want, 'FT(G) alone', scale=1)


def h_orient(ctx):
    vx = ctx.reals('x0 x1 x2', -2, 2)
    vy = ctx.reals('y0 y1 y2', -2, 2)
    a = shoelace(vx, vy)
    ctx.assume(a * a > 0.0001)
    try:
        s = ctx.lg.Poly(eps=2., x_edges=vx, y_edges=vy)
    except ValueError:
        ctx.ge(0, a, 'only clockwise vertices are rejected')
        return
    ctx.ge(a, 0, 'clockwise vertices are rejected')
    ctx.eq(s.x_edges, ctx.arr(vx + [vx[0]]), 'closed polygon')
    ctx.eq(s.y_edges, ctx.arr(vy + [vy[0]]), 'closed polygon')
    ctx.eq(s.area, a, 'area')


def h_inside(ctx, kind='tri'):
    np = ctx.np
    vx, vy, mk = _verts(ctx, kind)
    s = mk()
    x, y = ctx.reals('px py', -2, 2)
    n = len(vx)
    ins = s.is_inside(np.array([[x, x + 9], [x, x]]), np.array([[y, y], [y + 9, y]]))
    ctx.same(tuple(ins.shape), (2, 2), 'mask shape')
    sides = []
    for j in range(n):
        k = (j + 1) % n
        sides.append((vx[k] - vx[j]) * (y - vy[j]) - (vy[k] - vy[j]) * (x - vx[j]))
    if bool(ins[0, 0]):
        for c in sides:
            ctx.ge(c, 0, 'reported inside')
    else:
        ctx.true(_some_nonpos(ctx, sides), 'reported outside')
    ctx.same([bool(ins[0, 1]), bool(ins[1, 0])], [False, False], 'far points are outside')
    ctx.same(bool(ins[1, 1]), bool(ins[0, 0]), 'same point, same answer')


def _some_nonpos(ctx, cs):
    b = False
    for c in cs:
        q = (c <= 1e-9) if not ctx.symbolic else (c <= 0)
        b = q if b is False else (b | q)
    return b


def h_fourier(ctx, npts=4, na=1, nb=0):
    np, pi = ctx.np, ctx.pi
    xc, yc = ctx.reals('xc yc', -2, 2)
    a0 = ctx.real('a0', 1, 2)
    an = [ctx.real('a%d' % (i + 1), -0.2, 0.2) for i in range(na)]
    bn = [ctx.real('b%d' % (i + 1), -0.2, 0.2) for i in range(nb)]
    s = ctx.lg.FourierShape(eps=3., x_cent=xc, y_cent=yc, f_as=np.array([a0] + an), f_bs=np.array(bn), npts=npts)
    vx, vy = [], []
    for j in range(npts):
        ph = 2 * pi * j / npts
        R = a0 / 2
        for i, c in enumerate(an):
            R = R + c * np.cos((i + 1) * ph)
        for i, c in enumerate(bn):
            R = R + c * np.sin((i + 1) * ph)
        vx.append(xc + R * np.cos(ph))
        vy.append(yc + R * np.sin(ph))
    ctx.eq(s.x_edges[:npts], ctx.arr(vx), 'vertices x')
    ctx.eq(s.y_edges[:npts], ctx.arr(vy), 'vertices y')
    ctx.eq(s.area, shoelace(vx, vy), 'area')


def h_fourier_neg(ctx):
    np = ctx.np
    a0, a1 = ctx.real('a0', 0.1, 2), ctx.real('a1', -2, 2)
    ok = (a1 <= a0 / 2) and (a1 >= -a0 / 2)
    ctx.assume((a1 - a0 / 2) ** 2 > 0.0001)
    ctx.assume((a1 + a0 / 2) ** 2 > 0.0001)
    try:
        ctx.lg.FourierShape(f_as=np.array([a0, a1]), npts=4)
    except ValueError:
        ctx.same(bool(ok), False, 'rejected only when R(phi) < 0 somewhere')
        return
    ctx.same(bool(ok), True, 'accepted only when R(phi) >= 0 at the sampled angles')


CASES = [
    dict(name='ft-tri', fn=h_ft), dict(name='ft-tri-gx0', fn=h_ft, args=dict(g='gx0')),
    dict(name='ft-quad', fn=h_ft, args=dict(kind='quad')),
    dict(name='ft-square', fn=h_ft, args=dict(kind='square')),
    dict(name='ft-hexagon', fn=h_ft, args=dict(kind='hexagon')),
    dict(name='orientation', fn=h_orient),
    dict(name='inside-tri', fn=h_inside), dict(name='inside-square', fn=h_inside, args=dict(kind='square')),
    dict(name='fourier-4', fn=h_fourier), dict(name='fourier-8', fn=h_fourier, args=dict(npts=8, na=2, nb=1)),
    dict(name='fourier-6', fn=h_fourier, args=dict(npts=6, na=1, nb=1)),
    dict(name='fourier-negative', fn=h_fourier_neg),
]
