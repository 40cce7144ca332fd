"""C27 the two backends agree"""
from props import C22
BOUNDS = ('every operation of the numpy backend on arbitrary arrays of up to 2x3 entries; Fourier transforms of every kind of shape with arbitrary parameters and wavevectors; plane-wave and guided-mode expansions '
          'with 3 to 5 reciprocal vectors, with and without losses, both truncations; sequences of up to four switches')
OUTSIDE = 'values during gradient tracing (autograd evaluates the same functions); gradients (C26)'
STUBS = 'as C22; autograd.numpy evaluates what numpy does (its numerical functions are wrappers)'


def h_ops(ctx):
    """each operation computes what its name says, in both backends"""
    np = ctx.np
    bm = ctx.mod('legume.backend')
    bm.set_backend('numpy')
    A = [[ctx.real('a%d%d' % (i, j), -1, 1) for j in range(3)] for i in range(2)]
    B = [[ctx.real('b%d%d' % (i, j), -1, 1) for j in range(3)] for i in range(2)]
    Z = [[ctx.cplx('z%d%d' % (i, j), -1, 1) for j in range(3)] for i in range(2)]
    p = [ctx.real('p%d' % i, 0.5, 2) for i in range(3)]
    up = [ctx.real('u0', -1, 0), ctx.real('u1', 0.25, 1), ctx.real('u2', 1.25, 2)]
    a, b, z, q, u = (ctx.arr(x) for x in (A, B, Z, p, up))
    n = [[float(3 * i + j) for j in range(3)] for i in range(2)]
    num = np.array([3., 1., 2., 1.])
    R, C = range(2), range(3)
    want = [
        ('sum', (a,), {}, sum(A[i][j] for i in R for j in C)),
        ('sum', (a,), dict(axis=0), [sum(A[i][j] for i in R) for j in C]),
        ('stack', ((q, u),), {}, [p, up]), ('hstack', ((q, u),), {}, p + up), ('vstack', ((q, u),), {}, [p, up]),
        ('transpose', (a,), {}, [[A[i][j] for i in R] for j in C]),
        ('reshape', (a, (3, 2)), {}, [[A[0][0], A[0][1]], [A[0][2], A[1][0]], [A[1][1], A[1][2]]]),
        ('roll', (q, 1), {}, [p[2], p[0], p[1]]), ('roll', (a, -1), dict(axis=1), [[r[1], r[2], r[0]] for r in A]),
        ('triu', (a,), {}, [[A[0][0], A[0][1], A[0][2]], [0, A[1][1], A[1][2]]]),
        ('where', (np.array([True, False, True]), q, u), {}, [p[0], up[1], p[2]]),
        ('argwhere', (np.array([0, 1, 1]),), {}, [[1], [2]]),
        ('amax', (u,), {}, up[2]), ('max', (u,), {}, up[2]), ('min', (u,), {}, up[0]),
        ('sort', (ctx.arr([up[2], up[0], up[1]]),), {}, up), ('argsort', (ctx.arr([up[2], up[0], up[1]]),), {}, [1, 2, 0]),
        ('round', (np.array([0.4, 1.6]),), {}, [0., 2.]), ('shape', (a,), {}, [2, 3]), ('size', (a,), {}, 6),
        ('concatenate', ((a, b),), dict(axis=0), A + B), ('full', ((2,), 0.5), {}, [0.5, 0.5]), ('unique', (num,), {}, [1., 2., 3.]),
        ('extend', (q, np.array([2, 0, 3]), (5,)), {}, [p[1], 0, p[0], p[2], 0]),
        ('exp', (1j * u,), {}, [np.cos(x) + 1j * np.sin(x) for x in up]), ('exp', (q,), {}, [np.exp(x) for x in p]),
        ('bessel1', (q,), {}, [ctx.j1(x) for x in p]),
        ('divide', (u, q), {}, [x / y for x, y in zip(up, p)]), ('abs', (u,), {}, [-up[0], up[1], up[2]]), ('square', (u,), {}, [x * x for x in up]),
        ('sqrt', (ctx.arr([x * x for x in p]),), {}, p), ('power', (q, 3), {}, [x ** 3 for x in p]),
        ('sin', (q,), {}, [np.sin(x) for x in p]), ('cos', (q,), {}, [np.cos(x) for x in p]), ('tan', (q,), {}, [np.sin(x) / np.cos(x) for x in p]),
        ('norm', (np.array([3., 4.]),), {}, 5.),
        ('dot', (a, q), {}, [sum(A[i][j] * p[j] for j in C) for i in R]), ('matmul', (a, ctx.arr(B).T), {}, [[sum(A[i][j] * B[k][j] for j in C) for k in R] for i in R]),
        ('cross', (q, u), {}, [p[1] * up[2] - p[2] * up[1], p[2] * up[0] - p[0] * up[2], p[0] * up[1] - p[1] * up[0]]),
        ('real', (z,), {}, [[x.real for x in r] for r in Z]), ('imag', (z,), {}, [[x.imag for x in r] for r in Z]), ('conj', (z,), {}, [[x.conjugate() for x in r] for r in Z]),
        ('outer', (q, u), {}, [[x * y for y in up] for x in p]),
        ('inv', (ctx.arr([[p[0] + 1, up[0]], [up[1], p[1] + 1]]),), {}, None),
        ('diag', (q,), {}, [[p[i] if i == j else 0 for j in C] for i in C]), ('array', (list(p),), {}, p), ('ones', ((2,),), {}, [1., 1.]), ('zeros', ((2,),), {}, [0., 0.]),
        ('eye', (2,), {}, [[1., 0.], [0., 1.]]), ('linspace', (0., 1., 3), {}, [0., 0.5, 1.]), ('arange', (3,), {}, [0, 1, 2]),
        ('interp', (np.array([0.25, 0.75]), np.array([0., 0.5, 1.]), q), {}, [(p[0] + p[1]) / 2, (p[1] + p[2]) / 2]),
        ('toeplitz_block', (2, ctx.arr([p[0] + 0j, z[0, 0]]), ctx.arr([p[0] + 0j, z[0, 0]])), {}, [[p[0], Z[0][0]], [Z[0][0].conjugate(), p[0]]]),
    ]
    bd = bm.backend
    for name in ('numpy', 'autograd', 'numpy'):
        bm.set_backend(name)
        ctx.true(name in repr(bd).lower(), 'backend says which one it is')
        for op, args, kw, w in want:
            r = getattr(bd, op)(*args, **kw)
            if op == 'inv':
                m = args[0]
                r = np.dot(m, r)
                w = [[1., 0.], [0., 1.]]
            ctx.eq(r, w, '%s: %s' % (name, op))
        ctx.same((bd.newaxis is None), True, 'newaxis')
        ctx.same([bd.zeros((1,), dtype=t).dtype.kind for t in (bd.int, bd.complex)][0], 'i', 'integer type')


def h_switch(ctx, seq):
    """the last accepted name decides; unknown names raise and change nothing"""
    bm = ctx.mod('legume.backend')
    ctx.lg.set_backend('numpy')
    cur = 'numpy'
    obj = ctx.lg.backend
    for s in seq:
        if s in ('numpy', 'autograd'):
            ctx.lg.set_backend(s)
            cur = s
        else:
            ctx.raises((ValueError,), lambda: ctx.lg.set_backend(s), 'unknown backend %r' % (s,))
        ctx.same(type(bm.backend).__name__.lower().startswith(cur), True, 'backend after %s' % (s,))
        ctx.true(ctx.lg.backend is obj and bm.backend is obj, 'one backend object')
        x = ctx.real('x%d' % len(str(s)), -1, 1)
        ctx.eq(obj.square(x), x * x, 'works')
    ctx.lg.set_backend('numpy')


def h_ft(ctx, kind):
    np = ctx.np
    gx, gy = [[ctx.real('g%s%d' % (c, i), 0.5, 3) for i in range(2)] for c in 'xy']
    lg = ctx.lg
    x, y, r = ctx.real('x', -1, 1), ctx.real('y', -1, 1), ctx.real('r', 0.125, 1)
    make = dict(circle=lambda: lg.Circle(eps=2., x_cent=x, y_cent=y, r=r), ellipse=lambda: lg.Ellipse(eps=2., x_cent=x, y_cent=y, rx=r, ry=0.25, phi=0.),
                square=lambda: lg.Square(eps=2., x_cent=x, y_cent=y, a=r), hexagon=lambda: lg.Hexagon(eps=2., x_cent=x, y_cent=y, a=r),
                poly=lambda: lg.Poly(eps=2., x_edges=[x, x + r, x + r / 2], y_edges=[y, y + r / 4, y + r]))[kind]
    out = []
    for name in ('numpy', 'autograd'):
        ctx.lg.set_backend(name)
        s = make()
        out.append(s.compute_ft(ctx.arr([gx, gy])))
        z = s.compute_ft([[0.], [0.]])
        out.append(z)
    ctx.lg.set_backend('numpy')
    ctx.eq(out[0], out[2], 'Fourier transform')
    ctx.eq(out[1], out[3], 'area')


def h_gme(ctx, run, fresh=None, other='autograd', **kw):
    ctx.lg.set_backend('numpy')
    C22.h_gme(ctx, runs=[run], other=other, fresh_kw=fresh, **kw)
    ctx.lg.set_backend('numpy')


def h_pwe(ctx, run):
    ctx.lg.set_backend('numpy')
    C22.h_pwe(ctx, runs=[run], other='autograd')
    ctx.lg.set_backend('numpy')


I = dict(compute_im=True)
CASES = [
    dict(name='operations', fn=h_ops, wall=120),
    dict(name='switch', fn=h_switch, args=dict(seq=['autograd', 'jax', 'numpy', 'autograd'])),
    dict(name='switch_unknown', fn=h_switch, args=dict(seq=['Numpy', None, '', 'torch'])),
    dict(name='ft_circle', fn=h_ft, args=dict(kind='circle')),
    dict(name='ft_ellipse', fn=h_ft, args=dict(kind='ellipse')),
    dict(name='ft_square', fn=h_ft, args=dict(kind='square')),
    dict(name='ft_hexagon', fn=h_ft, args=dict(kind='hexagon')),
    dict(name='ft_poly', fn=h_ft, args=dict(kind='poly')),
    dict(name='gme', fn=h_gme, args=dict(run=dict(fields=True))),
    dict(name='gme_losses', fn=h_gme, args=dict(run=dict(I, fields=True))),
    dict(name='gme_abs', fn=h_gme, args=dict(run=dict(I, fields=True), trunc='abs')),
    dict(name='gme_interp', fn=h_gme, args=dict(run=dict(gmode_compute='interp', gmode_npts=3, gmode_inds=[1]))),
    dict(name='gme_gradients', fn=h_gme, args=dict(run=dict(I, gradients='exact', fields=True), fresh=dict(gradients='approx'))),
    dict(name='gme_gradients_numpy', fn=h_gme, args=dict(run=dict(I, gradients='approx', fields=True), fresh=dict(gradients='exact'), other='numpy')),
    dict(name='gme_symmetry', fn=h_gme, args=dict(run=dict(kz_symmetry='both', kp=(C22.KX,), fields=True), parity=True)),
    dict(name='pwe_te', fn=h_pwe, args=dict(run=dict(pol='te'))),
    dict(name='pwe_tm', fn=h_pwe, args=dict(run=dict(pol='tm', kp=(C22.KA, C22.KB)))),
]
