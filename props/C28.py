"""C28 numerical utilities: inverse Fourier sums, nearest elements, numerical gradients, scattering composition, root search, units"""
import warnings
BOUNDS = ('1 to 5 Fourier components at fixed reciprocal vectors (with duplicates), grids of up to 3 x 2 arbitrary points; arrays of 3 and 4 arbitrary numbers; all 2x2 scattering matrices; '
          'all quadratic functions of up to four parameters, arbitrary steps; all lattice constants')
OUTSIDE = 'longer arrays; ft2square (marked untested in the code, fails for every input); brentq itself (arguments recorded, arbitrary root)'
STUBS = 'scipy brentq'


def h_ftinv(ctx, gvec, nx, ny, order=None):
    np = ctx.np
    ut = ctx.mod('legume.utils')
    u = sorted(set(gvec))
    co = {g: ctx.cplx('f%d' % i, -1, 1) for i, g in enumerate(u)}
    xs = [ctx.real('x%d' % i, -2, 2) for i in range(nx)]
    ys = [ctx.real('y%d' % i, -2, 2) for i in range(ny)]
    r = ut.ftinv(ctx.arr([co[g] for g in gvec]), np.array(gvec).T, ctx.arr(xs), ctx.arr(ys))
    ctx.same(tuple(r.shape), (ny, nx), 'rows are y, columns are x')
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            want = sum(co[g] * (np.cos(g[0] * x + g[1] * y) + 1j * np.sin(g[0] * x + g[1] * y)) for g in u)
            ctx.eq(r[i, j], want, 'sum of the plane waves at the point, every wavevector once')


def h_nearest(ctx, n, N, fixed=None):
    ut = ctx.mod('legume.utils')
    v = fixed if fixed else [ctx.real('v%d' % i, -2, 2) for i in range(n)]
    t = ctx.real('t', -2, 2)
    r = [int(i) for i in ut.find_nearest(ctx.arr(v), t, N)]
    ctx.same((len(set(r)), min(r) >= 0, max(r) < n), (min(N, n), True, True), 'distinct indices')
    d = [abs(x - t) for x in v]
    for i, j in zip(r, r[1:]):
        ctx.ge(d[j], d[i], 'nearest first')
    for j in range(n):
        if j not in r:
            ctx.ge(d[j], d[r[-1]], 'others are further away')


def h_star(ctx, real=False):
    """the composed scattering matrix against the waves between the two parts"""
    np = ctx.np
    ut = ctx.mod('legume.utils')
    num = ctx.real if real else ctx.cplx
    A = [[num('a%d%d' % (i, j), -0.5, 0.5) for j in range(2)] for i in range(2)]
    B = [[num('b%d%d' % (i, j), -0.5, 0.5) for j in range(2)] for i in range(2)]
    S = ut.RedhefferStar(ctx.arr(A), ctx.arr(B))
    # a wave `l` from the left, a wave `y` leaving A to the right, a wave `x` leaving B to the left
    l, r = num('l', -1, 1), num('r', -1, 1)
    den = 1 - A[1][1] * B[0][0]
    y = (A[1][0] * l + A[1][1] * B[0][1] * r) / den
    x = (B[0][1] * r + B[0][0] * A[1][0] * l) / den
    ctx.eq(S[0, 0] * l + S[0, 1] * r, A[0][0] * l + A[0][1] * x, 'wave leaving to the left')
    ctx.eq(S[1, 0] * l + S[1, 1] * r, B[1][0] * y + B[1][1] * r, 'wave leaving to the right')
    one = np.array([[0., 1.], [1., 0.]])
    ctx.eq(ut.RedhefferStar(ctx.arr(A), one), ctx.arr(A), 'nothing on the right')
    ctx.eq(ut.RedhefferStar(one, ctx.arr(A)), ctx.arr(A), 'nothing on the left')


def quad(ctx, n):
    c = [ctx.real('c%d' % i, -2, 2) for i in range(n)]
    q = [[ctx.real('q%d%d' % (min(i, j), max(i, j)), -2, 2) for j in range(n)] for i in range(n)]

    def f(p):
        p = list(p)
        return sum(c[i] * p[i] for i in range(n)) + sum(q[i][j] * p[i] * p[j] for i in range(n) for j in range(n))
    d = lambda p, i, s: c[i] + sum(2 * q[i][j] * p[j] for j in range(n)) + q[i][i] * s
    return f, d


def h_grad(ctx, shape, step):
    np = ctx.np
    ut = ctx.mod('legume.utils')
    n = int(np.prod(shape))
    f, d = quad(ctx, n)
    p = [ctx.real('p%d' % i, -2, 2) for i in range(n)]
    if step == 'int arg':
        p = [1 + i for i in range(n)]
    shapes = []

    def fn(x):
        shapes.append(tuple(x.shape))
        return f(x.ravel())
    x0 = ctx.arr(p).reshape(shape)
    if step == 'array':
        s = [ctx.real('s%d' % i, 0.01, 0.5) for i in range(n)]
        g = ut.grad_num(fn, x0, step_size=ctx.arr(s).reshape(shape))
    else:
        val = dict(number=0.125, npfloat=np.float64(0.125) if not ctx.symbolic else 0.125, int=1)
        val['int arg'] = 0.125
        s = [val[step]] * n
        g = ut.grad_num(fn, x0, step_size=val[step])
    ctx.same(tuple(g.shape), tuple(shape), 'shape of the gradient')
    ctx.same(set(shapes), {tuple(shape)}, 'function called with arrays of the shape given')
    for i in range(n):
        ctx.eq(g.ravel()[i], d(p, i, s[i]), 'difference quotient %d' % i)
    ctx.eq(x0.ravel(), p, 'argument unchanged')


def h_vjpnum(ctx):
    """numerical vector-Jacobian products: two arguments, vector output"""
    ut = ctx.mod('legume.utils')
    n = 2
    f1, d1 = quad(ctx, n)
    k = [ctx.real('k%d' % i, -2, 2) for i in range(3)]

    def fn(a, b, c):
        a, c = list(a.ravel()), list(c.ravel())
        return ctx.arr([f1(a) + k[0] * c[0] * c[0], k[1] * a[0] * c[1] + k[2] * b])
    a, c = [[ctx.real('arg%s%d' % (t, i), -1, 1) for i in range(2)] for t in 'ac']
    b = ctx.real('argb', -1, 1)
    v = [ctx.real('v%d' % i, -1, 1) for i in range(2)]
    args = (ctx.arr(a), b, ctx.arr(c))
    st = [0.125, 0.25]
    mk = ut.vjp_maker_num(fn, [0, 2], st)
    ctx.same(len(mk), 2, 'one per argument')
    out = fn(*args)
    ga, gc = mk[0](out, *args)(ctx.arr(v)), mk[1](out, *args)(ctx.arr(v))
    ctx.eq(ga, [v[0] * d1(a, 0, st[0]) + v[1] * k[1] * c[1], v[0] * d1(a, 1, st[0])], 'first argument')
    ctx.eq(gc, [v[0] * k[0] * (2 * c[0] + st[1]), v[1] * k[1] * a[0]], 'third argument')
    ctx.eq(args[0], a, 'arguments unchanged')


def h_energy(ctx, kind):
    ut = ctx.mod('legume.utils')
    lo, hi = dict(usual=(0.5, 50), small=(0.05, 0.49), large=(51, 90), bad=(-3, 0))[kind]
    a = ctx.real('a', lo, hi) * 1e-7
    if kind == 'bad':
        ctx.raises((ValueError,), lambda: ut.from_freq_to_e(a), 'negative lattice constant')
        ctx.raises((ValueError,), lambda: ut.from_freq_to_e(0.), 'zero lattice constant')
        ctx.raises((ValueError,), lambda: ut.from_freq_to_e(0), 'zero lattice constant')
        return
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        c = ut.from_freq_to_e(a)
    ctx.eq(c, 4.135667696e-15 * 299792458.0 / a, 'h c / (e a)')
    ctx.same(sum(issubclass(x.category, UserWarning) and 'lattice constant' in str(x.message) for x in w), 0 if kind == 'usual' else 1, 'warning exactly for unusual lattice constants')


def h_extend(ctx):
    ut = ctx.mod('legume.utils')
    np = ctx.np
    v = [ctx.cplx('v%d' % i, -1, 1) for i in range(3)]
    r = ut.extend(ctx.arr(v), np.array([4, 0, 2]), (6,))
    ctx.eq(r, [v[1], 0, v[2], 0, v[0], 0], 'values at their places, zero elsewhere')
    m = np.array([[True, False], [False, True]])
    r = ut.extend(ctx.arr(v[:2]), np.where(m), (2, 2))
    ctx.eq(r, [[v[0], 0], [0, v[1]]], 'matrix places')


def h_fsolve(ctx):
    ut = ctx.mod('legume.utils')
    p, q = ctx.real('p', -1, 1), ctx.real('q', -1, 1)
    lb, ub, root = ctx.real('lb', 0, 1), ctx.real('ub', 2, 3), ctx.real('root', 1, 2)
    rec = []

    def brentq(f, a, b, args=(), **k):
        rec.append((a, b, args, f(root, *args)))
        return root
    ctx.patch(ut, 'brentq', brentq)
    r = ut.fsolve(lambda x, s, t: x * x * s + t, lb, ub, p, q)
    ctx.eq(r, root, 'the root')
    ctx.same(len(rec), 1, 'one search')
    ctx.eq([rec[0][0], rec[0][1]] + list(rec[0][2]), [lb, ub, p, q], 'bracket and parameters')
    ctx.eq(rec[0][3], root * root * p + q, 'function searched')


G5 = [(0., 0.), (6.5, 0.), (-6.5, 0.), (0., 3.25), (6.5, -3.25)]
CASES = [
    dict(name='ftinv', fn=h_ftinv, args=dict(gvec=G5, nx=2, ny=2)),
    dict(name='ftinv_mirror', fn=h_ftinv, args=dict(gvec=[(6.5, 3.25), (-6.5, 3.25), (6.5, -3.25), (-6.5, -3.25), (0., 3.25), (0., -3.25)], nx=2, ny=2)),
    dict(name='ftinv_one', fn=h_ftinv, args=dict(gvec=G5[1:2], nx=1, ny=2)),
    dict(name='ftinv_duplicates', fn=h_ftinv, args=dict(gvec=[G5[1], G5[0], G5[1], G5[3], G5[0], G5[1]], nx=3, ny=1)),
    dict(name='nearest_3', fn=h_nearest, args=dict(n=3, N=2), max_paths=200),
    dict(name='nearest_all', fn=h_nearest, args=dict(n=3, N=5), max_paths=200),
    dict(name='nearest_sorted', fn=h_nearest, args=dict(n=5, N=2, fixed=[-1., 0., 0.5, 1., 2.]), max_paths=200, wall=60),
    dict(name='nearest_4', fn=h_nearest, args=dict(n=4, N=1), max_paths=400, tier='thorough', wall=120),
    dict(name='scattering', fn=h_star),
    dict(name='scattering_real', fn=h_star, args=dict(real=True)),
    dict(name='grad_scalar', fn=h_grad, args=dict(shape=(1,), step='number')),
    dict(name='grad_matrix', fn=h_grad, args=dict(shape=(2, 2), step='array')),
    dict(name='grad_vector', fn=h_grad, args=dict(shape=(3,), step='number')),
    dict(name='grad_npfloat', fn=h_grad, args=dict(shape=(2,), step='npfloat')),
    dict(name='grad_int_step', fn=h_grad, args=dict(shape=(2,), step='int')),
    dict(name='grad_int_arg', fn=h_grad, args=dict(shape=(2,), step='int arg')),
    dict(name='vjp_num', fn=h_vjpnum),
    dict(name='energy_usual', fn=h_energy, args=dict(kind='usual')),
    dict(name='energy_small', fn=h_energy, args=dict(kind='small')),
    dict(name='energy_large', fn=h_energy, args=dict(kind='large')),
    dict(name='energy_bad', fn=h_energy, args=dict(kind='bad')),
    dict(name='extend', fn=h_extend),
    dict(name='fsolve', fn=h_fsolve),
]
