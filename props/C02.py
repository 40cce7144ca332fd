"""C02 Brillouin-zone paths"""
BOUNDS = ('grids over arbitrary lattices; '
          'paths of 2..4 points with arbitrary real coordinates (in (-4,4) or (0.1,4)), 1..3 points per segment; '
          'int, one-element list and per-segment list for ns; every named point')
OUTSIDE = 'more points per path; label text formatting'
STUBS = 'none'


def check_path(ctx, path, P, ns, npseg, symm, angles=True):
    np = ctx.np
    kp = path['kpoints']
    tot = sum(npseg)
    ctx.same(tuple(kp.shape), (2, tot + 1), 'number of k points')
    starts = [0]
    for n in npseg:
        starts.append(starts[-1] + n)
    ctx.same([int(i) for i in path['indexes']], starts, 'indexes')
    for s, (n, a, b) in enumerate(zip(npseg, P[:-1], P[1:])):
        for j in range(n + 1):
            for c in (0, 1):
                if j == n and s < len(npseg) - 1:
                    continue
                ctx.eq(kp[c, starts[s] + j], a[c] + (b[c] - a[c]) * j / n, 'k point on segment')
    # normalised path length
    ks = path['k_indexes']
    ctx.same(len(ks), len(P), 'one k_index per point')
    lens = [np.sqrt((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) for a, b in zip(P[:-1], P[1:])]
    L = lens[0]
    for l in lens[1:]:
        L = L + l
    acc = 0
    for i in range(len(P)):
        ctx.eq(ks[i] * L, acc if i else 0 * L, 'k_indexes')
        if i < len(lens):
            acc = acc + lens[i] if i else lens[0]
    ang = path['angles']
    ctx.same(len(ang), tot + 1, 'one angle per k point')
    ctx.same(len(path['labels']), len(P), 'one label per point')
    if angles:
        for i in range(tot + 1):
            x, y = kp[0, i], kp[1, i]
            if bool(x == 0) and bool(y == 0):
                x, y = symm
            r = np.sqrt(x * x + y * y)
            ctx.eq(np.cos(ang[i] * ctx.pi / 180) * r, x, 'angle cos')
            ctx.eq(np.sin(ang[i] * ctx.pi / 180) * r, y, 'angle sin')


def h_path(ctx, npts=3, ns=(2,), form='list', lo=0.1, angles=True, typ='list'):
    np = ctx.np
    lat = ctx.lg.Lattice('square')
    P = [[ctx.real('p%d%s' % (i, c), lo, 4) for c in 'xy'] for i in range(npts)]
    for a, b in zip(P[:-1], P[1:]):
        ctx.assume((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2 > 0.01)
    ns = list(ns)
    npseg = ns if len(ns) == npts - 1 else ns * (npts - 1)
    arg = {'list': ns, 'int': ns[0], 'tuple': tuple(ns), 'array': None}[form]
    if form == 'array':
        import numpy
        arg = numpy.array(ns)
    pts = [p if typ == 'list' else np.array(p) for p in P]
    path = lat.bz_path(pts, arg)
    check_path(ctx, path, P, ns, npseg, [ctx.pi, 0], angles)


def h_gamma(ctx, symm='default'):
    np = ctx.np
    name = 'hexagonal' if symm == 'K' else 'square'
    lat = ctx.lg.Lattice(name)
    q = [ctx.real('qx', 0.2, 3), ctx.real('qy', -3, -0.2)]
    pi = ctx.pi
    if symm == 'default':
        path = lat.bz_path(['G', q], [1])
        sy = [pi, 0]
    elif symm == 'vec':
        s = [ctx.real('sx', -3, -0.2), ctx.real('sy', 0.2, 3)]
        path = lat.bz_path(['gamma', q], [1], symm_g=s)
        sy = s
    elif symm == 'M':
        path = lat.bz_path(['g', q], [1], symm_g='M')
        sy = [pi, pi]
    elif symm == 'K':
        path = lat.bz_path(['g', q], [1], symm_g='K')
        sy = [4 * pi / 3, 0]
    check_path(ctx, path, [[0, 0], q], [1], [1], sy)


def h_named(ctx):
    pi = ctx.pi
    sq, hx = ctx.lg.Lattice('square'), ctx.lg.Lattice('hexagonal')
    r3 = ctx.np.sqrt(3)
    for lat, tab in ((sq, dict(x=[pi, 0], m=[pi, pi])), (hx, dict(k=[4 * pi / 3, 0], m=[pi, pi / r3]))):
        for n, want in tab.items():
            for nm in (n, n.upper()):
                path = lat.bz_path(['G', nm, 'Gamma'], [2])
                kp = path['kpoints']
                ctx.eq(kp[:, 2], ctx.arr(want), 'named point')
                ctx.eq(kp[:, 0], ctx.arr([0.0, 0.0]), 'gamma point')
                ctx.eq(kp[:, 4], ctx.arr([0.0, 0.0]), 'gamma point')
                ctx.same(path['labels'][0], 'G', 'label')
                ctx.same(path['labels'][1], nm.upper(), 'label')
    # zone-boundary facts: 2 k . b is |b|^2 for the matching reciprocal vector
    pt = hx.bz_path(['G', 'M'], [1])['kpoints'][:, 1]
    for lat in (sq, hx):
        kp = lat.bz_path(['G', 'M'], [1])['kpoints'][:, 1]
        g = lat.b1 + lat.b2 if lat is sq else None
        if g is not None:
            ctx.eq(2 * (kp[0] * g[0] + kp[1] * g[1]), g[0] ** 2 + g[1] ** 2, 'M on the zone boundary')
        else:
            c = [2 * (kp[0] * g[0] + kp[1] * g[1]) - g[0] ** 2 - g[1] ** 2 for g in (lat.b1, lat.b2, -lat.b2, lat.b1 + lat.b2, lat.b1 - lat.b2)]
            prod = c[0]
            for z in c[1:]:
                prod = prod * z
            ctx.eq(prod / pi ** 10, 0.0, 'M on the zone boundary')
    E = ValueError
    ctx.raises(E, lambda: sq.bz_path(['G'], [2]), 'one point rejected')
    ctx.raises(E, lambda: sq.bz_path(['G', 'X', 'M'], [2, 2, 2]), 'wrong ns length rejected')
    ctx.raises(E, lambda: sq.bz_path(['G', 'K'], [2]), 'K undefined for square')
    ctx.raises(E, lambda: hx.bz_path(['G', 'X'], [2]), 'X undefined for hexagonal')
    cu = ctx.lg.Lattice([1, 0], [0.3, 2])
    ctx.raises(E, lambda: cu.bz_path(['G', 'M'], [2]), 'M undefined for custom')
    ctx.raises(E, lambda: cu.bz_path(['G', 'Q'], [2]), 'unknown point')


def h_grid(ctx, periods=None, named=None):
    np = ctx.np
    if named:
        lat = ctx.lg.Lattice(named)
        nx, ny = (1, 1) if named == 'square' else (2, 2)
    else:
        a = [ctx.real('a1x', -4, 4), ctx.real('a1y', -4, 4), ctx.real('a2x', -4, 4), ctx.real('a2y', -4, 4)]
        cr = a[0] * a[3] - a[1] * a[2]
        ctx.assume(cr * cr > 0.0001)
        lat = ctx.lg.Lattice([a[0], a[1]], [a[2], a[3]])
        nx, ny = (1, 1) if lat.type in ('square', 'rectangular') else (2, 2)
    args = {}
    if periods == 'num':
        nx = ny = args['periods'] = ctx.real('p', 0.1, 5)
    elif periods == 'list':
        nx, ny = args['periods'] = ctx.reals('px py', 0.1, 5)
    x, y = lat.xy_grid(Nx=3, Ny=5, **args)
    ctx.same([len(x), len(y)], [3, 5], 'grid sizes')
    for i, (g, n) in enumerate(((x, nx), (y, ny))):
        w = abs(lat.a1[i])
        w2 = abs(lat.a2[i])
        m = w if bool(w >= w2) else w2
        for k in range(len(g)):
            ctx.eq(g[k], n * m * (k / (len(g) - 1) - 0.5), 'equally spaced, symmetric, spanning the periods asked for')


CASES = [
    dict(name='grid', fn=h_grid), dict(name='grid-number', fn=h_grid, args=dict(periods='num')),
    dict(name='grid-list', fn=h_grid, args=dict(periods='list')),
    dict(name='grid-square', fn=h_grid, args=dict(named='square')), dict(name='grid-hexagonal', fn=h_grid, args=dict(named='hexagonal')),
    dict(name='2pts-n1', fn=h_path, args=dict(npts=2, ns=(1,))),
    dict(name='3pts-n2', fn=h_path, args=dict(npts=3, ns=(2,))),
    dict(name='3pts-n3,1', fn=h_path, args=dict(npts=3, ns=(3, 1), typ='array')),
    dict(name='4pts-n1,2,3', fn=h_path, args=dict(npts=4, ns=(1, 2, 3), form='tuple')),
    dict(name='int-ns', fn=h_path, args=dict(npts=3, ns=(2,), form='int')),
    dict(name='array-ns', fn=h_path, args=dict(npts=3, ns=(2, 1), form='array')),
    dict(name='signed-2pts', fn=h_path, args=dict(npts=2, ns=(1,), lo=-4)),
    dict(name='gamma-default', fn=h_gamma),
    dict(name='gamma-vec', fn=h_gamma, args=dict(symm='vec')),
    dict(name='gamma-M', fn=h_gamma, args=dict(symm='M')),
    dict(name='gamma-K', fn=h_gamma, args=dict(symm='K')),
    dict(name='named', fn=h_named),
]
