"""C09 reciprocal lattice truncation"""
BOUNDS = ('cut-off gmax any real in (0.6,1.9) (all shells in between); square, rectangular with any aspect, two oblique lattices (60 and about 20 degrees, both exact rationals); '
          'guided-mode, exciton and plane-wave expansions; also cut-offs exactly on a shell')
OUTSIDE = 'larger cut-offs'
STUBS = 'layers without shapes (the truncation does not depend on the content)'
LATS = {'square': ([1., 0.], [0., 1.]), 'oblique': ([1., 0.], [0.5, 0.875]), 'thin': ([1., 0.], [0.9375, 0.34375]), 'obtuse': ([1., 0.], [-0.9375, 0.34375])}


def lattice(ctx, lat):
    if lat == 'rect':
        p = ctx.real('p', 0.8, 1.4)
        return ctx.lg.Lattice([p, 0.], [0., 1.]), [p, 0 * p], [0 * p, 1 + 0 * p]
    a1, a2 = LATS[lat]
    return ctx.lg.Lattice(list(a1), list(a2)), a1, a2


def solver(ctx, L, which, trunc, gmax):
    ph = ctx.lg.PhotCryst(L)
    ph.add_layer(d=0.5, eps_b=5.)
    if which == 'gme':
        return ctx.lg.GuidedModeExp(ph, gmax=gmax, truncate_g=trunc)
    if which == 'exc':
        ph.add_shape(ctx.lg.Circle(eps=2., r=0.2))
        return ctx.mod('legume.exc').ExcitonSchroedEq(ph, z=0.25, V_shapes=0., a=1., M=1., E0=1., loss=0., gmax=gmax, truncate_g=trunc)
    return ctx.lg.PlaneWaveExp(ph.layers[0], gmax=gmax)


def decode(ctx, G, L, a1, a2):
    out = []
    for j in range(G.shape[1]):
        n = ctx.nearint((G[0, j] * a1[0] + G[1, j] * a1[1]) / (2 * ctx.pi))
        m = ctx.nearint((G[0, j] * a2[0] + G[1, j] * a2[1]) / (2 * ctx.pi))
        for c in (0, 1):
            ctx.eq(G[c, j], n * L.b1[c] + m * L.b2[c], 'G is an integer combination of b1, b2', scale=1)
        out.append((n, m))
    return out


def h_trunc(ctx, lat='square', which='gme', trunc='abs', lo=0.6, hi=1.9, fixed=None, R=6):
    L, a1, a2 = lattice(ctx, lat)
    pi = ctx.pi
    if fixed is None:
        gmax = ctx.real('gmax', lo, hi)
    else:
        gmax = fixed
    b1, b2 = L.b1, L.b2
    B11 = b1[0] * b1[0] + b1[1] * b1[1]
    B22 = b2[0] * b2[0] + b2[1] * b2[1]
    B12 = b1[0] * b2[0] + b1[1] * b2[1]
    want = set()
    lim = 4 * pi * pi * gmax * gmax
    for n in range(-R, R + 1):
        for m in range(-R, R + 1):
            if trunc == 'abs':
                q = n * n * B11 + m * m * B22 + 2 * n * m * B12
                if fixed is None and (n, m) > (0, 0):
                    # cut-offs exactly on a shell are the 'fixed' cases
                    ctx.assume(q != lim)
                if bool(q <= lim):
                    want.add((n, m))
            elif bool(n * n * B11 <= lim) and bool(m * m * B22 <= lim):
                want.add((n, m))
    s = solver(ctx, L, which, trunc, gmax)
    got = decode(ctx, s.gvec, L, a1, a2)
    ctx.same(len(set(got)), len(got), 'no reciprocal vector twice')
    ctx.same(sorted(got), sorted(want), 'exactly the vectors inside the cut-off')
    ctx.same((0, 0) in got, True, 'G = 0 included')
    ctx.same(sorted((-n, -m) for n, m in got), sorted(got), 'closed under G -> -G')


def h_err(ctx):
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice('square'))
    ph.add_layer(d=0.5, eps_b=5.)
    ctx.raises(ValueError, lambda: ctx.lg.GuidedModeExp(ph, gmax=1., truncate_g='box'), 'unknown truncation')
    ctx.raises(ValueError, lambda: ctx.mod('legume.exc').ExcitonSchroedEq(ph, z=0.25, V_shapes=0., a=1., M=1., E0=1., loss=0., gmax=1., truncate_g='box'), 'unknown truncation')
    for z in (-0.1, 0.6):
        ctx.raises(ValueError, lambda: ctx.mod('legume.exc').ExcitonSchroedEq(ph, z=z, V_shapes=0., a=1., M=1., E0=1., loss=0., gmax=1.), 'exciton layer in a cladding')


CASES = []
for w in ('gme', 'exc'):
    for lat in ('square', 'oblique', 'thin', 'obtuse', 'rect'):
        lo, hi, R = (0.6, 1.3, 5) if lat in ('thin', 'obtuse') else (0.6, 1.2, 3) if lat == 'rect' else (0.6, 1.9, 4)
        CASES.append(dict(name='%s-abs-%s' % (w, lat), fn=h_trunc, args=dict(lat=lat, which=w, lo=lo, hi=hi, R=R)))
        if lat != 'obtuse':
            CASES.append(dict(name='%s-tbt-%s' % (w, lat), fn=h_trunc, args=dict(lat=lat, which=w, trunc='tbt', lo=1.1, hi=1.9, R=4)))
    CASES.append(dict(name='%s-abs-shell-1' % w, fn=h_trunc, args=dict(which=w, fixed=1.0, R=3)))
    CASES.append(dict(name='%s-abs-shell-2' % w, fn=h_trunc, args=dict(which=w, fixed=2.0, R=4)))
for lat in ('square', 'oblique', 'thin', 'rect'):
    CASES.append(dict(name='pwe-%s' % lat, fn=h_trunc, args=dict(lat=lat, which='pwe', trunc='tbt', lo=1.1, hi=1.9, R=4)))
CASES.append(dict(name='errors', fn=h_err))
