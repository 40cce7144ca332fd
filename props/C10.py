"""C10 permittivity matrix"""
BOUNDS = ('every Fourier coefficient eps(G) an arbitrary complex number with eps(-G) = conj eps(G) (so every possible layer content); '
          'up to 9 reciprocal vectors, both truncations, three layers with one to three patterned; square and oblique lattice; guided-mode, plane-wave and exciton solvers')
OUTSIDE = 'larger truncations; matrix inversion itself (np.linalg.inv is recorded, its argument checked)'
STUBS = 'layer.compute_ft returns the symbolic coefficients; numpy.linalg.inv returns a tagged placeholder'
LATS = {'square': ([1., 0.], [0., 1.]), 'oblique': ([1., 0.], [0.5, 0.875])}


class FT:
    """Fourier coefficients of one layer: eps(n1,n2), Hermitian in G"""
    def __init__(self, ctx, tag, L, a1, a2, R, real=False, avg=None):
        self.ctx, self.a1, self.a2 = ctx, a1, a2
        self.c = {}
        k = 0
        for n in range(-R, R + 1):
            for m in range(-R, R + 1):
                if (n, m) > (0, 0):
                    k += 1
                    re = ctx.real('%sr%d_%d' % (tag, n, m), 0.02 * k, 0.02 * k + 0.01)
                    im = 0
                    if real is False or (real in ('mixed', 'diagonal') and n * m < 0):
                        im = ctx.real('%si%d_%d' % (tag, n, m), 0.03 * k, 0.03 * k + 0.02)
                    if real == 'diagonal' and n + m != 0:
                        # a grating along the cell diagonal
                        re = im = 0.
                    self.c[n, m] = re + 1j * im
                    self.c[-n, -m] = re - 1j * im
        self.c[0, 0] = ctx.real(tag + 'avg', 8, 12)
        self.calls = 0

    def at(self, G):
        ctx = self.ctx
        self.calls += 1
        out = []
        for j in range(G.shape[1]):
            n = ctx.nearint((G[0, j] * self.a1[0] + G[1, j] * self.a1[1]) / (2 * ctx.pi))
            m = ctx.nearint((G[0, j] * self.a2[0] + G[1, j] * self.a2[1]) / (2 * ctx.pi))
            out.append(self.c[n, m])
        return ctx.arr(out)


def index(ctx, G, a1, a2):
    return [(ctx.nearint((G[0, j] * a1[0] + G[1, j] * a1[1]) / (2 * ctx.pi)),
             ctx.nearint((G[0, j] * a2[0] + G[1, j] * a2[1]) / (2 * ctx.pi))) for j in range(G.shape[1])]


def check(ctx, M, idx, ft, label):
    N = len(idx)
    ctx.same(tuple(M.shape), (N, N), label + ': size')
    for i in range(N):
        for j in range(N):
            ctx.eq(M[i, j], ft.c[idx[i][0] - idx[j][0], idx[i][1] - idx[j][1]], label)


def record_inv(ctx, got):
    bd = ctx.mod('legume.backend').backend

    def inv(a):
        got.append(a)
        return ('inverse', len(got) - 1)
    ctx.patch(bd, 'inv', inv)


def h_gme(ctx, lat='square', trunc='abs', gmax=1.2, patterned=(1, 1), real=False, R=4):
    a1, a2 = LATS[lat]
    L = ctx.lg.Lattice(list(a1), list(a2))
    ph = ctx.lg.PhotCryst(L)
    for k in range(3):
        ph.add_layer(d=0.3, eps_b=4. + k)
    fts = {}
    for k, lay in enumerate(ph.layers):
        if k in patterned:
            fts[k] = FT(ctx, 'e%d' % k, L, a1, a2, R, real)
            ctx.patch(lay, 'compute_ft', fts[k].at)
    g = ctx.lg.GuidedModeExp(ph, gmax=gmax, truncate_g=trunc)
    got = []
    record_inv(ctx, got)
    g.compute_eps_inv()
    idx = index(ctx, g.gvec, a1, a2)
    N = len(idx)
    ctx.same(len(g.eps_inv_mat), 5, 'one matrix per layer and cladding')
    ctx.same(len(got), len(fts), 'only patterned layers need an inversion')
    back = [1., 4., 5., 6., 1.]
    for l in range(5):
        if l - 1 in fts:
            m = g.eps_inv_mat[l]
            ctx.same(isinstance(m, tuple) and m[0] == 'inverse', True, 'inverse of the permittivity matrix stored')
            check(ctx, got[m[1]], idx, fts[l - 1], 'eps matrix is eps(G_i - G_j)')
        else:
            M = g.eps_inv_mat[l]
            for i in range(N):
                for j in range(N):
                    ctx.eq(M[i, j], 1 / back[l] if i == j else 0.0, 'homogeneous layer: 1/eps on the diagonal', scale=1)


def h_pwe(ctx, lat='square', gmax=1.2, real=False, R=4):
    a1, a2 = LATS[lat]
    L = ctx.lg.Lattice(list(a1), list(a2))
    lay = ctx.lg.ShapesLayer(L, eps_b=3.)
    ft = FT(ctx, 'e', L, a1, a2, R, real)
    ctx.patch(lay, 'compute_ft', ft.at)
    p = ctx.lg.PlaneWaveExp(lay, gmax=gmax)
    got = []
    record_inv(ctx, got)
    p._compute_ft()
    p._compute_eps_inv()
    ctx.same(len(got), 1, 'one inversion')
    ctx.same(p.eps_inv_mat, ('inverse', 0), 'inverse stored')
    check(ctx, got[0], index(ctx, p.gvec, a1, a2), ft, 'eps matrix is eps(G_i - G_j)')


def h_exc(ctx, lat='square', trunc='abs', gmax=1.2, real=False, R=4):
    a1, a2 = LATS[lat]
    L = ctx.lg.Lattice(list(a1), list(a2))
    ph = ctx.lg.PhotCryst(L)
    ph.add_layer(d=0.3, eps_b=4.)
    ft = FT(ctx, 'v', L, a1, a2, R, real)
    V = ctx.real('V', 0.1, 1)
    seen = []

    def comp(G, Vmax):
        seen.append(Vmax)
        return ft.at(G)
    ctx.patch(ph.layers[0], 'compute_exc_ft', comp)
    e = ctx.mod('legume.exc').ExcitonSchroedEq(ph, z=0.1, V_shapes=V, a=1., M=1., E0=1., loss=0., gmax=gmax, truncate_g=trunc)
    e._compute_matrix()
    ctx.true(len(seen) > 0, 'potential taken from the layer')
    for s in seen:
        ctx.eq(s, V, 'with the depth of the shapes')
    check(ctx, e.pot_mat, index(ctx, e.gvec, a1, a2), ft, 'potential matrix is V(G_i - G_j)')


CASES = [
    dict(name='gme-abs', fn=h_gme, args=dict(patterned=(1,))),
    dict(name='gme-tbt', fn=h_gme, args=dict(trunc='tbt', patterned=(1,), gmax=1.2, R=2)),
    dict(name='gme-abs-oblique', fn=h_gme, args=dict(lat='oblique', patterned=(0, 2), gmax=1.3)),
    dict(name='gme-tbt-oblique', fn=h_gme, args=dict(lat='oblique', trunc='tbt', patterned=(0, 2), gmax=1.3, R=2)),
    dict(name='gme-abs-real', fn=h_gme, args=dict(patterned=(0, 1, 2), real=True)),
    dict(name='gme-tbt-real', fn=h_gme, args=dict(trunc='tbt', patterned=(0, 1, 2), real=True, R=2)),
    dict(name='gme-tbt-mixed', fn=h_gme, args=dict(trunc='tbt', patterned=(0, 2), real='mixed', R=2)),
    dict(name='gme-tbt-diagonal', fn=h_gme, args=dict(trunc='tbt', patterned=(1,), real='diagonal', R=2)),
    dict(name='gme-abs-mixed', fn=h_gme, args=dict(patterned=(0, 2), real='mixed')),
    dict(name='gme-abs-diagonal', fn=h_gme, args=dict(patterned=(1,), real='diagonal', gmax=1.5)),
    dict(name='pwe-mixed', fn=h_pwe, args=dict(R=2, real='mixed')),
    dict(name='pwe', fn=h_pwe, args=dict(R=2)),
    dict(name='pwe-oblique', fn=h_pwe, args=dict(lat='oblique', gmax=1.3, R=2)),
    dict(name='pwe-real', fn=h_pwe, args=dict(real=True, R=2)),
    dict(name='exc-abs', fn=h_exc), dict(name='exc-abs-oblique', fn=h_exc, args=dict(lat='oblique', gmax=1.3)),
    dict(name='exc-tbt', fn=h_exc, args=dict(trunc='tbt', R=2)),
    dict(name='exc-tbt-oblique', fn=h_exc, args=dict(trunc='tbt', lat='oblique', gmax=1.3, R=2)),
]
