"""C11 plane-wave expansion: operator and frequencies"""
BOUNDS = ('3 and 9 reciprocal vectors, every Hermitian inverse-permittivity matrix (arbitrary complex entries), two arbitrary real wavevectors, both polarisations, '
          'all eigenvalues/eigenvectors (symbolic) with every number of modes kept; square and oblique lattice')
OUTSIDE = 'more reciprocal vectors; the dense eigensolver itself (its argument and the use of its result are checked)'
STUBS = 'numpy eigh: argument recorded, returns arbitrary ascending eigenvalues and arbitrary vectors; inverse-permittivity matrix set to symbols'
LATS = {'square': ([1., 0.], [0., 1.]), 'oblique': ([1., 0.], [0.5, 0.875]), 'rect': ([1., 0.], [0., 0.25])}


def hermitian(ctx, tag, N):
    X = [[None] * N for _ in range(N)]
    for i in range(N):
        X[i][i] = ctx.real('%s%d' % (tag, i), 0.1, 1)
        for j in range(i):
            re, im = ctx.reals('%sr%d_%d %si%d_%d' % (tag, i, j, tag, i, j), -0.4, 0.4)
            X[i][j] = re + 1j * im
            X[j][i] = re - 1j * im
    return ctx.arr(X)


def setup(ctx, lat, gmax):
    a1, a2 = LATS[lat]
    L = ctx.lg.Lattice(list(a1), list(a2))
    lay = ctx.lg.ShapesLayer(L, eps_b=3.)
    return ctx.lg.PlaneWaveExp(lay, gmax=gmax)


def h_run(ctx, lat='rect', gmax=1.2, pol='te', nk=2, numeig=2):
    p = setup(ctx, lat, gmax)
    N = p.gvec.shape[1]
    X = hermitian(ctx, 'x', N)

    def eps_inv():
        p.eps_inv_mat = X
    ctx.patch(p, '_compute_eps_inv', eps_inv)
    calls = []
    Ws = [[ctx.real('w%d_%d' % (q, i), 2 + i, 2.9 + i) for i in range(N)] for q in range(nk)]
    Vs = [[[ctx.cplx('v%d_%d_%d' % (q, i, j), -1, 1) for j in range(N)] for i in range(N)] for q in range(nk)]

    def eigh(A, *a, **k):
        calls.append(A)
        q = len(calls) - 1
        return ctx.arr(Ws[q]), ctx.arr(Vs[q])
    ctx.stub_fn('eigh', eigh)
    k = ctx.arr([[ctx.real('kx%d' % q, -3, 3) for q in range(nk)], [ctx.real('ky%d' % q, -3, 3) for q in range(nk)]])
    p.run(kpoints=k, pol=pol, numeig=numeig)
    ctx.same(len(calls), nk, 'one diagonalisation per k-point')
    ctx.same(tuple(p.freqs.shape), (nk, min(numeig, N)), 'number of frequencies')
    for q in range(nk):
        gx = [k[0, q] + p.gvec[0, i] for i in range(N)]
        gy = [k[1, q] + p.gvec[1, i] for i in range(N)]
        A = calls[q]
        shift = None
        if pol.lower() == 'te':
            def M(i, j):
                return (gx[i] * gx[j] + gy[i] * gy[j]) * X[i, j]
        else:
            n = [ctx.np.sqrt(gx[i] * gx[i] + gy[i] * gy[i]) for i in range(N)]

            def M(i, j):
                return n[i] * n[j] * X[i, j]
        for i in range(N):
            for j in range(N):
                d = A[i, j] - M(i, j)
                if i == j:
                    if shift is None:
                        shift = ctx.nearint(d)
                    ctx.eq(A[i, i], M(i, i) + shift, 'diagonal of the operator')
                else:
                    ctx.eq(A[i, j], M(i, j), 'operator is (k+Gi)(k+Gj)/eps')
        for m in range(min(numeig, N)):
            f = p.freqs[q, m]
            ctx.ge(f, 0, 'frequency not negative')
            ctx.eq((2 * ctx.pi * f) ** 2, Ws[q][m] - shift, 'eigenvalue is the squared angular frequency')
            for i in range(N):
                ctx.eq(p.eigvecs[q][i, m], Vs[q][i][m], 'eigenvector belongs to the frequency')


def h_pol(ctx):
    p = setup(ctx, 'rect', 1.2)
    ctx.raises(ValueError, lambda: p.run(kpoints=ctx.np.array([[0.1], [0.2]]), pol='tx'), 'unknown polarisation raises')


def h_order(ctx, numeig=2, pol='te'):
    """numerical noise at zero frequency: the reported frequencies are sorted whatever the eigensolver's order near zero"""
    p = setup(ctx, 'rect', 1.2)
    N = p.gvec.shape[1]
    X = hermitian(ctx, 'x', N)

    def eps_inv():
        p.eps_inv_mat = X
    ctx.patch(p, '_compute_eps_inv', eps_inv)
    w = [ctx.real('w%d' % i, lo, hi) for i, (lo, hi) in enumerate([(2, 9)] * N)]
    V = [[1. + r + 10 * i for i in range(N)] for r in range(N)]
    got = []
    ctx.stub_fn('eigh', lambda A, *a, **k: (got.append(A), (ctx.arr(w), ctx.np.array(V)))[1])
    p.run(kpoints=ctx.np.array([[0.5], [0.25]]), pol=pol, numeig=numeig)
    f = p.freqs[0]
    g0 = [0.5 + p.gvec[0, 0], 0.25 + p.gvec[1, 0]]
    shift = ctx.nearint(got[0][0, 0] - (g0[0] * g0[0] + g0[1] * g0[1]) * X[0, 0])
    kept = []
    for m in range(numeig):
        if m:
            ctx.ge(f[m], f[m - 1], 'frequencies ascending')
        i = ctx.nearint((p.eigvecs[0][0, m] - 1) / 10)
        kept.append(i)
        for r in range(N):
            ctx.eq(p.eigvecs[0][r, m], V[r][i], 'eigenvector is one of the solver')
        ctx.eq((2 * ctx.pi * f[m]) ** 2, w[i] - shift, 'frequency belongs to its vector')
    ctx.same(len(set(kept)), numeig, 'each mode once')
    for i in range(N):
        if i not in kept:
            ctx.ge(w[i] - shift, (2 * ctx.pi * f[numeig - 1]) ** 2, 'lowest modes are kept')


def h_repeat(ctx, pol='te'):
    """a second run replaces the first: same results as a fresh object"""
    k1 = ctx.arr([[ctx.real('kx0', -3, 3)], [ctx.real('ky0', -3, 3)]])
    k2 = ctx.arr([[ctx.real('kx1', -3, 3)], [ctx.real('ky1', -3, 3)]])
    got = []
    ctx.stub_fn('eigh', lambda A, *a, **k: (got.append(A), (ctx.np.array([2., 3., 4.]), ctx.np.eye(3)))[1])
    eps = ctx.real('e', 2, 12)
    r = ctx.real('r', 0.05, 0.1)

    def make():
        a1, a2 = LATS['rect']
        lay = ctx.lg.ShapesLayer(ctx.lg.Lattice(list(a1), list(a2)), eps_b=3.)
        lay.add_shape(ctx.lg.Poly(eps=eps, x_edges=[0 * r, r, 0 * r], y_edges=[0 * r, 0 * r, r]))
        return ctx.lg.PlaneWaveExp(lay, gmax=1.2)
    p = make()
    p.run(kpoints=k1, pol='tm' if pol == 'te' else 'te', numeig=3)
    p.run(kpoints=k2, pol=pol, numeig=2)
    q = make()
    q.run(kpoints=k2, pol=pol, numeig=2)
    ctx.same(len(got), 3, 'one diagonalisation per run')
    ctx.eq(got[1], got[2], 'second run equals a fresh run')
    ctx.same((tuple(p.freqs.shape), len(p.eigvecs)), ((1, 2), 1), 'results of the first run are gone')
    ctx.eq(p.kpoints, k2, 'k-points of the second run')


CASES = [
    dict(name='te', fn=h_run), dict(name='tm', fn=h_run, args=dict(pol='tm')),
    dict(name='TE-all', fn=h_run, args=dict(pol='TE', numeig=10)), dict(name='tm-one', fn=h_run, args=dict(pol='TM', numeig=1, nk=1)),
    dict(name='te-square', fn=h_run, args=dict(lat='square', gmax=1.1, nk=1, numeig=4)),
    dict(name='tm-oblique', fn=h_run, args=dict(lat='oblique', gmax=1.2, nk=1, numeig=4, pol='tm')),
    dict(name='te-oblique', fn=h_run, args=dict(lat='oblique', gmax=1.2, nk=1, numeig=4, pol='te')),
    dict(name='pol', fn=h_pol), dict(name='order', fn=h_order), dict(name='order-tm', fn=h_order, args=dict(pol='tm', numeig=3)),
    dict(name='repeat', fn=h_repeat), dict(name='repeat-tm', fn=h_repeat, args=dict(pol='tm')),
]
