"""C16 guided-mode expansion matrix is the overlap of the curls of the basis modes"""
from props.C11 import LATS, hermitian
BOUNDS = ('one or two slab layers with arbitrary thickness, 3 reciprocal vectors, up to three guided-mode indices (TE and TM in any order, modes missing at small wavevectors), arbitrary guided-mode '
          'frequencies between the light lines, arbitrary complex field coefficients in every layer, arbitrary Hermitian inverse permittivity per layer (per pair of reciprocal vectors); '
          'three wavevectors; interpolated modes: grids of 3 to 6 points, one or two wavevectors, arbitrary complex coefficients, fixed frequencies and thickness')
OUTSIDE = 'more reciprocal vectors and modes (the matrix is built entry by entry with the same formula); finer interpolation grids'
STUBS = 'guided_modes returns arbitrary frequencies and coefficients; inverse permittivity set to symbols; numpy eigh records its argument'
KP = {'a': (0.5, 0.25), 'b': (-0.75, 1.5), 'x': (0.75, 0.)}


def make(ctx, nl, gmax=1.2, lat='rect', eps=(1., 6., 7., 1.5), trunc='tbt', d=None):
    a1, a2 = LATS[lat]
    L = ctx.lg.Lattice(list(a1), list(a2))
    ph = ctx.lg.PhotCryst(L, eps_l=eps[0], eps_u=eps[-1])
    d = d or [ctx.real('d%d' % i, 0.2, 1.) for i in range(nl)]
    for i in range(nl):
        ph.add_layer(d=d[i], eps_b=eps[1 + i])
    g = ctx.lg.GuidedModeExp(ph, gmax=gmax, truncate_g=trunc)
    return g, d, [eps[0]] + list(eps[1:1 + nl]) + [eps[-1]]


def modes_stub(ctx, g, nl, eps=None, d=None, u=(0.6, 0.7), missing=0, real=False):
    """guided modes: any frequency om = g u, any coefficients; `missing` lowest wavevectors have no highest mode"""
    store = {}
    calls = []

    def guided(g_array, eps_, d_, n_modes=1, step=None, tol=None, pol='TE', **k):
        call = sum(1 for c in calls if c == pol)
        calls.append(pol)
        oms, cos = [], []
        last = None
        for i, gg in enumerate(g_array):
            if last is not None and bool(ctx.np.abs(gg - g_array[i - 1]) < 1e-8):
                oms.append(oms[-1])
                cos.append(cos[-1])
                continue
            last = gg
            o, c = [], []
            for m in range(n_modes):
                if i < missing and m == n_modes - 1 and n_modes > 1:
                    continue
                t = '%s%d_%d_%d' % (pol, call, i, m)
                s = (u[1] - u[0]) / 8
                lo = u[0] + s * (2 * m + (pol == 'TM')) + s / 8 * (i % 4)
                w = gg * ctx.real('u' + t, lo, lo + s / 16)
                C = []
                for l in range(nl + 2):
                    A = 0. if l == 0 else (ctx.real('A%s_%d' % (t, l), 0.1, 1) if real else ctx.cplx('A%s_%d' % (t, l), 0.1, 1))
                    B = 0. if l == nl + 1 else (ctx.real('B%s_%d' % (t, l), 0.1, 1) if real else ctx.cplx('B%s_%d' % (t, l), 0.1, 1))
                    C.append([[A + 0j], [B + 0j]])
                ctx.split(C)
                if eps:
                    for l in range(nl):
                        ctx.angle_base(ctx.np.sqrt(eps[l + 1] * w * w - gg * gg) * d[l] / 2)
                o.append(w)
                c.append(ctx.arr(C))
                store[pol, call, i, m] = (w, C)
            oms.append(o)
            cos.append(c)
        return oms, cos
    ctx.patch(ctx.mod('legume.gme.gme'), 'guided_modes', guided)
    return store, calls


def waves(ctx, store, key, gval, eps):
    """field profile f = A exp(i chi z) + B exp(-i chi z) per layer"""
    w, C = store[key]
    out = []
    for l, e in enumerate(eps):
        s = e * w * w - gval * gval
        chi = ctx.np.sqrt(s) + 0j if e > 3 else 1j * ctx.np.sqrt(-s)
        out.append((C[l][0][0], C[l][1][0], chi))
    return w, out


def integral(ctx, a, l, nl, d, zero):
    """of exp(i a z) over layer l"""
    if l == 0:
        return 1 / (1j * a)
    if l == nl + 1:
        return -1 / (1j * a)
    if zero:
        return d[l - 1]
    return (ctx.np.exp(1j * a * d[l - 1] / 2) - ctx.np.exp(-1j * a * d[l - 1] / 2)) / (1j * a)


def overlap(ctx, w1, w2, l, nl, d, same, der, rad=False):
    """integral over layer l of conj(f1 or f1') (f2 or f2')"""
    (A1, B1, c1), (A2, B2, c2) = w1[l], w2[l]
    c1s = c1.conjugate()
    prop = 0 < l <= nl
    t = 0
    for s1, x1 in ((1, A1), (-1, B1)):
        for s2, x2 in ((1, A2), (-1, B2)):
            # claddings carry only their decaying wave
            if (l == 0 and (s1 == 1 or (s2 == 1 and not rad))) or (l == nl + 1 and (s1 == -1 or (s2 == -1 and not rad))):
                continue
            f = x1.conjugate() * x2
            if der[0]:
                f = f * (-1j * s1 * c1s)
            if der[1]:
                f = f * (1j * s2 * c2)
            t = t + f * integral(ctx, s2 * c2 - s1 * c1s, l, nl, d, same and prop and s1 == s2)
    return t


def states(ctx, g, gmodes, kp, missing):
    """basis: mode by mode, the reciprocal vectors where the mode exists"""
    N = g.gvec.shape[1]
    gx = [KP[kp][0] + g.gvec[0, i] for i in range(N)]
    gy = [KP[kp][1] + g.gvec[1, i] for i in range(N)]
    gn = [ctx.np.sqrt(gx[i] * gx[i] + gy[i] * gy[i]) for i in range(N)]
    fl = [ctx.fval(gx[i] * gx[i] + gy[i] * gy[i]) for i in range(N)]
    order = sorted(range(N), key=lambda i: fl[i])
    rank = {}
    for r, i in enumerate(order):
        rank[i] = r if r == 0 or abs(fl[i] - fl[order[r - 1]]) > 1e-9 else rank[order[r - 1]]
    basis = []
    top = {0: max([m for m in gmodes if m % 2 == 0], default=-1), 1: max([m for m in gmodes if m % 2 == 1], default=-1)}
    for m in gmodes:
        for i in range(N):
            if top[m % 2] >= 2 and m == top[m % 2] and rank[i] < missing:
                continue
            basis.append((m, i))
    return basis, rank, gx, gy, gn


def h_mat(ctx, nl=1, gmodes=(0, 1), kp='a', missing=0, solver='eigh', only=None):
    g, d, eps = make(ctx, nl)
    N = g.gvec.shape[1]
    X = [hermitian(ctx, 'x%d_' % l, N) for l in range(nl + 2)]
    ctx.split(*X)

    def eps_inv(only_gmodes=False):
        g.eps_inv_mat = X
        g.hom_layer = [False] * (nl + 2)
    ctx.patch(g, 'compute_eps_inv', eps_inv)
    store, calls = modes_stub(ctx, g, nl, eps, d, missing=missing)
    got = []

    def eigh(M, *a, **k):
        got.append(M)
        n = M.shape[0]
        return ctx.np.arange(n) + 2., ctx.np.eye(n)
    ctx.stub_fn('eigh', eigh)
    k = ctx.np.array([[KP[kp][0]], [KP[kp][1]]])
    g.run(kpoints=k, gmode_inds=list(gmodes), numeig=2, compute_im=False, verbose=False, delta_gx=0.)
    ctx.same(len(got), 1, 'one diagonalisation')
    M = got[0]
    basis, rank, gx, gy, gn = states(ctx, g, gmodes, kp, missing)
    n = len(basis)
    ctx.same(tuple(M.shape), (n, n), 'one row per mode and reciprocal vector')
    sh = None
    rows = range(n) if only is None else [r for r in range(n) if r % only == 0]
    for r in range(n):
        m1, i = basis[r]
        om1, w1 = waves(ctx, store, ('TM' if m1 % 2 else 'TE', 0, rank[i], m1 // 2), gn[i], eps)
        for c in (range(n) if r in rows else [r]):
            m2, j = basis[c]
            om2, w2 = waves(ctx, store, ('TM' if m2 % 2 else 'TE', 0, rank[j], m2 // 2), gn[j], eps)
            same = rank[i] == rank[j] and m1 == m2
            p1, p2 = (gx[i] / gn[i], gy[i] / gn[i]), (gx[j] / gn[j], gy[j] / gn[j])
            q1, q2 = (p1[1], -p1[0]), (p2[1], -p2[0])
            dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
            ref = 0
            for l in range(nl + 2):
                I = lambda *der: overlap(ctx, w1, w2, l, nl, d, same, der)
                if m1 % 2 == 0 and m2 % 2 == 0:
                    v = (eps[l] * om1 * om1) * (eps[l] * om2 * om2) * dot(q1, q2) * I(0, 0)
                elif m1 % 2 and m2 % 2:
                    v = dot(p1, p2) * I(1, 1) + gn[i] * gn[j] * I(0, 0)
                elif m1 % 2 == 0:
                    v = -eps[l] * om1 * om1 * dot(q1, p2) * I(0, 1)
                else:
                    v = -eps[l] * om2 * om2 * dot(p1, q2) * I(1, 0)
                ref = ref + X[l][i, j] * v
            if r == c:
                if sh is None:
                    sh = ctx.nearint(ctx.np.real(M[r, c] - ref))
                ref = ref + sh
            ctx.eq(M[r, c], ref, 'matrix element is <curl H1| 1/eps |curl H2>', scale=1)


def h_interp(ctx, gmodes=(0,), ks=('a',), npts=4, missing=0):
    """guided modes interpolated over a grid of wavevectors which covers all those of the run"""
    g, d, eps = make(ctx, 1, d=[0.375])
    np = ctx.np
    N = g.gvec.shape[1]
    X = [hermitian(ctx, 'x%d_' % l, N) for l in range(3)]
    ctx.split(*X)

    def eps_inv(only_gmodes=False):
        g.eps_inv_mat = X
        g.hom_layer = [False] * 3
    ctx.patch(g, 'compute_eps_inv', eps_inv)
    G = {}
    for q, k in enumerate(ks):
        for i in range(N):
            x, y = KP[k][0] + g.gvec[0, i], KP[k][1] + g.gvec[1, i]
            G[q, i] = (x, y, np.sqrt(x * x + y * y))
    grids, store = {}, {}

    def at(pol, m, q, i):
        """interpolated frequency and coefficients; None below the first wavevector where the mode exists"""
        gr, gk = [ctx.fval(v) for v in grids[pol]], ctx.fval(G[q, i][2])
        first = min(j for j in range(len(gr)) if (pol, j, m) in store)
        if gk <= gr[first]:
            return None
        j = max(j for j in range(first, len(gr) - 1) if gr[j] < gk)
        t = (G[q, i][2] - grids[pol][j]) / (grids[pol][j + 1] - grids[pol][j])
        (w0, C0), (w1, C1) = store[pol, j, m], store[pol, j + 1, m]
        return w0 + t * (w1 - w0), [[[C0[l][c][0] + t * (C1[l][c][0] - C0[l][c][0])] for c in (0, 1)] for l in range(3)]

    def guided(g_array, eps_, d_, n_modes=1, step=None, tol=None, pol='TE', **k):
        ctx.same(pol in grids, False, 'modes of a polarisation found once')
        grids[pol] = [x + 0. for x in g_array]
        fl = [ctx.fval(x) for x in grids[pol]]
        ctx.same(all(fl[j] < fl[j + 1] for j in range(len(fl) - 1)), True, 'ascending grid')
        need = [ctx.fval(v[2]) for v in G.values()]
        ctx.ge(grids[pol][-1], max(need) - 1e-9, 'grid covers the largest wavevector')
        ctx.ge(min(need) + 1e-9, grids[pol][0], 'grid covers the smallest wavevector')
        oms, cos = [], []
        for i, gg in enumerate(grids[pol]):
            o, c = [], []
            for m in range(n_modes):
                if i < missing and m == n_modes - 1:
                    continue
                t = '%s_%d_%d' % (pol, i, m)
                lo = 0.6 + 0.0125 * (2 * m + (pol == 'TM')) + 0.001 * (i % 4)
                w = gg * lo
                C = [[[0. + 0j if l == 0 else ctx.cplx('A%s_%d' % (t, l), 0.1, 1)], [0. + 0j if l == 2 else ctx.cplx('B%s_%d' % (t, l), 0.1, 1)]] for l in range(3)]
                ctx.split(C)
                store[pol, i, m] = (w, C)
                o.append(w)
                c.append(ctx.arr(C))
            oms.append(o)
            cos.append(c)
        return oms, cos
    ctx.patch(ctx.mod('legume.gme.gme'), 'guided_modes', guided)
    got = []

    def eigh(M, *a, **k):
        got.append(M)
        n = M.shape[0]
        return np.arange(n) + 2., np.eye(n)
    ctx.stub_fn('eigh', eigh)
    g.run(kpoints=np.array([[KP[k][0] for k in ks], [KP[k][1] for k in ks]]), gmode_inds=list(gmodes), numeig=2, compute_im=False, verbose=False, delta_gx=0., delta_gabs=0., gmode_compute='interp', gmode_npts=npts)
    ctx.same(len(got), len(ks), 'one diagonalisation per wavevector')
    for q, M in enumerate(got):
        basis = []
        for m in gmodes:
            for i in range(N):
                v = at('TM' if m % 2 else 'TE', m // 2, q, i)
                if v:
                    gk = G[q, i][2]
                    prof = []
                    for l, e in enumerate(eps):
                        sq = e * v[0] * v[0] - gk * gk
                        prof.append((v[1][l][0][0], v[1][l][1][0], np.sqrt(sq) + 0j if e > 3 else 1j * np.sqrt(-sq)))
                    basis.append((m, i, v[0], prof))
        n = len(basis)
        ctx.same(tuple(M.shape), (n, n), 'one row per mode and reciprocal vector')
        sh = None
        for r in range(n):
            m1, i, om1, w1 = basis[r]
            for c in range(n):
                m2, j, om2, w2 = basis[c]
                gi, gj = G[q, i], G[q, j]
                same = abs(ctx.fval(gi[2] - gj[2])) < 1e-9 and m1 == m2
                p1, p2 = (gi[0] / gi[2], gi[1] / gi[2]), (gj[0] / gj[2], gj[1] / gj[2])
                q1, q2 = (p1[1], -p1[0]), (p2[1], -p2[0])
                dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
                ref = 0
                for l in range(3):
                    I = lambda *der: overlap(ctx, w1, w2, l, 1, d, same, der)
                    if m1 % 2 == 0 and m2 % 2 == 0:
                        v = (eps[l] * om1 * om1) * (eps[l] * om2 * om2) * dot(q1, q2) * I(0, 0)
                    elif m1 % 2 and m2 % 2:
                        v = dot(p1, p2) * I(1, 1) + gi[2] * gj[2] * I(0, 0)
                    elif m1 % 2 == 0:
                        v = -eps[l] * om1 * om1 * dot(q1, p2) * I(0, 1)
                    else:
                        v = -eps[l] * om2 * om2 * dot(p1, q2) * I(1, 0)
                    ref = ref + X[l][i, j] * v
                if r == c:
                    if sh is None:
                        sh = ctx.nearint(np.real(M[r, c] - ref))
                    ref = ref + sh
                ctx.eq(M[r, c], ref, 'matrix element of the interpolated modes', scale=1)


CASES = [
    dict(name='te-tm', fn=h_mat), dict(name='tm-te-b', fn=h_mat, args=dict(gmodes=(1, 0), kp='b')),
    dict(name='te', fn=h_mat, args=dict(gmodes=(0,), nl=2, kp='b')), dict(name='tm', fn=h_mat, args=dict(gmodes=(1,), nl=2)),
    dict(name='te-te', fn=h_mat, args=dict(gmodes=(0, 2), missing=1)), dict(name='tm-tm', fn=h_mat, args=dict(gmodes=(3, 1), missing=2, kp='b')),
    dict(name='degenerate', fn=h_mat, args=dict(gmodes=(0, 1), kp='x')),
    dict(name='three', fn=h_mat, args=dict(gmodes=(0, 1, 2), missing=1)),
    dict(name='te-tm-2', fn=h_mat, args=dict(gmodes=(0, 1), nl=2)),
    dict(name='interp', fn=h_interp), dict(name='interp-tm', fn=h_interp, args=dict(gmodes=(1,), ks=('a', 'b'), npts=5)),
    dict(name='interp-mixed', fn=h_interp, args=dict(gmodes=(1, 0), ks=('b', 'a'), npts=3)), dict(name='interp-missing', fn=h_interp, args=dict(gmodes=(0, 2), missing=2, npts=6)),
]
