"""C19 symmetry separation with respect to a vertical plane"""
from props.C11 import hermitian
BOUNDS = ('3 to 7 reciprocal vectors on square, rectangular and hexagonal lattices, up to three guided modes of mixed polarisation (one of them missing at small wavevectors or not found), every Hermitian matrix that commutes with the '
          'reflection (arbitrary entries), arbitrary solver outcome; all modes or those nearest to any target frequency; dense and sparse separation; odd, even and both; wavevectors along the axes and diagonals, up to three of different directions in one run')
OUTSIDE = 'more reciprocal vectors and modes; structures with only even or only odd states (documented as not implemented: raises)'
STUBS = 'guided modes, permittivity and matrix elements are placeholders (they only set the basis); the matrix is symbolic; eigh: argument recorded, arbitrary eigenvalues and vectors'


def make(ctx, lat, gmax, gmodes, missing, lost=False, trunc='abs'):
    L = ctx.lg.Lattice([1., 0.], [0., 0.25]) if lat == 'rectangular' else ctx.lg.Lattice(lat)
    ph = ctx.lg.PhotCryst(L)
    ph.add_layer(d=0.5, eps_b=6.)
    g = ctx.lg.GuidedModeExp(ph, gmax=gmax, truncate_g=trunc)
    N = g.gvec.shape[1]

    def guided(ga, e, d, n_modes=1, pol='TE', **k):
        oms, cos = [], []
        for i, gg in enumerate(ga):
            n = n_modes
            if n > 1 and (i < missing or lost):
                n -= 1
            oms.append([0.6 * gg + 0.01 * m for m in range(n)])
            cos.append([ctx.np.array([[[0j], [1. + 0j]], [[1. + 0j], [1. + 0j]], [[1. + 0j], [0j]]]) for m in range(n)])
        return oms, cos
    ctx.patch(ctx.mod('legume.gme.gme'), 'guided_modes', guided)

    def eps_inv(only_gmodes=False):
        g.eps_inv_mat = [ctx.np.eye(N)] * 3
        g.hom_layer = [True] * 3
    ctx.patch(g, 'compute_eps_inv', eps_inv)
    me = ctx.mod('legume.gme.matrix_elements')

    def element(*a, **kw):
        idx = [x for x in list(a) + list(kw.values()) if getattr(getattr(x, 'dtype', None), 'kind', '') == 'i' and x.ndim == 1]
        return ctx.np.zeros((idx[0].size, idx[1].size))
    for f in ('mat_te_te', 'mat_tm_tm', 'mat_te_tm', 'mat_tm_te'):
        ctx.patch(me, f, element)
    return g, N


def basis(ctx, g, N, k, gmodes, missing, lost):
    """(mode, index of G) in the order of the matrix, and the parity matrix of the reflection as a signed permutation"""
    f = lambda x: ctx.fval(x)
    G = [(f(g.gvec[0, i]), f(g.gvec[1, i])) for i in range(N)]
    q = [(G[i][0] + k[0]) ** 2 + (G[i][1] + k[1]) ** 2 for i in range(N)]
    order = sorted(range(N), key=lambda i: q[i])
    rank = {i: r for r, i in enumerate(order)}
    b = []
    top = {p: max([m for m in gmodes if m % 2 == p], default=-1) for p in (0, 1)}
    for m in gmodes:
        hi = m > 1 and m == top[m % 2]
        if hi and lost:
            continue
        for i in range(N):
            if hi and rank[i] < missing:
                continue
            b.append((m, i))
    k2 = k[0] ** 2 + k[1] ** 2
    perm, sign = [], []
    for m, i in b:
        dot = (G[i][0] * k[0] + G[i][1] * k[1]) / k2
        R = (2 * dot * k[0] - G[i][0], 2 * dot * k[1] - G[i][1])
        j = [j for j in range(N) if abs(G[j][0] - R[0]) + abs(G[j][1] - R[1]) < 1e-6]
        perm.append(b.index((m, j[0])))
        sign.append(1 if m % 2 else -1)
    return b, perm, sign


def h_sep(ctx, lat='rectangular', gmax=1.2, gmodes=(0, 1), k=(0.5, 0.), angle=0., symm='both', sparse=False, missing=0, lost=False, vecs='unit', first=None, trunc='abs', near=None):
    g, N = make(ctx, lat, gmax, gmodes, missing, lost, trunc)
    b, perm, sign = basis(ctx, g, N, k, gmodes, missing, lost)
    n = len(b)
    X = hermitian(ctx, 'x', n)
    M = ctx.arr([[(X[i, j] + sign[i] * sign[j] * X[perm[i], perm[j]]) / 2 for j in range(n)] for i in range(n)])
    orig = g._construct_mat
    sizes = []

    def construct(kind):
        m = orig(kind)
        sizes.append(m.shape)
        return M
    run = lambda **kw: g.run(gmode_inds=list(gmodes), compute_im=False, verbose=False, delta_gx=0., delta_gabs=0., use_sparse=sparse, **kw)
    if first:
        # an earlier run with another set of modes must not matter
        ctx.stub_fn('eigh', lambda A, *a, **kw: (ctx.np.arange(A.shape[0]) + 2., ctx.np.eye(A.shape[0])))
        g.run(gmode_inds=list(first), compute_im=False, verbose=False, delta_gx=0., delta_gabs=0., kpoints=ctx.np.array([[k[0]], [k[1]]]), numeig=2)
    ctx.patch(g, '_construct_mat', construct)
    calls = []

    def eigh(A, *a, **kw):
        c = len(calls)
        m = A.shape[0]
        U = ctx.np.eye(m) if vecs == 'unit' else ctx.arr([[ctx.cplx('u%d_%d_%d' % (c, r, i), -1, 1) for i in range(m)] for r in range(m)])
        w = [2. + c + 3 * i for i in range(m)]
        calls.append((A, U, w))
        return ctx.np.array(w), U
    ctx.stub_fn('eigh', eigh)
    fixed = [i for i in range(n) if perm[i] == i]
    ne = sum(1 for i in fixed if sign[i] == 1) + (n - len(fixed)) // 2
    no = n - ne
    want = {'both': n, 'even': ne, 'odd': no}[symm.lower()]
    if near:
        # the modes closest to any target frequency
        want, lo, hi = near
        sigma = ctx.real('sigma', lo, hi)
        run(kpoints=ctx.np.array([[k[0]], [k[1]]]), angles=ctx.np.array([angle]), kz_symmetry=symm, numeig=want, eig_sigma=sigma)
    else:
        run(kpoints=ctx.np.array([[k[0]], [k[1]]]), angles=ctx.np.array([angle]), kz_symmetry=symm, numeig=want)
    ctx.same(sizes, [(n, n)], 'basis of the matrix')
    ctx.same((tuple(g.freqs.shape), tuple(g.eigvecs[0].shape), tuple(g.kz_symms.shape)), ((1, want), (n, want), (1, want)), 'all modes of that symmetry are found')
    cols = []
    for m in range(want):
        w = ctx.fval((2 * ctx.pi * g.freqs[0, m]) ** 2)
        c, i, sh = [(c, i, sh) for c in range(len(calls)) for i, ww in enumerate(calls[c][2]) for sh in (0, 1) if abs(ww - sh - w) < 1e-6 and sh == 1][0]
        s = ctx.nearint(g.kz_symms[0, m])
        ctx.same(s in (1, -1), True, 'parity is +1 or -1')
        if symm.lower() != 'both':
            ctx.same(s, 1 if symm.lower() == 'even' else -1, 'the symmetry asked for')
        v = [g.eigvecs[0][r, m] for r in range(n)]
        for r in range(n):
            ctx.eq(sign[r] * v[perm[r]], s * v[r], 'mode has the reported parity')
        cols.append((c, i, s, v))
    got = [(c, i) for c, i, s, v in cols]
    for a in range(1, want):
        ctx.ge(g.freqs[0, a], g.freqs[0, a - 1], 'ascending frequencies')
    if near:
        ctx.same(len(set(got)), want, 'no mode twice')
        keep = range(len(calls)) if symm.lower() == 'both' else [c for c, _ in got[:1]]
        far = [ctx.np.sqrt(calls[c][2][i] - 1.) / 2 / ctx.pi for c in keep for i in range(len(calls[c][2])) if (c, i) not in got]
        for f in far:
            for a in range(want):
                ctx.ge(abs(f - sigma), abs(g.freqs[0, a] - sigma), 'nearest to the target')
        return
    ctx.same(sorted((c, i) for c, i, s, v in cols), sorted((c, i) for c in range(len(calls)) for i in range(len(calls[c][2]))), 'each mode once')
    if symm.lower() == 'both':
        ctx.same(sum(1 for c in cols if c[2] == 1), ne, 'number of even modes')
    for a in range(want):
        for e in range(want):
            if cols[a][0] != cols[e][0]:
                continue
            A, U, w = calls[cols[a][0]]
            m = len(w)
            ua, ue = [U[r, cols[a][1]] for r in range(m)], [U[r, cols[e][1]] for r in range(m)]
            va, ve = cols[a][3], cols[e][3]
            cj = lambda x: ctx.np.conj(x)
            ov = sum(cj(va[r]) * ve[r] for r in range(n))
            ctx.eq(ov, sum(cj(ua[r]) * ue[r] for r in range(m)), 'change of basis is orthonormal')
            lhs = sum(cj(va[r]) * M[r, t] * ve[t] for r in range(n) for t in range(n))
            rhs = sum(cj(ua[r]) * (A[r, t] - (1 if r == t else 0)) * ue[t] for r in range(m) for t in range(m))
            ctx.eq(lhs, rhs, 'blocks are the matrix in the symmetrised basis')


def h_path(ctx, ks, angles, lat='rectangular', gmax=1.2, gmodes=(0, 1), symm='both', sparse=False, missing=0):
    """several wavevectors of different directions in one run: each is separated by its own plane, with its own basis"""
    g, N = make(ctx, lat, gmax, gmodes, missing)
    bs = [basis(ctx, g, N, k, gmodes, missing, False) for k in ks]
    n = len(bs[0][0])
    ctx.same([len(b[0]) for b in bs], [n] * len(ks), 'basis size')
    Ms = []
    for q, (b, perm, sign) in enumerate(bs):
        X = hermitian(ctx, 'x%d' % q, n)
        Ms.append(ctx.arr([[(X[i, j] + sign[i] * sign[j] * X[perm[i], perm[j]]) / 2 for j in range(n)] for i in range(n)]))
    orig = g._construct_mat
    ctx.patch(g, '_construct_mat', lambda kind: (orig(kind), Ms[kind])[1])
    calls = []

    def eigh(A, *a, **kw):
        m = A.shape[0]
        calls.append((A, [2. + len(calls) + 20 * i for i in range(m)]))
        return ctx.np.array(calls[-1][1]), ctx.np.eye(m)
    ctx.stub_fn('eigh', eigh)
    nev = []
    for b, perm, sign in bs:
        fixed = [i for i in range(n) if perm[i] == i]
        nev.append(sum(1 for i in fixed if sign[i] == 1) + (n - len(fixed)) // 2)
    want = min({'both': n, 'even': e, 'odd': n - e}[symm] for e in nev)
    g.run(gmode_inds=list(gmodes), compute_im=False, verbose=False, delta_gx=0., delta_gabs=0., use_sparse=sparse, kpoints=ctx.np.array([[k[0] for k in ks], [k[1] for k in ks]]),
          angles=ctx.np.array(angles), kz_symmetry=symm, numeig=want)
    ctx.same((tuple(g.freqs.shape), tuple(g.kz_symms.shape)), ((len(ks), want), (len(ks), want)), 'modes of every wavevector')
    per = len(calls) // len(ks)
    cj = ctx.np.conj
    for q, (b, perm, sign) in enumerate(bs):
        mine = calls[q * per:(q + 1) * per]
        for m in range(want):
            w = ctx.fval((2 * ctx.pi * g.freqs[q, m]) ** 2)
            c, i = [(c, i) for c in range(per) for i, x in enumerate(mine[c][1]) if abs(x - 1 - w) < 1e-6][0]
            s = ctx.nearint(g.kz_symms[q, m])
            v = [g.eigvecs[q][r, m] for r in range(n)]
            for r in range(n):
                ctx.eq(sign[r] * v[perm[r]], s * v[r], 'mode has the reported parity')
            ctx.eq(sum(cj(x) * x for x in v), 1. + 0j, 'change of basis is orthonormal')
            ctx.eq(sum(cj(v[r]) * Ms[q][r, t] * v[t] for r in range(n) for t in range(n)), mine[c][0][i, i] - 1, 'blocks are the matrix in the symmetrised basis')
        if symm == 'both':
            ctx.same(sum(1 for m in range(want) if ctx.nearint(g.kz_symms[q, m]) == 1), nev[q], 'number of even modes')


def h_broken(ctx, sparse=False, k=(0.5, 0.), angle=0., thr=None):
    """a matrix without the symmetry is refused"""
    g, N = make(ctx, 'rectangular', 1.2, (0, 1), 0)
    n = 2 * N
    X = ctx.arr([[ctx.real('x%d_%d' % (min(i, j), max(i, j)), 0.1 + 0.01 * (i + j), 0.105 + 0.01 * (i + j)) for j in range(n)] for i in range(n)])
    orig = g._construct_mat
    ctx.patch(g, '_construct_mat', lambda kind: (orig(kind), X)[1])
    ctx.stub_fn('eigh', lambda A, *a, **kw: (ctx.np.arange(A.shape[0]) + 2., ctx.np.eye(A.shape[0])))
    opts = lambda t: {} if t is None else {'symm_thr': t}
    go = lambda t: g.run(gmode_inds=[0, 1], compute_im=False, verbose=False, kpoints=ctx.np.array([[k[0]], [k[1]]]), angles=ctx.np.array([angle]),
                         kz_symmetry='both', numeig=2, delta_gx=0., delta_gabs=0., use_sparse=sparse, **opts(t))
    ctx.raises(ValueError, lambda: go(thr), 'matrix without the symmetry raises')
    go(10.)
    ctx.same(tuple(g.freqs.shape), (1, 2), 'unless the threshold asked for allows it')


def h_angle(ctx):
    """planes that are not symmetry planes of the lattice are refused; reflection matrices"""
    for lat, good, bad in (('square', (0., 45., -135.), (30., 10.)), ('hexagonal', (0., 30., 150.), (45., 10.)), ('rectangular', (0., 90., 180.), (45., 30.))):
        g, N = make(ctx, lat, 1.2, (0, 1), 0)
        for a in bad:
            ctx.raises(ValueError, lambda: g.run(gmode_inds=[0, 1], compute_im=False, verbose=False, kpoints=ctx.np.array([[.5], [.5]]), angles=ctx.np.array([a]), kz_symmetry='both', numeig=1), 'direction without symmetry raises')
    a1 = ctx.lg.PhotCryst(ctx.lg.Lattice([1., 0.], [0.25, 0.75]))
    a1.add_layer(d=0.5, eps_b=6.)
    g = ctx.lg.GuidedModeExp(a1, gmax=1.2)
    ctx.raises(ValueError, lambda: g.run(gmode_inds=[0, 1], compute_im=False, verbose=False, kpoints=ctx.np.array([[.5], [0.]]), angles=ctx.np.array([0.]), kz_symmetry='odd', numeig=1), 'oblique lattice raises')


R = dict(lat='rectangular')
S = dict(lat='square', gmax=1.1)
CASES = [
    dict(name='x-both', fn=h_sep, args=dict(R)), dict(name='x-odd', fn=h_sep, args=dict(R, symm='odd')), dict(name='x-even', fn=h_sep, args=dict(R, symm='Even')),
    dict(name='y-both', fn=h_sep, args=dict(R, k=(0., 0.5), angle=90.)), dict(name='y-both-sparse', fn=h_sep, args=dict(R, k=(0., 0.5), angle=90., sparse=True)),
    dict(name='y-odd-sparse', fn=h_sep, args=dict(R, k=(0., -0.5), angle=-90., sparse=True, symm='odd')), dict(name='y-even', fn=h_sep, args=dict(R, k=(0., 0.5), angle=90., symm='even')),
    dict(name='y-uneven', fn=h_sep, args=dict(R, k=(0., 0.5), angle=90., gmodes=(0, 1, 2))), dict(name='x-uneven-sparse', fn=h_sep, args=dict(R, gmodes=(1, 0, 3), sparse=True)),
    dict(name='missing', fn=h_sep, args=dict(R, k=(0., 0.5), angle=90., gmodes=(0, 1, 2), missing=1)),
    dict(name='missing-sparse', fn=h_sep, args=dict(R, k=(0., 0.5), angle=90., gmodes=(2, 1, 0), missing=1, sparse=True, symm='odd')),
    dict(name='lost', fn=h_sep, args=dict(R, gmodes=(2, 0, 1), lost=True)), dict(name='lost-sparse', fn=h_sep, args=dict(R, gmodes=(0, 3, 1), lost=True, sparse=True)),
    dict(name='second-run', fn=h_sep, args=dict(R, gmodes=(0, 1), first=(2, 1, 0), missing=1)),
    dict(name='vectors', fn=h_sep, args=dict(R, k=(0., 0.5), angle=90., vecs='any', symm='both')), dict(name='vectors-odd-sparse', fn=h_sep, args=dict(R, vecs='any', symm='odd', sparse=True)),
    dict(name='square-diagonal', fn=h_sep, args=dict(S, k=(0.5, 0.5), angle=45.)), dict(name='square-x-sparse', fn=h_sep, args=dict(S, k=(0.5, 0.), angle=0., sparse=True)),
    dict(name='hex-30', fn=h_sep, args=dict(lat='hexagonal', gmax=1.2, k=(0.5 * 3 ** .5, 0.5), angle=30.)), dict(name='hex-0-sparse', fn=h_sep, args=dict(lat='hexagonal', gmax=1.2, k=(0.5, 0.), angle=0., sparse=True)),
    dict(name='tbt', fn=h_sep, args=dict(R, k=(0., 0.5), angle=90., trunc='tbt')),
    dict(name='near-both', fn=h_sep, args=dict(R, near=(3, 0.2, 0.4))), dict(name='near-both-sparse', fn=h_sep, args=dict(R, near=(2, 0.2, 0.45), sparse=True, k=(0., 0.5), angle=90.)),
    dict(name='near-odd', fn=h_sep, args=dict(R, symm='odd', near=(2, 0.15, 0.45))), dict(name='near-even', fn=h_sep, args=dict(R, symm='even', near=(2, 0.15, 0.45))),
    dict(name='path', fn=h_path, args=dict(ks=[(0.5, 0.), (0., 0.5)], angles=[0., 90.])), dict(name='path-sparse', fn=h_path, args=dict(ks=[(0., 0.5), (0.5, 0.)], angles=[90., 0.], gmodes=(1, 0, 2), sparse=True)),
    dict(name='path-odd', fn=h_path, args=dict(ks=[(0.5, 0.), (0., 0.25), (0., 0.5)], angles=[0., 90., 90.], gmodes=(0, 1, 2), symm='odd')),
    dict(name='path-missing', fn=h_path, args=dict(ks=[(0.5, 0.), (0., 9.)], angles=[0., 90.], gmodes=(2, 1, 0), missing=1)),
    dict(name='path-square', fn=h_path, args=dict(lat='square', gmax=1.1, ks=[(0.5, 0.), (0.5, 0.5)], angles=[0., 45.], symm='even')),
    dict(name='broken', fn=h_broken), dict(name='broken-sparse', fn=h_broken, args=dict(sparse=True, k=(0., 0.5), angle=90.)), dict(name='threshold', fn=h_broken, args=dict(thr=0.08)), dict(name='threshold-sparse', fn=h_broken, args=dict(sparse=True, thr=0.08)), dict(name='angle', fn=h_angle),
]
