"""C18 guided-mode expansion reports the modes asked for"""
from props.C11 import LATS, hermitian
BOUNDS = ('matrices of 3 states (3 reciprocal vectors, one guided mode), arbitrary Hermitian entries; arbitrary ascending eigenvalues (possibly equal), arbitrary eigenvectors, arbitrary target frequency, '
          'every number of modes; dense and sparse eigensolver (any order of the returned pairs); two wavevectors')
OUTSIDE = 'larger matrices; the eigensolvers themselves (arguments and use of results are checked)'
STUBS = 'eigh/eigsh: argument recorded, arbitrary results; matrix construction returns arbitrary Hermitian symbols'


def make(ctx, N=3, nk=1):
    a1, a2 = LATS['rect']
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice(list(a1), list(a2)))
    ph.add_layer(d=0.5, eps_b=6.)
    g = ctx.lg.GuidedModeExp(ph, gmax=1.2, truncate_g='tbt')
    X = [hermitian(ctx, 'x%d_' % q, N) for q in range(nk)]

    def construct(kind):
        return X[kind]
    ctx.patch(g, '_construct_mat', construct)
    return g, X


def h_sel(ctx, numeig=2, target='any', nk=1):
    g, X = make(ctx, nk=nk)
    N = 3
    got, Ws, Vs = [], [], []
    for q in range(nk):
        W = [ctx.real('w%d_%d' % (q, i), 2, 60) for i in range(N)]
        for i in range(N - 1):
            ctx.assume(W[i + 1] - W[i] >= 0)
        Ws.append(W)
        Vs.append([[ctx.cplx('v%d_%d_%d' % (q, r, i), -1 + 2 * i, 1 + 2 * i) for i in range(N)] for r in range(N)])

    def eigh(A, *a, **k):
        got.append(A)
        return ctx.arr(Ws[len(got) - 1]), ctx.arr(Vs[len(got) - 1])
    ctx.stub_fn('eigh', eigh)
    s = 0. if target == 'zero' else ctx.real('s', 0.1, 1.5)
    k = ctx.np.array([[0.5, 0.1][:nk], [0.25, 0.7][:nk]])
    if target == 'zero':
        g.run(kpoints=k, gmode_inds=[0], numeig=numeig, compute_im=False, verbose=False)
    else:
        g.run(kpoints=k, gmode_inds=[0], numeig=numeig, compute_im=False, verbose=False, eig_sigma=s)
    ctx.same(len(got), nk, 'one diagonalisation per wavevector')
    ctx.same(tuple(g.freqs.shape), (nk, numeig), 'number of frequencies')
    ctx.eq(g.kpoints, k, 'wavevectors stored')
    for q in range(nk):
        W, V = Ws[q], Vs[q]
        sh = ctx.nearint(got[q][0, 0] - X[q][0, 0])
        for i in range(N):
            for j in range(N):
                ctx.eq(got[q][i, j], X[q][i, j] + (sh if i == j else 0), 'the matrix is diagonalised')
        kept = []
        for m in range(numeig):
            f = g.freqs[q, m]
            if m:
                ctx.ge(f, g.freqs[q, m - 1], 'ascending')
            # which of the solver's vectors is this (real parts of the columns have disjoint ranges)
            e = ctx.np.real(g.eigvecs[q][0, m])
            i = 0 if bool(e < 1) else (1 if bool(e < 3) else 2)
            kept.append(i)
            for r in range(N):
                ctx.eq(g.eigvecs[q][r, m], V[r][i], 'eigenvector of the solver')
            ctx.ge(f, 0, 'not negative')
            ctx.eq((2 * ctx.pi * f) ** 2, W[i] - sh, 'frequency of its eigenvector')
        ctx.same(len(set(kept)), numeig, 'each mode once')
        f = [ctx.np.sqrt(W[i] - sh) / (2 * ctx.pi) for i in range(N)]
        for i in range(N):
            for j in kept:
                if i not in kept:
                    ctx.ge(ctx.np.abs(f[i] - s), ctx.np.abs(f[j] - s), 'the modes nearest to the target are kept')


def h_eigsh(ctx, numeig=2):
    g, X = make(ctx)
    N = 3
    got = []
    W = [ctx.real('w%d' % i, 2, 60) for i in range(numeig)]
    V = [[ctx.cplx('v%d_%d' % (r, i), -1 + 2 * i, 1 + 2 * i) for i in range(numeig)] for r in range(N)]

    def eigsh(A, *a, **k):
        got.append((A, a, k))
        return ctx.arr(W), ctx.arr(V)
    bd = ctx.mod('legume.backend').backend
    ctx.patch(bd, 'eigsh', eigsh)
    s = ctx.real('s', 0.1, 1.5)
    g.run(kpoints=ctx.np.array([[0.5], [0.25]]), gmode_inds=[0], numeig=numeig, compute_im=False, verbose=False, eig_sigma=s, eig_solver='eigsh')
    ctx.same(len(got), 1, 'one diagonalisation')
    A, a, kw = got[0]
    ctx.same(a[0] if a else kw.get('k'), numeig, 'number of eigenvalues asked for')
    sh = ctx.nearint(A[0, 0] - X[0][0, 0])
    for i in range(N):
        for j in range(N):
            ctx.eq(A[i, j], X[0][i, j] + (sh if i == j else 0), 'the matrix is diagonalised')
    sg = [kw['sigma']] if 'sigma' in kw else [a[1 + (len(a) > 2)]]
    ctx.eq(sg[0], (2 * ctx.pi * s) ** 2 + sh, 'eigenvalues nearest to the squared target')
    ctx.same(kw.get('which', 'LM'), 'LM', 'eigenvalues nearest to the squared target')
    ctx.same(tuple(g.freqs.shape), (1, numeig), 'number of frequencies')
    for m in range(numeig):
        f = g.freqs[0, m]
        if m:
            ctx.ge(f, g.freqs[0, m - 1], 'ascending')
        e = ctx.np.real(g.eigvecs[0][0, m])
        i = 0 if bool(e < 1) else (1 if bool(e < 3) else 2)
        for r in range(N):
            ctx.eq(g.eigvecs[0][r, m], V[r][i], 'eigenvector of the solver')
        ctx.ge(f, 0, 'not negative')
        ctx.eq((2 * ctx.pi * f) ** 2, W[i] - sh, 'frequency of its eigenvector')


def h_err(ctx):
    g, X = make(ctx)
    ctx.stub_fn('eigh', lambda A, *a, **k: (ctx.np.array([2., 3., 4.]), ctx.np.eye(3)))
    k = ctx.np.array([[0.5], [0.25]])
    kw = dict(kpoints=k, gmode_inds=[0], compute_im=False, verbose=False)
    ctx.raises(ValueError, lambda: g.run(numeig=4, **kw), 'more modes than states raises')
    ctx.raises(ValueError, lambda: g.run(numeig=2, eig_solver='qr', **kw), 'unknown solver raises')
    ctx.raises(ValueError, lambda: g.run(numeig=2, eps_eff='mean', **kw), 'unknown effective permittivity raises')
    ctx.raises(ValueError, lambda: g.run(numeig=2, only_gmodes=True, **kw), 'only_gmodes needs circular truncation')
    ctx.raises(ValueError, lambda: g.run(numeig=2, kz_symmetry='up', **kw), 'unknown symmetry raises')
    ctx.raises(ValueError, lambda: g.run(numeig=2, kz_symmetry='odd', **kw), 'symmetry needs angles')
    ctx.raises(ValueError, lambda: g.run(numeig=2, kz_symmetry='odd', eig_solver='eigsh', angles=ctx.np.array([0.]), **kw), 'symmetry needs the dense solver')
    ctx.raises(RuntimeError, lambda: make(ctx)[0].run_im(), 'losses need a run')


CASES = [
    dict(name='sel-1', fn=h_sel, args=dict(numeig=1)), dict(name='sel-2', fn=h_sel), dict(name='sel-3', fn=h_sel, args=dict(numeig=3)),
    dict(name='lowest-2', fn=h_sel, args=dict(target='zero')), dict(name='lowest-1-2k', fn=h_sel, args=dict(target='zero', numeig=1, nk=2)),
    dict(name='eigsh-2', fn=h_eigsh), dict(name='eigsh-1', fn=h_eigsh, args=dict(numeig=1)), dict(name='eigsh-3', fn=h_eigsh, args=dict(numeig=3)),
    dict(name='err', fn=h_err),
]
