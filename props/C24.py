"""C24 polaritons: generalised Hopfield matrix"""
from props.C10 import LATS as L10, FT
LATS = dict(L10, rect=([1., 0.], [0., 0.25]))
BOUNDS = ('one to three quantum wells at different heights and with different energies, losses and oscillator strengths, one or two photonic modes, one or two exciton states, arbitrary photonic field components, '
          'exciton wavefunctions, energies, losses, lattice constant; arbitrary solver outcome; one and two wavevectors; 3 reciprocal vectors')
OUTSIDE = 'more modes and wells (blocks are built by the same sums); diagonalisation itself (numpy eig: argument recorded, outcome arbitrary); modes of equal energy'
STUBS = 'photonic fields (C21), losses (C20) and exciton potential (C23) are symbols; numpy eigh and eig'
HBAR, QE, ME, EPS0, H, CL = 1.0545718176461565e-34, 1.602176634e-19, 9.1093837015e-31, 8.8541878128e-12, 4.135667696e-15, 299792458.0


def setup(ctx, nq, nph, nex, nk, gauge=None, trunc='abs', lossy=True):
    np = ctx.np
    a1, a2 = LATS['rect']
    L = ctx.lg.Lattice(list(a1), list(a2))
    ph = ctx.lg.PhotCryst(L)
    ph.add_layer(d=0.5, eps_b=6.)
    ph.add_layer(d=0.5, eps_b=4.)
    a = ctx.real('a', 1, 2) * 1e-7
    zs = [0.125, 0.75, 0.25][:nq]
    osc = [[ctx.real('f%d_%d' % (q, c), 1, 4) * 1e16 for c in range(3)] for q in range(nq)]
    E0 = [ctx.real('E%d' % q, 1.2 + 0.4 * q, 1.5 + 0.4 * q) for q in range(nq)]
    loss = [ctx.real('g%d' % q, 0.05, 0.1) for q in range(nq)]
    for q in range(nq):
        ph.add_qw(z=zs[q], V_shapes=0., a=a, M=1e-31, E0=E0[q], loss=loss[q], osc_str=ctx.arr(osc[q]))
    pol = ctx.mod('legume.pol').HopfieldPol(ph, 1.2, truncate_g=trunc)
    g = pol.gme
    N = g.gvec.shape[1]
    ctx.same(len(pol.exc_list), nq, 'one exciton solver per well')
    for q, e in enumerate(pol.exc_list):
        ctx.eq([e.z, e.a, e.M, e.E0, e.loss] + list(e.osc_str), [zs[q], a, 1e-31, E0[q], loss[q]] + osc[q], 'parameters of the well')
        ctx.eq(e.gvec, g.gvec, 'same plane waves for photons and excitons')
    # photonic part: frequencies, losses and fields
    ctx.patch(ctx.mod('legume.gme.gme'), 'guided_modes', lambda ga, e, d, n_modes=1, pol='TE', **k: (
        [[0.6 * x] * n_modes for x in ga], [[np.array([[[0j], [1. + 0j]], [[1. + 0j], [1. + 0j]], [[1. + 0j], [1. + 0j]], [[1. + 0j], [0j]]])] * n_modes for x in ga]))
    me = ctx.mod('legume.gme.matrix_elements')

    def element(*x, **kw):
        idx = [y for y in list(x) + list(kw.values()) if getattr(getattr(y, 'dtype', None), 'kind', '') == 'i' and y.ndim == 1]
        return np.zeros((idx[0].size, idx[1].size))
    for f in ('mat_te_te', 'mat_tm_tm', 'mat_te_tm', 'mat_tm_te'):
        ctx.patch(me, f, element)
    cnt = dict(ph=0, ex=0)
    W = {}

    def eigh(A, *x, **k):
        n = A.shape[0]
        if abs(ctx.fval(A[0, 0]) - 1) + abs(ctx.fval(A[1, 1]) - 1) < 1e-9:
            c = cnt['ph']
            cnt['ph'] += 1
            return np.array([1.25 + 0.5 * c + 0.75 * i for i in range(n)]), np.eye(n) + 0j
        q, k = divmod(cnt['ex'], nk)
        cnt['ex'] += 1
        U = [[ctx.cplx('u%d_%d_%d_%d' % (q, k, r, i), -1, 1) for i in range(n)] for r in range(n)]
        ctx.split(U)
        W[q, k] = ([0.0625 * (1 + q) + 0.125 * k + 0.25 * i for i in range(n)], U)
        return np.array([1 + x for x in W[q, k][0]]), ctx.arr(U)
    ctx.stub_fn('eigh', eigh)
    im = [[ctx.real('im%d_%d' % (k, n), 0.001, 0.002) if lossy else 0. for n in range(nph)] for k in range(nk)]

    def rad(kind, minds=(0,)):
        z = [[] for _ in minds]
        return (ctx.arr([im[kind][m] for m in minds]), np.array([0.5] * len(minds)), np.array([0.5] * len(minds)), {c: z for c in ('l_te', 'l_tm', 'u_te', 'u_tm')}, {'l': z, 'u': z})
    ctx.patch(g, 'compute_rad_sp', rad)
    F = {}

    def field(field, kind, mind, z):
        key = (str(field).upper(), kind, int(mind), ctx.fval(z))
        if key not in F:
            F[key] = [[ctx.cplx('F%s%d_%d_%d_%d_%d' % (key[0], kind, mind, zs.index(key[3]) if key[3] in zs else 9, c, r), -1, 1) for r in range(N)] for c in range(3)]
            ctx.split(F[key])
        f = F[key]
        if gauge:
            f = [[gauge[mind] * y for y in x] for x in f]
        return tuple(ctx.arr(x) for x in f)
    ctx.patch(g, 'ft_field_xy', field)
    return pol, dict(a=a, zs=zs, osc=osc, E0=E0, loss=loss, im=im, F=F, W=W, N=N, field=field)


def expected(ctx, P, k, nq, nph, nex):
    """the Hopfield matrix from its definition"""
    np = ctx.np
    a, N = P['a'], P['N']
    pref = -1j * np.sqrt(HBAR ** 2 * QE ** 2 / (4 * ME * EPS0)) / QE / np.sqrt(a)
    conv = H * CL / a
    om = [conv * (np.sqrt(0.25 + 0.5 * k + 0.75 * n + 0 * a) / (2 * ctx.pi) + 1j * P['im'][k][n]) for n in range(nph)]
    C = [[] for _ in range(nph)]
    en = []
    for q in range(nq):
        w, U = P['W'][q, k]
        for v in range(nex):
            en.append(w[v] + P['E0'][q] + 1j * P['loss'][q])
            for n in range(nph):
                E = [list(x) for x in P['field']('E', k, n, P['zs'][q])]
                t = sum(np.sqrt(P['osc'][q][c]) * E[c][r] * U[r][v].conjugate() for c in range(3) for r in range(N))
                C[n].append(pref * t)
    m = nq * nex
    D = [[sum(C[i][v] * C[j][v].conjugate() / en[v].real for v in range(m)) for j in range(nph)] for i in range(nph)]
    S = 2 * (nph + m)
    M = [[0] * S for _ in range(S)]
    o = nph + m
    for i in range(nph):
        for j in range(nph):
            d = om[i] if i == j else 0
            M[i][j], M[i][o + j] = d + 2 * D[i][j], -2 * D[i][j]
            M[o + i][j], M[o + i][o + j] = 2 * D[i][j], -d - 2 * D[i][j]
        for v in range(m):
            for r in (i, o + i):
                M[r][nph + v] = M[r][o + nph + v] = -1j * C[i][v]
    for v in range(m):
        for i in range(nph):
            c = 1j * C[i][v].conjugate()
            M[nph + v][i], M[nph + v][o + i] = c, -c
            M[o + nph + v][i], M[o + nph + v][o + i] = -c, c
        M[nph + v][nph + v], M[o + nph + v][o + nph + v] = en[v], -en[v]
    return M


def go(ctx, pol, nph, nex, kp, opts=None):
    G = dict(gmode_inds=[0], numeig=nph, verbose=False, delta_gx=0., delta_gabs=0.)
    X = dict(numeig_ex=nex, verbose_ex=False)
    X.update({k: v for k, v in (opts or {}).items() if k == 'kpoints'})
    G.update(opts or {})
    pol.run(gme_options=G, exc_options=X, kpoints=kp, verbose=False)
    ctx.same((sorted(G), sorted(X)), (sorted(['gmode_inds', 'numeig', 'verbose', 'delta_gx', 'delta_gabs'] + list(opts or {})), (['kpoints'] if 'kpoints' in (opts or {}) else []) + ['numeig_ex', 'verbose_ex']), 'options of the caller are left alone')


def h_matrix(ctx, nq=1, nph=1, nex=1, nk=1, trunc='abs', other=False):
    pol, P = setup(ctx, nq, nph, nex, nk, trunc=trunc)
    np = ctx.np
    got = []

    def eig(A, *x, **k):
        got.append(A)
        n = A.shape[0]
        return np.array([1 + (i + 1) * 0.25 if i < n // 2 else 1 - (i + 1) * 0.25 for i in range(n)]) + 0j, np.eye(n) + 0j
    ctx.stub_fn('eig', eig)
    kp = np.array([[0.5, 0.25][:nk], [0.25, 0.75][:nk]])
    go(ctx, pol, nph, nex, kp, dict(kpoints=kp[:, ::-1] + 0.125) if other else None)
    ctx.same(len(got), nk, 'one diagonalisation per wavevector')
    ctx.eq(pol.kpoints, kp, 'wavevectors stored')
    for part in [pol.gme] + list(pol.exc_list):
        ctx.eq(part.kpoints, kp, 'photons and excitons at the wavevectors of the polaritons')
    ctx.eq(pol.gvec, pol.gme.gvec, 'plane waves stored')
    for q in range(nk):
        M = expected(ctx, P, q, nq, nph, nex)
        A = got[q]
        ctx.same(tuple(A.shape), (len(M), len(M)), 'size: photons and excitons, resonant and anti-resonant')
        sh = 1
        names = ['photon'] * nph + ['exciton'] * (nq * nex)
        for i in range(len(M)):
            for j in range(len(M)):
                h = len(M) // 2
                ctx.eq(A[i, j] - (sh if i == j else 0), M[i][j] + 0j, '%s%s-%s%s block' % (names[i % h], '*' if i >= h else '', names[j % h], '*' if j >= h else ''))


def h_gauge(ctx, nq=2, nex=1):
    """phases of the photonic modes have no effect: the matrix changes by the same phases"""
    nph = 2
    np = ctx.np
    mats = []

    def eig(A, *x, **k):
        mats.append(A)
        n = A.shape[0]
        return np.array([1 + (i + 1) * 0.25 if i < n // 2 else 1 - (i + 1) * 0.25 for i in range(n)]) + 0j, np.eye(n) + 0j
    ctx.stub_fn('eig', eig)
    t = ctx.real('t', 0.2, 0.8)
    ph = (1 + 1j * t) ** 2 / (1 + t * t)
    g = [1. + 0j, ph]
    kp = np.array([[0.5], [0.25]])
    store = {}
    for gauge in (None, g):
        pol, P = setup(ctx, nq, nph, nex, 1, gauge=gauge) if not store else store['again'](gauge)
        store['again'] = lambda gg: setup(ctx, nq, nph, nex, 1, gauge=gg)
        go(ctx, pol, nph, nex, kp)
    A, B = mats
    n = A.shape[0]
    h = n // 2
    u = [g[i % h] if i % h < nph else 1. + 0j for i in range(n)]
    for i in range(n):
        for j in range(n):
            ctx.eq(B[i, j], u[i] * A[i, j] * u[j].conjugate(), 'energies do not depend on the phases of the photonic modes')


def h_modes(ctx, nq=1, nph=1, nex=1, nk=1, order=None, ties=False):
    """which eigenvalues are kept, and their fractions"""
    pol, P = setup(ctx, nq, nph, nex, nk)
    np = ctx.np
    h = nph + nq * nex
    n = 2 * h
    rec = []

    def eig(A, *x, **k):
        c = len(rec)
        w, V = [], []
        for i in range(n):
            pos = (order or ([1] * h + [0] * h))[i]
            re = ctx.real('w%d_%d' % (c, i), *((1.1, 9) if pos else (-9, 0.9)))
            w.append(re + 1j * ctx.real('wi%d_%d' % (c, i), -0.1, 0.1))
        for r in range(n):
            V.append([ctx.cplx('v%d_%d_%d' % (c, r, i), -1 + 2 * i, 1 + 2 * i) for i in range(n)])
        rec.append((w, V))
        return ctx.arr(w), ctx.arr(V)
    ctx.stub_fn('eig', eig)
    kp = np.array([[0.5, 0.25][:nk], [0.25, 0.75][:nk]])
    go(ctx, pol, nph, nex, kp)
    keep = h - 1
    ctx.same((tuple(pol.eners.shape), tuple(pol.eners_im.shape), tuple(pol.eigvecs.shape), tuple(pol.fractions_ex.shape), tuple(pol.fractions_ph.shape)),
             ((nk, keep), (nk, keep), (nk, n, keep), (nk, keep), (nk, keep)), 'sizes of the results')
    for q in range(nk):
        w, V = rec[q]
        kept = []
        for m in range(keep):
            u = np.real(pol.eigvecs[q][0, m])
            c = 0
            while c < n - 1 and not bool(u < 1 + 2 * c):
                c += 1
            kept.append(c)
            ctx.eq(pol.eners[q, m], w[c].real - 1, 'energy of its eigenvector')
            ctx.eq(pol.eners_im[q, m], w[c].imag, 'loss of its eigenvector')
            ctx.ge(pol.eners[q, m], 0, 'positive energies')
            sq = lambda r: V[r][c].real ** 2 + V[r][c].imag ** 2
            for r in range(n):
                ctx.eq(pol.eigvecs[q][r, m], V[r][c], 'eigenvector of the solver')
            phot = sum(sq(r) for r in range(n) if r % h < nph)
            ctx.eq(pol.fractions_ph[q, m], phot, 'photonic fraction')
            ctx.eq(pol.fractions_ex[q, m], sum(sq(r) for r in range(n)) - phot, 'excitonic fraction')
        ctx.same(len(set(kept)), keep, 'each polariton once')
        for x, y in zip(kept, kept[1:]):
            ctx.ge(w[y].real, w[x].real, 'ascending')
        for i in range(n):
            if i not in kept and (order or ([1] * h + [0] * h))[i]:
                ctx.ge(w[i].real, w[kept[-1]].real, 'the lowest positive energies')


def h_again(ctx):
    """a second run is that of a new object"""
    np = ctx.np
    out = []
    mats = []

    def eig(A, *x, **k):
        mats.append(A)
        n = A.shape[0]
        return np.array([1 + (i + 1) * 0.25 if i < n // 2 else 1 - (i + 1) * 0.25 for i in range(n)]) + 0j, np.eye(n) + 0j
    ctx.stub_fn('eig', eig)
    kp = np.array([[0.5], [0.25]])
    pol, P = setup(ctx, 2, 2, 2, 1)
    ph = pol.gme.phc
    for r in (pol.eners, pol.eners_im, pol.eigvecs, pol.fractions_ex, pol.fractions_ph, pol.kpoints):
        ctx.same(len(r), 0, 'no results before the first run')
    pol.run(gme_options=dict(gmode_inds=[0], numeig=2, verbose=False, delta_gx=0., delta_gabs=0.), exc_options=dict(verbose_ex=False, numeig_ex=2), kpoints=kp, verbose=False)
    first = mats[-1]
    pol2, P2 = setup(ctx, 2, 2, 2, 1)
    pol2.run(gme_options=dict(gmode_inds=[0], numeig=1, verbose=False, delta_gx=0., delta_gabs=0.), exc_options=dict(verbose_ex=False, numeig_ex=1), kpoints=np.array([[0.25], [0.75]]), verbose=False)
    n1 = len(mats)
    go(ctx, pol2, 2, 2, kp)
    ctx.same(tuple(mats[-1].shape), tuple(first.shape), 'size of the second run')
    ctx.same(len(mats) - n1, 1, 'wavevectors of the second run')
    ctx.same((tuple(pol2.eners.shape), tuple(pol2.fractions_ex.shape)), (tuple(pol.eners.shape), tuple(pol.fractions_ex.shape)), 'results of the second run only')


def h_bad(ctx):
    L = ctx.lg.Lattice('square')
    ph = ctx.lg.PhotCryst(L)
    ph.add_layer(d=0.5, eps_b=6.)
    HP = ctx.mod('legume.pol').HopfieldPol
    ctx.raises(ValueError, lambda: HP(ph, 1.2), 'no quantum well raises')
    a = ctx.real('a', 1, 2)
    d = ctx.real('d', 0.01, 1)
    o = ctx.np.array([1., 1., 0.])
    ph.add_qw(z=0.25, V_shapes=0., a=a * 1e-7, M=1e-31, E0=1.5, loss=0., osc_str=o)
    ph.add_qw(z=0.3, V_shapes=0., a=(a + d) * 1e-7, M=1e-31, E0=1.5, loss=0., osc_str=o)
    ctx.raises(ValueError, lambda: HP(ph, 1.2), 'wells with different lattice constants raise')
    ph2 = ctx.lg.PhotCryst(L)
    ph2.add_layer(d=0.5, eps_b=6.)
    z = ctx.real('z', 0.51, 2)
    for s in (1, -1):
        ctx.raises(ValueError, lambda: (ph2.add_qw(z=s * z, V_shapes=0., a=1e-7, M=1e-31, E0=1.5, loss=0., osc_str=o), HP(ph2, 1.2)), 'a well in a cladding raises')


CASES = [
    dict(name='one', fn=h_matrix), dict(name='wells', fn=h_matrix, args=dict(nq=2)), dict(name='photons', fn=h_matrix, args=dict(nph=2)), dict(name='excitons', fn=h_matrix, args=dict(nex=2)),
    dict(name='two-two', fn=h_matrix, args=dict(nph=2, nq=2)), dict(name='all', fn=h_matrix, args=dict(nph=2, nq=2, nex=2)), dict(name='three-wells', fn=h_matrix, args=dict(nq=3)), dict(name='kpoints', fn=h_matrix, args=dict(nk=2, nq=2)), dict(name='tbt', fn=h_matrix, args=dict(trunc='tbt', nph=2)), dict(name='kpoints-options', fn=h_matrix, args=dict(nk=2, other=True)),
    dict(name='gauge', fn=h_gauge), dict(name='gauge-two', fn=h_gauge, args=dict(nq=1, nex=2)),
    dict(name='modes', fn=h_modes), dict(name='modes-mixed', fn=h_modes, args=dict(nph=1, nex=2, order=[0, 1, 0, 1, 0, 1])), dict(name='modes-wells', fn=h_modes, args=dict(nph=2, nq=2, order=[1, 0] * 4)), dict(name='modes-kpoints', fn=h_modes, args=dict(nk=2)),
    dict(name='again', fn=h_again), dict(name='bad', fn=h_bad),
]
