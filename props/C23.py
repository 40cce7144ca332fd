"""C23 exciton solver: Schroedinger equation in the plane of a quantum well"""
from props.C10 import LATS, FT, index
BOUNDS = ('every potential (arbitrary Fourier coefficients with V(-G) = conj V(G)), arbitrary mass, lattice constant, free energy, loss and wavevector direction; 5 to 9 reciprocal vectors in both truncations, '
          'square and oblique lattices; arbitrary solver outcome in any order; one to three shapes of arbitrary Fourier transform and potential of either sign')
OUTSIDE = 'more reciprocal vectors (the matrix is built entry by entry); diagonalisation itself (numpy eigh: argument recorded, outcome arbitrary)'
STUBS = 'layer.compute_exc_ft (or shape.compute_ft) returns symbolic coefficients; numpy eigh'
LATS = dict(LATS, rect=([1., 0.], [0., 0.25]))
HBAR, QE = 1.0545718176461565e-34, 1.602176634e-19


def make(ctx, lat, trunc, gmax, R, real, a=1e-7, M=1e-31, E0=1., loss=0., nl=1, z=0.1, osc=None):
    a1, a2 = LATS[lat]
    L = ctx.lg.Lattice(list(a1), list(a2))
    ph = ctx.lg.PhotCryst(L)
    for i in range(nl):
        ph.add_layer(d=0.375, eps_b=4.)
    fts, seen = [], []
    for i in range(nl):
        ft = FT(ctx, 'v%d_' % i, L, a1, a2, R, real)
        fts.append(ft)
        ctx.patch(ph.layers[i], 'compute_exc_ft', lambda G, V, ft=ft, i=i: (seen.append((i, V)), ft.at(G))[1])
    e = ctx.mod('legume.exc').ExcitonSchroedEq(ph, z=z, V_shapes=2., a=a, M=M, E0=E0, loss=loss, gmax=gmax, truncate_g=trunc, osc_str=osc)
    return e, fts, seen, a1, a2


def h_run(ctx, lat='square', trunc='abs', gmax=1.2, R=4, real=False, nk=1, numeig=3, first=False, near=False, off=0):
    a, M = ctx.real('a', 1, 2) * 1e-7, ctx.real('M', 1, 2) * 1e-31
    E0, loss = ctx.reals('E0 loss', 1, 2)
    e, (ft,), seen, a1, a2 = make(ctx, lat, trunc, gmax, R, real, a, M, E0, loss)
    N = e.gvec.shape[1]
    kx, ky = [ctx.real('kx%d' % i, -1, 1) for i in range(nk)], [ctx.real('ky%d' % i, -1, 1) for i in range(nk)]
    got = []
    W, V = [], []

    def eigh(A, *args, **kw):
        c = len(got)
        got.append(A)
        W.append([ctx.real('w%d_%d' % (c, i), 2 - off + (0 if near else 3 * ((i * 2) % N)), (9 if near else 4.9) - off + (0 if near else 3 * ((i * 2) % N))) for i in range(N)])
        V.append([[ctx.cplx('u%d_%d_%d' % (c, r, i), -1 + 2 * i, 1 + 2 * i) for i in range(N)] for r in range(N)])
        return ctx.arr(W[-1]), ctx.arr(V[-1])
    if first:
        ctx.stub_fn('eigh', lambda A, *x, **k: (ctx.np.arange(A.shape[0]) + 2., ctx.np.eye(A.shape[0]) + 0j))
        e.run(kpoints=ctx.np.array([[0.5, 0.25], [0.25, 0.125]]), numeig_ex=2, verbose_ex=False)
    ctx.stub_fn('eigh', eigh)
    k = ctx.arr([kx, ky])
    e.run(kpoints=k, numeig_ex=numeig, verbose_ex=False)
    idx = index(ctx, e.gvec, a1, a2)
    ctx.same(len(got), nk, 'one diagonalisation per wavevector')
    ctx.same((tuple(e.eners.shape), tuple(e.eigvecs.shape), tuple(e.kpoints.shape)), ((nk, numeig), (nk, N, numeig), (2, nk)), 'sizes of the results')
    for q in range(nk):
        A = got[q]
        sh = ctx.nearint(A[0, 0] - HBAR ** 2 * ((kx[q] + e.gvec[0, 0]) ** 2 + (ky[q] + e.gvec[1, 0]) ** 2) / (2 * M * QE * a * a) - ft.c[0, 0])
        for i in range(N):
            for j in range(N):
                ref = ft.c[idx[i][0] - idx[j][0], idx[i][1] - idx[j][1]]
                if i == j:
                    ref = ref + sh + HBAR ** 2 * ((kx[q] + e.gvec[0, i]) ** 2 + (ky[q] + e.gvec[1, i]) ** 2) / (2 * M * QE * a * a)
                ctx.eq(A[i, j], ref, 'kinetic energy + potential')
        kept = []
        w = W[q]
        for m in range(numeig):
            en = e.eners[q, m] - E0 - 1j * loss + sh
            ctx.eq(en.imag, 0, 'loss added to each energy')
            u = ctx.np.real(e.eigvecs[q][0, m])
            c = [0]
            while c[0] < N - 1 and not bool(u < 1 + 2 * c[0]):
                c[0] += 1
            ctx.eq(en.real, w[c[0]], 'free energy added to an eigenvalue')
            kept.append(c[0])
            for r in range(N):
                ctx.eq(e.eigvecs[q][r, m], V[q][r][c[0]], 'wavefunction of that energy')
                ctx.eq(e.ft_wavef_xy(q, m)[r], V[q][r][c[0]], 'wavefunction of that energy')
        ctx.same(len(set(kept)), numeig, 'each state once')
        for x, y in zip(kept, kept[1:]):
            ctx.ge(w[y], w[x], 'ascending')
        for i in range(N):
            if i not in kept:
                ctx.ge(w[i], w[kept[-1]], 'the lowest energies')


def h_hermitian(ctx):
    """a potential that is not Hermitian is refused"""
    e, (ft,), seen, a1, a2 = make(ctx, 'square', 'abs', 1.2, 4, False)
    im = ctx.real('im', 0.1, 1)
    ft.c[1, 0] = ft.c[1, 0] + 1j * im
    e2 = make(ctx, 'square', 'abs', 1.2, 4, False)[0]
    M = e2.pot_ft
    e2.pot_ft = M + 1j * im * ctx.np.eye(M.shape[0])
    ctx.raises(ValueError, lambda: e2.run(kpoints=ctx.np.array([[0.5], [0.]]), numeig_ex=2, verbose_ex=False), 'Hamiltonian that is not Hermitian raises')


def h_maps(ctx, lat='square', trunc='abs', gmax=1.2, R=4, N=2, Nx=3, Ny=2):
    """potential and wavefunctions in real space"""
    e, (ft,), seen, a1, a2 = make(ctx, lat, trunc, gmax, R, False)
    n = e.gvec.shape[1]
    V = [[ctx.cplx('u%d_%d' % (r, i), -1, 1) for i in range(n)] for r in range(n)]
    ctx.split(V)
    ctx.stub_fn('eigh', lambda A, *x, **k: (ctx.np.array([2. + 0.5 * i for i in range(A.shape[0])]), ctx.arr(V)))
    e.run(kpoints=ctx.np.array([[0.5], [0.25]]), numeig_ex=3, verbose_ex=False)
    pot, xg, yg = e.get_pot_xy(Nx=Nx, Ny=Ny)
    wf, xw, yw = e.get_wavef_xy(0, 2, Nx=Nx, Ny=Ny)
    xl, yl = e.layer.lattice.xy_grid(Nx=Nx, Ny=Ny)
    ctx.same((tuple(pot.shape), tuple(wf.shape)), ((Ny, Nx), (Ny, Nx)), 'one value per point')
    idx = index(ctx, e.gvec, a1, a2)
    diff = sorted({(p[0] - q[0], p[1] - q[1]) for p in idx for q in idx})
    b1, b2 = e.layer.lattice.b1, e.layer.lattice.b2
    for i in range(Nx):
        ctx.eq(xg[i], xl[i], 'grid of the cell')
        ctx.eq(xw[i], xl[i], 'grid of the cell')
        for j in range(Ny):
            if i == 0:
                ctx.eq(yg[j], yl[j], 'grid of the cell')
                ctx.eq(yw[j], yl[j], 'grid of the cell')
            ph = lambda c: ctx.np.exp(1j * ((c[0] * b1[0] + c[1] * b2[0]) * xg[i] + (c[0] * b1[1] + c[1] * b2[1]) * yg[j]))
            ctx.eq(pot[j, i], sum(ft.c[c] * ph(c) for c in diff), 'potential is the sum over all harmonics')
            ctx.eq(wf[j, i], sum(V[r][2] * ph(c) for r, c in enumerate(idx)), 'wavefunction is the sum of its plane waves')


def h_ft(ctx, ns=2, sign=1, zero=1):
    """potential of shapes in a layer"""
    a1, a2 = LATS['oblique']
    L = ctx.lg.Lattice(list(a1), list(a2))
    ph = ctx.lg.PhotCryst(L)
    ph.add_layer(d=0.5, eps_b=4.)
    G = ctx.np.array([[0., 1.5, -2., 0.], [0., 0.5, 0., 3.]])
    if zero == 0:
        G = G[:, [1, 0, 2, 3]]
    z = 0 if zero else 1
    V = ctx.real('V', 0.1, 2) * sign
    F = []
    for s in range(ns):
        sh = ctx.lg.Circle(eps=2. + s, x_cent=0.25 * s, r=0.1)
        f = [ctx.cplx('f%d_%d' % (s, i), 0.1 + i, 1 + i) for i in range(4)]
        f[z] = ctx.real('f%d' % s, 0.01, 0.05) + 0j
        F.append(f)
        ctx.patch(sh, 'compute_ft', lambda g, f=f: ctx.arr(f))
        ph.add_shape(sh)
    T = ph.layers[0].compute_exc_ft(G, V)
    area = abs(a1[0] * a2[1] - a1[1] * a2[0])
    for i in range(4):
        ref = sum(V * f[i] for f in F) / area
        if i == z and sign < 0:
            ref = ref - V
        ctx.eq(T[i], ref, 'potential inside the shapes over the cell area, lowest value zero')


def h_layer(ctx, bad=False):
    """the well's own layer; claddings and wrong oscillator strengths are refused"""
    z = ctx.real('z', 0.01, 1.1)
    e, fts, seen, a1, a2 = make(ctx, 'square', 'abs', 1.2, 4, False, nl=3, z=z)
    lay = 0 if bool(z <= 0.375) else 1 if bool(z <= 0.75) else 2
    ctx.same(e.layer is e.phc.layers[lay], True, 'layer that contains z')
    ctx.same([i for i, V in seen], [lay] * len(seen), 'potential of that layer')
    ctx.same(len(seen) > 0, True, 'potential of that layer')
    for i, V in seen:
        ctx.eq(V, 2., 'depth of the shapes')
    for r in (e.eners, e.eigvecs, e.kpoints):
        ctx.same(len(r), 0, 'no results before the first run')


def h_bad(ctx):
    z = ctx.real('z', 0.4, 3)
    ctx.raises(ValueError, lambda: make(ctx, 'square', 'abs', 1.2, 4, False, z=z), 'upper cladding raises')
    ctx.raises(ValueError, lambda: make(ctx, 'square', 'abs', 1.2, 4, False, z=-z), 'lower cladding raises')
    ctx.raises(ValueError, lambda: make(ctx, 'square', 'abs', 1.2, 4, False, osc=[1., 2.]), 'oscillator strength of two components raises')
    ctx.raises(TypeError, lambda: make(ctx, 'square', 'abs', 1.2, 4, False, osc=1.), 'scalar oscillator strength raises')
    ctx.raises(ValueError, lambda: make(ctx, 'square', 'round', 1.2, 4, False), 'unknown truncation raises')


CASES = [
    dict(name='run', fn=h_run), dict(name='run-tbt', fn=h_run, args=dict(trunc='tbt', R=2)), dict(name='run-oblique', fn=h_run, args=dict(lat='oblique', gmax=1.3, nk=2, numeig=2)),
    dict(name='run-tbt-oblique', fn=h_run, args=dict(lat='oblique', trunc='tbt', gmax=1.3, R=2, real=True)), dict(name='run-all', fn=h_run, args=dict(numeig=5)),
    dict(name='run-bound', fn=h_run, args=dict(off=7)), dict(name='any-order-bound', fn=h_run, args=dict(lat='rect', numeig=2, near=True, off=6)),
    dict(name='again', fn=h_run, args=dict(first=True, nk=1, numeig=3)),
    dict(name='any-order', fn=h_run, args=dict(lat='rect', numeig=2, near=True)), dict(name='any-order-tbt', fn=h_run, args=dict(lat='rect', numeig=3, near=True, trunc='tbt', nk=1, R=2)),
    dict(name='hermitian', fn=h_hermitian), dict(name='maps', fn=h_maps), dict(name='maps-tbt', fn=h_maps, args=dict(trunc='tbt', R=2)), dict(name='maps-tbt-oblique', fn=h_maps, args=dict(trunc='tbt', lat='oblique', gmax=1.3, R=2)),
    dict(name='maps-oblique', fn=h_maps, args=dict(lat='oblique', gmax=1.3)),
    dict(name='ft', fn=h_ft), dict(name='ft-negative', fn=h_ft, args=dict(sign=-1)), dict(name='ft-three', fn=h_ft, args=dict(ns=3, sign=-1, zero=0)), dict(name='ft-one', fn=h_ft, args=dict(ns=1)),
    dict(name='layer', fn=h_layer), dict(name='bad', fn=h_bad),
]
