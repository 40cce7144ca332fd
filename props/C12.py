"""C12 plane-wave expansion: fields satisfy Maxwell's equations"""
from props.C11 import LATS, hermitian, setup
from props.C10 import FT
BOUNDS = ('3 to 9 reciprocal vectors, two arbitrary real wavevectors (and the zone centre), arbitrary complex eigenvectors, arbitrary real frequencies > 0, every Hermitian inverse permittivity, both '
          'polarisations; real-space fields at every point of a 2x2 grid over one cell; permittivity maps for every Hermitian set of Fourier coefficients')
OUTSIDE = 'more reciprocal vectors; grids with more points (same formula per point)'
STUBS = 'numpy eigh returns arbitrary eigenpairs; inverse-permittivity matrix set to symbols'


def solved(ctx, lat, gmax, pol, kp, nm, gamma=False):
    p = setup(ctx, lat, gmax)
    N = p.gvec.shape[1]
    X = hermitian(ctx, 'x', N)

    def eps_inv():
        p.eps_inv_mat = X
    ctx.patch(p, '_compute_eps_inv', eps_inv)
    nk = len(kp[0])
    W = [[ctx.real('w%d_%d' % (q, i), 2 + 4 * i, 4 + 4 * i) for i in range(N)] for q in range(nk)]
    V = [[[ctx.cplx('v%d_%d_%d' % (q, r, i), 0.1, 1) if i < nm else 0.5 for i in range(N)] for r in range(N)] for q in range(nk)]
    n = []

    def eigh(A, *a, **k):
        n.append(1)
        return ctx.arr(W[len(n) - 1]), ctx.arr(V[len(n) - 1])
    ctx.stub_fn('eigh', eigh)
    p.run(kpoints=ctx.arr(kp), pol=pol, numeig=nm)
    return p, X, W, V


def h_fields(ctx, lat='rect', gmax=1.2, pol='te', gamma=False):
    if gamma:
        kp = [[0.], [0.]]
    else:
        kp = [[ctx.real('kx0', 0.5, 2.5), ctx.real('kx1', 0.5, 2.5)], [ctx.real('ky0', 0.5, 2.5), ctx.real('ky1', 0.5, 2.5)]]
    nm = 2
    p, X, W, V = solved(ctx, lat, gmax, pol, kp, nm)
    N = p.gvec.shape[1]
    nk = len(kp[0])
    for q, m in ([(0, 1)] if gamma else [(0, 0), (1, 1)]):
        H = p.ft_field_xy('H', q, m)
        D = p.ft_field_xy('D', q, m)
        E = p.ft_field_xy('e', q, m)
        om = 2 * ctx.pi * p.freqs[q][m]
        tot = None
        for i in range(N):
            if gamma and bool(p.gvec[0, i] == 0) and bool(p.gvec[1, i] == 0):
                # direction of a zero wavevector is arbitrary
                continue
            gx, gy = kp[0][q] + p.gvec[0, i], kp[1][q] + p.gvec[1, i]
            h = [H[c][i] for c in range(3)]
            d = [D[c][i] for c in range(3)]
            ctx.eq(gx * h[0] + gy * h[1], 0 * om, 'H is transverse', scale=1)
            ctx.eq(gx * d[0] + gy * d[1], 0 * om, 'D is transverse', scale=1)
            curl = [1j * gy * h[2], -1j * gx * h[2], 1j * (gx * h[1] - gy * h[0])]
            for c in range(3):
                ctx.eq(curl[c], 1j * om * d[c], 'curl H = i omega D', scale=1)
            n2 = sum(x * x.conjugate() for x in h)
            v = V[q][i][m]
            ctx.eq(n2, v * v.conjugate(), 'H has the size of the eigenvector', scale=1)
        for i in range(N):
            for c in range(3):
                ctx.eq(E[c][i], sum(X[i, j] * D[c][j] for j in range(N)), 'E = inverse permittivity times D', scale=1)


def h_real(ctx, lat='rect', gmax=1.2, pol='te', field='H', comp='xyz'):
    kp = [[ctx.real('kx0', 0.5, 2.5)], [ctx.real('ky0', 0.5, 2.5)]]
    p, X, W, V = solved(ctx, lat, gmax, pol, kp, 1)
    ft = p.ft_field_xy(field, 0, 0)
    fi, xg, yg = p.get_field_xy(field, 0, 0, z=0.3, component=comp, Nx=2, Ny=3)
    ctx.same(sorted(fi), sorted(set(comp)), 'the requested components')
    X0, Y0 = p.layer.lattice.xy_grid(Nx=2, Ny=3)
    ctx.eq(xg, X0, 'x grid')
    ctx.eq(yg, Y0, 'y grid')
    for c in fi:
        ctx.same(tuple(fi[c].shape), (3, 2), 'grid shape')
        f = ft['xyz'.index(c)]
        for iy in range(3):
            for ix in range(2):
                s = 0
                for g in range(p.gvec.shape[1]):
                    s = s + f[g] * ctx.np.exp(1j * (p.gvec[0, g] * xg[ix] + p.gvec[1, g] * yg[iy]))
                ctx.eq(fi[c][iy, ix], s, 'field is the inverse Fourier transform', scale=1)


def h_eps(ctx, lat='rect', gmax=1.2, R=2):
    p = setup(ctx, lat, gmax)
    a1, a2 = LATS[lat]
    ft = FT(ctx, 'e', p.layer.lattice, a1, a2, R)
    ctx.patch(p.layer, 'compute_ft', ft.at)
    p._compute_ft()
    eps, xg, yg = p.get_eps_xy(Nx=2, Ny=2)
    b1, b2 = p.layer.lattice.b1, p.layer.lattice.b2
    M1, M2 = p.n1g - 1, p.n2g - 1
    for iy in range(2):
        for ix in range(2):
            s = 0
            for n in range(-M1, M1 + 1):
                for m in range(-M2, M2 + 1):
                    gx, gy = n * b1[0] + m * b2[0], n * b1[1] + m * b2[1]
                    s = s + ft.c[n, m] * ctx.np.exp(1j * (gx * xg[ix] + gy * yg[iy]))
            ctx.eq(eps[iy, ix], s, 'map sums every difference vector once', scale=1)
            ctx.eq(eps[iy, ix].imag, 0, 'map of a Hermitian spectrum is real', scale=1)


def h_err(ctx):
    p, X, W, V = solved(ctx, 'rect', 1.2, 'te', [[0.5], [0.5]], 1)
    ctx.raises(ValueError, lambda: p.get_field_xy('H', 0, 0, component='xw', Nx=2, Ny=2), 'unknown component raises')


CASES = [
    dict(name='te', fn=h_fields), dict(name='tm', fn=h_fields, args=dict(pol='tm')),
    dict(name='te-gamma', fn=h_fields, args=dict(gamma=True)), dict(name='tm-gamma', fn=h_fields, args=dict(pol='tm', gamma=True)),
    dict(name='te-oblique', fn=h_fields, args=dict(lat='oblique')), dict(name='tm-square', fn=h_fields, args=dict(lat='square', gmax=1.1, pol='tm')),
    dict(name='real-te', fn=h_real), dict(name='real-tm', fn=h_real, args=dict(pol='tm', field='D', comp='z')),
    dict(name='real-te-e', fn=h_real, args=dict(field='E', comp='yx')), dict(name='real-tm-h', fn=h_real, args=dict(pol='tm', field='h', comp='xx', lat='oblique')),
    dict(name='eps', fn=h_eps), dict(name='eps-square', fn=h_eps, args=dict(lat='square', gmax=1.1)), dict(name='eps-oblique', fn=h_eps, args=dict(lat='oblique')),
    dict(name='err', fn=h_err),
]
