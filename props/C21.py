"""C21 guided-mode fields satisfy Maxwell's equations"""
from props.C16 import make, modes_stub, waves, states, KP
from props.C11 import LATS, hermitian
from props.C10 import FT
BOUNDS = ('one or two slab layers of arbitrary thickness, 3 reciprocal vectors, up to three guided modes (TE and TM in any order, modes missing at small wavevectors) with arbitrary frequencies and coefficients, arbitrary '
          'expansion coefficients and mode frequency, arbitrary Hermitian inverse permittivity; arbitrary height in every layer and cladding; real-space maps at every point of small grids; permittivity maps for every Hermitian spectrum')
OUTSIDE = 'more reciprocal vectors and modes (fields are sums of the same terms); larger grids'
STUBS = 'guided_modes returns arbitrary frequencies and coefficients; inverse permittivity set to symbols; eigh returns arbitrary eigenpairs'


def solved(ctx, nl, gmodes, kp, missing=0, lat='rect', real=False):
    g, d, eps = make(ctx, nl, lat=lat)
    N = g.gvec.shape[1]
    X = [hermitian(ctx, 'x%d_' % l, N) for l in range(nl + 2)]

    def eps_inv(only_gmodes=False):
        g.eps_inv_mat = X
        g.hom_layer = [False] * (nl + 2)
    ctx.patch(g, 'compute_eps_inv', eps_inv)
    store, calls = modes_stub(ctx, g, nl, eps, d, missing=missing, real=real)
    w = [ctx.real('w%d' % i, 2 + 3 * i, 4 + 3 * i) for i in range(2)]
    ctx.patch(ctx.mod('legume.gme.matrix_elements'), 'mat_te_te', zero(ctx))
    for f in ('mat_tm_tm', 'mat_te_tm', 'mat_tm_te'):
        ctx.patch(ctx.mod('legume.gme.matrix_elements'), f, zero(ctx))
    V = []

    def eigh(M, *a, **k):
        n = M.shape[0]
        v = [[ctx.cplx('v%d_%d' % (r, c), 0.1 + c, 1 + c) for c in range(2)] for r in range(n)]
        ctx.split(v)
        V.append(v)
        return ctx.arr(w + [50. + i for i in range(n - 2)]), ctx.arr([v[r] + [0j] * (n - 2) for r in range(n)])
    ctx.stub_fn('eigh', eigh)
    g.run(kpoints=ctx.np.array([[KP[kp][0]], [KP[kp][1]]]), gmode_inds=list(gmodes), numeig=2, compute_im=False, verbose=False, delta_gx=0.)
    return g, d, eps, X, store, w, V[0]


def zero(ctx):
    def element(*a, **kw):
        idx = [x for x in list(a) + list(kw.values()) if getattr(getattr(x, 'dtype', None), 'kind', '') == 'i' and x.ndim == 1]
        return ctx.np.zeros((idx[0].size, idx[1].size))
    return element


def height(ctx, d, l, nl):
    z0 = sum(d[:l - 1]) if l > 0 else 0 * d[0]
    if l == 0:
        return ctx.real('z', -0.5, -0.1), 0
    if l == nl + 1:
        t = ctx.real('z', 0.1, 0.5)
        return sum(d) + t, sum(d)
    t = ctx.real('z', 0.1, 0.9)
    return z0 + t * d[l - 1], z0 + d[l - 1] / 2


def h_fields(ctx, nl=1, gmodes=(0, 1), kp='a', missing=0, layer=1, mind=0):
    g, d, eps, X, store, w, V = solved(ctx, nl, gmodes, kp, missing)
    N = g.gvec.shape[1]
    basis, rank, gx, gy, gn = states(ctx, g, gmodes, kp, missing)
    z, zc = height(ctx, d, layer, nl)
    np = ctx.np
    ctx.same(len(V), len(basis), 'basis')
    H = [[0j] * 3 for i in range(N)]
    dH = [[0j] * 3 for i in range(N)]
    omega = 2 * ctx.pi * g.freqs[0, mind]
    area = ctx.np.sqrt(g.phc.lattice.ec_area)
    for r, (m, i) in enumerate(basis):
        om, wv = waves(ctx, store, ('TM' if m % 2 else 'TE', 0, rank[i], m // 2), gn[i], eps)
        A, B, chi = wv[layer]
        if 0 < layer < nl + 1:
            ctx.angle_base(np.real(chi * (z - zc)))
        p, m_ = A * np.exp(1j * chi * (z - zc)), B * np.exp(-1j * chi * (z - zc))
        if layer == 0:
            p = 0
        if layer == nl + 1:
            m_ = 0
        c = V[r][mind] / area
        f, f1 = c * (p + m_), c * 1j * chi * (p - m_)
        f2 = -c * chi * chi * (p + m_)
        px, py = gx[i] / gn[i], gy[i] / gn[i]
        if m % 2 == 0:
            # H = i g f z - f' p
            for k, v in ((0, (-f1 * px, -f2 * px)), (1, (-f1 * py, -f2 * py)), (2, (1j * gn[i] * f, 1j * gn[i] * f1))):
                H[i][k], dH[i][k] = H[i][k] + v[0], dH[i][k] + v[1]
        else:
            for k, v in ((0, (f * py, f1 * py)), (1, (-f * px, -f1 * px))):
                H[i][k], dH[i][k] = H[i][k] + v[0], dH[i][k] + v[1]
    h = g.ft_field_xy('H', 0, mind, z)
    D = g.ft_field_xy('D', 0, mind, z)
    E = g.ft_field_xy('e', 0, mind, z)
    for i in range(N):
        for k in range(3):
            ctx.eq(h[k][i], H[i][k], 'H is the sum of its guided modes', scale=1)
        curl = (1j * gy[i] * H[i][2] - dH[i][1], dH[i][0] - 1j * gx[i] * H[i][2], 1j * gx[i] * H[i][1] - 1j * gy[i] * H[i][0])
        for k in range(3):
            ctx.eq(1j * omega * D[k][i], curl[k], 'D is the curl of H', scale=1)
            ctx.eq(E[k][i], sum(X[layer][i, j] * D[k][j] for j in range(N)), 'E is D over the permittivity', scale=1)


def h_real(ctx, plane='xy', field='H', comp='xyz', gmodes=(0, 1)):
    """real-space maps are the Fourier sums of the components at each height"""
    g, d, eps, X, store, w, V = solved(ctx, 1, gmodes, 'a', real=True)
    ftc = {}

    def ft(field_, kind, mind, z):
        key = (field_, kind, mind, ctx.fval(z))
        if key not in ftc:
            t = len(ftc)
            ftc[key] = [ctx.arr([ctx.cplx('f%d_%d_%d' % (t, c, i), -1, 1) for i in range(g.gvec.shape[1])]) for c in range(3)]
        return ftc[key]
    ctx.patch(g, 'ft_field_xy', ft)
    np = ctx.np
    if plane == 'xy':
        fi, a, b = g.get_field_xy(field, 0, 1, z=0.125, component=comp, Nx=2, Ny=3)
        X0, Y0 = g.phc.lattice.xy_grid(Nx=2, Ny=3)
        ctx.eq(a, X0, 'first grid')
        ctx.eq(b, Y0, 'second grid')
        pts = [((iy, ix), (a[ix], b[iy], 0.125)) for ix in range(2) for iy in range(3)]
    elif plane == 'xz':
        a, b = np.array([0.25, 0.75, 0.5]), np.array([-0.25, 0.125])
        fi, a1, b1 = g.get_field_xz(field, 0, 1, y=0.375, xgrid=a, zgrid=b, component=comp)
        ctx.eq(a1, a, 'first grid')
        ctx.eq(b1, b, 'second grid')
        pts = [((iz, ix), (a[ix], 0.375, b[iz])) for ix in range(3) for iz in range(2)]
    else:
        a, b = np.array([0.25, 0.75, 0.5]), np.array([-0.25, 0.125])
        fi, a1, b1 = g.get_field_yz(field, 0, 1, x=0.375, ygrid=a, zgrid=b, component=comp)
        ctx.eq(a1, a, 'first grid')
        ctx.eq(b1, b, 'second grid')
        pts = [((iz, iy), (0.375, a[iy], b[iz])) for iy in range(3) for iz in range(2)]
    ctx.same(sorted(fi), sorted(set(comp)), 'the requested components')
    for c in fi:
        for ind, (x, y, z) in pts:
            f = ft(field, 0, 1, z)['xyz'.index(c)]
            s = 0
            for q in range(g.gvec.shape[1]):
                s = s + f[q] * np.exp(1j * (g.gvec[0, q] * x + g.gvec[1, q] * y))
            ctx.eq(fi[c][ind], s, 'field is the inverse Fourier transform', scale=1)


def h_grids(ctx):
    """grids made when none are given"""
    g, d, eps, X, store, w, V = solved(ctx, 1, (0, 1), 'a', real=True)
    n = g.gvec.shape[1]
    ctx.patch(g, 'ft_field_xy', lambda *a: [ctx.np.ones(n) + 0j] * 3)
    fi, x, z = g.get_field_xz('H', 0, 0, y=0.25, Nx=3, Nz=4, dist=0.5)
    ctx.eq(x, g.phc.lattice.xy_grid(Nx=3, Ny=2)[0], 'x grid')
    ctx.eq(z, g.phc.z_grid(Nz=4, dist=0.5), 'z grid')
    ctx.same(tuple(fi['x'].shape), (4, 3), 'shape')
    fi, y, z = g.get_field_yz('H', 0, 0, x=0.25, Ny=3, Nz=4, dist=0.5)
    ctx.eq(y, g.phc.lattice.xy_grid(Nx=2, Ny=3)[1], 'y grid')
    ctx.eq(z, g.phc.z_grid(Nz=4, dist=0.5), 'z grid')
    for f in (lambda: g.get_field_xy('H', 0, 0, 0.1, component='xw', Nx=2, Ny=2), lambda: g.get_field_xz('H', 0, 0, 0.1, component='q', Nx=2, Nz=2),
              lambda: g.get_field_yz('H', 0, 0, 0.1, component='a', Ny=2, Nz=2)):
        ctx.raises(ValueError, f, 'unknown component raises')


def h_eps(ctx, lat='rect', gmax=1.2, trunc='tbt', layer=1):
    """permittivity map sums every difference vector once"""
    a1, a2 = LATS[lat]
    L = ctx.lg.Lattice(list(a1), list(a2))
    ph = ctx.lg.PhotCryst(L)
    ph.add_layer(d=0.5, eps_b=6.)
    ph.add_layer(d=0.5, eps_b=5.)
    fts = []
    for i, lay in enumerate([ph.claddings[0]] + ph.layers + [ph.claddings[1]]):
        ft = FT(ctx, 'e%d_' % i, L, a1, a2, 2)
        ctx.patch(lay, 'compute_ft', ft.at)
        fts.append(ft)
    g = ctx.lg.GuidedModeExp(ph, gmax=gmax, truncate_g=trunc)
    z = ctx.real('z', *[(-1, -0.1), (0.1, 0.4), (0.6, 0.9), (1.1, 2)][layer])
    e, xg, yg = g.get_eps_xy(z=z, Nx=2, Ny=2)
    b1, b2 = L.b1, L.b2
    # all differences of two reciprocal vectors of the expansion
    inv = lambda gx, gy: (ctx.nearint((gx * a1[0] + gy * a1[1]) / (2 * ctx.pi)), ctx.nearint((gx * a2[0] + gy * a2[1]) / (2 * ctx.pi)))
    idx = [inv(g.gvec[0, i], g.gvec[1, i]) for i in range(g.gvec.shape[1])]
    dif = sorted({(p[0] - q[0], p[1] - q[1]) for p in idx for q in idx})
    for iy in range(2):
        for ix in range(2):
            s = 0
            for n, m in dif:
                gx, gy = n * b1[0] + m * b2[0], n * b1[1] + m * b2[1]
                s = s + fts[layer].c[n, m] * ctx.np.exp(1j * (gx * xg[ix] + gy * yg[iy]))
            ctx.eq(e[iy, ix], s, 'map sums every difference vector once', scale=1)


CASES = [
    dict(name='layer', fn=h_fields), dict(name='lower', fn=h_fields, args=dict(layer=0, kp='b', gmodes=(1, 0))), dict(name='upper', fn=h_fields, args=dict(layer=2, mind=1)),
    dict(name='layer-2', fn=h_fields, args=dict(nl=2, layer=2, gmodes=(1, 0), kp='b')), dict(name='layer-1of2', fn=h_fields, args=dict(nl=2, layer=1, gmodes=(0, 1), mind=1)),
    dict(name='upper-of2', fn=h_fields, args=dict(nl=2, layer=3, gmodes=(1, 0))), dict(name='lower-of2', fn=h_fields, args=dict(nl=2, layer=0, mind=1)),
    dict(name='missing', fn=h_fields, args=dict(gmodes=(2, 0, 1), missing=1, mind=1)), dict(name='missing-upper', fn=h_fields, args=dict(gmodes=(3, 1, 0), missing=2, layer=2)),
    dict(name='missing-lower', fn=h_fields, args=dict(gmodes=(3, 1, 0), missing=1, layer=0)),
    dict(name='xy', fn=h_real), dict(name='xz', fn=h_real, args=dict(plane='xz', field='E', comp='zx')), dict(name='yz', fn=h_real, args=dict(plane='yz', field='D', comp='yyz')),
    dict(name='grids', fn=h_grids),
] + [dict(name='eps-%s-%s-%d' % (t, lat, l), fn=h_eps, args=dict(lat=lat, trunc=t, layer=l, gmax=gm)) for t, lat, l, gm in
     (('tbt', 'rect', 1, 1.2), ('abs', 'rect', 2, 1.2), ('tbt', 'oblique', 2, 1.2), ('abs', 'oblique', 0, 1.2), ('abs', 'square', 3, 1.1), ('tbt', 'square', 1, 1.1))]
