"""C31 visualisation shows the computed data"""
import types
BOUNDS = ('band diagrams of two modes at three wavevectors (arbitrary positions, frequencies, losses, claddings, lattice constant), polariton bands; field plots on 2x3 and 3x2 grids with arbitrary field values, '
          'wavevectors and planes, all components and quantities; permittivity cross sections on 2x3 grids of a patterned crystal; wave functions; reciprocal lattices')
OUTSIDE = 'drawing itself (matplotlib): the values handed to it are checked'
STUBS = 'pyplot: calls recorded; solver results and fields are symbols'


class Rec:
    """records the drawing calls"""

    def __init__(self, log, tag=''):
        self.log, self.tag = log, tag

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            self.log.append((n, a, k))
            return Rec(self.log, n)
        return f

    def __getitem__(self, k):
        return Rec(self.log)

    def __call__(self, *a, **k):
        return Rec(self.log)

    def __iter__(self):
        return iter(())


def viz(ctx):
    m = ctx.mod('legume.viz')
    log = []

    class P:
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return getattr(Rec(log), n)

        def subplots(self, nrows=1, ncols=1, **k):
            n = nrows * ncols
            return Rec(log), (Rec(log) if n == 1 else [Rec(log) for _ in range(n)])
    ctx.patch(m, 'plt', P())
    return m, log


def one(ctx, log, name, n=1):
    r = [x for x in log if x[0] == name]
    ctx.same(len(r), n, '%d x %s' % (n, name))
    return r


def fake(ctx, base, **kw):
    cls = getattr(ctx.lg, base) if hasattr(ctx.lg, base) else getattr(ctx.mod('legume.pol'), base)
    T = type('Solved', (cls,), dict({'__init__': lambda self: None}, **kw))
    return T()


def flat(x):
    return [x[i, j] for i in range(x.shape[0]) for j in range(x.shape[1])]


def h_bands(ctx, solver='GuidedModeExp', Q=False, eV=False, kz=None, k_units=False, show=True, cone=True, late=False):
    np = ctx.np
    m, log = viz(ctx)
    # wavevectors further and further out, frequencies and losses in separate ranges
    kp = [[0.5 * q + ctx.real('kx%d' % q, 0.125, 0.25) for q in range(3)], [0.5 * q + ctx.real('ky%d' % q, 0.125, 0.25) for q in range(3)]]
    fr = [[ctx.real('f%d_%d' % (q, n), 0.25 + 0.25 * q + n, 0.375 + 0.25 * q + n) for n in range(2)] for q in range(3)]
    im = [[ctx.real('i%d_%d' % (q, n), 1, 1.125) / 2 ** (2 * q + n) for n in range(2)] for q in range(3)]
    sy = [[1., -1.], [-1., 1.], [1., 1.]]
    el, eu = ctx.real('el', 1, 1.5), ctx.real('eu', 2, 3)
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice('square'), eps_l=eu if late else el, eps_u=el if late else eu)
    ph.add_layer(d=0.5, eps_b=9.)
    a = ctx.real('a', 1, 10) * 1e-7
    conv = 4.135667696e-15 * 299792458.0 / a if eV else 1
    ran = []
    kw = dict(kpoints=ctx.arr(kp), freqs=ctx.arr(fr), phc=ph, kz_symmetry=kz, kz_symms=np.array(sy))
    if solver == 'GuidedModeExp':
        def run_im(self):
            ran.append(1)
            self.freqs_im = ctx.arr(im)
        kw.update(freqs_im=[] if late else ctx.arr(im), run_im=run_im)
    g = fake(ctx, solver, **kw)
    ax = Rec(log)
    opt = dict(Q=Q, cone=cone, eV=eV, k_units=k_units, show_symmetry=show, ax=ax)
    if eV:
        ctx.raises((ValueError,), lambda: m.bands(g, **opt), 'eV without a lattice constant raises')
        opt['a'] = a
        del log[:]
    r = m.bands(g, **opt)
    ctx.true(r is ax, 'returns the axis')
    if k_units:
        d = [np.sqrt((kp[0][q + 1] - kp[0][q]) ** 2 + (kp[1][q + 1] - kp[1][q]) ** 2) for q in range(2)]
        X = [0 * a, d[0] / (d[0] + d[1]), 1 + 0 * a]
    else:
        X = [0., 1., 2.]
    XX = [X[q] for q in range(3) for n in range(2)]
    FF = [conv * fr[q][n] for q in range(3) for n in range(2)]
    if Q or (kz == 'both' and show):
        c = one(ctx, log, 'scatter')[0]
        ctx.eq(list(c[1][0]), XX, 'positions')
        ctx.eq(list(c[1][1]), FF, 'frequencies')
        if Q:
            ctx.eq(list(c[2]['c']), [fr[q][n] / (2 * im[q][n]) for q in range(3) for n in range(2)], 'quality factors', scale=1)
            ctx.same(len(ran), 1 if late else 0, 'losses computed when missing')
        else:
            s = c[2]['c']
            s = [y for x in s for y in x] if len(s) == 3 else list(s)
            ctx.eq(s, [x for r in sy for x in r], 'symmetries')
    else:
        c = one(ctx, log, 'plot')[0]
        ctx.eq(flat(c[1][0]), XX, 'positions')
        ctx.eq(flat(c[1][1]), FF, 'frequencies')
    if cone:
        c = one(ctx, log, 'fill_between')[0]
        ctx.eq(list(c[1][0]), X, 'light cone positions')
        ctx.eq(list(c[1][1]), [conv * np.sqrt(kp[0][q] ** 2 + kp[1][q] ** 2) / (2 * ctx.pi) / np.sqrt(eu) for q in range(3)], 'light line of the cladding with the higher index')
        ctx.ge(c[1][2], conv * fr[2][1], 'cone covers the bands')
        ctx.ge(c[1][2], c[1][1][2], 'cone covers the light line')
    else:
        one(ctx, log, 'fill_between', 0)
    c = one(ctx, log, 'set_ylim')[0]
    ctx.eq([c[2]['bottom'], c[2]['top']], [0., conv * fr[2][1]], 'range shows all bands')
    c = one(ctx, log, 'set_ylabel')[0]
    ctx.same('eV' in c[1][0], bool(eV), 'unit on the axis')


def h_polbands(ctx, what):
    np = ctx.np
    m, log = viz(ctx)
    kp = [[0.5 * q + ctx.real('kx%d' % q, 0.125, 0.25) for q in range(2)], [0.125, 0.25]]
    fr = [[ctx.real('f%d_%d' % (q, n), 0.25 + 0.25 * q + n, 0.375 + 0.25 * q + n) for n in range(2)] for q in range(2)]
    im = [[ctx.real('i%d_%d' % (q, n), 0.001, 0.002) for n in range(2)] for q in range(2)]
    xf = [[ctx.real('x%d_%d' % (q, n), 0, 1) for n in range(2)] for q in range(2)]
    el = ctx.real('el', 2, 3)
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice('square'), eps_l=el)
    ph.add_layer(d=0.5, eps_b=9.)
    a = ctx.real('a', 1, 10) * 1e-7
    p = fake(ctx, 'HopfieldPol', kpoints=ctx.arr(kp), eners=ctx.arr(fr), eners_im=ctx.arr(im), fractions_ex=ctx.arr(xf), a=a, gme=types.SimpleNamespace(phc=ph))
    ax = Rec(log)
    m.pol_bands(p, Q=what != 'plain', fraction=what == 'fraction', ax=ax)
    XX, FF = [0., 0., 1., 1.], [x for r in fr for x in r]
    if what == 'plain':
        c = one(ctx, log, 'plot')[0]
        ctx.eq(flat(c[1][0]) + flat(c[1][1]), XX + FF, 'energies')
    else:
        c = one(ctx, log, 'scatter')[0]
        ctx.eq(list(c[1][0]) + list(c[1][1]), XX + FF, 'energies')
        col = c[2]['c']
        col = flat(col) if getattr(col, 'ndim', 1) == 2 else list(col)
        if what == 'Q':
            ctx.eq(col, [fr[q][n] / (2 * im[q][n]) for q in range(2) for n in range(2)], 'quality factors', scale=1)
        else:
            ctx.eq(col, [x for r in xf for x in r], 'exciton fractions')
            ctx.same((c[2]['vmin'], c[2]['vmax']), (0, 1), 'colour range')
    c = one(ctx, log, 'fill_between')[0]
    ctx.same('eV' in one(ctx, log, 'set_ylabel')[0][1][0], True, 'unit on the axis')
    conv = 4.135667696e-15 * 299792458.0 / a
    ctx.eq(list(c[1][1]), [conv * np.sqrt(kp[0][q] ** 2 + kp[1][q] ** 2) / (2 * ctx.pi) / np.sqrt(el) for q in range(2)], 'light line in eV')


def h_field(ctx, plane, val='re', periodic=True, comps='y', pos=(0, 0), n=(2, 3), pwe=False, zarg=True, eps=False):
    np = ctx.np
    m, log = viz(ctx)
    at = 0.375
    # rows are the second coordinate, columns the first
    g1, g2 = [0.25 + 0.5 * i for i in range(n[0])], [-0.5 + 0.75 * i for i in range(n[1])]
    k = [[ctx.real('kx%d' % q, -2, 2) for q in range(2)], [ctx.real('ky%d' % q, -2, 2) for q in range(2)]]
    F = {c: ctx.cplx('F' + c, -1, 1) for c in 'xyz'}
    asked = []

    def get(pl):
        def f(self, field, kind, mind, *a, **kw):
            asked.append((pl, field.lower(), kind, mind, kw.get('component'), dict(kw), a))
            out = {}
            for c in comps:
                z = [[0j] * n[0] for _ in range(n[1])]
                z[pos[1]][pos[0]] = F[c]
                out[c] = ctx.arr(z)
            return out, np.array(g1), np.array(g2)
        return f
    kw = dict(kpoints=ctx.arr(k), freqs=np.array([[0.5, 0.75], [1., 1.25]]), get_field_xy=get('xy'), get_field_xz=get('xz'), get_field_yz=get('yz'))
    points = []

    class Ph:
        def get_eps(self, pts):
            points.append(pts)
            return pts[0] + 10 * pts[1] + 100 * pts[2]

    class Lay:
        def get_eps(self, pts):
            points.append(pts)
            return pts[0] + 10 * pts[1]
    if pwe:
        kw.update(layer=Lay())
        s = fake(ctx, 'PlaneWaveExp', **kw)
    else:
        kw.update(freqs_im=np.array([[0.125, 0.25], [0.5, 0.]]), kz_symmetry=None, phc=Ph())
        s = fake(ctx, 'GuidedModeExp', **kw)
    arg = {} if (pwe and not zarg) else {dict(xy='z', xz='y', yz='x')[plane]: at}
    m.field(s, 'E', 1, 0, val=val, periodic=periodic, component=comps, N1=n[0], N2=n[1], eps=eps, **arg)
    ctx.same(len(asked), 1, 'fields asked for once')
    pl, f, kind, mind, comp, kk, a = asked[0]
    ctx.same((pl, f, kind, mind, comp), (plane, 'e', 1, 0, comps), 'plane, field and mode asked for')
    names = dict(xy=('Nx', 'Ny'), xz=('Nx', 'Nz'), yz=('Ny', 'Nz'))[plane]
    ctx.same((kk.get(names[0]), kk.get(names[1])), n, 'grid points along the two directions')
    if arg:
        ctx.eq([a[0] if a else list(v for q, v in kk.items() if q in 'xyz')[0]], [at], 'position of the plane')
    # position of the pixel
    i1, i2 = g1[pos[0]], g2[pos[1]]
    x, y = dict(xy=(i1, i2), xz=(i1, at), yz=(at, i1))[plane]
    ims = one(ctx, log, 'imshow', len(comps))
    for c, im in zip(comps, ims):
        v = F[c]
        if not periodic:
            t = k[0][1] * x + k[1][1] * y
            v = v * (np.cos(t) + 1j * np.sin(t))
        Z = im[1][0]
        ctx.same(tuple(Z.shape), (n[1], n[0]), 'size of the picture')
        for r in range(n[1]):
            for q in range(n[0]):
                if (q, r) != tuple(pos):
                    ctx.eq(Z[r, q], 0, 'elsewhere')
        z = Z[pos[1], pos[0]]
        if val == 'abs':
            ctx.eq(z * z, F[c].real ** 2 + F[c].imag ** 2, 'modulus')
            ctx.ge(z, 0, 'modulus')
        else:
            ctx.eq(z, v.real if val == 're' else v.imag, 'value shown')
        ctx.eq(list(im[2]['extent']), [g1[0], g1[-1], g2[0], g2[-1]], 'extent')
        ctx.same(im[2]['origin'], 'lower', 'second coordinate upwards')
        ctx.eq(im[2]['vmax'], np.abs(z), 'colour range up to the largest modulus')
        ctx.eq(im[2]['vmin'], 0 if val == 'abs' else -np.abs(z), 'colour range')
    tt = one(ctx, log, 'set_title', len(comps))
    for c, x in zip(comps, tt):
        t = x[1][0].replace(' ', '')
        for part in ('E_{%s0}' % c, 'k_{1}', val.capitalize(), '%s-plane' % plane, 'f=1.00') + (() if pwe else ('Q=1.00E+00',)) + (('%s=0.38' % dict(xy='z', xz='y', yz='x')[plane],) if arg else ()):
            ctx.same(part in t, True, 'title names mode, plane, frequency and quality factor')
    if eps:
        co = one(ctx, log, 'contour', len(comps))
        for c in co:
            want = [[None] * n[0] for _ in range(n[1])]
            for r in range(n[1]):
                for q in range(n[0]):
                    X, Y, W = dict(xy=(g1[q], g2[r], at), xz=(g1[q], at, g2[r]), yz=(at, g1[q], g2[r]))[plane]
                    want[r][q] = X + 10 * Y + (0 if pwe else 100 * W)
            ctx.eq(c[1][2], want, 'outline of the permittivity at the points of the picture')
            ctx.eq(list(c[1][0]) + list(c[1][1]), g1 + g2, 'coordinates of the outline')


def h_field_bad(ctx):
    m, log = viz(ctx)
    x = ctx.real('x', -1, 1)
    g = fake(ctx, 'GuidedModeExp', freqs=None, freqs_im=None, kz_symmetry=None)
    p = fake(ctx, 'PlaneWaveExp', freqs=None)
    for kw in (dict(), dict(x=x, y=x), dict(x=x, z=x), dict(x=x, y=x, z=x)):
        ctx.raises((ValueError,), lambda: m.field(g, 'H', 0, 0, **kw), 'exactly one plane')
    ctx.raises((NotImplementedError,), lambda: m.field(p, 'H', 0, 0, x=x), 'plane-wave expansions have no vertical direction')
    ctx.raises((NotImplementedError,), lambda: m.field(p, 'H', 0, 0, y=x), 'plane-wave expansions have no vertical direction')
    ctx.raises((ValueError,), lambda: m.field(3, 'H', 0, 0, z=x), 'structure')


def h_eps(ctx, plane, plot):
    """cross sections of the permittivity"""
    np = ctx.np
    m, log = viz(ctx)
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice('square'), eps_l=1.5, eps_u=2.5)
    ph.add_layer(d=0.5, eps_b=9.)
    e = ctx.real('e', 3, 5)
    ph.add_shape(ctx.lg.Square(eps=e, a=0.5, x_cent=0.25, y_cent=0.))
    at = ctx.real('at', 0.0625, 0.1875)
    L = ph.lattice
    n = (3, 2)
    f, arg = dict(xy=(m.eps_xy, 'z'), xz=(m.eps_xz, 'y'), yz=(m.eps_yz, 'x'))[plane]
    r = f(ph, plot=plot, **{arg: at, 'N' + plane[0]: n[0], 'N' + plane[1]: n[1]})
    gr = dict(x=L.xy_grid(Nx=n[0])[0], y=L.xy_grid(Ny=n[0 if plane[0] == 'y' else 1])[1], z=ph.z_grid(Nz=n[1]))
    g1, g2 = gr[plane[0]], gr[plane[1]]
    ctx.same(tuple(r.shape), (n[1], n[0]), 'rows are the second coordinate')
    for i in range(n[0]):
        for j in range(n[1]):
            p = {plane[0]: g1[i], plane[1]: g2[j], arg: at}
            w = ph.get_eps(tuple(np.array([[p[c]]]) for c in 'xyz'))
            ctx.eq(r[j, i], w[0, 0], 'permittivity at the point')
    ims = one(ctx, log, 'imshow', 1 if plot else 0)
    for im in ims:
        ctx.eq(im[1][0], r, 'picture')
        ctx.eq(list(im[2]['extent']), [g1[0], g1[-1], g2[0], g2[-1]], 'extent')
        ctx.same(im[2]['origin'], 'lower', 'orientation')


def h_layer(ctx):
    np = ctx.np
    m, log = viz(ctx)
    lay = ctx.lg.ShapesLayer(ctx.lg.Lattice('square'), eps_b=9.)
    e = ctx.real('e', 3, 5)
    lay.add_shape(ctx.lg.Square(eps=e, a=0.5, x_cent=0.25, y_cent=0.))
    m.eps(lay, Nx=3, Ny=2)
    im = one(ctx, log, 'imshow')[0]
    gx, gy = lay.lattice.xy_grid(Nx=3, Ny=2)
    ctx.same(tuple(im[1][0].shape), (2, 3), 'shape')
    for i in range(3):
        for j in range(2):
            ctx.eq(im[1][0][j, i], lay.get_eps((np.array([[gx[i]]]), np.array([[gy[j]]])))[0, 0], 'permittivity at the point')
    ctx.eq(list(im[2]['extent']), [gx[0], gx[-1], gy[0], gy[-1]], 'extent')


def h_shapes(ctx, pad):
    m, log = viz(ctx)
    np = ctx.np
    a1, a2 = [1., 0.], [0.5, 0.875]
    lay = ctx.lg.ShapesLayer(ctx.lg.Lattice(a1, a2), eps_b=9.)
    x, y, r = ctx.real('x', -0.5, 0.5), ctx.real('y', -0.5, 0.5), ctx.real('r', 0.125, 0.25)
    lay.add_shape(ctx.lg.Circle(eps=2., x_cent=x, y_cent=y, r=r))
    lay.add_shape(ctx.lg.Poly(eps=2., x_edges=[x, x + r, x], y_edges=[y, y, y + r]))
    m.shapes(lay, ax=Rec(log), npts=5, pad=pad)
    sh = [(0., 0.)] + ([(a1[0], a1[1]), (-a1[0], -a1[1]), (a2[0], a2[1]), (-a2[0], -a2[1])] if pad else [])
    c = one(ctx, log, 'plot', 2 * len(sh))
    for j, (dx, dy) in enumerate(sh):
        px, py = c[j][1][0], c[j][1][1]
        ctx.same(len(px), 5, 'points of the circle')
        for i in range(5):
            ctx.eq([px[i], py[i]], [x + dx + r * [1, 0, -1, 0, 1][i], y + dy + r * [0, 1, 0, -1, 0][i]], 'circle and its images', scale=1)
        px, py = c[len(sh) + j][1][0], c[len(sh) + j][1][1]
        ctx.eq(list(px), [x + dx, x + dx + r, x + dx, x + dx], 'polygon and its images')
        ctx.eq(list(py), [y + dy, y + dy, y + dy + r, y + dy], 'polygon and its images')


def h_wave(ctx, val):
    np = ctx.np
    m, log = viz(ctx)
    F = ctx.cplx('F', -1, 1)
    asked = []

    def get(self, kind, mind, *a, **k):
        asked.append((kind, mind, k.get('Nx'), k.get('Ny')))
        return ctx.arr([[0j, 0j, 0j], [0j, 0j, F]]), np.array([0., 0.5, 1.]), np.array([-0.25, 0.75])
    s = fake(ctx, 'ExcitonSchroedEq', get_wavef_xy=get, eners=np.array([[0.5, 1.], [1.5, 2.]]))
    m.wavef(s, 1, 0, val=val, N1=3, N2=2)
    ctx.same(asked, [(1, 0, 3, 2)], 'what is asked for')
    im = one(ctx, log, 'imshow')[0]
    ctx.eq(im[1][0], [[0, 0, 0], [0, 0, dict(re=F.real, im=F.imag, abs2=F.real ** 2 + F.imag ** 2)[val]]], 'picture')
    ctx.eq(list(im[2]['extent']), [0., 1., -0.25, 0.75], 'extent')
    ctx.same(im[2]['origin'], 'lower', 'orientation')
    z = im[1][0][1, 2]
    ctx.eq(im[2]['vmax'], np.abs(z), 'colour range up to the largest modulus')
    ctx.eq(im[2]['vmin'], 0 if val == 'abs2' else -np.abs(z), 'colour range')
    t = one(ctx, log, 'set_title')[0][1][0]
    ctx.same((dict(re='Re(', im='Im(', abs2='|^2')[val] in t, '1.50E+00' in t, 'band 0' in t, 'k_{1}' in t), (True,) * 4, 'title names quantity, state and energy')
    ctx.raises((ValueError,), lambda: m.wavef(s, 1, 0, val='phase'), 'quantity')
    ctx.raises((ValueError,), lambda: m.wavef(3, 1, 0), 'structure')


def h_eps_ft(ctx, grid):
    """permittivity from Fourier coefficients, alone or inside of another figure"""
    np = ctx.np
    m, log = viz(ctx)
    mpl = m.mpl
    ctx.patch(m, 'mpl', types.SimpleNamespace(gridspec=Rec(log)))
    v = [ctx.real('v%d' % i, 1 + i, 1.5 + i) for i in range(2)]
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice('square'))
    ph.add_layer(d=0.5, eps_b=9.)
    ph.add_layer(d=0.25, eps_b=4.)
    zs = []

    def get(self, Nx=100, Ny=100, z=0):
        zs.append(z)
        return ctx.arr([[v[len(zs) - 1] + 0j, 2. + 0j, 2. + 0j]]), np.array([0., 0.5, 1.]), np.array([0.25])
    s = fake(ctx, 'GuidedModeExp', phc=ph, get_eps_xy=get)
    kw = dict(gridspec=Rec(log), fig=Rec(log)) if grid else {}
    m.eps_ft(s, Nx=3, Ny=1, cbar=grid, **kw)
    ctx.eq(zs, [0.25, 0.625], 'middle of every layer')
    for i, im in enumerate(one(ctx, log, 'imshow', 2)):
        ctx.eq(im[1][0], [[v[i], 2., 2.]], 'picture of the layer')
        ctx.eq(list(im[2]['extent']), [0., 1., 0.25, 0.25], 'extent')
    ctx.raises((ValueError,), lambda: m.eps_ft(s, gridspec=Rec(log)), 'gridspec without a figure')


def h_structure(ctx, what='phc', cladding=False, cbar=True, xz=False, yz=False, xy=True, grid=False, figsize=None):
    """all cross sections of a structure in one figure"""
    np = ctx.np
    m, log = viz(ctx)
    shape = []

    class Gs:
        def __init__(self, rows, cols, *a, **k):
            shape.append((rows, cols))

        def __getitem__(self, k):
            return k
    ctx.patch(m, 'mpl', types.SimpleNamespace(gridspec=types.SimpleNamespace(GridSpec=Gs, GridSpecFromSubplotSpec=Gs)))
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice('square'), eps_l=1.5, eps_u=2.5)
    e = [ctx.real('e0', 8, 9), ctx.real('e1', 3, 4)]
    ph.add_layer(d=0.5, eps_b=e[0])
    ph.add_layer(d=0.25, eps_b=e[1])
    ph.add_shape(ctx.lg.Circle(eps=1.25, x_cent=0., y_cent=0., r=0.2), layer=1)
    zq = [ctx.real('z0', 0.1, 0.2), ctx.real('z1', 0.6, 0.7)]
    qw = [types.SimpleNamespace(z=z) for z in zq]
    ph.qws = qw
    if what == 'phc':
        s, lines = ph, zq
    elif what == 'gme':
        s, lines = fake(ctx, 'GuidedModeExp', phc=ph), []
    else:
        s, lines = fake(ctx, 'HopfieldPol', gme=types.SimpleNamespace(phc=ph), exc_list=qw), zq
    kw = dict(gridspec=Rec(log), fig=Rec(log)) if grid else {}
    m.structure(s, Nx=2, Ny=3, Nz=2, cladding=cladding, cbar=cbar, xz=xz, yz=yz, xy=xy, figsize=figsize, **kw)
    rows = (2 + 2 * cladding) * xy + xz + yz
    ctx.same(shape, [(rows, 2 if cbar else 1)], 'one row per cross section')
    want = []
    for on, f, k in ((xz, m.eps_xz, dict(Nx=2, Nz=2)), (yz, m.eps_yz, dict(Ny=3, Nz=2))):
        if on:
            want.append(f(ph, plot=False, **k))
    L = ph.layers if not cladding else [ph.claddings[0]] + ph.layers + [ph.claddings[1]]
    for l in L if xy else []:
        want.append(m.eps_xy(ph, z=(l.z_min + l.z_max) / 2, Nx=2, Ny=3, plot=False))
    ims = one(ctx, log, 'imshow', rows)
    for im, w in zip(ims, want):
        ctx.same(tuple(im[1][0].shape), tuple(w.shape), 'samples of the cross section')
        ctx.eq(im[1][0], w, 'cross section')
    for c in one(ctx, log, 'set_clim', rows):
        ctx.eq([c[2]['vmin'], c[2]['vmax']], [1.25, e[0]], 'common colour scale of all permittivities')
    h = one(ctx, log, 'hlines', len(lines) * (xz + yz))
    for i, x in enumerate(h):
        ctx.eq(x[1][0], lines[i % len(lines)], 'quantum well drawn at its height')
    place = [x[1][0] for x in log if x[0] == 'add_subplot']
    ctx.same(sorted(place), sorted((r, c) for r in range(rows) for c in range(2 if cbar else 1)), 'each panel has its place')
    t = [x[1][0] for x in log if x[0] == 'set_title']
    n = xz + yz
    ctx.same(t[:n], ['xz at y = 0'] * xz + ['yz at x = 0'] * yz, 'titles')
    if not cladding:
        ctx.same(t[n:], ['xy in layer %d' % i for i in range(2 if xy else 0)], 'titles')
    elif xy:
        ctx.same(sorted(t[n:]), ['xy in layer 1', 'xy in layer 2', 'xy in lower cladding', 'xy in upper cladding'], 'titles')
    ctx.raises((ValueError,), lambda: m.structure(s, fig=Rec(log)), 'figure without a gridspec')
    ctx.raises((ValueError,), lambda: m.structure(3), 'structure')


def h_pot(ctx, grid=False, cbar=True):
    """potential of an exciton solver"""
    np = ctx.np
    m, log = viz(ctx)
    ctx.patch(m, 'mpl', types.SimpleNamespace(gridspec=Rec(log)))
    V = ctx.real('V', -2, 2)
    v = [ctx.real('v%d' % i, -1, 1) for i in range(2)]
    asked = []

    def get(self, Nx=100, Ny=100):
        asked.append((Nx, Ny))
        return ctx.arr([[v[0] + 0.25j, v[1] + 0j]]), np.array([0., 1.]), np.array([0.25])
    s = fake(ctx, 'ExcitonSchroedEq', get_pot_xy=get, V_shapes=V, layer=ctx.lg.ShapesLayer(ctx.lg.Lattice('square'), eps_b=9.))
    kw = dict(gridspec=Rec(log), fig=Rec(log)) if grid else {}
    m.pot_ft(s, Nx=2, Ny=1, cbar=cbar, **kw)
    ctx.same(asked, [(2, 1)], 'what is asked for')
    im = one(ctx, log, 'imshow')[0]
    ctx.eq(im[1][0], [[v[0], v[1]]], 'picture')
    ctx.eq(list(im[2]['extent']), [0., 1., 0.25, 0.25], 'extent')
    c = one(ctx, log, 'set_clim')[0]
    ctx.eq([c[2]['vmin'], c[2]['vmax']], [0, np.abs(V)], 'colour scale')
    ctx.raises((ValueError,), lambda: m.pot_ft(s, fig=Rec(log)), 'figure without a gridspec')
    ctx.raises((ValueError,), lambda: m.pot_ft(3), 'structure')


def h_recip(ctx):
    m, log = viz(ctx)
    g = ctx.arr([[ctx.real('g%d%d' % (c, i), -1, 1) for i in range(3)] for c in range(2)])
    m.reciprocal(fake(ctx, 'GuidedModeExp', gvec=g))
    c = one(ctx, log, 'plot')[0]
    ctx.eq(c[1][0], g[0], 'reciprocal vectors')
    ctx.eq(c[1][1], g[1], 'reciprocal vectors')


def h_eps_ft_pwe(ctx, cladding=False):
    np = ctx.np
    m, log = viz(ctx)
    ctx.patch(m, 'mpl', types.SimpleNamespace(gridspec=Rec(log)))
    v = ctx.real('v', 10, 12)
    zs = []

    def get(self, Nx=100, Ny=100, z=0):
        zs.append((Nx, Ny, z))
        return ctx.arr([[v + 0j, 2. + 0j]]), np.array([0., 1.]), np.array([0.25])
    s = fake(ctx, 'PlaneWaveExp', layer=ctx.lg.ShapesLayer(ctx.lg.Lattice('square'), eps_b=9., z_min=0., z_max=1.), get_eps_xy=get)
    m.eps_ft(s, Nx=2, Ny=1, cbar=False, cladding=cladding, figsize=3)
    ctx.same(len(zs), 1, 'the layer')
    im = one(ctx, log, 'imshow')[0]
    ctx.eq(im[1][0], [[v, 2.]], 'picture of the layer')
    c = one(ctx, log, 'set_clim')[0]
    ctx.eq([c[2]['vmin'], c[2]['vmax']], [2, v], 'colour scale')
    ctx.raises((ValueError,), lambda: m.eps_ft(3), 'structure')


def h_eps_ft_clad(ctx):
    np = ctx.np
    m, log = viz(ctx)
    ctx.patch(m, 'mpl', types.SimpleNamespace(gridspec=Rec(log)))
    v = [ctx.real('v%d' % i, 1 + i, 1.5 + i) for i in range(3)]
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice('square'))
    ph.add_layer(d=0.5, eps_b=2.75)
    zs = []

    def get(self, Nx=100, Ny=100, z=0):
        zs.append(z)
        return ctx.arr([[v[len(zs) - 1] + 0j, 2.75 + 0j]]), np.array([0., 1.]), np.array([0.25])
    m.eps_ft(fake(ctx, 'GuidedModeExp', phc=ph, get_eps_xy=get), Nx=2, Ny=1, cladding=True)
    ctx.same((len(zs), zs[0] < 0, 0 < zs[1] < 0.5, zs[2] > 0.5), (3, True, True, True), 'claddings below and above')
    for i, im in enumerate(one(ctx, log, 'imshow', 3)):
        ctx.eq(im[1][0], [[v[i], 2.75]], 'picture of the layer')
    for c in one(ctx, log, 'set_clim', 3):
        ctx.eq([c[2]['vmin'], c[2]['vmax']], [1., v[2]], 'common colour scale')
    ctx.same(sorted(x[1][0] for x in log if x[0] == 'set_title'), ['xy in layer 1', 'xy in lower cladding', 'xy in upper cladding'], 'titles')


CASES = [
    dict(name='structure', fn=h_structure), dict(name='structure_all', fn=h_structure, args=dict(cladding=True, xz=True, yz=True)), dict(name='structure_gme', fn=h_structure, args=dict(what='gme', xz=True, cbar=False, figsize=5)),
    dict(name='structure_pol', fn=h_structure, args=dict(what='pol', yz=True, xy=False, figsize=(3, 4))), dict(name='structure_grid', fn=h_structure, args=dict(grid=True, cbar=False, xz=True, yz=True, xy=False)),
    dict(name='structure_grid_bar', fn=h_structure, args=dict(grid=True, cladding=True, what='pol', xz=True)),
    dict(name='pot', fn=h_pot), dict(name='pot_grid', fn=h_pot, args=dict(grid=True, cbar=False)), dict(name='reciprocal', fn=h_recip),
    dict(name='eps_ft_pwe', fn=h_eps_ft_pwe), dict(name='eps_ft_pwe_clad', fn=h_eps_ft_pwe, args=dict(cladding=True)), dict(name='eps_ft_clad', fn=h_eps_ft_clad),
    dict(name='bands', fn=h_bands),
    dict(name='bands_units', fn=h_bands, args=dict(k_units=True, late=True)),
    dict(name='bands_eV', fn=h_bands, args=dict(eV=True)),
    dict(name='bands_Q', fn=h_bands, args=dict(Q=True, eV=True)),
    dict(name='bands_Q_late', fn=h_bands, args=dict(Q=True, late=True, kz='odd', cone=False)),
    dict(name='bands_Q_both', fn=h_bands, args=dict(Q=True, kz='both')),
    dict(name='bands_Q_both_plain', fn=h_bands, args=dict(Q=True, kz='both', show=False)),
    dict(name='bands_both', fn=h_bands, args=dict(kz='both')),
    dict(name='bands_both_plain', fn=h_bands, args=dict(kz='both', show=False)),
    dict(name='bands_pwe', fn=h_bands, args=dict(solver='PlaneWaveExp', cone=False)),
    dict(name='pol_plain', fn=h_polbands, args=dict(what='plain')),
    dict(name='pol_Q', fn=h_polbands, args=dict(what='Q')),
    dict(name='pol_fraction', fn=h_polbands, args=dict(what='fraction')),
    dict(name='field_xy', fn=h_field, args=dict(plane='xy', comps='xyz', pos=(1, 0), eps=True)),
    dict(name='field_xy_full', fn=h_field, args=dict(plane='xy', periodic=False, pos=(1, 2))),
    dict(name='field_xy_full_square', fn=h_field, args=dict(plane='xy', periodic=False, pos=(0, 1), n=(2, 2), val='im')),
    dict(name='field_xz', fn=h_field, args=dict(plane='xz', val='im', periodic=False, pos=(0, 2), eps=True)),
    dict(name='field_yz', fn=h_field, args=dict(plane='yz', val='re', periodic=False, pos=(1, 1), eps=True, comps='xz')),
    dict(name='field_abs', fn=h_field, args=dict(plane='yz', val='abs', pos=(1, 1), n=(3, 2), comps='z')),
    dict(name='field_pwe', fn=h_field, args=dict(plane='xy', pwe=True, zarg=False, eps=True, pos=(1, 1))),
    dict(name='field_pwe_full', fn=h_field, args=dict(plane='xy', pwe=True, zarg=False, periodic=False, pos=(1, 0))),
    dict(name='field_invalid', fn=h_field_bad),
    dict(name='eps_xy', fn=h_eps, args=dict(plane='xy', plot=True)),
    dict(name='eps_xz', fn=h_eps, args=dict(plane='xz', plot=False)),
    dict(name='eps_yz', fn=h_eps, args=dict(plane='yz', plot=True)),
    dict(name='eps_layer', fn=h_layer),
    dict(name='shapes', fn=h_shapes, args=dict(pad=False)),
    dict(name='shapes_pad', fn=h_shapes, args=dict(pad=True)),
    dict(name='wave_re', fn=h_wave, args=dict(val='re')),
    dict(name='wave_im', fn=h_wave, args=dict(val='im')),
    dict(name='wave_abs2', fn=h_wave, args=dict(val='abs2')),
    dict(name='eps_ft', fn=h_eps_ft, args=dict(grid=False)),
    dict(name='eps_ft_grid', fn=h_eps_ft, args=dict(grid=True)),
]
