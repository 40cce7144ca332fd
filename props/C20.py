"""C20 radiative losses follow Fermi's golden rule"""
from props.C16 import modes_stub, states, overlap, waves
from props.C11 import LATS, hermitian
BOUNDS = ('one slab layer of arbitrary thickness (two in the thorough tier), 3 reciprocal vectors, up to three guided modes (TE and TM in any order) with arbitrary frequencies and coefficients, arbitrary expansion coefficients and mode '
          'frequency, arbitrary radiative states, arbitrary Hermitian inverse permittivity; channels open in both, one or neither cladding, one or two diffraction orders')
OUTSIDE = 'more reciprocal vectors, modes and channels (sums of the same terms); a channel exactly at its light line'
STUBS = 'guided_modes and rad_modes return arbitrary coefficients (checked in C13-C15); inverse permittivity set to symbols; eigh returns arbitrary eigenpairs'
KPS = {'a': (0.5, 0.25), 'two': (3., 0.25)}


def setup(ctx, nl, gmodes, kp, missing, w2, eps, unit=False):
    a1, a2 = LATS['rect']
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice(list(a1), list(a2)), eps_l=eps[0], eps_u=eps[-1])
    d = [ctx.real('d%d' % i, 0.2, 1.) for i in range(nl)]
    for i in range(nl):
        ph.add_layer(d=d[i], eps_b=eps[1 + i])
    g = ctx.lg.GuidedModeExp(ph, gmax=1.2, truncate_g='tbt')
    N = g.gvec.shape[1]
    X = [hermitian(ctx, 'x%d_' % l, N) for l in range(nl + 2)]
    ctx.split(*X)

    def eps_inv(only_gmodes=False):
        g.eps_inv_mat = X
        g.hom_layer = [False] * (nl + 2)
    ctx.patch(g, 'compute_eps_inv', eps_inv)
    store, calls = modes_stub(ctx, g, nl, eps, d, missing=missing)
    w = [ctx.real('w%d' % i, lo, hi) for i, (lo, hi) in enumerate(w2)]
    me = ctx.mod('legume.gme.matrix_elements')
    V = []

    def eigh(M, *a, **k):
        n = M.shape[0]
        m = len(w)
        if unit:
            return ctx.arr([1 + x for x in w] + [9e3 + i for i in range(n - m)]), ctx.np.eye(n) + 0j
        v = [[ctx.cplx('v%d_%d' % (r, c), 0.1 + c, 1 + c) for c in range(m)] for r in range(n)]
        ctx.split(v)
        V.append(v)
        return ctx.arr([1 + x for x in w] + [9e3 + i for i in range(n - m)]), ctx.arr([v[r] + [0j] * (n - m) for r in range(n)])
    ctx.stub_fn('eigh', eigh)
    k = ctx.np.array([[KPS[kp][0]], [KPS[kp][1]]])
    # the matrix itself is not of interest here
    keep = {}

    def element(*a, **kw):
        idx = [x for x in list(a) + list(kw.values()) if getattr(getattr(x, 'dtype', None), 'kind', '') == 'i' and x.ndim == 1]
        return ctx.np.zeros((idx[0].size, idx[1].size))
    for f in ('mat_te_te', 'mat_tm_tm', 'mat_te_tm', 'mat_tm_te'):
        keep[f] = getattr(me, f)
        ctx.patch(me, f, element)
    g.run(kpoints=k, gmode_inds=list(gmodes), numeig=len(w), compute_im=False, verbose=False, delta_gx=0.)
    for f in keep:
        ctx.patch(me, f, keep[f])
    return g, d, X, store, w, V and V[0]


def h_rad(ctx, nl=1, gmodes=(0, 1), kp='a', missing=0, w2=((0.4, 0.9),), eps=(1., 6., 1.5), mind=0, entry='sp'):
    g, d, X, store, w, V = setup(ctx, nl, gmodes, kp, missing, w2, eps)
    N = g.gvec.shape[1]
    np = ctx.np
    import props.C16 as c16
    old = c16.KP
    c16.KP = KPS
    try:
        basis, rank, gx, gy, gn = states(ctx, g, gmodes, kp, missing)
    finally:
        c16.KP = old
    ctx.same(len(V), len(basis), 'basis')
    rad = {}

    def rad_modes(omega, g_array, eps_array, d_array, pol='TE', clad=0):
        n = len(g_array)
        key = (pol.lower(), clad, ctx.fval(omega))
        if key not in rad:
            t = '%s%d_%d' % (pol.lower(), clad, len(rad))
            XY = [[[ctx.cplx('%s%s_%d_%d' % (c, t, l, q), 0.1, 1) for q in range(n)] for l in range(nl + 2)] for c in 'XY']
            ctx.split(XY)
            for q in range(n):
                for l in range(nl):
                    ctx.angle_base(np.sqrt(eps[l + 1] * omega * omega - g_array[q] * g_array[q]) * d[l] / 2)
            rad[key] = (XY, n)
        XY, n = rad[key]
        if n == 0:
            return np.zeros((nl + 2, 0)) + 0j, np.zeros((nl + 2, 0)) + 0j
        return ctx.arr(XY[0]), ctx.arr(XY[1])
    ctx.patch(ctx.mod('legume.gme.gme'), 'rad_modes', rad_modes)
    om = np.sqrt(w[mind])
    if entry == 'sp':
        tot, te, tm, coup, gv = g.compute_rad_sp(0, [mind])
    elif entry == 'rad':
        tot, coup, gv = g.compute_rad(0, [mind])
    else:
        g.run_im()
        tot, coup, gv = g.freqs_im[0], g.rad_coup, g.rad_gvec
        coup = {c: [coup[c][0][mind]] for c in coup}
        gv = {c: [gv[c][0][mind]] for c in gv}
        tot = [tot[mind]]
    wl = ctx.fval(w[mind])
    for ci, cl in ((0, 'l'), (1, 'u')):
        ec = eps[0] if ci == 0 else eps[-1]
        open_ = [i for i in range(N) if ctx.fval(gn[i] * gn[i]) <= ec * wl]
        ctx.same(tuple(gv[cl][0].shape), (2, len(open_)), 'open channels are the orders within the light cone')
        for q, i in enumerate(open_):
            ctx.eq(gv[cl][0][:, q], g.gvec[:, i], 'reciprocal vector of the channel')
        for pol in ('te', 'tm'):
            c = coup['%s_%s' % (cl, pol)][0]
            ctx.same(tuple(c.shape), (len(open_),), 'one coupling per channel')
            for q, j in enumerate(open_):
                XY, n = rad[pol, ci, ctx.fval(2 * ctx.pi * g.freqs[0, mind])]
                w2_ = []
                for l, e in enumerate(eps):
                    s = e * om * om - gn[j] * gn[j]
                    w2_.append((XY[1][l][q], XY[0][l][q], np.sqrt(s) + 0j if ctx.fval(s) > 0 else 1j * np.sqrt(-s)))
                ref = 0
                for r, (m, i) in enumerate(basis):
                    om1, w1 = waves(ctx, store, ('TM' if m % 2 else 'TE', 0, rank[i], m // 2), gn[i], eps)
                    p1, p2 = (gx[i] / gn[i], gy[i] / gn[i]), (gx[j] / gn[j], gy[j] / gn[j])
                    q1, q2 = (p1[1], -p1[0]), (p2[1], -p2[0])
                    dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
                    t = 0
                    for l in range(nl + 2):
                        I = lambda *der: overlap(ctx, w1, w2_, l, nl, d, False, der, rad=True)
                        if m % 2 == 0 and pol == 'te':
                            v = -1j * (eps[l] * om1 * om1) * (eps[l] * om * om) * dot(q1, q2) * I(0, 0)
                        elif m % 2 and pol == 'tm':
                            v = dot(p1, p2) * I(1, 1) + gn[i] * gn[j] * I(0, 0)
                        elif m % 2 == 0:
                            v = -eps[l] * om1 * om1 * dot(q1, p2) * I(0, 1)
                        else:
                            v = 1j * eps[l] * om * om * dot(p1, q2) * I(1, 0)
                        t = t + X[l][i, j] * v
                    ref = ref + V[r][mind].conjugate() * t
                dos = ec / (4 * ctx.pi * np.sqrt(ec * om * om - gn[j] * gn[j]))
                ctx.eq(c[q], np.sqrt(ctx.pi * dos) * ref, 'coupling is the overlap with the radiative state', scale=1)


def h_loss(ctx, gmodes=(0, 1), kp='a', missing=0, w2=((0.4, 0.9),), eps=(1., 6., 1.5), mind=0, entry='sp', sign=True):
    """losses from the couplings (arbitrary couplings)"""
    g, d, X, store, w, V = setup(ctx, 1, gmodes, kp, missing, w2, eps, unit=True)
    np = ctx.np
    N = g.gvec.shape[1]
    ctx.patch(ctx.mod('legume.gme.gme'), 'rad_modes', lambda om, ga, e, d_, pol='TE', clad=0: (np.ones((3, len(ga))) + 0j, np.ones((3, len(ga))) + 0j))
    n = [0]

    def element(*a, **kw):
        idx = [x for x in list(a) + list(kw.values()) if getattr(getattr(x, 'dtype', None), 'kind', '') == 'i' and x.ndim == 1]
        n[0] += 1
        if not idx[1].size:
            return np.zeros((idx[0].size, 0))
        return ctx.arr([[ctx.cplx('m%d_%d_%d' % (n[0], i, j), 0.1, 1) for j in range(idx[1].size)] for i in range(idx[0].size)])
    me = ctx.mod('legume.gme.matrix_elements')
    for f in ('mat_te_te', 'mat_tm_tm', 'mat_te_tm', 'mat_tm_te'):
        ctx.patch(me, f, element)
    om = np.sqrt(w[mind])
    if entry == 'sp':
        tot, te, tm, coup, gv = g.compute_rad_sp(0, [mind])
    elif entry == 'rad':
        tot, coup, gv = g.compute_rad(0, [mind])
    else:
        g.run_im()
        tot, coup = [g.freqs_im[0][mind]], {c: [g.rad_coup[c][0][mind]] for c in g.rad_coup}
    s = {p: sum(abs(c) ** 2 for cl in 'lu' for c in coup['%s_%s' % (cl, p)][0]) for p in ('te', 'tm')}

    def check(f, gam, label):
        """f = Im sqrt(om^2 + i gam) / 2 pi: with x = 2 pi f >= 0, x^2 (om^2 + x^2) = gam^2 / 4"""
        x = 2 * ctx.pi * f
        if sign:
            ctx.ge(x, 0, 'loss not negative')
        ctx.eq(x * x * (om * om + x * x), gam * gam / 4, label, scale=1)
    check(tot[0], s['te'] + s['tm'], 'loss is the sum over the channels')
    if entry == 'sp':
        check(te[0], s['te'], 'loss to TE')
        check(tm[0], s['tm'], 'loss to TM')


def h_im(ctx):
    """run_im: losses of every mode at every wavevector; unbalance is the TE share, 1/2 for lossless modes"""
    a1, a2 = LATS['rect']
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice(list(a1), list(a2)))
    ph.add_layer(d=0.5, eps_b=6.)
    g = ctx.lg.GuidedModeExp(ph, gmax=1.2, truncate_g='tbt')
    ctx.patch(g, '_construct_mat', lambda kind: ctx.np.eye(3))
    ctx.stub_fn('eigh', lambda A, *a, **k: (ctx.np.array([2., 3., 4.]), ctx.np.eye(3)))
    np = ctx.np
    tab = {}

    def sp(kind, minds):
        out = [[], [], []]
        for m in minds:
            m = int(m)
            if (kind, m) == (1, 0):
                t = (0., 0.)
            else:
                t = (ctx.real('te%d%d' % (kind, m), 0.1, 1), ctx.real('tm%d%d' % (kind, m), 0.1, 1))
            tab[kind, m] = t
            # losses do not add up exactly: Im sqrt(w^2 + i gamma) is not linear in gamma
            for o, v in zip(out, (t[0] + t[1] - 0.125 * t[0] * t[1], t[0], t[1])):
                o.append(v)
        c = {k: ['%s%d%d' % (k, kind, m) for m in minds] for k in ('l_te', 'l_tm', 'u_te', 'u_tm')}
        return ctx.arr(out[0]), ctx.arr(out[1]), ctx.arr(out[2]), c, {k: ['%s%d%d' % (k, kind, m) for m in minds] for k in 'lu'}
    ctx.patch(g, 'compute_rad_sp', sp)
    g.run(kpoints=np.array([[0.5, 0.1], [0.25, 0.3]]), gmode_inds=[0], numeig=2, compute_im=True, verbose=False)
    ctx.same((tuple(g.freqs_im.shape), tuple(g.unbalance_sp.shape)), ((2, 2), (2, 2)), 'one loss per mode')
    for k in range(2):
        for m in range(2):
            te, tm = tab[k, m]
            ctx.eq(g.freqs_im[k, m], te + tm - 0.125 * te * tm, 'loss of the mode')
            if (k, m) == (1, 0):
                ctx.eq(g.unbalance_sp[k, m], 0.5, 'no loss: 1/2')
            else:
                ctx.eq(g.unbalance_sp[k, m], te / (te + tm), 'share of TE')
            for c in ('l_te', 'l_tm', 'u_te', 'u_tm'):
                ctx.same(g.rad_coup[c][k][m], '%s%d%d' % (c, k, m), 'couplings by wavevector and mode')
            for c in 'lu':
                ctx.same(g.rad_gvec[c][k][m], '%s%d%d' % (c, k, m), 'channels by wavevector and mode')


def h_err(ctx):
    g, d, X, store, w, V = setup(ctx, 1, (0,), 'a', 0, ((0.4, 0.9),), (1., 6., 1.5))
    ctx.raises(ValueError, lambda: g.compute_rad(0, [1]), 'mode that was not computed raises')


CASES = [
    dict(name='one', fn=h_rad), dict(name='order', fn=h_rad, args=dict(gmodes=(1, 0), entry='rad')), dict(name='upper-only', fn=h_rad, args=dict(w2=((0.22, 0.3),), gmodes=(0, 1))),
    dict(name='none', fn=h_rad, args=dict(w2=((0.1, 0.2),))), dict(name='second', fn=h_rad, args=dict(w2=((0.1, 0.2), (0.4, 0.9)), mind=1, entry='rad', gmodes=(1, 0))),
    dict(name='two-te', fn=h_rad, args=dict(kp='two', w2=((11., 12.),), gmodes=(0,))), dict(name='two-tm', fn=h_rad, args=dict(kp='two', w2=((11., 12.),), gmodes=(1,))),
    dict(name='te-te', fn=h_rad, args=dict(gmodes=(0, 2), missing=1)), dict(name='tm-tm', fn=h_rad, args=dict(gmodes=(3, 1), missing=2)),
    dict(name='loss-sp', fn=h_loss, args=dict(gmodes=(0,))), dict(name='loss-rad', fn=h_loss, args=dict(gmodes=(1,), entry='rad')), dict(name='loss-none', fn=h_loss, args=dict(w2=((0.1, 0.2),))),
    dict(name='loss-two', fn=h_loss, args=dict(kp='two', w2=((11., 12.),), gmodes=(0,), sign=False)),
    dict(name='im', fn=h_im), dict(name='err', fn=h_err),
]
