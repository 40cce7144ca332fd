"""C22 a run is independent of earlier runs of the same object"""
from props.C11 import LATS
BOUNDS = ('guided-mode expansion of one slab layer with a patterned slab, 3 to 5 reciprocal vectors, plane-wave expansion of a patterned layer; '
          'pairs and triples of runs that differ in modes, number of eigenvalues, wavevectors, solver, symmetry, truncation of the permittivity, gradients, interpolation or losses; '
          'arbitrary guided modes, radiative states and eigenvectors')
OUTSIDE = 'longer histories; batches of more than two wavevectors; changes of the photonic crystal itself between runs of the guided-mode expansion (Fourier transforms are taken when it is created)'
STUBS = 'guided_modes, rad_modes: arbitrary values as a function of their arguments; eigh, eigsh: arguments recorded, arbitrary eigenvectors, fixed eigenvalues'
KA, KB, KX = (0.5, 0.25), (-0.75, 1.5), (0.5, 0.)


def shp(ctx, x):
    return tuple(x.shape) if hasattr(x, 'shape') else ()


def equal(ctx, a, b, label):
    if isinstance(a, dict):
        ctx.same(sorted(a), sorted(b) if isinstance(b, dict) else b, label + ' (keys)')
        for k in a:
            equal(ctx, a[k], b[k], label)
    elif isinstance(a, (list, tuple)) or shp(ctx, a):
        la, lb = (len(a), len(b) if hasattr(b, '__len__') else None)
        ctx.same((la, shp(ctx, a)), (lb, shp(ctx, b)), label + ' (size)')
        if la == lb:
            for x, y in zip(a, b):
                equal(ctx, x, y, label)
    elif a is None or isinstance(a, (str, bool)):
        ctx.same(a, b, label)
    else:
        ctx.eq(a, b, label)


def gme(ctx, trunc, gmax, eps, d, lat):
    a1, a2 = LATS[lat]
    ph = ctx.lg.PhotCryst(ctx.lg.Lattice(list(a1), list(a2)), eps_l=1., eps_u=1.5)
    ph.add_layer(d=d, eps_b=6.)
    ph.layers[0].add_shape(ctx.lg.Poly(eps=eps, x_edges=[0., 0.25, 0.25, 0.], y_edges=[0., 0., 0.25, 0.25]))

    def ft(gx, gy=None):
        # any Fourier transform that is not that of a homogeneous layer
        gx, gy = (gx[0], gx[1]) if gy is None else (gx, gy)
        return ctx.np.array([(6.5 if abs(ctx.fval(x)) + abs(ctx.fval(y)) < 1e-9 else 0.25 / (1 + abs(round(ctx.fval(x))) + abs(round(ctx.fval(y)) / 2))) for x, y in zip(gx.ravel(), gy.ravel())]) + 0j
    ctx.patch(ph.layers[0], 'compute_ft', ft)
    return ctx.lg.GuidedModeExp(ph, gmax=gmax, truncate_g=trunc)


def h_gme(ctx, runs, trunc='tbt', gmax=1.2, lat='rect', missing=0, parity=False, other=None, fresh_kw=None, batch=False, cut=None):
    np = ctx.np
    eps, d = 8., 0.375
    calls = {}
    store, rads = {}, {}
    # with losses the matrix elements are fixed numbers, without they are arbitrary
    fixed = parity or any(r.get('compute_im') or r.get('after') == 'im' for r in runs)
    num = lambda t, lo, hi: lo + (hi - lo) * (sum(map(ord, t)) % 16) / 16 if fixed else ctx.real(t, lo, hi)

    def guided(g_array, e, dd, n_modes=1, step=None, tol=None, pol='TE', **k):
        calls['args'].append((list(g_array), list(e), list(dd), n_modes, pol, step, tol))
        oms, cos = [], []
        for i, gg in enumerate(g_array):
            o, c = [], []
            for m in range(n_modes):
                if i < missing and m and m == n_modes - 1 or cut and m and ctx.fval(gg) < cut:
                    continue
                key = (pol, ctx.fval(gg), m)
                if key not in store:
                    t = '%s_%d_%d' % (pol, len(store), m)
                    lo = 0.6 + 0.012 * (2 * m + (pol == 'TM')) + 0.0012 * (i % 8)
                    C = [[[0. if l == 0 else num('A%s_%d' % (t, l), 0.125, 1)], [0. if l == 2 else num('B%s_%d' % (t, l), 0.125, 1)]] for l in range(3)]
                    ctx.split(C)
                    store[key] = (ctx.fval(gg) * lo, ctx.arr([[[x[0][0] + 0j], [x[1][0] + 0j]] for x in C]))
                o.append(store[key][0])
                c.append(store[key][1])
            oms.append(o)
            cos.append(c)
        return oms, cos
    ctx.patch(ctx.mod('legume.gme.gme'), 'guided_modes', guided)

    def rad_modes(omega, g_array, eps_array, d_array, pol='TE', clad=0):
        n = len(g_array)
        out = [[], []]
        for q in range(n):
            key = (pol.lower(), clad, ctx.fval(omega), ctx.fval(g_array[q]))
            if key not in rads:
                rads[key] = [[num('%s%s%d_%d_%d' % (c, pol, clad, len(rads), l), 0.125, 1) for l in range(3)] for c in 'XY']
                ctx.split(rads[key])
            for c in (0, 1):
                out[c].append(rads[key][c])
        if n == 0:
            return np.zeros((3, 0)) + 0j, np.zeros((3, 0)) + 0j
        return tuple(ctx.arr([[out[c][q][l] for q in range(n)] for l in range(3)]) for c in (0, 1))
    ctx.patch(ctx.mod('legume.gme.gme'), 'rad_modes', rad_modes)
    # the overlaps themselves are not of interest here: any function of what they are computed from
    me = ctx.mod('legume.gme.matrix_elements')

    def element(kind):
        def f(*a, **kw):
            a = list(a) + list(kw.values())
            idx = [x for x in a if getattr(getattr(x, 'dtype', None), 'kind', '') == 'i' and x.ndim == 1]
            inv = [x for x in a if isinstance(x, list)][0]
            i1, i2 = idx
            w = [x for x in a if hasattr(x, 'shape') and x.ndim == 1 and getattr(x.dtype, 'kind', '') != 'i']
            if parity:
                return np.zeros((i1.size, i2.size)) + 0j
            fac = sum((x[0] for x in w if x.size), kind)
            out = sum(m[np.ix_(i1, i2)] * (l + 1 + kind) for l, m in enumerate(inv)) * fac + 0j
            return np.array([[round(ctx.fval(out[i, j].real) * 256) / 256 + 0j for j in range(i2.size)] for i in range(i1.size)]).reshape(i1.size, i2.size) + 0j if fixed else out
        return f
    for j, f in enumerate(('mat_te_te', 'mat_tm_tm', 'mat_te_tm', 'mat_tm_te')):
        ctx.patch(me, f, element(j))

    def vals(A, k, c):
        n = A.shape[0]
        calls['args'].append(('mat', A))
        U = []
        for r in range(n):
            U.append([np.eye(n)[r, i] if calls['unit'] else ctx.cplx('v%d_%d_%d' % (c, r, i), -1, 1) for i in range(k)])
        ctx.split(U)
        return np.array([1.1 + 0.25 * c + 1.5 * i for i in range(k)]), ctx.arr(U) + 0j

    def eigh(A, *a, **kw):
        calls['n'] += 1
        return vals(A, A.shape[0], calls['n'] - 1)

    def eigsh(A, k=6, sigma=None, *a, **kw):
        calls['n'] += 1
        calls['args'].append(('sigma', sigma))
        return vals(A, k, 40 + calls['n'] - 1)
    ctx.stub_fn('eigh', eigh)
    ctx.stub_fn('eigsh', eigsh)

    def run(g, kp=(KA,), first=0, **kw):
        calls.update(n=first, args=[], unit=bool(kw.get('kz_symmetry')) or not kw.get('compute_im'))
        kw.setdefault('compute_im', False)
        kw.setdefault('gmode_inds', [0, 1])
        kw.setdefault('numeig', 2)
        if kw['compute_im']:
            calls['unit'] = True
        if kw.get('kz_symmetry'):
            kw.setdefault('angles', np.array([0.] * len(kp)))
        k = np.array([[q[0] for q in kp], [q[1] for q in kp]])
        g.run(kpoints=k, verbose=False, delta_gx=0., delta_gabs=0., **kw)

    def results(g, fields):
        out = dict(eigenproblems=list(calls['args']), freqs=g.freqs, freqs_im=g.freqs_im, unbalance_sp=g.unbalance_sp, eigvecs=g.eigvecs, kz_symms=g.kz_symms,
                   rad_coup=g.rad_coup, rad_gvec=g.rad_gvec, kpoints=g.kpoints, gvec=g.gvec)
        if fields:
            for m in range(len(g.freqs[0])):
                out['field%d' % m] = g.ft_field_xy('H', 0, m, 0.1)
        return out
    if batch:
        # one run over several wavevectors against one run for each of them
        kw = dict(runs[0])
        kps = kw.pop('kp')
        g = gme(ctx, trunc, gmax, eps, d, lat)
        run(g, kp=kps, **kw)
        a = results(g, False)
        nm = len(g.freqs[0])
        af = [[g.ft_field_xy(f, k, m, 0.1) for f in ('HE' if fixed else 'H') for m in range(nm)] for k in range(len(kps))]
        pos = 0
        for k, q in enumerate(kps):
            h = gme(ctx, trunc, gmax, eps, d, lat)
            run(h, kp=(q,), first=k * (2 if kw.get('kz_symmetry') == 'both' else 1), **kw)
            b = results(h, False)
            bf = [h.ft_field_xy(f, 0, m, 0.1) for f in ('HE' if fixed else 'H') for m in range(nm)]
            n = len(b['eigenproblems'])
            equal(ctx, a['eigenproblems'][pos:pos + n], b['eigenproblems'], 'eigenproblem of each wavevector')
            pos += n
            for key in ('freqs', 'freqs_im', 'unbalance_sp', 'eigvecs', 'kz_symms'):
                if len(b[key]):
                    equal(ctx, a[key][k], b[key][0], key + ' of each wavevector')
            for key in ('rad_coup', 'rad_gvec'):
                for c in b[key]:
                    equal(ctx, a[key][c][k], b[key][c][0], key + ' of each wavevector')
            equal(ctx, af[k], bf, 'fields of each wavevector')
            if fixed:
                equal(ctx, h.compute_rad(0, [nm - 1]), g.compute_rad(k, [nm - 1]), 'loss of one mode')
        ctx.same(pos, len(a['eigenproblems']), 'no further eigenproblems')
        return
    used = gme(ctx, trunc, gmax, eps, d, lat)
    for kw in runs[:-1]:
        kw = dict(kw)
        after = kw.pop('after', None)
        fail = kw.pop('fail', None)
        if fail:
            ctx.raises(ValueError, lambda: run(used, **kw), 'invalid request raises')
        else:
            run(used, **kw)
        if after == 'im':
            used.run_im()
        elif after == 'field':
            used.ft_field_xy('H', 0, 0, 0.1)
            used.get_eps_xy(0.1, Nx=2, Ny=2)
    kw = dict(runs[-1])
    fields = kw.pop('fields', False)
    run(used, **kw)
    a = results(used, fields)
    if other:
        ctx.lg.set_backend(other)
    fresh = gme(ctx, trunc, gmax, eps, d, lat)
    run(fresh, **dict(kw, **(fresh_kw or {})))
    b = results(fresh, fields)
    for key in b:
        equal(ctx, a[key], b[key], key)


def h_pwe(ctx, runs, change=None, order='te', other=None):
    np = ctx.np
    a1, a2 = LATS['rect']
    L = ctx.lg.Lattice(list(a1), list(a2))
    lay = ctx.lg.ShapesLayer(L, eps_b=6.)
    e1, e2, eb = ctx.real('e1', 1., 2.), ctx.real('e2', 8., 9.), ctx.real('eb', 5., 7.)
    lay.add_shape(ctx.lg.Circle(eps=e1, x_cent=0., y_cent=0., r=0.2))
    calls = {}

    def eigh(A, *a, **kw):
        calls['n'] += 1
        calls['args'].append(A)
        n = A.shape[0]
        U = [[ctx.cplx('v%d_%d_%d' % (calls['n'], r, i), -1, 1) for i in range(n)] for r in range(n)]
        return np.array([1.1 + 1.5 * i for i in range(n)]), ctx.arr(U)
    ctx.stub_fn('eigh', eigh)

    def run(p, kp=(KA,), **kw):
        calls.update(n=0, args=[])
        p.run(kpoints=np.array([[q[0] for q in kp], [q[1] for q in kp]]), **kw)

    def results(p):
        out = dict(eigenproblems=list(calls['args']), freqs=p.freqs, eigvecs=p.eigvecs, kpoints=p.kpoints, gvec=p.gvec)
        for m in range(2):
            out['H%d' % m] = p.ft_field_xy('H', 0, m)
            out['E%d' % m] = p.ft_field_xy('E', 0, m)
        out['eps'] = p.get_eps_xy(Nx=2, Ny=2)[0]
        return out
    used = ctx.lg.PlaneWaveExp(lay, gmax=1.2)
    for kw in runs[:-1]:
        run(used, **kw)
        used.get_eps_xy(Nx=2, Ny=2)
    if change == 'shape':
        lay.add_shape(ctx.lg.Circle(eps=e2, x_cent=0.25, y_cent=0.5, r=0.1))
    elif change == 'eps':
        lay.shapes[0].eps = e2
    elif change == 'background':
        lay.eps_b = eb
    run(used, **runs[-1])
    a = results(used)
    if other:
        ctx.lg.set_backend(other)
    fresh = ctx.lg.PlaneWaveExp(lay, gmax=1.2)
    run(fresh, **runs[-1])
    b = results(fresh)
    for key in b:
        equal(ctx, a[key], b[key], key)


I = dict(compute_im=True)
B = dict(kp=(KA, KB))
CASES = [
    dict(name='batch', fn=h_gme, args=dict(runs=[dict(I, kp=(KA, KB))], batch=True)),
    dict(name='batch-cut', fn=h_gme, args=dict(runs=[dict(I, kp=(KB, KA), gmode_inds=[0, 2])], batch=True, cut=1.)),
    dict(name='batch-cut-tm', fn=h_gme, args=dict(runs=[dict(I, kp=(KA, KB), gmode_inds=[3, 0])], batch=True, cut=1.)),
    dict(name='batch-lossless', fn=h_gme, args=dict(runs=[dict(kp=(KA, KB), gmode_inds=[1, 0])], batch=True)),
    dict(name='batch-lossless-cut', fn=h_gme, args=dict(runs=[dict(kp=(KB, KA), gmode_inds=[2])], batch=True, cut=1.)),
    dict(name='batch-symmetry', fn=h_gme, args=dict(runs=[dict(kp=(KX, (1.25, 0.)), kz_symmetry='both', gmode_inds=[0, 1, 2], numeig=3)], batch=True, parity=True)),
    dict(name='twice', fn=h_gme, args=dict(runs=[dict(I, **B), dict(I, **B, fields=True)])),
    dict(name='modes', fn=h_gme, args=dict(runs=[dict(gmode_inds=[0, 1], numeig=3), dict(I, gmode_inds=[1], fields=True)])),
    dict(name='more-modes', fn=h_gme, args=dict(runs=[dict(gmode_inds=[1]), dict(I, gmode_inds=[3, 0], numeig=2, fields=True)], missing=1)),
    dict(name='numeig', fn=h_gme, args=dict(runs=[dict(I, numeig=3), dict(I, numeig=1, fields=True)])),
    dict(name='kpoints', fn=h_gme, args=dict(runs=[dict(I, kp=(KB, KA), numeig=1), dict(I, fields=True, numeig=1)])),
    dict(name='more-kpoints', fn=h_gme, args=dict(runs=[dict(I, kp=(KB,)), dict(I, kp=(KA, KB), fields=True)])),
    dict(name='no-losses', fn=h_gme, args=dict(runs=[dict(I), dict(fields=True)])),
    dict(name='losses-later', fn=h_gme, args=dict(runs=[dict(after='im'), dict()])),
    dict(name='average', fn=h_gme, args=dict(runs=[dict(eps_eff='average'), dict(I, eps_eff='background', fields=True)])),
    dict(name='background', fn=h_gme, args=dict(runs=[dict(I, eps_eff='background'), dict(fields=True)])),
    dict(name='solver', fn=h_gme, args=dict(runs=[dict(eig_solver='eigsh', eig_sigma=0.3), dict(I, fields=True)])),
    dict(name='solver-back', fn=h_gme, args=dict(runs=[dict(I), dict(eig_solver='eigsh', eig_sigma=0.3)])),
    dict(name='only-gmodes', fn=h_gme, args=dict(runs=[dict(only_gmodes=True), dict(I, fields=True)], trunc='abs')),
    dict(name='only-gmodes-back', fn=h_gme, args=dict(runs=[dict(I), dict(only_gmodes=True), dict(), dict(only_gmodes=True)], trunc='abs')),
    dict(name='target', fn=h_gme, args=dict(runs=[dict(eig_sigma=0.4), dict(fields=True)])),
    dict(name='interp', fn=h_gme, args=dict(runs=[dict(gmode_compute='interp', gmode_npts=3, gmode_inds=[1]), dict(fields=True)])),
    dict(name='interp-back', fn=h_gme, args=dict(runs=[dict(), dict(gmode_compute='interp', gmode_npts=3, gmode_inds=[0])])),
    dict(name='step-tol', fn=h_gme, args=dict(runs=[dict(gmode_step=1e-3, gmode_tol=1e-6), dict()])),
    dict(name='failed', fn=h_gme, args=dict(runs=[dict(numeig=99, fail=True, gmode_inds=[0, 3]), dict(I, fields=True)])),
    dict(name='fields-between', fn=h_gme, args=dict(runs=[dict(after='field', gmode_inds=[1, 2]), dict(I, fields=True)])),
    dict(name='symmetry-none', fn=h_gme, args=dict(runs=[dict(kz_symmetry='both', kp=(KX,)), dict(kp=(KX,), fields=True)], parity=True)),
    dict(name='symmetry-odd', fn=h_gme, args=dict(runs=[dict(gmode_inds=[0], kp=(KX,), numeig=1), dict(kz_symmetry='odd', kp=(KX,), fields=True)], parity=True)),
    dict(name='symmetry-both', fn=h_gme, args=dict(runs=[dict(kz_symmetry='odd', use_sparse=True, kp=(KX, KX)), dict(kz_symmetry='both', kp=(KX,), fields=True)], parity=True)),
    dict(name='symmetry-sparse', fn=h_gme, args=dict(runs=[dict(kz_symmetry='both', kp=(KX,), gmode_inds=[1, 0]), dict(kz_symmetry='even', use_sparse=True, kp=(KX, KX))], parity=True)),
    dict(name='pwe-twice', fn=h_pwe, args=dict(runs=[dict(), dict()])),
    dict(name='pwe-tm-te', fn=h_pwe, args=dict(runs=[dict(pol='tm', numeig=3), dict(pol='te', numeig=2)])),
    dict(name='pwe-te-tm', fn=h_pwe, args=dict(runs=[dict(pol='te', kp=(KA, KB)), dict(pol='TM', kp=(KB,))])),
    dict(name='pwe-more', fn=h_pwe, args=dict(runs=[dict(pol='te', kp=(KB,), numeig=1), dict(pol='TE', kp=(KA, KB), numeig=3)])),
    dict(name='pwe-shape', fn=h_pwe, args=dict(runs=[dict(), dict()], change='shape')),
    dict(name='pwe-eps', fn=h_pwe, args=dict(runs=[dict(pol='tm'), dict()], change='eps')),
    dict(name='pwe-background', fn=h_pwe, args=dict(runs=[dict(), dict(pol='tm')], change='background')),
]
