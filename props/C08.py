"""C08 stacking layers"""
BOUNDS = '1..4 layers of arbitrary real thickness in (0.05,2); all layer, cladding and quantum-well positions; 0..2 shapes'
OUTSIDE = 'more layers'
STUBS = 'none'


def build(ctx, n, shapes=False):
    lat = ctx.lg.Lattice('square')
    el, eu = ctx.reals('el eu', 1, 15)
    ph = ctx.lg.PhotCryst(lat, eps_l=el, eps_u=eu)
    d = [ctx.real('d%d' % i, 0.05, 2) for i in range(n)]
    e = [ctx.real('e%d' % i, 1, 15) for i in range(n)]
    for i in range(n):
        ph.add_layer(d=d[i], eps_b=e[i])
    edges = [0 * d[0]]
    for x in d:
        edges.append(edges[-1] + x)
    return ph, d, e, edges, el, eu


def h_stack(ctx, n=3):
    ph, d, e, edges, el, eu = build(ctx, n)
    np = ctx.np
    ctx.same(len(ph.layers), n, 'one layer per call')
    for i, l in enumerate(ph.layers):
        ctx.eq(l.z_min, edges[i], 'layer bottom', scale=1)
        ctx.eq(l.z_max, edges[i + 1], 'layer top')
        ctx.eq(l.d, d[i], 'thickness')
        ctx.eq(l.z_mid, (edges[i] + edges[i + 1]) / 2, 'middle')
        ctx.eq(l.eps_b, e[i], 'background')
        ctx.eq(l.eps_avg, e[i], 'average of an empty layer')
        ctx.same(l.lattice is ph.lattice, True, 'lattice shared')
    lo, up = ph.claddings
    ctx.eq(lo.eps_b, el, 'lower cladding')
    ctx.eq(up.eps_b, eu, 'upper cladding')
    ctx.eq(lo.z_max, edges[0], 'lower cladding ends at z=0', scale=1)
    ctx.eq(up.z_min, edges[-1], 'upper cladding starts at the top')
    ctx.ge(0 * edges[0] - 1e6, lo.z_min, 'claddings are effectively infinite')
    ctx.ge(up.z_max, 0 * edges[0] + 1e6, 'claddings are effectively infinite')
    dist = ctx.real('dist', 0.1, 3)
    for kw, ds in ((dict(Nz=4, dist=dist), dist), (dict(Nz=4), 1)):
        zg = ph.z_grid(**kw)
        ctx.same(len(zg), 4, 'z grid size')
        for k in range(4):
            ctx.eq(zg[k], -ds + (edges[-1] + 2 * ds) * k / 3, 'z grid', scale=1)


def h_zlind(ctx, n=3):
    """the layer index reported for a height is the layer containing it"""
    ph, d, e, edges, el, eu = build(ctx, n)
    z = ctx.real('z', -1, 5)
    ind = ctx.mod('legume.utils').z_to_lind(ph, z)
    ctx.true(0 <= ind <= n + 1, 'index range')
    # layer i (1-based) covers [edges[i-1], edges[i]] up to which side owns the interface
    if ind > 0:
        ctx.ge(z, edges[ind - 1], 'not below the reported layer')
    if ind <= n:
        ctx.ge(edges[ind], z, 'not above the reported layer')
    lay = ([ph.claddings[0]] + ph.layers + [ph.claddings[1]])[ind]
    want = el if ind == 0 else eu if ind == n + 1 else e[ind - 1]
    ctx.eq(lay.eps_b, want, 'layer order')


def h_qw(ctx, n=2):
    ph, d, e, edges, el, eu = build(ctx, n)
    z = ctx.real('z', -1, 5)
    E0, M, V = ctx.real('E0', 1, 2), ctx.real('M', 1, 2), ctx.real('V', -1, 1)
    try:
        ph.add_qw(z=z, V_shapes=V, a=1., M=M, E0=E0, loss=0.1, osc_str=[1., 2., 3.])
        ok = True
    except ValueError:
        ok = False
    if ok:
        ctx.ge(z, edges[0], 'accepted only inside the stack')
        ctx.ge(edges[-1], z, 'accepted only inside the stack')
        ctx.same(len(ph.qws), 1, 'well stored')
        q = ph.qws[0]
        ctx.eq(q.z, z, 'position', scale=1)
        ctx.eq(ctx.arr([q.E0, q.M, q.V_shapes, q.a, q.loss]), ctx.arr([E0, M, V, 1., 0.1]), 'well parameters', scale=1)
        ctx.eq(q.osc_str, ctx.arr([1., 2., 3.]), 'oscillator strength')
    else:
        ctx.same(len(ph.qws), 0, 'rejected well not stored')
        if bool(z > 0):
            ctx.ge(z, edges[-1], 'rejected only outside the stack')


def h_bounds(ctx, n=2):
    """permittivity bounds contain every permittivity and are attained"""
    ph, d, e, edges, el, eu = build(ctx, n)
    s1, s2 = ctx.reals('s1 s2', 0.5, 20)
    ph.add_shape(ctx.lg.Circle(eps=s1, r=0.2), layer=0)
    ph.add_shape(ctx.lg.Circle(eps=s2, r=0.2), cladding=1)
    lo, hi = ph.get_eps_bounds()
    allv = e + [el, eu, s1, s2]
    pl, pu = 1, 1
    for v in allv:
        ctx.ge(v, lo, 'lower bound')
        ctx.ge(hi, v, 'upper bound')
        pl = pl * (v - lo)
        pu = pu * (hi - v)
    ctx.eq(pl, 0 * pl, 'lower bound attained', scale=1)
    ctx.eq(pu, 0 * pu, 'upper bound attained', scale=1)


CASES = [dict(name='stack-%d' % n, fn=h_stack, args=dict(n=n)) for n in (1, 2, 3, 4)]
CASES += [dict(name='z-index-%d' % n, fn=h_zlind, args=dict(n=n)) for n in (1, 2, 4)]
CASES += [dict(name='qw-%d' % n, fn=h_qw, args=dict(n=n)) for n in (1, 3)]
CASES += [dict(name='eps-bounds-%d' % n, fn=h_bounds, args=dict(n=n), max_paths=3000) for n in (1, 2)]
