"""C26 hand-written gradients: every vector-Jacobian product is the adjoint of the derivative of its function"""
BOUNDS = ('Hermitian eigenproblems of size 2 and 3, one or two eigenpairs of the iterative solver, general eigenproblems and inverses of size 2, Toeplitz-block matrices of 1 to 3 blocks of size 1 to 3, '
          'interpolation on 1 to 4 nodes; arbitrary matrices, eigenvectors, perturbations and backward signals')
OUTSIDE = 'larger matrices (the formulas are sums over pairs); degenerate eigenvalues; the chain rule of autograd itself'
STUBS = 'eigenvalues and eigenvectors are inputs; conjugate gradient: an arbitrary exact solution of the recorded system; grad: analytic derivatives'


def vjp(ctx, name, argnum, ans, args, kw=None):
    """the registered vector-Jacobian product of a function of the autograd backend"""
    prim = name if not isinstance(name, str) else getattr(ctx.mod('legume.backend').AutogradBackend, name)
    if ctx.symbolic:
        return prim.vjps[argnum](ans, *args, **(kw or {}))
    from autograd.core import primitive_vjps
    f = primitive_vjps[prim]([argnum], ans, args, kw or {})
    return lambda g: tuple(f(g))[0]


def mat(ctx, t, n, m, real=False):
    f = ctx.real if real else ctx.cplx
    return [[f('%s%d%d' % (t, i, j), -1, 1) for j in range(m)] for i in range(n)]


def herm(ctx, t, n):
    M = [[None] * n for _ in range(n)]
    for i in range(n):
        M[i][i] = ctx.real('%s%d%d' % (t, i, i), -1, 1) + 0j
        for j in range(i):
            M[i][j] = ctx.cplx('%s%d%d' % (t, i, j), -1, 1)
            M[j][i] = M[i][j].conjugate()
    return M


def dot(a, b):
    """what autograd calls the derivative along b: the real part of the plain sum"""
    fl = lambda x: [z for y in x for z in fl(y)] if isinstance(x, list) or getattr(x, 'ndim', 0) else [x]
    a, b = fl(a), fl(b)
    assert len(a) == len(b)
    s = sum(x * y for x, y in zip(a, b))
    return s.real


def check(ctx, got, dx, g, df, label):
    ctx.eq(dot(got, dx), dot(g, df), label)


def unitary_free(ctx, n):
    V = mat(ctx, 'v', n, n)
    w = [-0.5, 0.25, 1.75][:n]
    return V, w


def h_eigh(ctx, n, vectors, uplo=None):
    """dw_i = v_i^H dA v_i,  dv_i = sum_j v_j (v_j^H dA v_i) / (w_i - w_j)"""
    V, w = unitary_free(ctx, n)
    dA = herm(ctx, 'd', n)
    gw = [ctx.real('gw%d' % i, -1, 1) for i in range(n)]
    gv = mat(ctx, 'gv', n, n) if vectors else [[0j] * n for _ in range(n)]
    ctx.split(V, dA)
    q = [[sum(V[a][i].conjugate() * dA[a][b] * V[b][j] for a in range(n) for b in range(n)) for j in range(n)] for i in range(n)]
    dw = [q[i][i] for i in range(n)]
    dV = [[sum(V[a][j] * q[j][i] / (w[i] - w[j]) for j in range(n) if j != i) for i in range(n)] for a in range(n)]
    f = vjp(ctx, 'eigh', 0, (ctx.arr(w), ctx.arr(V)), (ctx.arr(dA) * 0,), dict(UPLO=uplo) if uplo else None)
    r = f((ctx.arr(gw), ctx.arr(gv)))
    ctx.same(tuple(r.shape), (n, n), 'shape')
    want = sum(gw[i] * dw[i] for i in range(n)) + sum(gv[a][i] * dV[a][i] for a in range(n) for i in range(n))
    ctx.eq(dot(r, ctx.arr(dA)), want.real, 'eigenvalues' if not vectors else 'eigenvalues and eigenvectors')
    for i in range(n):
        for j in range(n):
            if (j > i) if uplo != 'U' else (i > j):
                ctx.eq(r[i, j], 0, 'the triangle which eigh ignores has no gradient')


def h_eigsh(ctx, n, k, vectors):
    np = ctx.np
    if n == 2:
        # orthonormal vectors
        c, s = 0.6, 0.8
        ph = ctx.real('ph', -1, 1)
        e = np.cos(ph) + 1j * np.sin(ph)
        V = [[c + 0j, -s * e.conjugate()], [s * e, c + 0j]]
    w = [ctx.real('w0', -1, 0), ctx.real('w1', 0.5, 1)]
    A = [[sum(w[i] * V[a][i] * V[b][i].conjugate() for i in range(n)) for b in range(n)] for a in range(n)]
    dA = herm(ctx, 'd', n)
    gw = [ctx.real('gw%d' % i, -1, 1) for i in range(k)]
    gv = mat(ctx, 'gv', n, k) if vectors else [[0j] * k for _ in range(n)]
    q = [[sum(V[a][i].conjugate() * dA[a][b] * V[b][j] for a in range(n) for b in range(n)) for j in range(n)] for i in range(n)]
    dw = [q[i][i] for i in range(k)]
    dV = [[sum(V[a][j] * q[j][i] / (w[i] - w[j]) for j in range(n) if j != i) for i in range(k)] for a in range(n)]
    solved = []

    def cg(M, b, x0=None, **kk):
        # which eigenvector makes the system singular
        i = 0 if ctx.fval((M[0, 0] + M[1, 1]).real) > 0 else 1
        other = 1 - i
        vo = [V[a][other].conjugate() for a in range(n)]
        vi = [V[a][i].conjugate() for a in range(n)]
        lam = w[other] - w[i]
        co = sum(V[a][other] * b[a] for a in range(n)) / lam
        x = [co * vo[a] for a in range(n)]
        t = ctx.cplx('null%d' % i, -1, 1)
        x = [x[a] + t * vi[a] for a in range(n)]
        ctx.eq([sum(M[a][c] * x[c] for c in range(n)) for a in range(n)], [b[a] for a in range(n)], 'system that is solved is consistent')
        solved.append(1)
        return ctx.arr(x), 0
    import types
    pm = ctx.mod('legume.primitives')
    spm = pm.sp
    if ctx.symbolic:
        lin = types.SimpleNamespace(cg=cg)
        ctx.patch(pm, 'sp', types.SimpleNamespace(linalg=lin))
        ctx.patch(ctx.np, 'random', types.SimpleNamespace(randn=lambda m: ctx.np.array([0.5 + 0.25 * i for i in range(m)])))
    else:
        import scipy.sparse.linalg
        ctx.patch(scipy.sparse.linalg, 'cg', cg)
    ans = (ctx.arr(w[:k]), ctx.arr([row[:k] for row in V]))
    r = vjp(ctx, 'eigsh', 0, ans, (ctx.arr(A),), dict(k=k))((ctx.arr(gw), ctx.arr(gv)))
    want = sum(gw[i] * dw[i] for i in range(k)) + sum(gv[a][i] * dV[a][i] for a in range(n) for i in range(k))
    ctx.eq(dot(r, ctx.arr(dA)), want.real, 'derivative along a Hermitian perturbation')
    if not vectors:
        ctx.same(len(solved), 0, 'no linear system without gradients of the eigenvectors')


def h_eig(ctx, n, vectors, real=False):
    """A = U e U^-1, columns of U of length one: dU_i = U_i-direction removed such that the length stays one"""
    e = [ctx.cplx('e0', -1, -0.5), ctx.cplx('e1', 0.5, 1)]
    if real:
        e = [x.real + 0j for x in e]
        V = [[0.6, 0.28], [0.8, -0.96]]
    else:
        V = [[0.6 + 0j, 0.28j], [0.8j, 0.96 + 0j]]
    det = V[0][0] * V[1][1] - V[0][1] * V[1][0]
    I = [[V[1][1] / det, -V[0][1] / det], [-V[1][0] / det, V[0][0] / det]]
    dA = mat(ctx, 'd', n, n, real)
    A = [[sum(V[a][i] * e[i] * I[i][b] for i in range(n)) for b in range(n)] for a in range(n)]
    ge = [ctx.cplx('ge%d' % i, -1, 1) for i in range(n)]
    gv = mat(ctx, 'gv', n, n) if vectors else [[0j] * n for _ in range(n)]
    q = [[sum(I[i][a] * dA[a][b] * V[b][j] for a in range(n) for b in range(n)) for j in range(n)] for i in range(n)]
    dV = [[None] * n for _ in range(n)]
    for i in range(n):
        raw = [sum(V[a][j] * q[j][i] / (e[i] - e[j]) for j in range(n) if j != i) for a in range(n)]
        par = sum(V[a][i] * 0 + (V[a][i] if not hasattr(V[a][i], 'conjugate') else V[a][i].conjugate()) * raw[a] for a in range(n)).real
        for a in range(n):
            dV[a][i] = raw[a] - V[a][i] * par
    arr = ctx.arr(A)
    if real:
        arr = ctx.arr([[x.real for x in row] for row in A])
    r = vjp(ctx, 'eig', 0, (ctx.arr(e), ctx.arr(V)), (arr,))((ctx.arr(ge), ctx.arr(gv)))
    want = sum(ge[i] * q[i][i] for i in range(n)) + sum(gv[a][i] * dV[a][i] for a in range(n) for i in range(n))
    ctx.eq(dot(r, ctx.arr(dA)), want.real, 'derivative of eigenvalues' + (' and eigenvectors' if vectors else ''))


def h_inv(ctx, n):
    X, dX, G = (mat(ctx, t, n, n) for t in 'xdg')
    mul = lambda a, b: [[sum(a[i][k] * b[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    dY = mul(mul(X, dX), X)
    r = vjp(ctx, 'inv', 0, ctx.arr(X), (ctx.arr(X),))(ctx.arr(G))
    check(ctx, r, dX, [[-x for x in row] for row in G], dY, 'derivative of the inverse')


def h_toeplitz(ctx, n, p):
    """d = the same linear construction; entries shared by the first row and column agree"""
    np = ctx.np
    bd = ctx.mod('legume.backend').NumpyBackend

    def rows(t):
        T1 = [ctx.cplx('%sr%d' % (t, i), -1, 1) for i in range(n * p)]
        T2 = [ctx.cplx('%sc%d' % (t, i), -1, 1) for i in range(n * p)]
        for b in range(n):
            T2[b * p] = T1[b * p]
        T1[0] = T2[0] = ctx.real(t + 'diag', -1, 1) + 0j
        for j in range(1, p):
            T2[j] = T1[j].conjugate()
        return ctx.arr(T1), ctx.arr(T2)
    T1, T2 = rows('t')
    d1, d2 = rows('d')
    dT = bd.toeplitz_block(n, d1, d2)
    ans = bd.toeplitz_block(n, T1, T2)
    G = mat(ctx, 'g', n * p, n * p)
    r1 = vjp(ctx, 'toeplitz_block', 1, ans, (n, T1, T2))(ctx.arr(G))
    r2 = vjp(ctx, 'toeplitz_block', 2, ans, (n, T1, T2))(ctx.arr(G))
    ctx.same((tuple(r1.shape), tuple(r2.shape)), ((n * p,), (n * p,)), 'shapes')
    ctx.eq(dot(r1, d1) + dot(r2, d2), dot(G, [[dT[i, j] for j in range(n * p)] for i in range(n * p)]), 'derivative of the matrix')


def h_interp(ctx, nodes, where, cplx=False):
    np = ctx.np
    bd = ctx.mod('legume.backend').NumpyBackend
    xp = [0.5 * i * (i + 1) for i in range(nodes)]
    top = xp[-1]
    if where == 'inside':
        xs = [ctx.real('x0', 0, top), ctx.real('x1', 0, top)] if nodes > 1 else [0.]
    elif where == 'nodes':
        xs = list(xp)
    elif where == 'above':
        xs = [ctx.real('x0', top, top + 1), top]
    elif where == 'below':
        xs = [ctx.real('x0', -1, 0), 0.]
    else:
        xs = [ctx.real('x0', -1, top + 1)]
    dy = [(ctx.cplx if cplx else ctx.real)('d%d' % i, -1, 1) for i in range(nodes)]
    g = [(ctx.cplx if cplx else ctx.real)('g%d' % i, -1, 1) for i in range(len(xs))]
    # the function is linear in the values
    df = []
    for x in xs:
        if bool(x <= xp[0]):
            df.append(dy[0])
        elif bool(x >= top):
            df.append(dy[-1])
        else:
            j = [k for k in range(nodes - 1) if bool(xp[k] <= x)][-1]
            t = (x - xp[j]) / (xp[j + 1] - xp[j])
            df.append((1 - t) * dy[j] + t * dy[j + 1])
    ctx.eq(bd.interp(ctx.arr(xs), np.array(xp), ctx.arr(dy)), df, 'interpolated values')
    r = vjp(ctx, 'interp', 2, ctx.arr(df), (ctx.arr(xs), np.array(xp), ctx.arr(dy)))(ctx.arr(g))
    check(ctx, r, dy, g, df, 'derivative with respect to the values')


def h_extend(ctx):
    np = ctx.np
    dv = [ctx.cplx('d%d' % i, -1, 1) for i in range(3)]
    inds = np.array([4, 0, 2])
    G = [ctx.cplx('g%d' % i, -1, 1) for i in range(6)]
    bd = ctx.mod('legume.backend').NumpyBackend
    dz = bd.extend(ctx.arr(dv), inds, (6,))
    r = vjp(ctx, 'extend', 0, dz, (ctx.arr(dv), inds, (6,)))(ctx.arr(G))
    check(ctx, r, dv, G, dz, 'derivative of the extension')


def h_spdot(ctx):
    """sparse matrix times dense matrix"""
    np = ctx.np
    M = [[1., 0., -0.5], [0., 2., 0.]]
    S = ctx.mod('legume.backend').sparse.coo_matrix(np.array(M))
    dX = mat(ctx, 'd', 3, 2)
    G = mat(ctx, 'g', 2, 2)
    bd = ctx.mod('legume.backend').NumpyBackend
    df = bd.spdot(S, ctx.arr(dX))
    ctx.eq(df, [[sum(M[i][k] * dX[k][j] for k in range(3)) for j in range(2)] for i in range(2)], 'product')
    r = vjp(ctx, 'spdot', 1, df, (S, ctx.arr(dX)))(ctx.arr(G))
    check(ctx, r, dX, G, df, 'derivative of the product')


def h_sqrt(ctx):
    x = ctx.real('x', 0.25, 4)
    g = ctx.real('g', -1, 1)
    r = vjp(ctx, 'sqrt', 0, ctx.np.sqrt(x), (x,))(g)
    ctx.eq(r, 0.5 * g / ctx.np.sqrt(x), 'slope of the square root')


def patch_grad(ctx, table):
    """analytic derivatives in place of autograd's (which the concrete run uses)"""
    if ctx.symbolic:
        ctx.patch(ctx.mod('legume.primitives'), 'grad', lambda f, i=0: table(f, i))


def h_fsolve(ctx):
    """implicit derivative of the root: f(x, a, b, c) = 0 with parameters b and c differentiable"""
    a, b, c = [ctx.real(t, 0.5, 1) for t in 'abc']
    x = ctx.real('x', 0.5, 1)
    f = lambda x, a, b, c: x * x * a + b * x * c + c * c * b
    D = [lambda x, a, b, c: 2 * x * a + b * c, lambda x, a, b, c: x * x, lambda x, a, b, c: x * c + c * c, lambda x, a, b, c: b * x + 2 * c * b]
    patch_grad(ctx, lambda fn, i: D[i])
    g = ctx.real('g', -1, 1)
    for j, (arg, v) in enumerate([(4, b), (5, c)]):
        r = vjp(ctx, 'fsolve_D22', arg, x, (f, 0., 1., a, b, c))(g)
        ctx.eq(r, -g * D[j + 2](x, a, b, c) / D[0](x, a, b, c), 'derivative of the root')


def h_fmap(ctx):
    np = ctx.np
    pm = ctx.mod('legume.primitives')
    p = [ctx.real('p%d' % i, -1, 1) for i in range(2)]
    k = [ctx.real('k%d' % i, -1, 1) for i in range(3)]
    fs = [lambda q: k[0] * q[0] * q[0] + q[1], lambda q: k[1] * q[0] * q[1], lambda q: k[2] * q[1]]
    D = {fs[0]: lambda q: ctx.arr([2 * k[0] * q[0], 1.]), fs[1]: lambda q: ctx.arr([k[1] * q[1], k[1] * q[0]]), fs[2]: lambda q: ctx.arr([0., k[2]])}
    patch_grad(ctx, lambda fn, i: D[fn])
    out = pm.fmap(fs, ctx.arr(p))
    ctx.eq(out, [f(p) for f in fs], 'values')
    g = [ctx.real('g%d' % i, -1, 1) for i in range(3)]
    r = vjp(ctx, pm.fmap, 1, out, (fs, ctx.arr(p)))(ctx.arr(g))
    ctx.eq(r, [sum(g[i] * D[fs[i]](p)[j] for i in range(3)) for j in range(2)], 'derivative')


CASES = [
    dict(name='eigh_values_2', fn=h_eigh, args=dict(n=2, vectors=False)),
    dict(name='eigh_2', fn=h_eigh, args=dict(n=2, vectors=True)),
    dict(name='eigh_2_lower', fn=h_eigh, args=dict(n=2, vectors=True, uplo='L')),
    dict(name='eigh_2_upper', fn=h_eigh, args=dict(n=2, vectors=True, uplo='U')),
    dict(name='eigh_values_3', fn=h_eigh, args=dict(n=3, vectors=False), wall=120),
    dict(name='eigh_3', fn=h_eigh, args=dict(n=3, vectors=True), wall=180, tier='thorough'),
    dict(name='eigsh_values', fn=h_eigsh, args=dict(n=2, k=2, vectors=False)),
    dict(name='eigsh_one', fn=h_eigsh, args=dict(n=2, k=1, vectors=True)),
    dict(name='eigsh_two', fn=h_eigsh, args=dict(n=2, k=2, vectors=True)),
    dict(name='eig_values', fn=h_eig, args=dict(n=2, vectors=False)),
    dict(name='eig', fn=h_eig, args=dict(n=2, vectors=True)),
    dict(name='eig_real', fn=h_eig, args=dict(n=2, vectors=True, real=True)),
    dict(name='inv_2', fn=h_inv, args=dict(n=2)),
    dict(name='inv_3', fn=h_inv, args=dict(n=3), tier='thorough', wall=120),
    dict(name='toeplitz_1_3', fn=h_toeplitz, args=dict(n=1, p=3)),
    dict(name='toeplitz_2_2', fn=h_toeplitz, args=dict(n=2, p=2)),
    dict(name='toeplitz_3_1', fn=h_toeplitz, args=dict(n=3, p=1)),
    dict(name='toeplitz_3_3', fn=h_toeplitz, args=dict(n=3, p=3), wall=60),
    dict(name='interp', fn=h_interp, args=dict(nodes=4, where='inside'), max_paths=200),
    dict(name='interp_nodes', fn=h_interp, args=dict(nodes=4, where='nodes', cplx=True)),
    dict(name='interp_above', fn=h_interp, args=dict(nodes=3, where='above')),
    dict(name='interp_below', fn=h_interp, args=dict(nodes=3, where='below')),
    dict(name='interp_mixed', fn=h_interp, args=dict(nodes=3, where='mixed', cplx=True)),
    dict(name='interp_one_node', fn=h_interp, args=dict(nodes=1, where='inside')),
    dict(name='extend', fn=h_extend),
    dict(name='spdot', fn=h_spdot),
    dict(name='sqrt', fn=h_sqrt),
    dict(name='fsolve', fn=h_fsolve),
    dict(name='fmap', fn=h_fmap),
]
