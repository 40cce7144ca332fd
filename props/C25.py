"""C25 optimisation driver: Adam and L-BFGS wrappers"""
BOUNDS = ('one and two parameters, 1 to 3 epochs, every objective value and gradient (the objective is an arbitrary function: a fresh symbol for every evaluation), any bounds, step sizes and moment '
          'coefficients; any sequence of up to three accepted points and line searches for L-BFGS')
OUTSIDE = 'more parameters and epochs (the step is elementwise and the recursion is the same); the search of scipy itself'
STUBS = 'value_and_grad: value and gradient of an arbitrary objective; scipy.optimize.minimize: arguments recorded, arbitrary sequence of evaluations'


class Obj:
    """an arbitrary objective function: every evaluation returns a new symbol"""

    def __init__(self, ctx, n, mod, grads=None):
        self.ctx, self.n, self.points, self.args, self.vals, self.grads = ctx, n, [], [], [], []
        self.fixed = grads
        ctx.patch(mod, 'value_and_grad', lambda f: (lambda *a, **k: (f(*a, **k), self.grad())))

    def __call__(self, p, *args):
        np = self.ctx.np
        self.points.append(np.array([x for x in p]))
        self.args.append(args)
        self.vals.append(self.ctx.real('of%d' % len(self.vals), -2, 2))
        return self.vals[-1]

    def grad(self):
        k = len(self.grads)
        g = self.fixed[k % len(self.fixed)] if self.fixed else [self.ctx.real('g%d_%d' % (k, i), -2, 2) for i in range(self.n)]
        self.grads.append(g)
        return self.ctx.arr(g)


def bnd(ctx, kind, n):
    if kind is None:
        return None, None
    if kind == 'common':
        b = [ctx.real('lb', -1, 0), ctx.real('ub', 0.5, 1)]
        return list(b), [tuple(b)] * n
    b = [(ctx.real('lb%d' % i, -1, 0), ctx.real('ub%d' % i, 0.5, 1)) for i in range(n)]
    return list(b), b


def clip(x, b):
    if b is None:
        return x
    return [lo if bool(v < lo) else hi if bool(v > hi) else v for v, (lo, hi) in zip(x, b)]


def h_adam(ctx, n, epochs, bounds=None, fixed=False, args=(), pass_self=False, inside=True):
    np = ctx.np
    mm = ctx.mod('legume.minimize')
    grads = [[[0.75, -0.5], [-0.5, 1.], [1., 0.25]][k][:n] for k in range(epochs)] if fixed else None
    f = Obj(ctx, n, mm, grads)
    opt = mm.Minimize(f)
    p0 = [ctx.real('p%d' % i, 0, 0.5) if inside else ctx.real('p%d' % i, -2, 2) for i in range(n)]
    start = ctx.arr(p0)
    if fixed:
        st, b1, b2 = ctx.real('st', 0.125, 4), 0.75, 0.5
    else:
        st, b1, b2 = ctx.real('st', 0.125, 4), ctx.real('b1', 0.25, 0.75), ctx.real('b2', 0.25, 0.75)
    given, B = bnd(ctx, bounds, n)
    seen = []
    out = opt.adam(start, Nepochs=epochs, bounds=given, step_size=st, beta1=b1, beta2=b2, args=args, pass_self=pass_self,
                   callback=lambda s: seen.append((s is opt, s.iteration, list(s.of_list), [x for x in s.params])))
    p, m, v = list(p0), [0] * n, [0] * n
    path = []
    for k in range(epochs):
        ctx.eq(f.points[k], p, 'point of evaluation %d' % k, scale=1)
        g = f.grads[k]
        m = [b1 * m[i] + (1 - b1) * g[i] for i in range(n)]
        v = [b2 * v[i] + (1 - b2) * g[i] ** 2 for i in range(n)]
        if k < epochs - 1:
            mh = [x / (1 - b1 ** (k + 1)) for x in m]
            vh = [x / (1 - b2 ** (k + 1)) for x in v]
            p = [p[i] - st * mh[i] / (np.sqrt(vh[i]) + 1e-8) for i in range(n)]
        p = clip(p, B)
        path.append(p)
    ctx.same(len(f.points), epochs, 'one evaluation per epoch')
    ctx.eq(out[0], p, 'final parameters', scale=1)
    ctx.eq(opt.params, p, 'parameters kept', scale=1)
    ctx.same(len(out[1]), epochs, 'one value per epoch')
    ctx.eq(out[1], f.vals, 'objective values')
    ctx.eq(opt.of_list, f.vals, 'objective values kept')
    ctx.same(opt.iteration, epochs, 'epochs counted')
    ctx.same(f.args, [tuple(args) + ((opt,) if pass_self else ())] * epochs, 'extra arguments')
    ctx.eq(start, p0, 'starting point of the caller unchanged')
    ctx.same([s[:2] for s in seen], [(True, k + 1) for k in range(epochs)], 'callback at every epoch')
    for k, s in enumerate(seen):
        ctx.eq(s[2], f.vals[:k + 1], 'values seen by the callback')
        ctx.eq(s[3], path[k], 'parameters seen by the callback', scale=1)
    # a second optimisation starts afresh
    if epochs == 1:
        q0 = [ctx.real('q%d' % i, 0, 0.5) for i in range(n)]
        o2 = opt.adam(ctx.arr(q0), Nepochs=1, args=args, pass_self=pass_self)
        ctx.eq(o2[0], q0, 'second start')
        ctx.same((len(o2[1]), opt.iteration), (1, 1), 'second run starts afresh')
        ctx.eq(o2[1], f.vals[1:], 'second run values')
        ctx.eq(out[1], f.vals[:1], 'values of the first run unchanged')


def h_lbfgs(ctx, n, bounds=None, steps=(1, 2), args=(), pass_self=False, res=False):
    mm = ctx.mod('legume.minimize')
    f = Obj(ctx, n, mm)
    opt = mm.Minimize(f)
    p0 = [ctx.real('p%d' % i, -1, 1) for i in range(n)]
    start = ctx.arr(p0)
    given, B = bnd(ctx, bounds, n)
    rec = {}
    acc = []

    class Res:
        pass

    def minimize(fun, x0, args=(), method=None, jac=None, bounds=None, tol=None, callback=None, options=None, **k):
        rec.update(x0=[x for x in x0], method=method, jac=jac, bounds=bounds, options=dict(options or {}))
        t = len(f.points)
        out = fun(ctx.arr(p0), *args)
        ctx.eq(out[0], f.vals[t], 'value handed to the optimiser')
        ctx.eq(out[1], f.grads[-1], 'gradient handed to the optimiser')
        for s, tries in enumerate(steps):
            for j in range(tries):
                x = [ctx.real('x%d_%d_%d' % (s, j, i), -1, 1) for i in range(n)]
                out = fun(ctx.arr(x), *args)
                ctx.eq(f.points[-1], x, 'evaluated where asked')
                ctx.eq(out[0], f.vals[-1], 'value handed to the optimiser')
                ctx.eq(out[1], f.grads[-1], 'gradient handed to the optimiser')
            acc.append((x, f.vals[-1]))
            callback(ctx.arr(x))
        r = Res()
        r.x = ctx.arr(acc[-1][0] if acc else p0)
        rec['res'] = r
        return r
    ctx.patch(mm, 'minimize', minimize)
    seen = []
    out = opt.lbfgs(start, Nepochs=7, bounds=given, maxfun=123, args=args, pass_self=pass_self, res=res,
                    callback=lambda s: seen.append((s is opt, s.iteration, len(s.of_list), [x for x in s.params])))
    ctx.eq(rec['x0'], p0, 'starting point')
    ctx.same((rec['method'], rec['jac']), ('L-BFGS-B', True), 'method, gradient supplied')
    ctx.same((rec['options'].get('maxiter'), rec['options'].get('maxfun')), (7, 123), 'limits')
    if B is None:
        ctx.same(rec['bounds'], None, 'no bounds')
    else:
        ctx.same(len(rec['bounds']), n, 'one pair of bounds per parameter')
        ctx.eq([list(b) for b in rec['bounds']], [list(b) for b in B], 'bounds')
    ctx.eq(f.points[0], p0, 'first evaluation at the starting point')
    want = [f.vals[0]] + [v for x, v in acc]
    ctx.same(len(out[1]), len(want), 'values: start and every iteration')
    ctx.eq(out[1], want, 'objective at the start and at every accepted point')
    ctx.eq(out[0], acc[-1][0] if acc else p0, 'parameters found')
    ctx.same(len(out), 3 if res else 2, 'outputs')
    if res:
        ctx.true(out[2] is rec['res'], 'scipy result')
    ctx.same(f.args, [tuple(args) + ((opt,) if pass_self else ())] * len(f.args), 'extra arguments in every evaluation')
    ctx.same([s[:3] for s in seen], [(True, k + 1, k + 2) for k in range(len(steps))], 'callback at every iteration')
    for s, a in zip(seen, acc):
        ctx.eq(s[3], a[0], 'parameters seen by the callback')
    ctx.eq(start, p0, 'starting point of the caller unchanged')


def h_bounds(ctx):
    np = ctx.np
    mm = ctx.mod('legume.minimize')
    Obj(ctx, 2, mm)
    for bad in ([1.], [0., 1., 2.], [(0., 1.)], [(0., 1.)] * 3, [(0., 1., 2.), (0., 1.)], [(0.,), (1.,)], [], 3., [(0., 1.), (0., 1., 2.)]):
        for call in ('adam', 'lbfgs'):
            o = mm.Minimize(lambda p, *a: 0.)
            ctx.patch(mm, 'minimize', lambda *a, **k: None)
            ctx.raises((ValueError,), lambda: getattr(o, call)(np.array([0.5, 0.5]), Nepochs=1, bounds=bad), '%s: bounds %s' % (call, bad))


CASES = [
    dict(name='adam_1', fn=h_adam, args=dict(n=1, epochs=2)),
    dict(name='adam_2', fn=h_adam, args=dict(n=2, epochs=2), wall=60),
    dict(name='adam_3', fn=h_adam, args=dict(n=1, epochs=3), wall=90, tier='thorough'),
    dict(name='adam_fixed_grad', fn=h_adam, args=dict(n=2, epochs=3, fixed=True, args=('x', 3))),
    dict(name='adam_bounds_common', fn=h_adam, args=dict(n=2, epochs=2, fixed=True, bounds='common', pass_self=True), max_paths=300),
    dict(name='adam_bounds_each', fn=h_adam, args=dict(n=2, epochs=2, fixed=True, bounds='each', args=('y',), pass_self=True), max_paths=300),
    dict(name='adam_bounds_steps', fn=h_adam, args=dict(n=1, epochs=3, fixed=True, bounds='each'), max_paths=300, wall=60),
    dict(name='adam_bounds_outside', fn=h_adam, args=dict(n=2, epochs=1, fixed=True, bounds='each', inside=False), max_paths=300),
    dict(name='adam_one_epoch', fn=h_adam, args=dict(n=2, epochs=1)),
    dict(name='lbfgs', fn=h_lbfgs, args=dict(n=2)),
    dict(name='lbfgs_bounds_common', fn=h_lbfgs, args=dict(n=2, bounds='common', steps=(3,), res=True)),
    dict(name='lbfgs_bounds_each', fn=h_lbfgs, args=dict(n=1, bounds='each', steps=(1, 1, 2), args=('x', 3))),
    dict(name='lbfgs_pass_self', fn=h_lbfgs, args=dict(n=2, args=('x',), pass_self=True)),
    dict(name='lbfgs_no_step', fn=h_lbfgs, args=dict(n=2, steps=(), res=True)),
    dict(name='malformed_bounds', fn=h_bounds),
]
