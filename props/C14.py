"""C14 guided modes are normalised to unit energy"""
from props.C13 import slab, chis
BOUNDS = ('1..3 inner layers, arbitrary thickness, permittivities, frequency and wavevector between the light lines; arbitrary complex field coefficients in every layer '
          '(not only those of a mode); inner layers propagating or evanescent; both polarisations')
OUTSIDE = 'more layers; frequency exactly at a light line'
STUBS = 'root finding: the returned frequency is arbitrary within its bracket'


def energy(ctx, A, B, c, e, d, g, prop, pol):
    """integral over z of |H|^2 for unit in-plane polarisation vectors"""
    np = ctx.np
    n = len(d)
    tot = 0
    for i in range(n + 2):
        a2, b2 = A[i] * A[i].conjugate(), B[i] * B[i].conjugate()
        ab = A[i] * B[i].conjugate()
        re = (ab + ab.conjugate())
        k = c[i] if prop[i] else c[i] * (-1j)
        k = np.real(k)
        if i == 0:
            s, x = b2 / (2 * k), 0
        elif i == n + 1:
            s, x = a2 / (2 * k), 0
        elif prop[i]:
            s = (a2 + b2) * d[i - 1]
            x = re * np.sin(k * d[i - 1]) / k
        else:
            s = (a2 + b2) * (np.exp(k * d[i - 1]) - np.exp(-k * d[i - 1])) / (2 * k)
            x = re * d[i - 1]
        if pol == 'TE':
            tot = tot + (k * k + g * g) * s + (g * g - k * k) * x
        else:
            tot = tot + s + x
    return tot


def h_norm(ctx, n=1, ev=(), pol='TE', given=True):
    sm = ctx.mod('legume.gme.slab_modes')
    g, om, e, d = slab(ctx, n, ev)
    prop = [not (i in (0, n + 1) or i in ev) for i in range(n + 2)]
    c = chis(ctx, g, om, e, prop)
    A = [0 * g + 0j if i == 0 else ctx.cplx('A%d' % i, 0.1, 1) for i in range(n + 2)]
    B = [0 * g + 0j if i == n + 1 else ctx.cplx('B%d' % i, 0.1, 1) for i in range(n + 2)]
    AB = ctx.arr([[[A[i]], [B[i]]] for i in range(n + 2)])
    ca = sm.chi(om, g, ctx.arr(e))
    N = sm.normalization_coeff(om, g, ctx.arr(e), ctx.arr(d), ca if given else None, AB, pol)
    ctx.eq(N, energy(ctx, A, B, c, e, d, g, prop, pol), 'normalisation is the integral of |H|^2', scale=1)


def h_mode(ctx, n=1, pol='TE', name=None):
    """the coefficients handed out are the normalised ones of the frequency found"""
    sm = ctx.mod('legume.gme.slab_modes')
    g, om, e, d = slab(ctx, n)
    bd = ctx.mod('legume.backend').backend
    calls = []

    def fsolve(f, lb, ub, *args):
        calls.append((lb, ub))
        return om
    ctx.patch(bd, 'fsolve_D22', fsolve)

    def vec(oms, *a, **k):
        return ctx.np.array([1. if i % 2 else -1. for i in range(len(oms))])
    ctx.patch(sm, 'D22s_vec', vec)
    oms, co = sm.guided_mode_given_g(g, ctx.arr(e), ctx.arr(d), n_modes=1, omega_lb=0.5, omega_ub=0.8, step=0.2, tol=1e-3, pol=name or pol)
    ctx.same((len(oms), len(co), len(calls)), (1, 1, 1), 'one mode')
    ctx.eq(oms[0], om, 'frequency found')
    prop = [False] + [True] * n + [False]
    c = chis(ctx, g, om, e, prop)
    ref = sm.AB_matrices(om, g, ctx.arr(e), ctx.arr(d), None, pol)
    N2 = energy(ctx, [ref[i, 0, 0] for i in range(n + 2)], [ref[i, 1, 0] for i in range(n + 2)], c, e, d, g, prop, pol)
    ctx.ge(ctx.np.real(co[0][0, 1, 0]), 0, 'positive scale')
    ctx.eq(co[0][0, 1, 0] ** 2 * N2, 1, 'scaled to unit energy', scale=1)
    for i in range(n + 2):
        for j in (0, 1):
            ctx.eq(co[0][i, j, 0], ref[i, j, 0] * co[0][0, 1, 0], 'same mode', scale=1)


CASES = [dict(name='norm-%d%s-%s' % (n, ''.join(map(str, ev)), pol), fn=h_norm, args=dict(n=n, ev=ev, pol=pol, given=n != 2))
         for pol in ('TE', 'TM') for n, ev in ((1, ()), (2, ()), (2, (1,)), (3, (2,)), (3, ()))]
CASES += [dict(name='mode-%d-%s' % (n, pol), fn=h_mode, args=dict(n=n, pol=pol)) for pol in ('TE', 'TM') for n in (1,)]
CASES += [dict(name='mode-1-%s' % pol.lower(), fn=h_mode, args=dict(n=1, pol=pol, name=pol.lower())) for pol in ('TE', 'TM')]
