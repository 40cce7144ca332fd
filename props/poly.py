"""shared polygon oracles"""


def poly_ft(ctx, vx, vy, gx, gy):
    """integral of exp(-i G.r) over a polygon (vertices in order), from the divergence theorem"""
    np = ctx.np
    g2 = gx * gx + gy * gy
    n = len(vx)
    ph = [np.exp(-1j * (gx * vx[j] + gy * vy[j])) for j in range(n)]
    tot = 0
    for j in range(n):
        k = (j + 1) % n
        dx, dy = vx[k] - vx[j], vy[k] - vy[j]
        u = gx * dx + gy * dy
        # i/|G|^2 * (G x e) * mean of exp(-iG.r) over the edge
        tot = tot + 1j / g2 * (gx * dy - gy * dx) * (ph[j] - ph[k]) / (1j * u)
    return tot


def shoelace(vx, vy):
    n = len(vx)
    a = 0
    for j in range(n):
        k = (j + 1) % n
        a = a + vx[j] * vy[k] - vx[k] * vy[j]
    return a / 2


def centroid(vx, vy):
    n = len(vx)
    a = shoelace(vx, vy)
    cx = cy = 0
    for j in range(n):
        k = (j + 1) % n
        w = vx[j] * vy[k] - vx[k] * vy[j]
        cx = cx + (vx[j] + vx[k]) * w
        cy = cy + (vy[j] + vy[k]) * w
    return cx / (6 * a), cy / (6 * a)
