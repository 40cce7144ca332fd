"""C05 rotating polygons"""
from .poly import shoelace, centroid

BOUNDS = 'triangles with arbitrary vertices, squares and hexagons with arbitrary centre/size, arbitrary rotation angle in (-7,7)'
OUTSIDE = 'polygons with more vertices'
STUBS = 'none'


def h_rot(ctx, kind='tri'):
    np, lg = ctx.np, ctx.lg
    th = ctx.real('theta', -7, 7)
    ctx.angle_base(th)
    if kind == 'tri':
        vx = ctx.reals('x0 x1 x2', -2, 2)
        vy = ctx.reals('y0 y1 y2', -2, 2)
        ctx.assume(shoelace(vx, vy) > 0.01)
        s = lg.Poly(eps=5., x_edges=vx, y_edges=vy)
        cx, cy = (vx[0] + vx[1] + vx[2]) / 3, (vy[0] + vy[1] + vy[2]) / 3
    else:
        cx, cy = ctx.reals('xc yc', -2, 2)
        a = ctx.real('a', 0.1, 2)
        s = (lg.Square if kind == 'square' else lg.Hexagon)(eps=5., x_cent=cx, y_cent=cy, a=a)
        n0 = 4 if kind == 'square' else 6
        vx, vy = list(s.x_edges)[:n0], list(s.y_edges)[:n0]
    n = len(vx)
    area = s.area
    r = s.rotate(th)
    ctx.same(r is s, True, 'rotate returns the shape')
    c, sn = np.cos(th), np.sin(th)
    for j in range(n):
        dx, dy = vx[j] - cx, vy[j] - cy
        ctx.eq(s.x_edges[j], cx + c * dx - sn * dy, 'vertex x', scale=1)
        ctx.eq(s.y_edges[j], cy + sn * dx + c * dy, 'vertex y', scale=1)
    ctx.eq(s.x_edges[n], s.x_edges[0], 'still closed')
    ctx.eq(s.y_edges[n], s.y_edges[0], 'still closed')
    ctx.eq(s.compute_ft(np.array([[0.], [0.]]))[0], area, 'area preserved')


def h_back(ctx):
    """rotating back restores the polygon"""
    th = ctx.real('theta', -7, 7)
    ctx.angle_base(th)
    vx = ctx.reals('x0 x1 x2', -2, 2)
    vy = ctx.reals('y0 y1 y2', -2, 2)
    ctx.assume(shoelace(vx, vy) > 0.01)
    s = ctx.lg.Poly(eps=5., x_edges=vx, y_edges=vy)
    s.rotate(th).rotate(-th)
    ctx.eq(s.x_edges[:3], ctx.arr(vx), 'rotate(t) then rotate(-t)', scale=1)
    ctx.eq(s.y_edges[:3], ctx.arr(vy), 'rotate(t) then rotate(-t)', scale=1)


CASES = [dict(name=k, fn=h_rot, args=dict(kind=k)) for k in ('tri', 'square', 'hexagon')]
CASES += [dict(name='round-trip', fn=h_back)]
