"""C29 GDS export"""
import types
BOUNDS = 'crystals of one to three layers with up to three shapes each (circle, square, hexagon, polygon) of arbitrary position and size; rasters of any contours (up to three contours of up to three arbitrary points), any lattice, one to three levels'
OUTSIDE = 'the file format (gdspy) and contour tracing (scikit-image)'
STUBS = 'gdspy: what is written is recorded; skimage.measure.find_contours: arbitrary contours per level'


def recorder(ctx):
    """stand-in for gdspy which records what a file would hold"""
    out = []

    class Lib:
        def __init__(self, *a, **k):
            self.cells = []

        def add(self, c, *a, **k):
            for x in (c if isinstance(c, (list, tuple)) else [c]):
                self.cells.append(x)

        def new_cell(self, name, *a, **k):
            c = Cell(name, True)
            self.cells.append(c)
            return c

        def write_gds(self, outfile, cells=None, *a, **k):
            write_gds(outfile, unit=k.get('unit', 1e-6), lib=self)

    class Cell:
        def __init__(self, name, exclude_from_current=False):
            self.name, self.els = name, []
            if not exclude_from_current:
                g.current_library.add(self)

        def add(self, e):
            for x in (e if isinstance(e, (list, tuple)) else [e]):
                self.els.append(x)
            return self

    class Polygon:
        def __init__(self, points, layer=0, datatype=0):
            self.kind, self.points, self.layer, self.datatype = 'polygon', [tuple(p) for p in points], layer, datatype

    class Round:
        def __init__(self, center, radius, inner_radius=0, initial_angle=0, final_angle=0, tolerance=0.01, number_of_points=None, max_points=199, layer=0, datatype=0):
            self.kind, self.center, self.radius, self.layer, self.datatype, self.tolerance = 'round', tuple(center), radius, layer, datatype, tolerance
            self.part = (inner_radius, initial_angle, final_angle, number_of_points)

    def write_gds(outfile, cells=None, name='library', unit=1e-6, precision=1e-9, timestamp=None, binary_cells=None, lib=None):
        cs = (lib or g.current_library).cells
        out.append((outfile, unit, [(c.name, list(c.els)) for c in cs]))
    g = types.SimpleNamespace(GdsLibrary=Lib, Cell=Cell, Polygon=Polygon, Round=Round, write_gds=write_gds, current_library=Lib())
    m = ctx.mod('legume.gds')
    ctx.patch(m, 'gdspy', g)
    return m, out


def same_poly(ctx, pts, want, label):
    pts = list(pts)
    if len(pts) == len(want) + 1:
        # closing point repeated
        ctx.eq(list(pts[-1]), list(pts[0]), label + ': closed')
        pts = pts[:-1]
    ctx.same(len(pts), len(want), label + ': number of points')
    ctx.eq([list(p) for p in pts], [list(p) for p in want], label)


def h_gds(ctx, layers, unit=None, tol=None):
    m, out = recorder(ctx)
    lg = ctx.lg
    ph = lg.PhotCryst(lg.Lattice('square'))
    want = []
    n = 0
    for i, kinds in enumerate(layers):
        ph.add_layer(d=0.25, eps_b=4.)
        for k in kinds:
            n += 1
            e = 4. if n == 2 else ctx.real('e%d' % n, 1, 6)   # also the permittivity of the background
            x, y, r = ctx.real('x%d' % n, -0.5, 0.5), ctx.real('y%d' % n, -0.5, 0.5), ctx.real('r%d' % n, 0.125, 0.25)
            if k == 'c':
                ph.add_shape(lg.Circle(eps=e, x_cent=x, y_cent=y, r=r), layer=i)
                want.append(('round', i, (x, y), r))
            elif k == 's':
                ph.add_shape(lg.Square(eps=e, x_cent=x, y_cent=y, a=r), layer=i)
                want.append(('polygon', i, [(x + a * r / 2, y + b * r / 2) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]))
            elif k == 'h':
                ph.add_shape(lg.Hexagon(eps=e, x_cent=x, y_cent=y, a=r), layer=i)
                h = ctx.np.sqrt(3.) / 2
                want.append(('polygon', i, [(x + a * r, y + b * r) for a, b in ((1, 0), (0.5, h), (-0.5, h), (-1, 0), (-0.5, -h), (0.5, -h))]))
            elif k == 'p':
                ph.add_shape(lg.Poly(eps=e, x_edges=[x, x + r, x + r, x - r], y_edges=[y, y, y + r, y + 2 * r]), layer=i)
                want.append(('polygon', i, [(x, y), (x + r, y), (x + r, y + r), (x - r, y + 2 * r)]))
    kw = {}
    if unit:
        kw['unit'] = unit
    if tol:
        kw['tolerance'] = tol
    for t in range(2):
        m.generate_gds(ph, 'file%d' % t, **kw)
        ctx.same(len(out), t + 1, 'one file per call')
        f, u, cells = out[t]
        ctx.same((f, u), ('file%d' % t, unit or 1e-6), 'file name and unit')
        ctx.same(len(cells), 1, 'one cell')
        els = cells[0][1]
        ctx.same([(e.kind, e.layer) for e in els], [(w[0], w[1]) for w in want], 'every shape once, in its layer')
        for e, w in zip(els, want):
            if w[0] == 'round':
                ctx.eq(list(e.center) + [e.radius], list(w[2]) + [w[3]], 'circle')
                ctx.same((e.part, e.tolerance), ((0, 0, 0, None), tol or 0.01), 'full circle with the tolerance asked for')
            else:
                same_poly(ctx, e.points, w[2], 'vertices')


def h_bad(ctx, kind):
    m, out = recorder(ctx)
    lg = ctx.lg
    ph = lg.PhotCryst(lg.Lattice('square'))
    ph.add_layer(d=0.25, eps_b=4.)
    r = ctx.real('r', 0.125, 0.25)
    ph.add_shape(lg.Square(eps=2., a=r))
    ph.add_shape(lg.Ellipse(eps=2., rx=r, ry=0.25) if kind == 'ellipse' else lg.FourierShape(eps=2., x_cent=0., y_cent=0., f_as=[0.25, 0.125], npts=8))
    ctx.raises((RuntimeError,), lambda: m.generate_gds(ph, 'f'), 'shapes which cannot be exported raise')
    ctx.same(len(out), 0, 'nothing written')


def h_raster(ctx, levels, bound=True, shape=(5, 9), lat=None, unit=None):
    np = ctx.np
    m, out = recorder(ctx)
    a1 = [ctx.real('a1x', 0.5, 1), ctx.real('a1y', -0.25, 0.25)]
    a2 = [ctx.real('a2x', -0.25, 0.25), ctx.real('a2y', 0.5, 1)]
    L = ctx.lg.Lattice(a1, a2)
    raster = np.zeros(shape)
    asked, want = [], []

    def find_contours(image, level=None, *a, **k):
        lv = float(level)
        ctx.true(image is raster or tuple(image.shape) == shape, 'the raster')
        asked.append(lv)
        cs = []
        for c in range(1 + len(asked) % 2):
            t = '%d_%d' % (len(asked), c)
            pts = [[ctx.real('p%s_%d' % (t, i), 0, shape[0] - 1), ctx.real('q%s_%d' % (t, i), 0, shape[1] - 1)] for i in range(3 - c)]
            want.append([tuple((p / (shape[0] - 1) - 0.5) * a1[d] + (q / (shape[1] - 1) - 0.5) * a2[d] for d in (0, 1)) for p, q in pts])
            cs.append(ctx.arr(pts))
        return cs
    ctx.patch(m, 'skimage', types.SimpleNamespace(measure=types.SimpleNamespace(find_contours=find_contours)))
    kw = {} if levels is None else dict(levels=levels)
    if unit:
        kw['unit'] = unit
    if not bound:
        kw['cell_bound'] = False
    m.generate_gds_raster(L, raster, 'f.gds', **kw)
    ctx.eq(asked, [0.5] if levels is None else list(levels), 'every level traced once')
    ctx.same(len(out), 1, 'one file')
    f, u, cells = out[0]
    ctx.same((f, u, len(cells)), ('f.gds', unit or 1e-6, 1), 'file name, unit, one cell')
    els = cells[0][1]
    tr = [e for e in els if e.datatype == 0]
    bo = [e for e in els if e.datatype != 0]
    ctx.same((len(tr), len(bo)), (len(want), 1 if bound else 0), 'contours and boundary')
    for e, w in zip(tr, want):
        same_poly(ctx, e.points, w, 'contour in the coordinates of the lattice')
    if bound:
        same_poly(ctx, bo[0].points, [tuple(s * a1[d] / 2 + t * a2[d] / 2 for d in (0, 1)) for s, t in ((-1, -1), (-1, 1), (1, 1), (1, -1))], 'boundary of the cell')


CASES = [
    dict(name='one_layer', fn=h_gds, args=dict(layers=['csp'])),
    dict(name='two_layers', fn=h_gds, args=dict(layers=['cc', 'hs'], unit=1e-9, tol=0.5)),
    dict(name='three_layers', fn=h_gds, args=dict(layers=['p', '', 'sc'], unit=2e-6)),
    dict(name='ellipse', fn=h_bad, args=dict(kind='ellipse')),
    dict(name='fourier', fn=h_bad, args=dict(kind='fourier')),
    dict(name='raster', fn=h_raster, args=dict(levels=None)),
    dict(name='raster_levels', fn=h_raster, args=dict(levels=[0.25, 0.75], unit=1e-9)),
    dict(name='raster_no_bound', fn=h_raster, args=dict(levels=[0.5], bound=False, shape=(9, 3))),
    dict(name='raster_three', fn=h_raster, args=dict(levels=(0.125, 0.5, 0.75), shape=(3, 3))),
]
