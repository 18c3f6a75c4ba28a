"""C25: texture generators build closed periodic surfaces with the requested geometry."""
from .util import *
from .c26 import consistent

RT = "rayflare.ray_tracing.rt"
TX = "rayflare.textures"
ASSUMPTIONS = ["the triangulation is computed numerically over the positions in the plane: cell sizes are symbolic for regular pyramids, V-grooves and planar surfaces (a scaled copy has the same triangulation), elsewhere positions are concrete and heights symbolic",
               "rough surfaces on random positions: three sets of positions; every noise draw is an arbitrary value in [0, 1)",
               "hemispherical caps that fit in the unit cell, radius and offset from a list, stretch and noise symbolic; hyperhemispheres (open surfaces from a numerical convex hull) are outside"]
TABLE = [[(0.31, 0.62), (0.71, 0.44), (0.52, 0.18), (0.12, 0.35), (0.83, 0.9), (0.4, 0.77)],
         [(0.05, 0.51), (0.93, 0.07), (0.27, 0.98), (0.64, 0.66), (0.48, 0.03), (0.9, 0.55)],
         [(0.5, 0.25), (0.75, 0.5), (0.5, 0.75), (0.25, 0.5), (0.5, 0.5), (0.25, 0.25)]]


def instances(tier):
    out = []
    q = tier == "quick"
    for up in (True, False):
        out.append(dict(name="pyramid-%s" % ("upright" if up else "inverted"), fn=pyramid, params=dict(up=up, dist=False), max_s=120, bounds="elevation 1..88 degrees, size 0.1..20"))
        out.append(dict(name="pyramid-%s-drawn" % ("upright" if up else "inverted"), fn=pyramid, params=dict(up=up, dist=True), max_s=120, bounds="height distribution with two symbolic heights, size 0.1..20"))
    for d in ("x", "y"):
        out.append(dict(name="grooves-%s-unit" % d, fn=grooves, params=dict(direction=d, unit=True), max_s=120, bounds="elevation 1..88 degrees, width 1"))
        out.append(dict(name="grooves-%s-width" % d, fn=grooves, params=dict(direction=d, unit=False), max_s=120, bounds="elevation 1..88 degrees, width 0.1..20"))
    out.append(dict(name="planar", fn=planar, params={}, max_s=60, bounds="size 0.1..20"))
    for regular, nps in ((True, (4, 9, 7) if q else (4, 5, 9, 14, 16, 25)), (False, (5, 8) if q else (5, 6, 8, 10))):
        for n in nps:
            b = "%d points, %s positions, noise angle 0..80 degrees, every noise draw" % (n, "grid" if regular else "random (3 sets)")
            for up in (True, False):
                out.append(dict(name="rough-pyramid-%s-%d-%s" % ("grid" if regular else "random", n, "up" if up else "down"), fn=rough, params=dict(n=n, regular=regular, up=up, flat=False), cost=2, max_s=150, bounds=b + ", elevation 1..88 degrees"))
            out.append(dict(name="rough-planar-%s-%d" % ("grid" if regular else "random", n), fn=rough, params=dict(n=n, regular=regular, up=True, flat=True), cost=2, max_s=150, bounds=b))
    caps = [(5, 0.375, 0.125, False), (4, 0.5, 0.0, False), (5, 0.75, 0.625, False), (4, 0.2, 0.05, True)]
    if not q: caps += [(6, 0.45, 0.2, False), (7, 0.3, 0.0, False), (5, 0.375, 0.125, True), (5, 0.3, 0.0, True)]
    for ns, R, off, noise in caps:
        out.append(dict(name="cap-%d-%s-%s-%s" % (ns, R, off, "rough" if noise else "smooth"), fn=cap, params=dict(ns=ns, R=R, off=off, noise=noise), cost=2, max_s=150 if q else 600, bounds="%d points per side, radius %s, offset %s, stretch 0.1..3%s" % (ns, R, off, ", two noise angles, every noise draw" if noise else "")))
    for cov in (False, True):
        out.append(dict(name="xyz%s" % ("-coverage" if cov else ""), fn=xyz, params=dict(cov=cov), max_s=100, bounds="7 points, heights symbolic"))
    for ny, nx in ((2, 3), (3, 2), (3, 3), (2, 2)) if q else ((2, 3), (3, 2), (3, 3), (2, 2), (4, 2), (3, 4)):
        out.append(dict(name="map-%dx%d" % (ny, nx), fn=heights, params=dict(ny=ny, nx=nx), cost=2, max_s=120, bounds="%d x %d heights, all symbolic; 3 pairs of widths" % (ny, nx)))
    return out


def prepare(c, scale=None):
    """triangulate numerically; a symbolic scale of the cell is set to 1 for that"""
    import rayflare.ray_tracing.rt as rt
    if not c.symbolic: return
    extremes(c, rt)
    from scipy.spatial import Delaunay
    z3 = core.z3

    def num(v):
        if not core.is_sym(v): return float(v)
        e = z3.simplify(z3.substitute(v.e, (scale.e, z3.RealVal(1)))) if scale is not None else v.e
        if not z3.is_rational_value(e): raise core.Unsupported("positions in the plane depend on symbolic values")
        return float(e.as_fraction())
    c.patch(rt, "Delaunay", lambda q, **k: Delaunay(np.array([[num(x) for x in r] for r in np.asarray(q, dtype=object)])))


def extremes(c, rt):
    """min and max of a column without deciding which entry it is"""
    import builtins, functools

    def mk(name, two):
        def f(*a, **k):
            v = list(a[0]) if len(a) == 1 else list(a)
            if k or not any(core.is_sym(x) for x in v): return getattr(builtins, name)(*a, **k)
            return functools.reduce(two, v)
        return f
    c.patch(rt, "min", mk("min", core.min_))
    c.patch(rt, "max", mk("max", core.max_))


def edges_match(c, xy, z, cell, what):
    """the height along one edge of the cell equals the height along the opposite edge (xy in units of the cell, concrete)"""
    for k in (0, 1):
        lines = []
        for v in (0.0, cell[k]):
            lines.append(sorted([(xy[i][1 - k], i) for i in range(len(xy)) if abs(xy[i][k] - v) < 1e-9]))
        for a, b in (lines, lines[::-1]):
            c.true(what + ": both ends of the edge are corners", len(a) >= 2 and len(b) >= 2 and abs(a[0][0]) < 1e-9 and abs(a[-1][0] - cell[1 - k]) < 1e-9)
            for p, i in a:
                for (p0, i0), (p1, i1) in zip(b[:-1], b[1:]):
                    if p0 - 1e-9 <= p <= p1 + 1e-9 and p1 > p0:
                        t = (p - p0) / (p1 - p0)
                        c.eq(what + ": opposite edges meet", z[i], z[i0] * (1 - t) + z[i1] * t, 1e-7)
                        break


def pts(s): 
    P = np.asarray(s.Points, dtype=object)
    return [(P[i, 0], P[i, 1]) for i in range(len(P))], [P[i, 2] for i in range(len(P))]


def unit(c, v, scale):
    if core.is_sym(v):
        e = core.z3.simplify(core.z3.substitute(v.e, (scale.e, core.z3.RealVal(1))))
        return float(e.as_fraction())
    if scale is None: return float(v)
    return float(v) if core.is_sym(scale) else float(v) / float(scale)


def both_sides(c, pair, cell, scale=None, cov=0.0, closed=True, slope=None):
    """checks which hold for every texture; returns the positions (in units of scale) and heights of the front surface"""
    c.true("two surfaces", len(pair) == 2)
    pos = []
    for side, s in enumerate(pair):
        soft_surface(c, s)
        xy, z = pts(s)
        what = ("front", "rear")[side]
        consistent(c, s, xy, z, cov if side == 0 else -cov, what, cell=cell)
        if slope is not None:
            for f in range(s.size): c.eq(what + ": facet angle", np.asarray(s.N, dtype=object)[f, 2], slope, 1e-6)
        u = [(unit(c, a, scale), unit(c, b, scale)) for a, b in xy]
        W = [unit(c, v, scale) for v in cell]
        if closed: edges_match(c, u, z, W, what)
        pos.append((u, z))
    (u, z), (v, w) = pos
    c.true("front and rear have the same points", len(u) == len(v))
    for (a, b), h in zip(u, z):
        near = [k for k in range(len(v)) if abs(v[k][0] - a) < 1e-9 and abs(v[k][1] - b) < 1e-9]
        c.true("front and rear points coincide", len(near) > 0)
        if near: c.true("rear heights are the front's, upside down", either(c, *[both(c, w[k] + h <= 1e-7, w[k] + h >= -1e-7) for k in near]))
    return u, z


def elevation(c):
    a = c.angle("elevation", math.radians(1), math.radians(88))
    if c.symbolic: c.assume(core.cos_(a) > 0.03); c.assume(core.sin_(a) > 0.017)
    return a, a * (180 / PI)


def cosine(c, a): return core.cos_(a) if c.symbolic else math.cos(a)
def tangent(c, a): return core.sin_(a) / core.cos_(a) if c.symbolic else math.tan(a)


def size_(c):
    s = c.real("size", 0.1, 20.0)
    prepare(c, s)
    return s


def at(c, u, z, x, y):
    k = [i for i in range(len(u)) if abs(u[i][0] - x) < 1e-9 and abs(u[i][1] - y) < 1e-9]
    c.true("a point at (%g, %g) of the cell" % (x, y), len(k) > 0)
    return z[k[0]] if k else 0.0


def pyramid(c, up, dist):
    f = fn(c, TX, "regular_pyramids")
    s = size_(c)
    a, deg = elevation(c)
    kw, slope = {}, cosine(c, a)
    h = s * tangent(c, a) / 2
    if dist:
        hs = [c.real("h%d" % i, 0.05, 10.0) for i in range(2)]
        drawn = []
        import rayflare.textures.standard_rt_textures as st

        def choice(v, size=None, replace=True, p=None):
            drawn.append(list(v)[c.pick("draw", 2)])
            return drawn[-1]
        c.patch(st.np.random, "choice", choice)
        kw, slope = {"height_distribution": {"h": hs, "p": [0.5, 0.5]}}, None
    pair = f(elevation_angle=deg, upright=up, size=s, **kw)
    if dist:
        if len(drawn) != 1: c.skip("heights are drawn in some other way")
        h = drawn[0]
        c.true("the surface keeps its distribution", pair[0].distribution is kw["height_distribution"])
    u, z = both_sides(c, pair, (s, s), s, slope=slope)
    c.true("five points", len(u) == 5)
    for x, y in ((0, 0), (0, 1), (1, 0), (1, 1)): c.eq("base height", at(c, u, z, x, y), 0.0, 1e-9)
    c.eq("apex height", at(c, u, z, 0.5, 0.5), h if up else -h, 1e-6)


def grooves(c, direction, unit):
    f = fn(c, TX, "V_grooves")
    if unit:
        s = 1.0
        prepare(c)
    else: s = size_(c)
    a, deg = elevation(c)
    h = s * tangent(c, a) / 2
    pair = f(elevation_angle=deg, width=s, direction=direction)
    soft_surface(c, pair)
    k = 0 if direction == "y" else 1
    for side, sg in ((0, 1), (1, -1)):
        xy, z = pts(pair[side])
        ends = [i for i in range(len(xy)) if not bool(both(c, z[i] <= 1e-9, z[i] >= -1e-9))]
        c.true("two ridge points", len(ends) == 2 and len(xy) == 6)
        corners = []
        for i, p in enumerate(xy):
            if i in ends:
                c.eq("ridge height", z[i], h * sg, 1e-6)
                c.eq("ridge in the middle", p[k], s * 0.5, 1e-9)
            else: corners.append(tuple(0 if bool(v <= 1e-9) else 1 for v in p)); [c.eq("corner of the cell", v, s if q else 0.0, 1e-9) for v, q in zip(p, corners[-1])]
        c.true("four corners", len(set(corners)) == 4)
        lo, hi = [xy[i][1 - k] for i in ends]
        if bool(lo > hi): lo, hi = hi, lo
        c.eq("ridge starts at the edge of the cell", lo, 0.0, 1e-9)
        if not unit: c.true("ridge ends at the opposite edge of the cell, or at 1", either(c, both(c, hi - s <= 1e-9, s - hi <= 1e-9), hi == 1.0))
        c.eq("ridge ends at the opposite edge of the cell", hi, s, 1e-9)
        if not unit: c.eq("coverage height", pair[side].zcov, 0.0, 1e-9)
    if unit: both_sides(c, pair, (s, s), None, slope=cosine(c, a))


def planar(c):
    f = fn(c, TX, "planar_surface")
    s = size_(c)
    pair = f(size=s)
    u, z = both_sides(c, pair, (s, s), s, slope=1.0)
    for v in z: c.eq("planar", v, 0.0, 1e-12)


class Draws:
    """every draw of positions (two- or three-column arrays) comes from a table, every other draw is arbitrary"""
    def __init__(self, c, mod, table):
        self.drawn = []
        r = mod.np.random
        arr = r._arr

        def _arr(shape, lo=0.0, hi=1.0):
            if table is not None and isinstance(shape, (tuple, list)) and len(shape) == 2 and shape[1] in (2, 3):
                o = np.zeros(shape)
                for i in range(shape[0]):
                    o[i, :2] = table[i]
                    if shape[1] == 3: o[i, 2] = 0.5
                o = lo + (hi - lo) * o
                if c.symbolic:
                    from symx import npshim
                    return npshim.wrap(npshim.obj(o))
                return o
            v = arr(shape, lo, hi)
            self.drawn += flist(v)
            return v
        c.patch(r, "_arr", _arr)


def rough(c, n, regular, up, flat):
    f = fn(c, TX, "rough_planar_surface" if flat else "rough_pyramids")
    import rayflare.textures.standard_rt_textures as st
    prepare(c)
    which = c.pick("size and positions", 3)
    size = (1.0, 2.5, 0.75)[which]
    table = TABLE[which] if not regular else None
    draws = Draws(c, st, table)
    na = c.angle("noise_angle", 0.0, math.radians(80))
    if c.symbolic: c.assume(core.cos_(na) > 0.17)
    noise = tangent(c, na)
    kw = dict(size=size, noise_angle=na, n_points=n, regular_grid=regular)
    if not flat:
        a, deg = elevation(c)
        kw.update(elevation_angle=deg, upright=up)
    pair = f(**kw)
    u, z = both_sides(c, pair, (size, size))
    if regular:
        m = int(math.ceil(math.sqrt(n) - 1e-12))
        c.true("number of points", len(u) == m * m)
        step = size / (m - 1)
        for i in range(m):
            for j in range(m): at(c, u, z, i * step, j * step)
    else:
        c.true("number of points", len(u) == n)
        step = size / math.sqrt(n)
        for x, y in table[:n - 4]: at(c, u, z, x * size, y * size)
        for x in (0, size):
            for y in (0, size): at(c, u, z, x, y)
    sg = 1 if up else -1
    for (x, y), h in zip(u, z):
        d = min(x, y, size - x, size - y)
        if d < 1e-12: c.eq("edge of the cell at zero height", h, 0.0, 1e-12); continue
        base = 0.0 if flat else tangent(c, a) * d
        c.ge("roughness raises a point above the smooth texture", h * sg - base, 0.0, 1e-7)
        c.le("roughness limited by the noise angle", h * sg - base, noise * step, 1e-6)
        d = [h * sg - base - noise * step * v for v in draws.drawn]
        c.true("roughness is a draw from the whole range the noise angle allows", not d or either(c, *[both(c, v <= 1e-6, v >= -1e-6) for v in d]))


def cap(c, ns, R, off, noise):
    f = fn(c, TX, "hemisphere_surface")
    prepare(c)
    up, sc, na = [(True, 1.0, 0.6), (False, 2.0, 0.05)][c.pick("variant", 2)]
    st = c.real("stretch", 0.1, 3.0)
    kw = {}
    lim = 0.0
    if noise:
        kw["noise_angle"] = na
        lim = math.tan(na) * (sc / (ns - 1))
    pair = f(size=sc, n_per_side=ns, radius=R * sc, offset=off * sc, stretch=st, upright=bool(up), **kw)
    u, z = both_sides(c, pair, (sc, sc))
    sg = 1 if up else -1
    r0 = math.sqrt(R * R - off * off) * sc
    inside = 0
    for (x, y), h in zip(u, z):
        r = math.hypot(x - sc / 2, y - sc / 2)
        if r < r0 - 1e-9:
            c.eq("height of the cap", h * sg, st * (math.sqrt(max(0.0, (R * sc) ** 2 - r * r)) - off * sc), 1e-6)
            inside += 1
        elif min(x, y, sc - x, sc - y) < 1e-9: c.eq("edge of the cell at zero height", h, 0.0, 1e-9)
        else:
            c.ge("not below the plane", h * sg, 0.0, 1e-9)
            c.le("roughness limited by the noise angle", h * sg, lim, 1e-6)
    grid = [(i * sc / (ns - 1), j * sc / (ns - 1)) for i in range(ns) for j in range(ns)]
    c.true("every grid point under the cap is used", inside == sum(math.hypot(x - sc / 2, y - sc / 2) < r0 - 1e-9 for x, y in grid))
    for x, y in grid:
        if min(x, y, sc - x, sc - y) < 1e-9 or noise: at(c, u, z, x, y)
    if not noise:
        # a ring of points where the cap meets the plane
        ring = [(x, y) for x, y in u if abs(math.hypot(x - sc / 2, y - sc / 2) - r0) < 1e-6 * sc]
        c.true("a ring of points closes the cap", len(ring) >= 2 * ns)
        an = sorted(math.atan2(y - sc / 2, x - sc / 2) for x, y in ring)
        c.true("the ring is closed", max([b - a for a, b in zip(an[:-1], an[1:])] + [an[0] + 2 * PI - an[-1]]) < PI / 4)


def arr(c, v):
    o = np.empty(np.shape(v), dtype=object if c.symbolic else float)
    for ix in np.ndindex(*o.shape):
        e = v
        for i in ix: e = e[i]
        o[ix] = e if core.is_sym(e) else np.float64(e)
    return npwrap(o)


def xyz(c, cov):
    f = fn(c, TX, "xyz_texture")
    prepare(c)
    XY = [(0, 0), (2, 0), (0, 1), (2, 1), (0.5, 0.25), (1.25, 0.75), (1.0, 0.5)]
    e = c.real("edge", -2.0, 2.0)
    z = [e] * 4 + [c.real("z%d" % i, -3.0 + 2 * i, -1.0 + 2 * i) for i in range(3)]
    kw = {}
    h = e
    if cov: h = kw["coverage_height"] = c.real("coverage", -5.0, 5.0)
    pair = f(np.array([p[0] for p in XY]), np.array([p[1] for p in XY]), arr(c, z), **kw)
    u, w = both_sides(c, pair, (2.0, 1.0), cov=h)
    for i, (x, y) in enumerate(XY): c.eq("height at its own position", at(c, u, w, x, y), z[i], 1e-9)
    if cov: c.true("the caller's options are not changed", kw["coverage_height"] is h)


def heights(c, ny, nx):
    f = fn(c, TX, "heights_texture")
    prepare(c)
    W, H = [(1.0, 1.0), (3.0, 0.5), (0.4, 2.0)][c.pick("widths", 3)]
    # only the corner heights' order matters to the code; every height is symbolic
    z = [[c.real("z%d_%d" % (i, j), -5.0 + 0.5 * (i * nx + j), -4.5 + 0.5 * (i * nx + j)) for j in range(nx)] for i in range(ny)]
    if c.flag("flipped"): z = z[::-1]
    pair = f(arr(c, z), W, H)
    u, w = both_sides(c, pair, (W, H), cov=z[0][0], closed=False)
    c.true("number of points", len(u) == nx * ny)
    for i in range(ny):
        for j in range(nx): c.eq("height at its own x and y position", at(c, u, w, W * j / (nx - 1), H * i / (ny - 1)), z[i][j], 1e-9)
