"""C12: a ray meets the first facet in its path, at the true point and incidence angle."""
from .util import *

RT = "rayflare.ray_tracing.rt"
DIRS = [(0, 0, -1, 1), (3, 0, -4, 5), (-2, 1, -2, 3), (12, -15, -16, 25), (0, 12, 5, 13), (1, 2, 2, 3), (-6, -2, -3, 7), (0, 0, 1, 1), (4, 4, -7, 9), (-8, 1, -4, 9)]
ASSUMPTIONS = ["ray directions from ten rational unit vectors (steep, shallow, upward and downward) or, on a planar cell, any polar angle up to 89 degrees in four azimuthal planes; ray origins anywhere in a box around the cell",
               "cells: regular pyramids, V-grooves, planar, hip-roof of two unequal facet pairs, with concrete or symbolic ridge/apex heights; at most 8 facets",
               "intersection points at least 1e-5 away (in the units of the cell) from facet edges and ray origins at least 1e-6 away from facets: on an edge either neighbour is right"]
ASSUMPTIONS.append("rays aimed exactly at an edge (edge-*): exact arithmetic; which of two neighbours rounding selects, or that it misses both by an ulp, is outside")


def instances(tier):
    out = []
    q = tier == "quick"
    for name in CELLS:
        out.append(dict(name="cell-" + name, fn=hit, params=dict(cell=name, dirs=list(range(6 if q else len(DIRS)))), cost=3, max_s=250, bounds="cell %s, %d directions, all ray origins in the box" % (name, 6 if q else len(DIRS))))
    for name in ("pyramid", "groove"):
        out.append(dict(name="height-" + name, fn=hit, params=dict(cell=name, dirs=[0, 1, 4, 5] if q else list(range(len(DIRS))), symh=True), cost=4, max_s=280, bounds="cell %s with any height in [0.25, 2], rays from 9 origins" % name))
    out.append(dict(name="direction-planar", fn=hit, params=dict(cell="planar", dirs=None), cost=3, max_s=250, bounds="planar cell, symbolic polar angle, all ray origins"))
    for name in CELLS:
        out.append(dict(name="edge-" + name, fn=edge, params=dict(cell=name, dirs=list(range(6 if q else len(DIRS)))), cost=2, max_s=200, bounds="cell %s, rays aimed at any point of any edge between two facets, %d directions" % (name, 6 if q else len(DIRS))))
    return out


def edge(c, cell, dirs):
    """a ray aimed exactly at an edge between two facets is not lost: it meets that point, or a facet in front of it"""
    f = fn(c, RT, "check_intersect")
    P = pts(c, cell, 0.75)
    tri = surface(c, P)
    simp = [[int(x) for x in t] for t in np.asarray(tri.simplices)]
    pairs = {}
    for j, t in enumerate(simp):
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])): pairs.setdefault((min(a, b), max(a, b)), []).append(j)
    inner = sorted(k for k, v in pairs.items() if len(v) == 2)
    a, b = inner[c.pick("edge", len(inner))]
    x, y, z, q = DIRS[dirs[c.pick("direction", len(dirs))]]
    d = [rat(c, x, q), rat(c, y, q), rat(c, z, q)] if q > 1 else [float(x), float(y), float(z)]
    for j in pairs[a, b]:  # neither neighbour seen edge-on
        A, B, E = [P[i] for i in simp[j]]
        n = np.cross(np.array(B, dtype=float) - np.array(A, dtype=float), np.array(E, dtype=float) - np.array(A, dtype=float))
        if abs(float(n @ np.array([x, y, z], dtype=float))) < 1e-3: c.skip("facet seen edge-on")
    s, L = c.real("along", 0.0625, 0.9375), c.real("distance", 0.25, 3.0)
    p = [P[a][k] * (1 - s) + P[b][k] * s for k in range(3)]
    r = [p[k] - L * d[k] for k in range(3)]
    res = f(*((soft(c, r), soft(c, d)) if c.symbolic else (vec(c, r), vec(c, d))), tri)
    c.true("a ray at an edge meets the surface", res is not False)
    if res is False: return
    c.ge("not beyond the edge", L, total((res[0][k] - r[k]) * d[k] for k in range(3)), 1e-6)


def pts(c, cell, h):
    if cell == "planar": return [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)]
    if cell == "pyramid": return [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0.5, 0.5, h)]
    if cell == "pit": return [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0.5, 0.5, -h)]
    if cell == "groove": return [(0, 0, 0), (0, 1, 0), (0.5, 0, h), (0.5, 1, h), (1, 0, 0), (1, 1, 0)]
    return [(0, 0, 0), (0, 1, 0), (0.25, 0, h), (0.25, 1, h), (1, 0, 0), (1, 1, 0)]


CELLS = ["planar", "pyramid", "pit", "groove", "hip"]


def surface(c, P):
    """RTSurface over symbolic heights: only the triangulation (over x and y, concrete) is computed numerically"""
    cls = fn(c, RT, "RTSurface")
    import rayflare.ray_tracing.rt as rt
    A = np.empty((len(P), 3), dtype=object if c.symbolic else float)
    for i, p in enumerate(P):
        for k in range(3): A[i, k] = p[k] if core.is_sym(p[k]) else np.float64(p[k])
    if c.symbolic:
        from symx import npshim
        from scipy.spatial import Delaunay
        c.patch(rt, "Delaunay", lambda q, **k: Delaunay(np.array([[float(x) for x in r] for r in q])))
        A = npshim.wrap(A)
    kw = dict(coverage_height=0.0) if c.symbolic else {}
    return soft_surface(c, cls(Points=A, **kw))


def apart(c, x, gap):
    """|x| at least gap (a little less when replaying, so that rounding does not matter)"""
    g = gap if c.symbolic else gap / 2
    c.assume(either(c, x >= g, x <= -g))


def vec(c, xs): return np.array(xs, dtype=object if c.symbolic else float)


def hit(c, cell, dirs, symh=False):
    f = fn(c, RT, "check_intersect")
    h = c.real("h", 0.25, 2.0) if symh else 0.75
    P = pts(c, cell, h)
    tri = surface(c, P)
    if dirs is None:
        a = c.angle("theta", 0.0, 89 * PI / 180)
        ux, uy, q = [(1, 0, 1), (3, 4, 5), (0, -1, 1), (-5, 12, 13)][c.pick("azimuth", 4)]
        up = 1 if c.flag("up") else -1
        s, co = (core.sin_(a), core.cos_(a)) if c.symbolic else (math.sin(a), math.cos(a))
        d = [rat(c, ux, q) * s, rat(c, uy, q) * s, co * up]
    else:
        x, y, z, q = DIRS[dirs[c.pick("direction", len(dirs))]]
        d = [rat(c, x, q), rat(c, y, q), rat(c, z, q)] if q > 1 else [float(x), float(y), float(z)]
    if symh: r = [[0.125, 0.3125, 0.8125][c.pick("x", 3)], 0.375, [-0.5, 0.5, 3.0][c.pick("z", 3)]]
    else: r = [c.real("x", -1.0, 2.0), c.real("y", -1.0, 2.0), c.real("z", -3.0, 3.0)]
    # reference: every facet of the cell by its corner points, containment in the projection on the cell's plane
    simp = np.asarray(tri.simplices)
    hits = []
    for s3 in simp:
        a, b, e = [P[i] for i in s3]
        u = [b[k] - a[k] for k in range(3)]
        v = [e[k] - a[k] for k in range(3)]
        n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        nd = total(n[k] * d[k] for k in range(3))
        if not core.is_sym(nd) and abs(nd) < 1e-12: continue
        if core.is_sym(nd):
            apart(c, nd, 1e-4)
        t = total(n[k] * (a[k] - r[k]) for k in range(3)) / nd
        p = [r[k] + t * d[k] for k in range(3)]
        area = u[0] * v[1] - u[1] * v[0]
        w = [((c2[0] - b2[0]) * (p[1] - b2[1]) - (c2[1] - b2[1]) * (p[0] - b2[0])) / area for b2, c2 in ((a, b), (b, e), (e, a))]
        inside = True
        for x in w: apart(c, x, 1e-5)
        apart(c, t, 1e-6)
        for x in w:
            if not bool(x > 0): inside = False; break
        if inside and bool(t > 0): hits.append((t, p, n))
    res = f(*((soft(c, r), soft(c, d)) if c.symbolic else (vec(c, r), vec(c, d))), tri)
    if not hits:
        c.true("no facet in front: no hit", res is False)
        return
    c.true("a facet in front: hit", res is not False)
    if res is False: return
    best = hits[0]
    for k in hits[1:]:
        apart(c, k[0] - best[0], 1e-6)
        if bool(k[0] < best[0]): best = k
    t, p, n = best
    for k in range(3): c.eq("point of the nearest facet", res[0][k], p[k], 1e-6)
    nn = total(x * x for x in n)
    N = res[2]
    c.eq("unit normal", total(N[k] * N[k] for k in range(3)), 1.0, 1e-6)
    for i, j in ((0, 1), (1, 2), (2, 0)): c.eq("normal of the facet", N[i] * n[j], N[j] * n[i], 1e-6)
    th = abs(res[1])
    ct = core.cos_(th) if c.symbolic else math.cos(th)
    nd = total(n[k] * d[k] for k in range(3))
    c.ge("local angle below 90 degrees", ct, 0.0, 1e-9)
    c.eq("local angle of incidence", ct * ct * nn, nd * nd, 1e-6)


def soft(c, xs):
    from symx import npshim
    return npshim.wrap(np.array(xs, dtype=object))
