"""C26: placing, copying and re-randomising a surface keeps its geometry consistent."""
from .util import *

RT = "rayflare.ray_tracing.rt"
ASSUMPTIONS = ["positions of the points in the plane are concrete (the triangulation over them is computed numerically, it does not depend on heights); heights, depths, coverage heights, widths and drawn heights are symbolic",
               "surfaces with a height distribution have their corners at the coverage height and one highest point, like the pyramids the option is documented for; every listed height may be drawn (none has probability zero)"]

XY = {"pyramid": [(0, 0), (0.5, 0.5), (1, 0), (0, 1), (1, 1)],
      "groove": [(0, 0), (1, 0), (0, 1), (1, 1), (0.5, 0), (0.5, 1)],
      "rough": [(0, 0), (2, 0), (0, 1), (2, 1), (0.5, 0.25), (1.25, 0.75), (1.0, 0.5)]}


def instances(tier):
    out = []
    q = tier == "quick"
    for cell in XY:
        for k in (1, 2) if q else (1, 2, 3):
            out.append(dict(name="moves-%s-%d" % (cell, k), fn=moves, params=dict(cell=cell, k=k, cov=(k == 1)), cost=k, max_s=120 if q else 600,
                            bounds="%d points, any heights, any sequence of %d shifts and copies by any depth" % (len(XY[cell]), k)))
    for k in (1, 2, 3) if q else (1, 2, 3, 4):
        out.append(dict(name="redraw-%d" % k, fn=redraw, params=dict(k=k, mid=False), cost=k, max_s=120 if q else 800,
                        bounds="pyramid, heights and depths symbolic, any sequence of %d of {shift, redraw, copy}" % k))
    out.append(dict(name="redraw-mid-2", fn=redraw, params=dict(k=2, mid=True), cost=2, max_s=120, bounds="pyramid with a further point at half height, sequences of 2"))
    for nl in (1, 2) if q else (1, 2, 3):
        for hist in (False, True):
            out.append(dict(name="structure-%d%s" % (nl, "-redrawn" if hist else ""), fn=structure, params=dict(nl=nl, redrawn=hist), cost=2, max_s=120,
                            bounds="%d layers of any width, %d textured interfaces%s" % (nl, nl + 1, ", surfaces re-drawn after building" if hist else "")))
    for size in (1, 2.5):
        out.append(dict(name="integer-planar-%s" % size, fn=integer, params=dict(size=size), bounds="planar surface made by the library, 4 widths"))
    return out


def build(c, cell, z, **kw):
    cls = fn(c, RT, "RTSurface")
    import rayflare.ray_tracing.rt as rt
    xy = XY[cell]
    P = np.empty((len(xy), 3), dtype=object if c.symbolic else float)
    for i, (x, y) in enumerate(xy):
        P[i, 0], P[i, 1], P[i, 2] = np.float64(x), np.float64(y), (z[i] if core.is_sym(z[i]) else np.float64(z[i]))
    delaunay(c, rt)
    return soft_surface(c, cls(Points=npwrap(P), **kw))


def delaunay(c, rt):
    if not c.symbolic or getattr(c, "_dl", False): return
    from scipy.spatial import Delaunay
    c.patch(rt, "Delaunay", lambda q, **k: Delaunay(np.array([[float(x) for x in r] for r in q])))
    c._dl = True


def zs(s): return [x for x in np.asarray(s.Points, dtype=object)[:, 2]]


def consistent(c, s, xy, z, cov, what, normals=True, cell=None):
    """everything the surface stores agrees with the points it should have"""
    P = np.asarray(s.Points, dtype=object)
    c.true(what + ": number of points", P.shape == (len(xy), 3))
    for i in range(len(xy)):
        for k in (0, 1): c.eq(what + ": position in the plane", P[i, k], xy[i][k], 1e-9)
        c.eq(what + ": height", P[i, 2], z[i], 1e-7)
    simp = np.asarray(s.simplices, dtype=int)
    seen = 0.0
    for f, tri in enumerate(simp):
        pts = [(xy[t][0], xy[t][1], z[t]) for t in tri]
        for nm, ps in (("P_0s", pts[0]), ("P_1s", pts[1]), ("P_2s", pts[2])):
            got = np.asarray(getattr(s, nm), dtype=object)
            c.true(what + ": number of facets", got.shape == (len(simp), 3))
            for k in range(3): c.eq(what + ": facet corner", got[f, k], ps[k], 1e-7)
        u = [pts[1][k] - pts[0][k] for k in range(3)]
        v = [pts[2][k] - pts[0][k] for k in range(3)]
        n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        seen = seen + n[2] / 2
        cr = np.asarray(s.crossP, dtype=object)
        for k in range(3): c.eq(what + ": facet normal (cross product)", cr[f, k], n[k], 1e-7)
        if normals:
            N = np.asarray(s.N, dtype=object)
            rn = core.sqrt_(total(x * x for x in n))
            for k in range(3): c.eq(what + ": unit normal", N[f, k], n[k] / rn, 1e-7)
            c.true(what + ": facet faces up", n[2] > 0)
    W, H = cell or (max(x for x, _ in xy), max(y for _, y in xy))
    c.eq(what + ": facets cover the unit cell", seen, W * H, 1e-7)
    c.true(what + ": facets count", s.size == len(simp))
    c.eq(what + ": Lx", s.Lx, W, 1e-9)
    c.eq(what + ": Ly", s.Ly, H, 1e-9)
    for a, v in (("x_min", 0), ("y_min", 0), ("x_max", W), ("y_max", H)): c.eq(what + ": " + a, getattr(s, a), v, 1e-9)
    lo, hi = s.z_min, s.z_max
    for v in z:
        c.le(what + ": lowest point", lo, v, 1e-7)
        c.ge(what + ": highest point", hi, v, 1e-7)
    c.true(what + ": lowest height is a point's", either(c, *[both(c, lo - v <= 1e-6, v - lo <= 1e-6) for v in z]))
    c.true(what + ": highest height is a point's", either(c, *[both(c, hi - v <= 1e-6, v - hi <= 1e-6) for v in z]))
    c.eq(what + ": coverage height", s.zcov, cov, 1e-7)


def clone(c, s):
    from copy import deepcopy
    return soft_surface(c, deepcopy(s))


def moves(c, cell, k, cov):
    xy = XY[cell]
    n = len(xy)
    if k == 1 and cell != "rough":
        # all heights different; their order is fixed up to the last, which may lie anywhere
        z = [c.real("z%d" % i, -1.0 + 0.25 * i, -0.75 + 0.25 * i) for i in range(n - 1)] + [c.real("z%d" % (n - 1), -2.0, 2.0)]
    else:
        # a periodic cell: equal corners
        e = c.real("corner", -0.5, 0.5)
        a = c.real("apex", -1.0, 1.0)
        z = [a if cell == "pyramid" and i == 1 else e if cell == "pyramid" or i < 4 else a for i in range(n)]
        if cell == "rough": z[6] = c.real("pit", -3.0, -1.5)
    kw = {}
    if cov:
        h = c.real("coverage", -1.0, 1.0)
        kw["coverage_height"] = h
    else: h = z[0]
    s = build(c, cell, z, name="top", **kw)
    consistent(c, s, xy, z, h, "new")
    for i in range(k):
        op = c.pick("op%d" % i, 2)
        if op == 0:
            d = c.real("depth%d" % i, 0.0, 300.0)
            s.shift(d)
            z, h = [v - d for v in z], h - d
        else:
            t = clone(c, s)
            consistent(c, t, xy, z, h, "copy")
            c.true("copy keeps the name", t.name == s.name)
            e = c.real("depth%d" % i, 0.0, 300.0)
            t.shift(e)
            consistent(c, s, xy, z, h, "original after its copy moved", normals=False)
            if c.flag("keep%d" % i): s, z, h = t, [v - e for v in z], h - e
    consistent(c, s, xy, z, h, "end")


class Draw:
    """numpy.random.choice which records what it was asked for and what it returned"""
    def __init__(self, c, p, any_=False):
        import rayflare.ray_tracing.rt as rt
        self.c, self.p, self.k, self.out, self.any_ = c, p, 0, [], any_
        c.patch(rt.np.random, "choice", self.choice)

    def choice(self, a, size=None, replace=True, p=None):
        self.c.true("draws use the distribution's probabilities", p is not None and len(p) == len(self.p) and all(float(x) == y for x, y in zip(p, self.p)))
        # any height at all (longer sequences), or one of the listed ones
        v = self.c.real("drawn%d" % self.k, 0.25, 3.0) if self.any_ else list(a)[self.c.pick("draw%d" % self.k, len(self.p))]
        self.k += 1
        self.out.append(v)
        return v


def redraw(c, k, mid):
    cell = "pyramid"
    xy = XY[cell] + ([(0.25, 0.5)] if mid else [])
    up = 1 if c.flag("upright") else -1
    hs = [c.real("h%d" % i, 0.25, 3.0) for i in range(2)]
    h0 = c.real("h_first", 0.25, 3.0)
    cov = 0.0
    z = [0.0, h0 * up, 0.0, 0.0, 0.0] + ([h0 * up / 2] if mid else [])
    p = [0.25, 0.75]
    if mid: XY["_mid"] = xy; cell = "_mid"
    s = build(c, cell, z, height_distribution={"h": hs, "p": p})
    dr = Draw(c, p, any_=k > 1)
    if k == 1: consistent(c, s, xy, z, cov, "new")
    for i in range(k):
        op = c.pick("op%d" % i, 3)
        if op == 0:
            d = c.real("depth%d" % i, 0.0, 300.0)
            s.shift(d)
            z, cov = [v - d for v in z], cov - d
            what = "after moving"
        elif op == 1:
            n = len(dr.out)
            s.refresh()
            if len(dr.out) != n + 1: c.skip("heights are drawn in some other way")
            f = dr.out[-1]
            z = [cov, cov + up * f, cov, cov, cov] + ([cov + up * f / 2] if mid else [])
            what = "after re-drawing"
        else:
            t = clone(c, s)
            t.refresh()
            if c.flag("swap%d" % i):
                f = dr.out[-1]
                s, z = t, [cov, cov + up * f, cov, cov, cov] + ([cov + up * f / 2] if mid else [])
            what = "after a copy was re-drawn"
    consistent(c, s, xy, z, cov, what)


def structure(c, nl, redrawn):
    cls = fn(c, RT, "rt_structure")
    kinds = ["pyramid", "groove", "rough"][:nl + 1] + (["pyramid"] if nl == 3 else [])
    if redrawn: kinds = ["pyramid"] * (nl + 1)
    texts, zz = [], []
    hs = [c.real("h%d" % i, 0.25, 3.0) for i in range(2)]
    for i, cell in enumerate(kinds):
        z = [0.0] * 4 + [c.real("z%d_%d" % (i, j), 0.25, 1.0) for j in range(len(XY[cell]) - 4)]
        if cell == "pyramid": z = [0.0, z[4] * (1 if i % 2 else -1), 0.0, 0.0, 0.0]
        pair = [build(c, cell, z, **(dict(height_distribution={"h": hs, "p": [0.5, 0.5]}) if redrawn else {})), build(c, cell, [-v for v in z])]
        texts.append(pair); zz.append(z)
    w = [c.real("width%d" % i, 1e-6, 3e-4) for i in range(nl)]
    mats = [Mat(name="m%d" % i) for i in range(nl)]
    st = cls(texts, mats, list(w), Mat(name="inc"), Mat(name="trn"))
    c.true("one surface per interface", len(st.surfaces) == nl + 1)
    depth = 0.0
    dr = Draw(c, [0.5, 0.5]) if redrawn else None
    for i, cell in enumerate(kinds):
        if i: depth = depth + w[i - 1] * 1e6
        xy = XY[cell]
        s = soft_surface(c, st.surfaces[i])
        c.eq("depth of the interface", flist(st.cum_width)[i], depth, 1e-6)
        consistent(c, s, xy, [v - depth for v in zz[i]], 0.0 - depth, "placed")
        if redrawn:
            s.refresh()
            if len(dr.out) == 0: c.skip("heights are drawn in some other way")
            f = dr.out[-1] * (1 if i % 2 else -1)
            consistent(c, s, xy, [-depth, f - depth, -depth, -depth, -depth], 0.0 - depth, "placed and re-drawn")
        for side, sg in ((0, 1), (1, -1)):
            consistent(c, texts[i][side], xy, [v * sg for v in zz[i]], 0.0, "caller's surface after building", normals=False)
    c.eq("total width", st.width, total(w), 1e-9)
    c.true("materials in order", [str(m) for m in st.mats] == ["inc"] + [str(m) for m in mats] + ["trn"])


def integer(c, size):
    mk = fn(c, "rayflare.textures", "planar_surface")
    cls = fn(c, RT, "rt_structure")
    import rayflare.ray_tracing.rt as rt
    delaunay(c, rt)
    pair = mk(size=size)
    w = [1.23e-8, 6.5e-7, 1.75e-6, 3.0000001e-4][c.pick("width", 4)]
    st = cls([pair, mk(size=size)], [Mat()], [w], Mat(), Mat())
    for i, d in enumerate((0.0, w * 1e6)):
        s = soft_surface(c, st.surfaces[i])
        for v in zs(s): c.eq("planar surface at its depth", v, 0.0 - d, 1e-6)
        c.eq("coverage height", s.zcov, 0.0 - d, 1e-6)
        c.eq("z_min", s.z_min, 0.0 - d, 1e-6); c.eq("z_max", s.z_max, 0.0 - d, 1e-6)
    for v in zs(pair[0]): c.eq("caller's surface unchanged", v, 0.0, 1e-9)
