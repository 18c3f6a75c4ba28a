"""C09: rays obey the laws of reflection and refraction at every facet."""
from .util import *
from .c11 import table, nearest, POLS
from .c10 import ref

RT = "rayflare.ray_tracing.rt"
# orthonormal frames (normal, two tangents) with rational entries: (numerators, denominator)
FRAMES = {"flat": (((0, 0, 1), (1, 0, 0), (0, 1, 0)), 1),
          "x": (((3, 0, 4), (4, 0, -3), (0, 5, 0)), 5),
          "y": (((0, -5, 12), (13, 0, 0), (0, 12, 5)), 13),
          "oblique": (((2, 1, 2), (1, 2, -2), (2, -2, -1)), 3),
          "steep": (((-12, 15, 16), (20, 0, 15), (9, 20, -12)), 25),
          "down": (((1, 2, -2), (2, 1, 2), (2, -2, -1)), 3)}
TAN = [(1, 0, 1), (3, -4, 5), (-5, 12, 13), (0, -1, 1)]
ASSUMPTIONS = ["facet normals from six rational frames (horizontal, tilted about x, about y, obliquely, steeply; downward for rear side), tangential direction from four rational azimuths in the facet plane",
               "real part of both refractive indices in [1, 4]; absorbing media included for the Fresnel decision's geometry with the reflectance itself abstracted to an arbitrary probability",
               "refracted directions at least 1e-3 (in sin) away from the critical angle; angles of incidence up to 89 degrees",
               "beyond the critical angle the tabulated transmission of lookup-table interfaces is outside (the table's own entries decide there, C19)"]


def instances(tier):
    out = []
    for f in FRAMES:
        for side in (1, -1):
            if tier == "quick" and (list(FRAMES).index(f) + side) % 2 and f != "flat": continue
            for kind in ("fresnel", "tmm"):
                out.append(dict(name="%s-%s-%s" % (kind, f, "front" if side == 1 else "rear"), fn=facet, params=dict(kind=kind, frame=f, side=side), cost=3, max_s=300,
                                bounds="frame %s, %d in-plane azimuths, all angles of incidence, all real index pairs in [1,4], all draws%s" % (f, len(TAN), "" if kind == "fresnel" else ", all table entries")))
    for pol in POLS:
        out.append(dict(name="tir-%s" % pol, fn=tir, params=dict(pol=pol), bounds="all angles beyond the critical angle, all index pairs incl. absorbing, all draws"))
    out.append(dict(name="absorbing", fn=facet, params=dict(kind="fresnel", frame="x", side=1, absorbing=True), bounds="complex indices", max_s=300, cost=3))
    return out


def frame(c, name):
    v, q = FRAMES[name]
    return [np.array([rat(c, x, q) for x in row], dtype=object if c.symbolic else float) for row in v]


def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def facet(c, kind, frame_=None, side=1, absorbing=False, **kw):
    N, t1, t2 = frame(c, kw.get("frame", frame_))
    a, b, q = TAN[c.pick("tangent", len(TAN))]
    t = [rat(c, a, q) * t1[k] + rat(c, b, q) * t2[k] for k in range(3)]
    th = c.angle("theta", 0.0, 89 * PI / 180)
    n0, n1 = c.real("n0", 1.0, 4.0), c.real("n1", 1.0, 4.0)
    st, ct = (core.sin_(th), core.cos_(th)) if c.symbolic else (math.sin(th), math.cos(th))
    sn = st * n0
    c.assume(either(c, sn <= n1 * (1 - 1e-3), sn >= n1 * (1 + 1e-3)))
    beyond = bool(sn > n1)
    d = zeros(c, 3)
    for k in range(3): d[k] = -ct * N[k] + st * t[k]
    if c.symbolic:
        from symx import npshim
        N = npshim.wrap(N)
    r = c.rand()
    if kind == "fresnel":
        f = fn(c, RT, "decide_RT_Fresnel")
        import rayflare.ray_tracing.rt as rt
        if hasattr(rt, "calc_R"): c.patch(rt, "calc_R", lambda *a, **k: c.real("R", 0.0, 1.0))
        if absorbing:
            k0, k1 = c.real("k0", 0.0, 4.0), c.real("k1", 0.0, 4.0)
            z0, z1 = (core.mkcplx(n0, k0), core.mkcplx(n1, k1)) if c.symbolic else (n0 + 1j * k0, n1 + 1j * k1)
        else: z0, z1 = n0, n1
        dd, s2, ab = f(z0, z1, th * side, d, N, side, "u", r)      # the local angle is negative for rays from below
        c.true("bare facets do not absorb", ab is None)
    else:
        if beyond: c.skip("lookup tables beyond the critical angle") if not c.symbolic else c.assume(False)
        f = fn(c, RT, "decide_RT_TMM")
        tab, R, T, A = table(c, 1, [0.0, 0.6])
        off_edges(c, th, [0.3], 1e-6)
        dd, s2, ab = f(n0, n1, th * side, d, N, side, "s", r, 4.1e-7, tab)
        if ab is not None: return
    refl = s2 == side
    c.true("on one of the two sides", s2 in (side, -side))
    if beyond: c.true("total internal reflection", refl)
    if refl:
        for k in range(3): c.eq("law of reflection", dd[k], ct * N[k] + st * t[k], 1e-6)
    else:
        x = (n0 / n1) * st
        c2 = core.sqrt_(1 - x * x) if c.symbolic else math.sqrt(1 - x * x)
        for k in range(3): c.eq("Snell's law", dd[k], -c2 * N[k] + x * t[k], 1e-6)


def tir(c, pol):
    f = fn(c, RT, "decide_RT_Fresnel")
    N = np.array([0.0, 0.0, 1.0])
    th = c.angle("theta", 0.0, 89 * PI / 180)
    n0, n1 = c.real("n0", 1.0, 4.0), c.real("n1", 1.0, 4.0)
    k0, k1 = c.real("k0", 0.0, 4.0), c.real("k1", 0.0, 4.0)
    st, ct = (core.sin_(th), core.cos_(th)) if c.symbolic else (math.sin(th), math.cos(th))
    c.assume(st * n0 >= n1 * (1 + 1e-3))
    z0, z1 = (core.mkcplx(n0, k0), core.mkcplx(n1, k1)) if c.symbolic else (n0 + 1j * k0, n1 + 1j * k1)
    d = zeros(c, 3); d[0] = st; d[2] = -ct
    r = c.rand()
    side = (1, -1)[c.pick("side", 2)]
    dd, s2, ab = f(z0, z1, th * side, d, N, side, pol, r)
    c.true("reflected", s2 == side and ab is None)
    c.eq("direction", dd[0], st, 1e-9)
    c.eq("direction", dd[2], ct, 1e-9)
