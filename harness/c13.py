"""C13: interaction with a periodic surface ends with the right outcome and position."""
from .util import *
from .c12 import surface, apart, soft, vec, pts
from .c11 import table, nearest

RT = "rayflare.ray_tracing.rt"
DIRS = [(0, 0, -1, 1), (3, 0, -4, 5), (-2, 1, -2, 3), (12, -15, -16, 25), (4, 7, -4, 9), (-6, -2, -3, 7)]
ASSUMPTIONS = ["unit cells: planar, upright pyramid, inverted pyramid, V-groove with concrete heights; incoming directions from six unit vectors mirrored for incidence from below; real refractive indices from two pairs",
               "entry points: any x in the cell just outside the texture, y from three values (every branch of the later history is followed for all of them); the first facet met lies in the entry cell",
               "at most 3 facet interactions per visit (5 in the thorough tier); longer trapping is cut",
               "intersections at least 1e-5 away from facet edges and cell walls; textures without random heights (C26)",
               "a ray which leaves the texture sideways through two cells while moving away from it is only required to be checked against the first neighbour"]
CELLS = {"planar": 0.0, "pyramid": 0.75, "pit": 0.4375, "groove": 0.625}
LY = {"planar": 0.75, "pyramid": 1.0, "pit": 1.5, "groove": 1.25}        # extent of the cell in y (1 in x)


def instances(tier):
    out = []
    q = tier == "quick"
    for cell in CELLS:
        for side in (1, -1):
            for periodic in (True, False):
                if not periodic and cell not in ("pyramid",): continue
                for m in ((1.0, 1.5), (1.0, 3.5)) if not q else ((1.0, 1.5),):
                    for dirs in ([[0, 1], [2], [3]] if q else [[0, 1], [2], [3], [4], [5]]):
                        out.append(dict(name="%s-%s-%s-n%g-%s" % (cell, "front" if side == 1 else "rear", "periodic" if periodic else "single", m[1], "".join(map(str, dirs))), fn=visit,
                                        params=dict(cell=cell, side=side, periodic=periodic, media=m, dirs=dirs, kmax=3 if q else 5), cost=4 if cell != "planar" else 1, max_s=55 if q else 300, max_paths=400 if q else 3000, partial=True,
                                        bounds="cell %s (%g x %g) from side %d, directions %r, all entry positions in x, 3 in y, all draws, up to %d interactions" % (cell, 1, LY[cell], side, dirs, 3 if q else 5)))
    out.append(dict(name="table-front", fn=visit, params=dict(cell="pyramid", side=1, periodic=True, media=(1.0, 1.5), dirs=[0], kmax=2, tmm=True), cost=4, max_s=60, bounds="lookup-table interface with symbolic probabilities"))
    out.append(dict(name="table-rear", fn=visit, params=dict(cell="pyramid", side=-1, periodic=True, media=(1.0, 1.5), dirs=[0], kmax=2, tmm=True), cost=4, max_s=60, bounds="lookup-table interface with symbolic probabilities"))
    return out


def visit(c, cell, side, periodic, media, dirs, kmax, tmm=False):
    f = fn(c, RT, "single_interface_check" if periodic else "single_cell_check")
    import inspect
    sig = inspect.signature(f)
    if any(k not in sig.parameters for k in ("r_a", "d", "ni", "nj", "tri", "Lx", "Ly", "side", "z_cov", "pol", "n_interactions", "wl", "Fr_or_TMM", "lookuptable")): c.skip("other interface")
    ly = LY[cell]
    P = [(p[0], p[1] * ly, p[2]) for p in pts(c, cell, CELLS[cell])]
    tri = surface(c, P)
    simp = [tuple(int(i) for i in s) for s in np.asarray(tri.simplices)]
    zs = [p[2] for p in P]
    v = DIRS[dirs[c.pick("direction", len(dirs))]]
    d = np.array([v[0] / v[3], v[1] / v[3], v[2] / v[3] * side])
    x = c.real("x", 0.0, 1.0)
    y = ly * [0.375, 0.8125, 0.5625][c.pick("y", 3)]
    off_edges(c, x, [0.0, 1.0], 1e-3)
    start = [x, y, max(zs) + 2.0 ** -7 if side == 1 else min(zs) - 2.0 ** -7]
    first = refhit(c, P, simp, start, d)
    c.assume(first is not None)
    draws, points, calls = [], [], []
    import rayflare.ray_tracing.rt as rt
    if not hasattr(rt, "random") or isinstance(rt.random, type(np)): c.skip("draws no longer come from rt.random")
    real = c.rand

    def rnd():
        if len(draws) >= kmax: c.assume(False)
        draws.append(real())
        return draws[-1]
    c.patch(rt, "random", rnd)
    ci = rt.check_intersect if hasattr(rt, "check_intersect") else None
    if ci is None: c.skip("check_intersect is gone")

    def seen(a):
        refhit(c, P, simp, a["r_a"], a["d"])      # stay off facet edges
        r = ci(a["r_a"], a["d"], a["tri"])
        if r is not False: points.append((r[0], r[2]))
        return r
    replace(c, RT, "check_intersect", seen, ("r_a", "d", "tri"))
    name = "decide_RT_TMM" if tmm else "decide_RT_Fresnel"
    dec = fn(c, RT, name)

    def decide(a):
        k = {n: a[n] for n in a}
        r = dec(**k)
        calls.append((a["n0"], a["n1"], a["side"], a["d"], r, a["theta"]))
        return r
    replace(c, RT, name, decide, ("n0", "n1", "side", "d"))
    kw = {}
    if tmm:
        tab, R, T, A = table(c, 2, [0.0, 0.6])
        kw = dict(wl=4.1e-7, Fr_or_TMM=1, lookuptable=tab)
    n0, n1 = media
    res = f(r_a=soft(c, start) if c.symbolic else vec(c, start), d=d, ni=n0, nj=n1, tri=tri, Lx=1.0, Ly=ly, side=side, z_cov=0.0, pol="u", n_interactions=3, **kw)
    out, o_t, o_p, r_a, dd, th, nint, sd = res
    c.true("every facet interaction is counted", nint == 3 + len(calls) and len(calls) >= 1)
    # history: media in order, points on one line modulo unit cells
    s, cur, dcur = side, start, d
    for k, (a, b, s_in, d_in, r, th_k) in enumerate(calls):
        c.true("side of incidence", s_in == s)
        c.true("media in the order seen from that side", (a, b) == ((n0, n1) if s == 1 else (n1, n0)))
        on_line(c, "facet lies ahead of the ray, in a whole number of cells", cur, dcur, points[k][0], periodic, ly)
        cur, dcur, s = points[k][0], r[0], r[1]
    absorbed = calls[-1][4][2] is not None
    c.true("absorbed exactly when the interface absorbs", (out == 2) == absorbed)
    if out == 2: return
    up0, up1 = d[2] > 0, dd[2] > 0
    c.true("reflected exactly when the vertical direction has flipped", out == (1 if bool(up0) == bool(up1) else 0))
    for k in range(3): c.eq("leaves with its final direction", dd[k], dcur[k], 1e-9)
    c.true("leaves on the side it is on", (s == 1) == bool(up1) or not periodic)
    c.eq("polar angle of the final direction", core.cos_(o_t) if core.is_sym(o_t) else math.cos(o_t), dd[2], 1e-6)
    h = math.hypot(float(dd[0]), float(dd[1]))
    if h > 1e-6:
        c.eq("azimuth of the final direction", math.cos(o_p) * h, dd[0], 1e-6)
        c.eq("azimuth of the final direction", math.sin(o_p) * h, dd[1], 1e-6)
    on_line(c, "leaves along its final direction, moved by whole cells only", cur, dcur, r_a, periodic, ly)
    if periodic:
        # it must not meet the neighbouring cell it is about to enter
        p = [cur[k] + 1e-9 * float(dcur[k]) for k in range(3)]
        for _ in range(2):
            c.true("does not leave through a facet", refhit(c, P, simp, p, dcur) is None)
            t, i = wall(c, p, dcur, ly)
            if i is None: break
            p = list(p); p[i] = p[i] - (1.0, ly)[i] * (1 if dcur[i] > 0 else -1)


def on_line(c, name, a, d, b, periodic, ly):
    """b = a + s d + whole unit cells, s >= 0"""
    if abs(float(d[2])) < 1e-4:
        c.eq(name, a[2], b[2], 1e-3)
        return
    s = (b[2] - a[2]) / float(d[2])
    c.ge(name, s, 0.0, 1e-6)
    for k in (0, 1):
        q = b[k] - a[k] - s * float(d[k])
        L = (1.0, ly)[k]
        n = floor(q / L + 0.5) if periodic else 0
        c.eq(name, q, n * L, 1e-6)


def wall(c, p, d, ly):
    """distance to and axis of the cell wall through which the ray leaves the cell"""
    best = (None, None)
    for i in (0, 1):
        if abs(d[i]) < 1e-9: continue
        t = (((1.0, ly)[i] if d[i] > 0 else 0.0) - p[i]) / float(d[i])
        if best[0] is None: best = (t, i)
        else:
            apart(c, t - best[0], 1e-5)
            if bool(t < best[0]): best = (t, i)
    return best


def refhit(c, P, simp, r, d):
    """distance to the first facet of the cell in front of the ray, None if there is none"""
    best = None
    for s3 in simp:
        a, b, e = [P[i] for i in s3]
        u = [b[k] - a[k] for k in range(3)]
        v = [e[k] - a[k] for k in range(3)]
        n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        nd = total(n[k] * float(d[k]) for k in range(3))
        if abs(nd) < 1e-9: continue
        t = total(n[k] * (a[k] - r[k]) for k in range(3)) / nd
        if not bool(t > 1e-8): continue
        p = [r[k] + t * float(d[k]) for k in range(3)]
        area = u[0] * v[1] - u[1] * v[0]
        inside = True
        for b2, c2 in ((a, b), (b, e), (e, a)):
            w = ((c2[0] - b2[0]) * (p[1] - b2[1]) - (c2[1] - b2[1]) * (p[0] - b2[0])) / area
            apart(c, w, 1e-5)
            if not bool(w > 0): inside = False; break
        if not inside: continue
        if best is None or bool(t < best): best = t
    return best
