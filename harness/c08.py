"""C08: ray-traced redistribution matrices count every ray once, in the right bins (driven through RT)."""
import os
from .util import *

ASSUMPTIONS = ["the trace of a single ray (single_ray_interface) is replaced by an arbitrary outcome: exit polar angle in [0,pi], azimuth in [-pi,pi], or absorption split arbitrarily over the layers",
               "exit directions at least 1e-6 rad away from bin edges (plus instances on the edges 0, 90 and 180 degrees)",
               "1-3 rays, n_theta_bins 1..3, 1-2 wavelengths, front and rear incidence, bare and lookup-table interfaces"]


def instances(tier):
    out = []
    cfg = [(2, 1.0, 4, 1, 1, "a"), (2, 0.5, 1, 2, 1, "b"), (1, 1.0, 2, 1, 1, "c"), (3, 0.34, 3, 1, 1, "d")]
    if tier == "thorough": cfg += [(2, 1.0, 4, 2, 1, "e"), (2, 1.0, 1, 1, 2, "f"), (3, 1.0, 6, 1, 1, "g"), (2, 0.5, 2, 3, 1, "h")]
    for n, caz, m, rays, pos, tag in cfg:
        for side in ("front", "rear"):
            for tmm in (0, 1):
                out.append(dict(name="bins-%s-%s-%s" % (tag, side, "tmm" if tmm else "fresnel"), fn=bins, params=dict(n=n, caz=caz, m=m, rays=rays, pos=pos, side=side, tmm=tmm),
                                bounds="n_theta_bins=%d c_azimuth=%g phi_symmetry=2pi/%d, %d directions x %d positions, %s incidence" % (n, caz, m, rays, pos, side), cost=rays * pos * n, max_s=500,
                                max_paths=5000))
    for side in ("front", "rear"):
        out.append(dict(name="position-%s" % side, fn=bins, params=dict(n=1, caz=1.0, m=4, rays=1, pos=2, side=side, tmm=1), bounds="2 rays with the same direction, " + side, cost=3, max_s=400))
        out.append(dict(name="random-angles-%s" % side, fn=randang, params=dict(side=side), bounds="random incidence angle (symbolic draw), 1 ray, " + side, cost=3, max_s=400))
        out.append(dict(name="wavelengths-%s" % side, fn=wavelengths, params=dict(side=side), bounds="2 wavelengths, 1 ray each, " + side, cost=2))
        out.append(dict(name="grazing-%s" % side, fn=edge, params=dict(side=side), bounds="exit angles exactly on bin edges, " + side, cost=2))
    for sp in ("sin", "linear"):
        out.append(dict(name="only-incidence-%s" % sp, fn=only, params=dict(sp=sp), bounds="only_incidence_angle, theta_in in [0,pi/2), phi_in in [0,2pi] or 'all'", cost=4, max_s=400))
    return out


class Surf:
    Lx = Ly = 1.0
    x_min = y_min = 0.0
    x_max = y_max = 1.0
    Points = np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.1], [1.0, 1.0, 0.0]])
    zcov = 0.0

    def __init__(self, name): self.name = name


def trace(c, n, caz, m, rays, pos, side, tmm, outcome, nwl=1, lay=2, sp="sin", **kw):
    """run RT with every ray's outcome given by outcome(k, theta, phi); returns (calls, RT matrix, A matrix)"""
    f = fn(c, "rayflare.ray_tracing.rt", "RT")
    grp = fn(c, "rayflare.structure", "RTgroup")
    d = c.scratch()
    if tmm:
        import xarray as xr
        ds = kw.pop("table", None)
        if ds is None: ds = xr.Dataset({"R": (("side",), [0.0, 0.0])}, coords={"side": [1, -1]})
        path = os.path.join(d, "s.nc")
        if c.symbolic:
            from symx import patch
            patch._touch(path, ds)
        else: ds.to_netcdf(path)
    calls = []

    def stub(a):
        k = len(calls)
        theta, phi = a["theta"], a["phi"]
        o = outcome(k, theta, phi)
        calls.append(dict(theta=theta, phi=phi, wl=a["wl"], nk=a["nks"], surf=a["surfaces"][0].name, pos=(a["x"], a["y"]), fr=a["Fr_or_TMM"], out=o))
        if o[0] == "abs": return 1, 10, 0.0, [o[1], o[2]]
        return 1, o[1], o[2], [0, 10]
    replace(c, "rayflare.ray_tracing.rt", "single_ray_interface", stub, ("x", "y", "nks", "theta", "phi", "surfaces", "wl", "Fr_or_TMM"))
    o = options(n_theta_bins=n, c_azimuth=caz, phi_symmetry=2 * PI / m, n_rays=rays * pos, nx=pos, ny=1, wavelength=np.array([5e-7, 6e-7][:nwl]), pol="u",
                random_ray_position=False, random_ray_angles=kw.pop("random", False), only_incidence_angle=False, depth_spacing=1e-9)
    for k in ("theta_in", "phi_in"):
        if k in kw: setattr(o, k, kw.pop(k))
    if sp != "sin": o.theta_spacing = sp
    g = grp(textures=[[Surf("down"), Surf("up")]])
    inc, trn = Mat(n=lambda wl: wl * 2e6), Mat(n=lambda wl: wl * 6e6, k=lambda wl: wl * 1e6)
    nl = lay if tmm else 0
    whole = kw.pop("whole", False)
    wd, prof = kw.pop("widths", None), kw.pop("prof", None)
    res = f(g, inc, trn, "s", o, d, tmm, side, nl, prof, widths=wd, **kw)
    return (calls, res) if whole else (calls, dense(res[0]), dense(res[1]))


def outcome_of(c, m, edges_th, tmm, lay, tag, scale=1.0):
    """arbitrary outcome of one ray (scale: tabulated absorptance of the interface; an absorbed ray counts as one)"""
    if tmm and c.flag("absorbed_" + tag):
        a = [c.real("A_%s_%d" % (tag, l), 0.0, 1.0) for l in range(lay - 1)]
        c.assume(total(a) <= 1.0)
        arr = zeros(c, lay)
        for l in range(lay - 1): arr[l] = scale * a[l]
        arr[lay - 1] = scale * (1.0 - total(a))
        return ("abs", arr, c.real("local_" + tag, -PI / 2, PI / 2))
    th = c.real("exit_theta_" + tag, 0.0, PI)
    off_edges(c, th, edges_th[1:-1])
    c.assume(both(c, th >= 1e-6, th <= PI - 1e-6))
    ph = c.real("exit_phi_" + tag, -PI, PI)
    return ("out", th, ph)


def ref_row(c, th, ph, n, caz, m, sp="sin"):
    """index of the bin containing a direction; keeps the azimuth away from the edges"""
    sym = 2 * PI / m
    e, phi, rows = grid(n, sym, caz, sp)
    i = bin_of(th, e)
    q = floor(ph / sym)
    f = ph - q * sym
    off_edges(c, f, phi[i], 1e-6)
    k = bin_of(f, phi[i])
    return next(r for r, x in enumerate(rows) if x[0] == i and x[3] == k)


def check(c, M, A, exp_rt, exp_a, n_in, na, lay):
    for j in range(na):
        for i in range(2 * na):
            c.eq("fraction of rays per outgoing bin", M[i, j], exp_rt.get((i, j), 0.0) / n_in[j] if n_in[j] else 0.0, 1e-9)
        for l in range(lay):
            c.eq("absorbed fraction per layer", A[l, j], exp_a.get((l, j), 0.0) / n_in[j] if n_in[j] else 0.0, 1e-7)


def bins(c, n, caz, m, rays, pos, side, tmm):
    th, phs, rows = grid(n, 2 * PI / m, caz, "sin")
    na = len(rows) // 2
    lay = 2 if tmm else 0
    sc = [1.0, 0.25, 2.0 ** -9][c.pick("absorptance", 3)] if tmm else 1.0
    calls, M, A = trace(c, n, caz, m, rays, pos, side, tmm, lambda k, a, b: outcome_of(c, m, th, tmm, 2, str(k), sc))
    M, A = M[0], A[0]
    c.true("shape", np.shape(M) == (2 * na, na))
    reps = len(calls)
    c.true("every direction and position traced", reps >= rays * pos and reps % pos == 0)
    starts = [cl["pos"] for cl in calls]
    want = [0.01 + (0.98 * k / (pos - 1) if pos > 1 else 0.0) for k in range(pos)]
    c.true("every direction is traced from every sampled position", all(sum(abs(float(x[0]) - w) < 1e-6 for x in starts) == reps // pos for w in want) and all(abs(float(x[1]) - 0.01) < 1e-6 for x in starts))
    rt, ab, cnt = {}, {}, [0] * na
    off = 0 if side == "front" else na
    for cl in calls:
        c.true("surface seen from the side of incidence", cl["surf"] == ("down" if side == "front" else "up"))
        c.true("kind of interface", cl["fr"] == tmm)
        tin = cl["theta"] if side == "front" else PI - cl["theta"]
        j = ref_row(c, tin, cl["phi"], n, caz, m) - off
        cnt[j] += 1
        o = cl["out"]
        if o[0] == "abs":
            for l in range(2): ab[(l, j)] = ab.get((l, j), 0.0) + o[1][l] / sc
        else:
            t = o[1] if side == "front" else PI - o[1]
            i = ref_row(c, t, o[2], n, caz, m)
            rt[(i, j)] = rt.get((i, j), 0) + 1
    check(c, M, A, rt, ab, cnt, na, lay)
    for j in range(na):
        if cnt[j]: c.eq("R + T + A = 1", total(col(M, j)) + (total(col(A, j)) if lay else 0.0), 1.0, 1e-7)


def randang(c, side):
    n, caz, m = 2, 1.0, 4
    th, phs, rows = grid(n, 2 * PI / m, caz, "sin")
    na = len(rows) // 2

    def out(k, a, b):
        off_edges(c, a, th[:n + 1])
        return ("out", 0.3 + k, 0.2)
    calls, M, A = trace(c, n, caz, m, 1, 1, side, 0, out, random=True)
    rt, cnt = {}, [0] * na
    off = 0 if side == "front" else na
    for cl in calls:
        j = ref_row(c, cl["theta"] if side == "front" else PI - cl["theta"], cl["phi"], n, caz, m) - off
        t = cl["out"][1] if side == "front" else PI - cl["out"][1]
        i = ref_row(c, t, cl["out"][2], n, caz, m)
        cnt[j] += 1
        rt[(i, j)] = rt.get((i, j), 0) + 1
    check(c, M[0], A[0], rt, {}, cnt, na, 0)


def wavelengths(c, side):
    n, caz, m = 1, 1.0, 4
    th, phs, rows = grid(n, 2 * PI / m, caz, "sin")
    calls, M, A = trace(c, n, caz, m, 1, 1, side, 1, lambda k, a, b: outcome_of(c, m, th, 1, 2, str(k)), nwl=2)
    c.true("both wavelengths traced", len(calls) == 2 and np.shape(M)[0] == 2 and np.shape(A)[0] == 2)
    ws = sorted(range(2), key=lambda k: float(calls[k]["wl"]))
    for w, k in enumerate(ws):
        cl = calls[k]
        c.eq("wavelength", cl["wl"] * 1e7, 5.0 + w, 1e-9)
        a, b = (cl["wl"] * 2e6, cl["wl"] * 6e6 + 1j * cl["wl"] * 1e6)
        c.eq("medium of incidence", cl["nk"][0], a if side == "front" else b, 1e-9)
        c.eq("medium of transmission", cl["nk"][1], b if side == "front" else a, 1e-9)
        o = cl["out"]
        if o[0] == "abs":
            for l in range(2): c.eq("absorbed per layer", A[w, l, 0], o[1][l], 1e-7)
            for i in range(2): c.eq("no light leaves", M[w, i, 0], 0.0, 1e-9)
        else:
            t = o[1] if side == "front" else PI - o[1]
            i = ref_row(c, t, o[2], n, caz, m)
            for q in range(2): c.eq("one outgoing bin", M[w, q, 0], 1.0 if q == i else 0.0, 1e-9)
            for l in range(2): c.eq("nothing absorbed", A[w, l, 0], 0.0, 1e-9)


def edge(c, side):
    """exit directions on polar edges: the whole ray arrives in one adjacent bin"""
    n, caz = 2, 1.0
    m = c.pick("m", 3) + 1
    th, phs, rows = grid(n, 2 * PI / m, caz, "sin")
    na = len(rows) // 2
    it = c.pick("edge", 2 * n + 1)
    tmm = c.pick("table", 2)
    ip = c.pick("azimuth", 3)
    calls, M, A = trace(c, n, caz, m, 1, 1, side, tmm, lambda k, a, b: ("out", th[it], [0.0, 0.3, PI][ip]))
    j = 0
    t = th[it] if side == "front" else PI - th[it]
    ok = [r for r, x in enumerate(rows) if x[0] in (bin_of(t - 1e-9, th) if t > 1e-6 else 0, bin_of(t + 1e-9, th) if t < PI - 1e-6 else 2 * n - 1)]
    cj = [k for k in range(na) if abs(total(col(M[0], k))) > 1e-12]
    c.true("one populated column", len(cj) == 1)
    for k in cj:
        c.eq("counted once", total(col(M[0], k)), 1.0, 1e-9)
        c.eq("in an adjacent polar bin", total([M[0][r, k] for r in ok]), 1.0, 1e-9)


def only(c, sp):
    """only_incidence_angle: exactly the bins which the matrix multiplication reads are populated"""
    from .c03 import incident
    n, caz, m = 2, 1.0, 4
    sym = 2 * PI / m
    th, phs, rows = grid(n, sym, caz, sp)
    na = len(rows) // 2
    theta = c.real("theta_in", 0.0, PI / 2 - 1e-6)
    off_edges(c, theta, th[1:n], 1e-6)
    c.assume(either(c, theta == 0.0, theta >= 1e-3))
    if c.flag("all_azimuths"):
        phi = "all"
    else:
        phi = c.real("phi_in", 0.0, 2 * PI)
        c.assume(either(c, phi == 0.0, phi >= 1e-3))
    calls, M, A = trace(c, n, caz, m, 3, 1, "front", 0, lambda k, a, b: ("out", 0.3, 0.2), sp=sp, theta_in=theta, phi_in=phi, only_incidence_angle=True)
    i = bin_of(theta, th[:n + 1])
    if phi == "all":
        want = [r for r, x in enumerate(rows[:na]) if x[0] == i]
    else:
        want = [ref_row(c, theta, phi, n, caz, m, sp)]
    for j in range(na):
        c.eq("populated exactly where light enters", total(col(M[0], j)), 1.0 if j in want else 0.0, 1e-9)
