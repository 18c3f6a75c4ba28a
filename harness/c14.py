"""C14: a ray conserves its intensity and traverses surfaces and layers in order (driven through rt_structure.calculate with one ray)."""
from .util import *

RT = "rayflare.ray_tracing.rt"
ASSUMPTIONS = ["the interaction with one surface (single_interface_check / single_cell_check) is replaced by an arbitrary outcome: reflected, transmitted or (surfaces with a lookup table) absorbed with any split over the interface layers, and any exit angle consistent with the direction",
               "1-3 layers, at most 3-5 surface interactions per ray (paths cut beyond), depth spacing of half a layer",
               "exp() is an uninterpreted function with monotonicity, positivity and product axioms, so Beer-Lambert factors are compared exactly"]


def instances(tier):
    out = []
    hits = 3 if tier == "quick" else 4
    for lay in (1, 2) if tier == "quick" else (1, 2, 3):
        for per in (1, 0):
            out.append(dict(name="order-l%d-%s" % (lay, "periodic" if per else "cell"), fn=trace, params=dict(lay=lay, periodic=per, hits=hits + 1 + (lay == 1) - (lay == 2), tmm=(), start=(0, 1)), max_s=500 if tier == "quick" else 2000, cost=lay + hits,
                            bounds="%d layer(s), <= %d surface interactions, bare surfaces" % (lay, hits + 1 + (lay == 1) - (lay == 2))))
    for tmm in ((0,), (1,)):
        out.append(dict(name="order-tables-%d" % tmm[0], fn=trace, params=dict(lay=1, periodic=1, hits=hits + 1, tmm=tmm, start=(0, 1)), max_s=500 if tier == "quick" else 2000, cost=4, bounds="1 layer, <= %d interactions, lookup table on surface %d" % (hits + 1, tmm[0])))
        out.append(dict(name="tables-weak-%d" % tmm[0], fn=trace, params=dict(lay=1, periodic=1, hits=hits + 1, tmm=tmm, start=(0, 1), weak=True), max_s=500 if tier == "quick" else 2000, cost=4, bounds="1 layer absorbing at most a quarter per pass, never below the threshold, <= %d interactions, lookup table on surface %d" % (hits + 1, tmm[0])))
    for mat, d in ((1, 1), (1, -1), (2, -1), (2, 1)):
        out.append(dict(name="start-m%d-%s" % (mat, "down" if d == 1 else "up"), fn=trace, params=dict(lay=2, periodic=1, hits=hits, tmm=(), start=(mat, d)), max_s=500 if tier == "quick" else 2000, cost=4,
                        bounds="2 layers, start in medium %d going %s, <= %d interactions" % (mat, "down" if d == 1 else "up", hits)))
    out.append(dict(name="order-randomised", fn=trace, params=dict(lay=1, periodic=1, hits=hits + 1, tmm=(), start=(0, 1), randomize=True), max_s=500 if tier == "quick" else 2000, cost=4, bounds="1 layer, position randomised before each interaction"))
    out.append(dict(name="transparent", fn=trace, params=dict(lay=1, periodic=1, hits=hits + 1, tmm=(), start=(0, 1), clear=True), max_s=500 if tier == "quick" else 2000, cost=4, bounds="1 layer that absorbs nothing"))
    out.append(dict(name="last-layer-start", fn=trace, params=dict(lay=1, periodic=1, hits=hits + 1, tmm=(), start=(2, -1)), max_s=500 if tier == "quick" else 2000, cost=4, bounds="1 layer, start in the transmission medium going up"))
    for up in (1, -1):
        for st in ((0, 1), (2, -1)):
            out.append(dict(name="relief-%s-%s" % ("up" if up == 1 else "down", "front" if st[0] == 0 else "rear"), fn=trace, params=dict(lay=1, periodic=1 if st[0] else 0, hits=2, tmm=(), start=st, relief=up), max_s=300, cost=2, bounds="1 layer between pyramids, start in the %s medium, <= 2 interactions" % ("incidence" if st[0] == 0 else "transmission")))
        out.append(dict(name="relief-%s-randomised" % ("up" if up == 1 else "down"), fn=trace, params=dict(lay=1, periodic=1, hits=3, tmm=(), start=(0, 1), relief=up, randomize=True), max_s=300, cost=2, bounds="1 layer between pyramids, position randomised before each interaction, <= 3 interactions"))
    out.append(dict(name="oblong", fn=trace, params=dict(lay=1, periodic=1, hits=3, tmm=(), start=(0, 1), oblong=True), max_s=300, cost=2, bounds="1 layer, unit cell of 2 by 3, <= 3 interactions"))
    return out


class Lay:
    def __init__(self, w, m): self.width, self.material = w, m


def trace(c, lay, periodic, hits, tmm, start, randomize=False, clear=False, relief=0, weak=False, oblong=False):
    cls = fn(c, RT, "rt_structure")
    planar = fn(c, "rayflare.textures.standard_rt_textures", "planar_surface")
    cell = (1.0, 1.0)
    at0 = (0.3, 0.4) if not oblong else (1.3, 2.7)
    if oblong:
        hm = fn(c, "rayflare.textures.define_textures", "heights_texture")
        planar = lambda size, **kw: hm(np.array([[0.0, 0.0], [0.0, 0.0]]), 2.0, 3.0, **kw)
        cell = (2.0, 3.0)
    if relief:
        cell = (3.0, 3.0)
        pyramids = fn(c, "rayflare.textures.standard_rt_textures", "regular_pyramids")
        planar = lambda size, **kw: pyramids(elevation_angle=45, upright=relief == 1, size=3, **kw)
    wl = 5e-7
    al = [c.real("alpha_%d" % i, 2.0 ** -6, 4.0 if not weak else 2.0 ** -4) if not clear else 0.0 for i in range(lay)]           # per um
    k = [0.0] + [a * (wl * 1e6) / (4 * PI) for a in al] + [0.0]
    mats = [Mat(n=1.0 + i, k=k[i]) for i in range(lay + 2)]
    widths = [2e-6 * (i + 1) for i in range(lay)]
    tex, nls = [], []
    for s in range(lay + 1):
        if s in tmm:
            tex.append(planar(size=1, interface_layers=[Lay(1.5e-9, mats[0])] * 2, name="surf")); nls.append(2)
        else:
            tex.append(planar(size=1, name="bare")); nls.append(0)
    d0 = c.scratch()
    if tmm:
        import os, xarray as xr
        def mk(a):
            p = os.path.join(a["structpath"], a["surf_name"] + ".nc")
            ds = xr.Dataset({"R": (("side",), [0.0, 0.0])}, coords={"side": [1, -1]})
            if c.symbolic:
                from symx import patch
                patch._touch(p, ds)
            else: ds.to_netcdf(p)
        replace(c, RT, "make_TMM_lookuptable", mk, ("surf_name", "structpath"))
    thr = c.real("I_thresh", 2.0 ** -10, 0.5 if not weak else 0.3) if lay == 1 else 0.125
    calls = []

    def hit(a):
        i = len(calls)
        if i >= hits:
            c.assume(False)
        r, side = a["r_a"], a["side"]
        dz = a["d"][2]
        s = [q for q in range(lay + 1) if a["tri"] is S.surfaces[q]]
        c.true("a surface of the structure", len(s) == 1)
        s = s[0]
        c.true("ray moves towards the surface", both(c, dz < 0 if side == 1 else dz > 0))
        c.true("the surface lies ahead", both(c, r[2] > a["tri"].zcov if side == 1 else r[2] < a["tri"].zcov))
        if (i == 0 and start in ((0, 1), (lay + 1, -1))) or (i and randomize):
            c.true("starts outside the relief of the surface", both(c, r[2] >= a["tri"].z_max if side == 1 else r[2] <= a["tri"].z_min))
        if not (randomize and i > 0):
            was = at0 if i else (0.01 * cell[0], 0.01 * cell[1])   # where the previous surface left it; the sampled position
            for x in range(2):
                if periodic:
                    m = (r[x] - was[x]) / cell[x]
                    n_ = core.floor_(m + 0.5) if core.is_sym(m) else math.floor(m + 0.5)
                    c.eq("moved by whole cells only", m, n_, 1e-7)
                    at = r[x] + a["d"][x] * (a["tri"].zcov - r[2]) / dz
                    c.true("meets the mean plane inside the cell", both(c, at >= -1e-7, at <= cell[x] + 1e-7))
                else: c.eq("not moved", r[x], was[x], 1e-7)
        opts = ["R", "T"] + (["A"] if s in tmm else [])
        kind = opts[c.pick("outcome_%d" % i, len(opts))]
        rec = dict(s=s, side=side, ni=a["ni"], nj=a["nj"], kind=kind, pol=a["pol"], Fr=a["Fr_or_TMM"], r=[x for x in np.asarray(r, dtype=object)], d=[x for x in np.asarray(a["d"], dtype=object)])
        calls.append(rec)
        if kind == "A":
            x = c.real("split_%d" % i, 0.01, 0.99)
            arr = zeros(c, 2); arr[0] = x * 0.5; arr[1] = (1.0 - x) * 0.5
            rec["split"] = [x, 1.0 - x]
            rec["th"] = None
            return 2, arr, 0, r, a["d"], 0.1, a["n_interactions"] + 1, side
        newside = side if kind == "T" else -side          # 1: travels down, -1: up
        cos = [0.5, 1.0][c.pick("angle_%d" % i, 2)]
        th = math.acos(cos) if newside == -1 else PI - math.acos(cos)
        rec["cos"], rec["th"] = cos, th
        sn = math.sqrt(1 - cos * cos)
        nd = np.array([sn, 0.0, cos if newside == -1 else -cos])
        pos = np.array([at0[0], at0[1], a["tri"].zcov + (-0.01 if newside == 1 else 0.01)])
        return (0 if kind == "R" else 1), th, 0.25, pos, nd, 0.1, a["n_interactions"] + 1, side
    for nm in ("single_interface_check", "single_cell_check"):
        replace(c, RT, nm, hit, ("r_a", "d", "ni", "nj", "tri", "side", "Fr_or_TMM", "n_interactions"))
    o = options(wavelength=np.array([wl]), theta_in=0.3, phi_in=0.2, n_rays=1, nx=1, ny=1, pol="s", I_thresh=thr, depth_spacing_bulk=1e-6, depth_spacing=1e-9,
                random_ray_position=False, randomize_surface=randomize, periodic=periodic, initial_material=start[0], initial_direction=start[1])
    if tmm: S = cls(tex, mats[1:-1], widths, mats[0], mats[-1], options=o, use_TMM=True, save_location=d0)
    else: S = cls(tex, mats[1:-1], widths, mats[0], mats[-1])
    res = S.calculate(o)

    # reference history
    m, dr = start
    I = 1.0
    A = [0.0] * (lay + 2)
    npass = 0
    end = None
    W = [0.0] + [w * 1e6 for w in widths] + [0.0]
    cum = [sum(W[:i + 1]) for i in range(lay + 2)]
    zs = np.arange(0, sum(W), 1.0)
    inlay = [None] + [[z for z in range(len(zs)) if cum[l - 1] <= zs[z] < cum[l]] for l in range(1, lay + 1)]
    P = [0.0] * len(zs)
    Ai = [0.0, 0.0]
    for i, r in enumerate(calls):
        c.true("no interaction after the end", end is None)
        s = m if dr == 1 else m - 1
        c.true("next surface in the direction of travel", r["s"] == s and r["side"] == dr)
        c.eq("index above", r["ni"], mats[s]._n + 1j * mats[s]._k, 1e-9)
        c.eq("index below", r["nj"], mats[s + 1]._n + 1j * mats[s + 1]._k, 1e-9)
        c.true("polarisation and table", r["pol"] == "s" and r["Fr"] == (1 if s in tmm else 0))
        if not (randomize and i > 0):
            if i == 0: want = [-math.sin(0.3) * math.cos(0.2), -math.sin(0.3) * math.sin(0.2), -math.cos(0.3) * dr]
            else:
                q = calls[i - 1]
                want = [math.sqrt(1 - q["cos"] ** 2), 0.0, q["cos"] * (-1 if dr == 1 else 1)]
            for x in range(3): c.eq("direction kept between surfaces", r["d"][x], want[x], 1e-7)
        if r["kind"] == "A":
            Ai = [I * x for x in r["split"]]
            I = 0.0
            end = "interface"
            continue
        if r["kind"] == "R": dr = -dr
        else: m = m + dr
        if m == 0 and dr == -1: end = "R"
        elif m == lay + 1 and dr == 1: end = "T"
        else:
            a = al[m - 1]
            rr = a / r["cos"]
            I2 = I * exp(c, -rr * W[m])
            A[m] = A[m] + (I - I2)
            pts = inlay[m]
            u = [I * rr * exp(c, -rr * (zs[z] - cum[m - 1])) for z in pts]
            if dr == -1: u = u[::-1]
            intg = total([(u[z + 1] + u[z]) / 2.0 for z in range(len(pts) - 1)])
            for n_, z in enumerate(pts): P[z] = P[z] + ((I - I2) * u[n_] / intg if not clear else 0.0)
            npass += 1
            I = I2
            c.assume(either(c, I >= thr + 1e-6, I <= thr - 1e-6))
            if bool(I < thr): end = "bulk"
    c.true("ends exactly once", end is not None)
    c.eq("reflected", res["R"][0], I if end == "R" else 0.0, 1e-8)
    c.eq("transmitted", res["T"][0], I if end == "T" else 0.0, 1e-8)
    for l in range(lay): c.eq("absorbed in layer", res["A_per_layer"][0, l], A[l + 1], 1e-8)
    tot = res["R"][0] + res["T"][0] + total(flist(res["A_per_layer"][0])) + (I if end == "bulk" else 0.0)
    if tmm:
        for x in range(2): c.eq("absorbed in interface", res["A_per_interface"][tmm[0]][0, x], Ai[x], 1e-8)
        tot = tot + total(flist(res["A_per_interface"][tmm[0]][0]))
    c.eq("intensity conserved", tot, 1.0, 1e-7)
    c.true("passes counted", res["n_passes"][0, 0] == npass)
    c.true("interactions counted", res["n_interactions"][0, 0] == len(calls))
    if end in ("R", "T"): c.eq("exit angle", res["thetas"][0, 0], calls[-1]["th"], 1e-9)
    c.true("profile per wavelength and depth", np.shape(res["profile"]) == (1, len(zs)))
    for z in range(len(zs)): c.eq("profile decays along the direction of travel", res["profile"][0, z] * 1e3, P[z], 1e-7)


def exp(c, x):
    if c.symbolic: return core.exp_(x)
    return math.exp(x)
