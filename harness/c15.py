"""C15: ray-tracing results are averages over rays that add up to one (driven through rt_structure.calculate)."""
import os
from .util import *

RT = "rayflare.ray_tracing.rt"
ASSUMPTIONS = ["the trace of one ray through the stack (single_ray_stack) is replaced by an arbitrary outcome that conserves its intensity (C14): leaves up/down with symbolic intensity and angle, or ends absorbed in the bulk or in an interface, "
               "with symbolic deposits per layer, per interface layer and per depth",
               "1-3 rays, 1-2 layers, 1-2 wavelengths; the exit angle is not exactly horizontal",
               "interface depth profiles: concrete tabulated profile coefficients and local angles, symbolic absorbed power"]


def instances(tier):
    out = []
    cfg = [(1, 2, 1, 1, 1), (2, 1, 1, 2, 1), (1, 1, 2, 1, 1), (1, 1, 1, 1, 2), (2, 1, 1, 1, 2)]
    if tier == "thorough": cfg += [(1, 3, 1, 1, 1), (2, 2, 1, 1, 2), (1, 2, 2, 1, 1), (3, 1, 1, 2, 1)]
    for lay, nx, ny, reps, nwl in cfg:
        out.append(dict(name="mean-l%d-x%d-y%d-r%d-w%d" % (lay, nx, ny, reps, nwl), fn=mean, params=dict(lay=lay, nx=nx, ny=ny, reps=reps, nwl=nwl, tmm=()), max_s=400, cost=nx * ny * reps * nwl,
                        bounds="%d layer(s), %d x %d positions x %d repetitions, %d wavelength(s), bare interfaces" % (lay, nx, ny, reps, nwl)))
    for tmm in ((0,), (1,), (0, 1)):
        for nx, nwl in ((2, 1), (1, 2)):
            out.append(dict(name="interface-%s-x%d-w%d" % ("".join(map(str, tmm)), nx, nwl), fn=mean, params=dict(lay=1, nx=nx, ny=1, reps=1, nwl=nwl, tmm=tmm), max_s=400, cost=nx * nwl + 2,
                            bounds="1 layer, %d ray(s), %d wavelength(s), lookup tables on surface(s) %s" % (nx, nwl, tmm)))
    for opt in ("random", "start"):
        out.append(dict(name="options-%s" % opt, fn=opts, params=dict(which=opt), bounds="1 ray, " + opt))
    for d in (1, -1):
        out.append(dict(name="interface-profile-%s" % ("front" if d == 1 else "rear"), fn=iprof, params=dict(direction=d), max_s=400, cost=3, bounds="2 rays absorbed in one interface with 3 layers, any two profile layers, table with 1-2 wavelengths"))
    out.append(dict(name="interface-profile-commensurate", fn=iprof2, params={}, bounds="interface layers of 2, 3 and 4 nm sampled every nm; 2 wavelengths, absorbed in the interface at any subset of them"))
    return out


class Lay:
    def __init__(self, w, m): self.width, self.material = w, m


def setup(c, lay, nx, ny, reps, nwl, tmm, outcome, prof=None, table=None, w0=1.5, **kw):
    cls = fn(c, RT, "rt_structure")
    planar = fn(c, "rayflare.textures.standard_rt_textures", "planar_surface")
    mats = [Mat(n=lambda wl, i=i: wl * 1e6 + i, k=lambda wl, i=i: wl * 1e4 * (i + 1)) for i in range(lay + 2)]
    widths = [2e-6 + 1e-6 * i for i in range(lay)]
    calls, made = [], []
    tex, nls = [], []
    for s in range(lay + 1):
        if s in tmm:
            t = planar(size=1, interface_layers=[Lay(1e-9 * (q + w0), mats[0]) for q in range(s + 2)], name="surf")
            if prof is not None: 
                for x in t: x.prof_layers = prof
            nls.append(s + 2)
        else:
            t = planar(size=1); nls.append(0)
        tex.append(t)
    d = c.scratch()
    if tmm:
        def mk(a):
            made.append(a)
            p = os.path.join(a["structpath"], a["surf_name"] + ".nc")
            import xarray as xr
            ds = table if table is not None else xr.Dataset({"R": (("side",), [0.0, 0.0])}, coords={"side": [1, -1]})
            if c.symbolic:
                from symx import patch
                patch._touch(p, ds)
            else: ds.to_netcdf(p)
        replace(c, RT, "make_TMM_lookuptable", mk, ("surf_name", "structpath"))

    def one(a):
        k = len(calls)
        w = int(round(float(a["nks"][0].real))) - 1 if False else [i for i in range(nwl) if abs(complex(a["nks"][0]) - (WL[i] * 1e6 + 1j * WL[i] * 1e4)) < 1e-9]
        c.true("optical constants belong to one wavelength", len(w) == 1)
        o = outcome(k, len(a["z_pos"]), w[0])
        calls.append(dict(a=a, w=w[0], o=o))
        return (o["I"], o["prof"], o["A"], o["th"], o["phi"], o["n"], 2 * o["n"] + 1 + (k + o["n"]) % 2, o["Ai"], o["ix"], o["loc"], o["dir"])
    replace(c, RT, "single_ray_stack", one, ("x", "y", "nks", "alphas", "z_pos", "widths", "surfaces"))
    o = options(wavelength=np.array(WL[:nwl]), theta_in=0.3, phi_in=0.2, n_rays=nx * ny * reps - (nx * ny - 1 if reps == 1 else 0), nx=nx, ny=ny, pol="u", I_thresh=2.0 ** -10, depth_spacing_bulk=1e-6, depth_spacing=1e-9,
                random_ray_position=False, randomize_surface=False, project_name="p")
    for k, v in kw.items(): setattr(o, k, v)
    if tmm: S = cls(tex, mats[1:-1], widths, mats[0], mats[-1], options=o, use_TMM=True, save_location=d)
    else: S = cls(tex, mats[1:-1], widths, mats[0], mats[-1])
    return S, o, calls, nls, widths, mats


WL = [4e-7, 5e-7]


def outcomes(c, lay, nls):
    def f(k, nz, w):
        t = str(k)
        kinds = ["up", "down", "bulk"] + ["int%d" % s for s, n in enumerate(nls) if n]
        kind = kinds[c.pick("end_" + t, len(kinds))]
        A = zeros(c, lay + 2)
        a = [c.real("A_%s_%d" % (t, i), 0.0, 1.0) for i in range(lay)]
        c.assume(total(a) <= 1.0)
        for i in range(lay): A[i + 1] = a[i]
        P = zeros(c, nz)
        for z in range(nz): P[z] = c.real("p_%s_%d" % (t, z), 0.0, 10.0)
        rest = 1.0 - total(a)
        o = dict(I=rest, prof=P, A=A, n=c.pick("passes_" + t, 2), Ai=0, ix=0, loc=0.1, dir=1, phi=0.1, kind=kind, rest=rest)
        if kind == "up": o["th"] = c.real("th_" + t, 0.0, PI / 2 - 1e-6)
        elif kind == "down": o["th"] = c.real("th_" + t, PI / 2 + 1e-6, PI)
        elif kind == "bulk":
            o["th"] = None
            c.assume(rest <= 2.0 ** -10)
        else:
            s = int(kind[3:])
            o["th"], o["I"], o["ix"] = None, 0, s + 1
            parts = [c.real("Ai_%s_%d" % (t, q), 0.0, 1.0) for q in range(nls[s] - 1)]
            c.assume(total(parts) <= rest)
            arr = zeros(c, nls[s])
            for q in range(nls[s] - 1): arr[q] = parts[q]
            arr[nls[s] - 1] = rest - total(parts)
            o["Ai"] = arr
        return o
    return f


def mean(c, lay, nx, ny, reps, nwl, tmm):
    nls = [s + 2 if s in tmm else 0 for s in range(lay + 1)]
    S, o, calls, nls2, widths, mats = setup(c, lay, nx, ny, reps, nwl, tmm, outcomes(c, lay, nls))
    res = S.calculate(o)
    n = nx * ny * reps
    zs = None
    for w in range(nwl):
        cl = [x for x in calls if x["w"] == w]
        c.true("rays per wavelength", len(cl) == n)
        pos = sorted((float(x["a"]["x"]), float(x["a"]["y"])) for x in cl)
        grd = sorted((0.01 + (0.98 * i / (nx - 1) if nx > 1 else 0.0), 0.01 + (0.98 * j / (ny - 1) if ny > 1 else 0.0)) for i in range(nx) for j in range(ny) for _ in range(reps))
        for p, q in zip(pos, grd): c.true("scans the unit cell evenly", abs(p[0] - q[0]) < 1e-9 and abs(p[1] - q[1]) < 1e-9)
        for x in cl:
            al = [float(v) for v in x["a"]["alphas"]]
            c.true("absorption coefficients in 1/um", all(abs(v - 4 * PI * WL[w] * 1e4 * (i + 1) / (WL[w] * 1e6)) < 1e-6 for i, v in enumerate(al)) and len(al) == lay + 2)
            c.true("refractive indices", all(abs(complex(v) - (WL[w] * 1e6 + i + 1j * WL[w] * 1e4 * (i + 1))) < 1e-9 for i, v in enumerate(x["a"]["nks"])))
            wd = [float(v) for v in x["a"]["widths"]]
            c.true("widths in um", len(wd) == lay + 2 and all(abs(wd[i + 1] - widths[i] * 1e6) < 1e-9 for i in range(lay)))
            c.true("options passed on", x["a"]["pol"] == "u" and x["a"]["I_thresh"] == 2.0 ** -10 and x["a"]["mat_i"] == 0 and x["a"]["direction_i"] == 1)
            zs = np.asarray(x["a"]["z_pos"], dtype=float)
        exp = dict(R=0.0, T=0.0, R0=0.0, lost=0.0)
        A = [0.0] * lay
        P = [0.0] * len(zs)
        Ai = {s: [0.0] * nls[s] for s in range(lay + 1) if nls[s]}
        for x in cl:
            q = x["o"]
            if q["kind"] == "up":
                exp["R"] = exp["R"] + q["rest"] / n
                if q["n"] == 0: exp["R0"] = exp["R0"] + q["rest"] / n
            elif q["kind"] == "down": exp["T"] = exp["T"] + q["rest"] / n
            elif q["kind"] == "bulk": exp["lost"] = exp["lost"] + q["rest"] / n
            else:
                s = int(q["kind"][3:])
                for l in range(nls[s]): Ai[s][l] = Ai[s][l] + q["Ai"][l] / n
            for l in range(lay): A[l] = A[l] + q["A"][l + 1] / n
            for z in range(len(zs)): P[z] = P[z] + q["prof"][z] / n
        for k in ("R", "T", "R0"):
            c.true("result per wavelength", np.shape(res[k]) == (nwl,))
            c.eq(k + " is the mean over rays", res[k][w], exp[k], 1e-9)
        c.le("direct reflection within total", res["R0"][w], res["R"][w], 1e-9)
        c.true("shape of A_per_layer", np.shape(res["A_per_layer"]) == (nwl, lay))
        for l in range(lay): c.eq("absorption per layer", res["A_per_layer"][w, l], A[l], 1e-9)
        c.true("shape of profile", np.shape(res["profile"]) == (nwl, len(zs)))
        for z in range(len(zs)): c.eq("depth profile in 1/nm", res["profile"][w, z] * 1e3, P[z], 1e-8)
        tot = res["R"][w] + res["T"][w] + total(flist(res["A_per_layer"][w]))
        for s in Ai:
            ap = res["A_per_interface"][s]
            c.true("shape of interface absorption", np.shape(ap) == (nwl, nls[s]))
            for l in range(nls[s]): c.eq("absorption per interface layer", ap[w, l], Ai[s][l], 1e-9)
            tot = tot + total(flist(ap[w]))
        c.eq("adds up to one", tot + exp["lost"], 1.0, 1e-8)
        c.le("never above one", tot, 1.0, 1e-8)
        c.ge("adds up to one within the threshold", tot, 1.0 - 2.0 ** -10, 1e-8)


def opts(c, which):
    """ray positions drawn at random stay in the requested window; start medium and direction are passed on"""
    nls = [0, 0]
    kw = dict(random_ray_position=True, x_limits=[0.2, 0.6], y_limits=[0.1, 0.3], n_rays=2) if which == "random" else dict(initial_material=1, initial_direction=-1, periodic=0, pol="p", randomize_surface=True)
    S, o, calls, _, widths, mats = setup(c, 1, 1, 1, 1, 1, (), outcomes(c, 1, nls), **kw)
    res = S.calculate(o)
    for x in calls:
        a = x["a"]
        if which == "random":
            c.true("inside the window", both(c, a["x"] >= 0.2, a["x"] <= 0.6, a["y"] >= 0.1, a["y"] <= 0.3))
        else:
            c.true("start passed on", a["mat_i"] == 1 and a["direction_i"] == -1 and a["periodic"] == 0 and a["pol"] == "p" and a["randomize"] is True)
    n = len(calls)
    c.true("every requested ray traced", n == (2 if which == "random" else 1))
    tot = res["R"][0] + res["T"][0] + res["A_per_layer"][0, 0] + total([x["o"]["rest"] for x in calls if x["o"]["kind"] == "bulk"]) / n
    c.eq("adds up to one", tot, 1.0, 1e-8)


def iprof(c, direction):
    """interface depth profile: integrates to the power absorbed in the profile layers, at their depths"""
    nl = 3
    sel = [[1, 2], [1, 3], [2, 3], [2], [1, 2, 3]][c.pick("profile_layers", 5)]
    ds = mktable(sel, nl, [400.0, 500.0][:2 - c.pick("single_wavelength_table", 2)])

    def out(k, nz, w):
        arr = zeros(c, nl)
        for q in range(nl): arr[q] = c.real("Ai_%d_%d" % (k, q), 0.01, 0.3)
        return dict(I=0, prof=zeros(c, nz), A=zeros(c, 3), n=0, Ai=arr, ix=2, loc=[0.2, 0.7][k % 2], dir=direction, phi=0.0, kind="int1", th=None)
    S, o, calls, nls, widths, mats = setup(c, 1, 2, 1, 1, 1, (1,), out, prof=sel, table=ds)
    res = S.calculate(o)
    for q in range(nl): c.eq("absorbed per layer", res["A_per_interface"][1][0, q], (calls[0]["o"]["Ai"][q] + calls[1]["o"]["Ai"][q]) / 2, 1e-9)
    p = flist(res["interface_profiles"][1][0])
    wd = [1e-9 * (q + 1.5) for q in range(nl)]
    zl = [np.arange(0, wd[l - 1] * 1e9, 1.0) for l in sel]
    c.true("depths of the profile layers", len(p) == sum(map(len, zl)))
    c.true("other interface has no profile", len(res["interface_profiles"][0]) == 0)
    want = total([res["A_per_interface"][1][0, l - 1] for l in sel])
    # the code integrates each layer's samples on the joint depth axis with the trapezoidal rule
    # shape within a layer: the tabulated profile, as seen from the side of incidence
    at = 0
    got = 0.0
    for li, l in enumerate(sel):
        n = len(zl[li])
        seg = p[at:at + n]
        for x in seg: c.ge("profile non-negative", x, 0.0, 1e-9)
        e = np.exp(-0.2 * zl[li])
        if direction == -1: e = e[::-1]
        for x in range(n): c.eq("profile shape in the layer", seg[x] * e[0], seg[0] * e[x], 1e-7)
        first, last = li == 0, li == len(sel) - 1
        got = got + total(seg) - (seg[0] / 2 if first else 0.0) - (seg[-1] / 2 if last else 0.0)
        at += n
    c.eq("profile integrates to the absorbed power", got, want, 1e-7)


def mktable(sel, nl, wl=(400.0, 500.0)):
    """a table with concrete per-layer absorption and exponential profiles"""
    import xarray as xr
    th = np.array([0.0, 0.5, 1.0])
    wl = np.array(wl)
    Al = np.zeros((2, 3, len(wl), 3, nl)); Ap = np.zeros((2, 3, len(wl), 3, len(sel), 6))
    for s in range(2):
        for q in range(nl): Al[s, :, :, :, q] = 0.1 * (q + 1) + 0.05 * s
        for q, l in enumerate(sel):
            Ap[s, ..., q, 0] = 0.0; Ap[s, ..., q, 1] = 0.1 * l + 0.01 * s; Ap[s, ..., q, 4] = 0.2
    d1 = xr.Dataset({"Alayer": (("side", "pol", "wl", "angle", "layer"), Al)}, coords={"side": [1, -1], "pol": ["s", "p", "u"], "wl": wl, "angle": th, "layer": list(range(1, nl + 1))})
    d2 = xr.Dataset({"Aprof": (("side", "pol", "wl", "angle", "layer", "coeff"), Ap)}, coords={"side": [1, -1], "pol": ["s", "p", "u"], "wl": wl, "angle": th, "layer": sel, "coeff": ["A1", "A2", "A3_r", "A3_i", "a1", "a3"]})
    ds = xr.merge([d1, d2])
    return ds


def iprof2(c):
    """layer thicknesses that are multiples of the depth spacing: same depths at every wavelength"""
    nl = 3
    sel = [[1, 2], [2, 3], [1, 2, 3]][c.pick("profile_layers", 3)]
    hit = [c.pick("absorbed_%d" % w, 2) for w in range(2)]

    def out(k, nz, w):
        arr = zeros(c, nl)
        for q in range(nl): arr[q] = c.real("Ai_%d_%d" % (k, q), 0.01, 0.3)
        if hit[w]: return dict(I=0, prof=zeros(c, nz), A=zeros(c, 3), n=0, Ai=arr, ix=2, loc=0.2, dir=1, phi=0.0, kind="int1", th=None)
        return dict(I=1, prof=zeros(c, nz), A=zeros(c, 3), n=0, Ai=0, ix=0, loc=0.2, dir=1, phi=0.0, kind="up", th=0.1)
    S, o, calls, nls, widths, mats = setup(c, 1, 1, 1, 1, 2, (1,), out, prof=sel, table=mktable(sel, nl), w0=2)
    res = S.calculate(o)
    pr = res["interface_profiles"][1]
    n = sum(l + 1 for l in sel)
    c.true("one value per depth and wavelength", np.shape(pr) == (2, n))
    for w in range(2):
        c.eq("profile present where light is absorbed", 0.0 if hit[w] else total(flist(pr[w])), 0.0, 1e-9)
