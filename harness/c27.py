"""C27: process_structure computes every interface with its own media, method, layers and sides (all generators replaced by recorders)."""
import os
from .util import *

PST, MM, UT = "rayflare.matrix_formalism.process_structure", "rayflare.matrix_formalism.multiply_matrices", "rayflare.utilities"
ASSUMPTIONS = ["the generators of matrices and lookup tables (C08, C18, C19, C20, C28) are replaced by recorders that store arbitrary matrices under the paths get_matrices_or_paths gives them (C24)",
               "1-3 interfaces with distinct media, layers, textures and names; layer widths symbolic; mirror and diffuser as the last interface only",
               "the multiplication step is run for structures of two interfaces around one bulk layer with one angular bin"]
KINDS = [("TMM", True, None), ("TMM", False, [1]), ("TMM", True, [2, 1]), ("RT_TMM", True, [2]), ("RT_TMM", False, None), ("RT_TMM", True, None), ("RCWA", True, None), ("RCWA", True, [1, 2]), ("RT_Fresnel", True, None), ("Mirror", True, None), ("Lambertian", True, None)]
FIRST = KINDS[:9]


def instances(tier):
    out = []
    T = tier == "thorough"
    for i, k in enumerate(FIRST):
        out.append(dict(name="two-%d-%s" % (i, k[0]), fn=run, params=dict(first=i, n=2), cost=4, max_s=400, max_paths=3000, bounds="first interface %s (coherent %s, profile %s), any second interface, overwrite or not, incidence direction only or not" % k))
        out.append(dict(name="one-%d-%s" % (i, k[0]), fn=run, params=dict(first=i, n=1), cost=1, bounds="single interface %s" % k[0]))
        if T or i in (0, 3, 6): out.append(dict(name="three-%d-%s" % (i, k[0]), fn=run, params=dict(first=i, n=3), cost=5, max_s=600, max_paths=6000, bounds="first interface %s, any second and third" % k[0]))
    out.append(dict(name="same-kind", fn=run, params=dict(first=None, n=2), cost=2, bounds="two interfaces of the same kind"))
    return out


def run(c, first, n):
    ps = fn(c, PST, "process_structure")
    I, B, S = (fn(c, "rayflare.structure", x) for x in ("Interface", "BulkLayer", "Structure"))
    gp = fn(c, UT, "get_matrices_or_paths")
    from solcore.structure import Layer
    d = c.scratch()
    kinds = []
    for i in range(n):
        last = i == n - 1
        if i == 0: k = FIRST[first] if first is not None else FIRST[c.pick("kind_0", len(FIRST))]
        elif first is None: k = kinds[0]
        elif n == 3 and i == 1: k = FIRST[c.pick("kind_1", len(FIRST))]
        elif n == 3: k = KINDS[(0, 4, 9)[c.pick("kind_2", 3)]]
        else: k = KINDS[c.pick("kind_%d" % i, len(KINDS))]
        kinds.append(k)
    ow = bool(c.flag("overwrite"))
    oia = bool(c.flag("only_incidence_angle"))
    linear = n == 2 and kinds[1][0] in ("Mirror", "Lambertian") and bool(c.flag("linear_spacing"))
    inc, trn = Mat(n=1.0, name="inc"), Mat(n=1.0, name="trn")
    bulk = [Mat(n=3.0 + i, k=0.0, name="bulk%d" % i) for i in range(n - 1)]
    spec, parts = [], []
    for i, (meth, coh, prof) in enumerate(kinds):
        w = [c.real("width_%d_%d" % (i, l), 1e-9, 1e-6) for l in range(2)]
        lay = [] if meth in ("RT_Fresnel", "Mirror", "Lambertian") else [Layer(w[l], Mat(n=1.5 + l, name="m%d_%d" % (i, l))) for l in range(2)]
        name = ("front", "a", "a_rear")[i]
        kw = {}
        tex = None
        if meth.startswith("RT"): tex = ["texture %d" % i]
        if meth == "RCWA": kw = dict(d_vectors=((500.0 + i, 0), (0, 400.0)), rcwa_orders=9 + i)
        if not coh: kw["coherency_list"] = [["c", "i"], ["i", "c"], ["i", "i"]][i]
        p = None if prof is None else list(prof)
        s = I(meth, layers=lay, texture=tex, prof_layers=p, coherent=coh, name=name, **kw)
        spec.append(dict(meth=meth, coh=coh, prof=p, lay=lay, w=w[:len(lay)], name=name, tex=tex, kw=kw, above=inc if i == 0 else bulk[i - 1], below=trn if i == n - 1 else bulk[i], last=i == n - 1))
        parts.append(s)
        if i < n - 1: parts.append(B(1e-4 * (i + 1), bulk[i], name="b%d" % i))
    SC = S(parts, incidence=inc, transmission=trn)
    o = options(n_theta_bins=1 if not linear else 2, c_azimuth=1.0 if not linear else 0.5, phi_symmetry=PI / 2, wavelength=np.array([5e-7]), only_incidence_angle=oia, I_thresh=0.75, theta_in=0.3, phi_in="all")
    if linear: o.theta_spacing = "linear"
    na = len(grid(1 if not linear else 2, PI / 2, 1.0 if not linear else 0.5, "sin")[2]) // 2
    calls, vals = [], {}

    def store(path, name, side, prof, nlay):
        ex, p = gp(path, name, side, prof, True)
        key = name, side
        if key not in vals:
            R, A = c.real("R_%s_%s" % key, 0.0, 0.03125), c.real("A_%s_%s" % key, 0.0, 0.03125)
            vals[key] = (R, 1.0 - R - A, A)
        R, T, A = vals[key]
        M, AA = zeros(c, (1, 2 * na, na)), zeros(c, (1, max(nlay, 1), na))
        for j in range(na):
            M[0, j, j], M[0, na + j, j] = (R, T) if side == "front" else (T, R)
            for l in range(max(nlay, 1)): AA[0, l, j] = A / float(max(nlay, 1))
        save_npz(c, p[0], M)
        save_npz(c, p[1], AA)
        if prof is not None:
            import xarray as xr
            q, it = zeros(c, (1, 1, na)), zeros(c, (1, na))
            q.fill(np.float64(0.5)); it.fill(np.float64(0.5))
            xr.Dataset({"profile": (("wl", "z", "global_index"), q), "intgr": (("wl", "global_index"), it)}, coords={"global_index": np.arange(na)}).to_netcdf(p[2])

    def rec(what, need, nm="surf_name"):
        def go(a):
            a = dict(a)
            if "structure" in a: a["layers"] = a["structure"]
            calls.append((what, a))
            if what != "lookup": store(a["structpath"], a[nm], a.get("front_or_rear", "front"), a.get("prof_layers", a.get("calc_profile")), len(spec[[s["name"] for s in spec].index(a[nm])]["lay"]) if a[nm] in [s["name"] for s in spec] else 1)
            return None
        real = {"TMM": "TMM", "RT": "RT", "RCWA": "RCWA", "lookup": "make_TMM_lookuptable", "mirror": "mirror_matrix", "lambertian": "lambertian_matrix"}[what]
        replace(c, PST, real, go, need)
    common = ("surf_name", "structpath", "overwrite")
    rec("TMM", common + ("layers", "incidence", "transmission", "options", "coherent", "coherency_list", "prof_layers", "front_or_rear", "save"))
    rec("RT", common + ("group", "incidence", "transmission", "options", "Fr_or_TMM", "front_or_rear", "n_absorbing_layers", "calc_profile", "only_incidence_angle", "widths", "save"))
    rec("RCWA", common + ("structure", "size", "orders", "options", "incidence", "transmission", "only_incidence_angle", "prof_layers", "front_or_rear", "save"))
    rec("lookup", common + ("layers", "incidence", "transmission", "options", "coherent", "coherency_list", "prof_layers", "sides"))
    rec("mirror", common + ("angle_vector", "theta_intv", "phi_intv", "options", "front_or_rear", "save"))
    rec("lambertian", common + ("angle_vector", "theta_intv", "front_or_rear", "save"))
    ps(SC, o, save_location=d, overwrite=ow)
    where = os.path.join(os.path.realpath(d), o.project_name)
    expect = 0
    for i, s in enumerate(spec):
        mine = [(j, w, a) for j, (w, a) in enumerate(calls) if a["surf_name"] == s["name"]]
        sides = ["front"] + ([] if s["last"] else ["rear"])
        kind = {"TMM": "TMM", "RT_TMM": "RT", "RT_Fresnel": "RT", "RCWA": "RCWA", "Mirror": "mirror", "Lambertian": "lambertian"}[s["meth"]]
        mats = [x for x in mine if x[1] == kind]
        c.true("computed once for each side it is reached from", sorted(x[2]["front_or_rear"] for x in mats) == sorted(sides if kind not in ("mirror", "lambertian") else ["front"]))
        tabs = [x for x in mine if x[1] == "lookup"]
        c.true("lookup table if and only if ray-traced with layers", len(tabs) == (1 if s["meth"] == "RT_TMM" else 0))
        c.true("no other method", len(mine) == len(mats) + len(tabs))
        expect += len(mine)
        for j, what, a in mine:
            c.true("save location and project", os.path.realpath(a["structpath"]) == where)
            c.true("overwriting as requested", bool(a["overwrite"]) == ow)
            if "save" in a: c.true("stored", bool(a["save"]))
            if "incidence" in a: c.true("media directly above and below", a["incidence"] is s["above"] and a["transmission"] is s["below"])
            if "layers" in a: c.true("its own layers", len(a["layers"]) == len(s["lay"]) and all(x is y for x, y in zip(a["layers"], s["lay"])))
            if "coherent" in a:
                c.true("coherent as requested", bool(a["coherent"]) == s["coh"])
                if not s["coh"]: c.true("its own coherency list", list(a["coherency_list"]) == s["kw"]["coherency_list"])
            pl = a.get("prof_layers", a.get("calc_profile"))
            c.true("its own profile layers", (None if pl is None else [int(v) for v in pl]) == s["prof"])
            if "options" in a: c.true("the options", a["options"]["project_name"] == o.project_name and a["options"]["n_theta_bins"] == o.n_theta_bins)
            if what == "RT":
                c.true("its own texture", len(a["group"].textures) == 1 and a["group"].textures[0] is s["tex"])
                c.true("bare or with layers", int(a["Fr_or_TMM"]) == (1 if s["meth"] == "RT_TMM" else 0))
                c.true("incidence direction only for front incidence on the first interface", bool(a["only_incidence_angle"]) == (oia and i == 0 and a["front_or_rear"] == "front"))
                if s["meth"] == "RT_TMM":
                    c.true("number of layers", a["n_absorbing_layers"] == len(s["lay"]))
                    w = list(a["widths"])
                    c.true("one width per layer", len(w) == len(s["w"]))
                    for x, y in zip(w, s["w"]): c.eq("widths in nm", x, y * 1e9, 1e-6)
                    c.true("lookup table before the ray tracing", bool(tabs) and tabs[0][0] < j)
            if what == "RCWA":
                c.true("unit cell and orders", a["size"] == s["kw"]["d_vectors"] and a["orders"] == s["kw"]["rcwa_orders"])
                c.true("all directions", not a["only_incidence_angle"])
            if what == "lookup": c.true("both sides", sorted(a["sides"] or [1, -1]) == [-1, 1])
            if what in ("mirror", "lambertian"):
                th, ph, rows = grid(o.n_theta_bins, PI / 2, o.c_azimuth, "linear" if linear else "sin")
                v = np.asarray(a["angle_vector"], dtype=float)
                c.true("the angular grid of the calculation", np.shape(v) == (len(rows), 3) and np.allclose(v, [[r[0], r[1], r[2]] for r in rows]) and np.allclose(np.asarray(a["theta_intv"], dtype=float), th))
    c.true("nothing computed for other names", expect == len(calls))
    if n != 2: return
    rat = fn(c, "rayflare.matrix_formalism", "calculate_RAT")
    c.limit_decisions(3)
    res = rat(SC, o, save_location=d)
    c.limit_decisions(10 ** 6)
    p = res[1]
    f, b = vals[spec[0]["name"], "front"], vals[spec[1]["name"], "front"]
    first = lambda x: total(flist(np.asarray(x, dtype=object)[0]))
    c.eq("first reflection is that of the first interface", first(p["r"][0]), f[0], 1e-9)
    c.eq("first absorption is that of the first interface", first(p["a"][0]), f[2], 1e-9)
    c.eq("light below is that transmitted by both", first(p["t"][0]), f[1] * b[1], 1e-9)
    c.eq("absorption of the second interface", first(p["a"][1]), f[1] * b[2], 1e-9)
    want = [s for s in spec if s["prof"] is not None]
    c.true("profiles of the interfaces which request them", (len(res) == 4 and len(res[2]) == len(want)) if want else len(res) == 2)
