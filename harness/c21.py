"""C21: RCWA structures hand the solver the right stack and report normalised results (histories of evaluations and changes of one rcwa_structure)."""
from .util import *
from .rcwastub import World, RC, INC, recip

ASSUMPTIONS = ["solver results symbolic at the library boundary (Inkstone and S4 replaced by recording stand-ins), one set of answers per stack, unit cell, excitation and frequency; negative absorption allowed where stated",
               "layer widths, indices, pattern coordinates, angles and polarisation amplitudes symbolic (widths concrete where a depth profile is calculated)",
               "1-3 layers, 0-2 patterns per layer, 1-3 wavelengths, histories of up to 3 operations; absorption per order only with S4 (Inkstone does not provide it)"]
BASIS = [(0, 0), (1, 0), (0, -1)]
SIZES = [((700.0, 0.0), (0.0, 700.0)), ((800.0, 0.0), (400.0, 650.0))]
WLS = [[6.3e-7], [5.1e-7, 7.2e-7], [5.1e-7, 7.2e-7, 6.3e-7]]
OPS = ["same", "wavelengths", "more_wavelengths", "widths", "size", "angle", "pol", "shape", "orders"]


class World21(World):
    def key(self, s):
        def q(v):
            if isinstance(v, (tuple, list, np.ndarray)): return tuple(q(x) for x in v)
            if v is None or isinstance(v, str): return v
            return str(v) if core.is_sym(v) else "%.7g" % complex(v).real + "/%.7g" % complex(v).imag
        return (q(s.exc), "%.7g" % float(s.freq), q(s.size), s.orders, tuple((q(l["d"]), q(l["eps"]), tuple((k, q(e), tuple(sorted((a, q(b)) for a, b in kw.items()))) for k, e, kw in l["pats"])) for l in s.stack()))

    def state(self, s):
        key = self.key(s)
        if key in self.memo: return self.memo[key]
        c, i, nl = self.c, len(self.memo), len(s.layers) - 2
        lo = 2.0 ** -10
        A = [c.real("A%d_%d" % (i, l), lo if not self.negative else -0.25, 1.0) for l in range(nl)]
        t = [c.real("t%d_%d" % (i, o), 0.0, 1.0) for o in range(len(self.basis))]
        T = total(t)
        R = 1.0 - T - total(A)
        c.assume(R >= 0.0)
        self.memo[key] = dict(R=R, T=T, A=A, r=[0.0] * len(self.basis), t=t, s=s, exc=s.exc, i=i, dens={}, inner={})
        return self.memo[key]


def instances(tier):
    out = []
    T = tier == "thorough"

    def add(name, fnc, cost=1, both_=True, bounds="", **p):
        for be in ("inkstone", "S4"):
            if not both_ and be == "inkstone": continue
            out.append(dict(name="%s-%s" % (name, be.lower()), fn=fnc, params=dict(be=be, **p), cost=cost, max_s=300 if not T else 1500, bounds=bounds))
    for sh in ("circle", "ellipse", "rectangle", "polygon", "polygon_tuple", "two", "none"):
        add("shape-%s" % sh, shapes, shape=sh, bounds="one pattern type, all coordinates, widths, indices symbolic, two evaluations")
    add("kinds", kinds, bounds="Layer objects and both list forms mixed in any order")
    add("normalised", normalised, nl=2, nwl=1, bounds="2 layers, 1 wavelength, negative absorption and rounding")
    add("orders", per_order, both_=False, bounds="2 layers, 2 wavelengths, 3 orders: absorption per order")
    add("pol", pols, bounds="s, p, u and any amplitudes")
    for a in range(len(OPS)):
        add("history-%s" % OPS[a], history, cost=2, first=a, depth=2, prof=False, bounds="%s then every other change, evaluated after each" % OPS[a])
        add("profile-%s" % OPS[a], history, cost=2, first=a, depth=1, prof=True, bounds="%s then profile, with and without totals first" % OPS[a])
        if T: add("long-%s" % OPS[a], history, cost=5, first=a, depth=3, prof=False, bounds="%s then every two other changes" % OPS[a])
        if T: add("longprofile-%s" % OPS[a], history, cost=5, first=a, depth=2, prof=True, bounds="%s then every other change, profiles" % OPS[a])
    add("depths", depths, bounds="profile at given points, up to a limit, or through the whole structure")
    add("s4-options", s4opts, both_=False, bounds="every S4 option overridden or not, calculations and field queries")
    add("fields", fields, bounds="field, permittivity and integral queries for every layer")
    return out


def build(c, be, specs, size=SIZES[0], wl=WLS[0], w=None, **kw):
    """rcwa_structure of layers given as dict(d, mat, pats, kind)"""
    from solcore.structure import Layer
    cls = fn(c, RC, "rcwa_structure")
    L = []
    for s in specs:
        geo = [dict(g) for g in s["pats"]]
        if s.get("kind", "layer") == "layer": L.append(Layer(s["d"] * 1e-9, s["mat"], geometry=geo))
        elif s["kind"] == "list4": L.append([s["d"], s["n"], s["k"], geo])
        else: L.append([s["d"], np.array([250.0, 1250.0]), np.array([s["n"], s["n"] + 1.0]), np.array([s["k"], s["k"] + 0.5]), geo])
    o = options(wavelength=np.array(wl), theta_in=0.25, phi_in=0.5, pol="s", orders=3, RCWA_method=be, A_per_order=False, depth_spacing=100e-9, parallel=False)
    for k, v in kw.items(): setattr(o, k, v)
    inc, trn = Mat(1.0, 0.0, name="inc"), Mat(3.5, 0.25, name="trn")
    return cls(L, size, o, inc, trn), o


def eps_of(c, s, wl):
    if s.get("kind", "layer") == "layer": return index(c, s["mat"], wl)
    if s["kind"] == "list5": return sq(c, s["n"] + (wl * 1e9 - 250.0) / 1000.0, s["k"] + (wl * 1e9 - 250.0) / 2000.0)
    return sq(c, s["n"], s["k"])


def index(c, m, wl): return sq(c, m.n(wl), m.k(wl))


def sq(c, n, k): return n * n - k * k, 2.0 * n * k


def check_stack(c, s, specs, wls, size, orders, th, ph, pol):
    """one recorded simulation against what the user described"""
    wl = 1e-9 / float(s.freq)
    wi = [x for x in wls if abs(x - wl) < 1e-15]
    c.true("a wavelength that was asked for", len(wi) == 1)
    if len(wi) != 1: return None
    wl = wi[0]
    c.true("unit cell", np.allclose(np.asarray(s.size, dtype=float), np.asarray(size)))
    c.true("number of orders", s.orders == orders)
    st = s.stack()
    c.true("one solver layer per layer", len(st) == len(specs) + 2)
    if len(st) != len(specs) + 2: return None
    for q, e in ((0, (1.0, 0.0)), (-1, sq(c, 3.5, 0.25))):
        z = core.parts(st[q]["eps"])
        c.eq("media", z[0], e[0], 1e-9); c.eq("media", z[1], e[1], 1e-9)
    for l, sp in enumerate(specs):
        g = st[l + 1]
        c.eq("layer thickness", g["d"], sp["d"], 1e-6)
        z, e = core.parts(g["eps"]), eps_of(c, sp, wl)
        c.eq("layer permittivity", z[0], e[0], 1e-9); c.eq("layer permittivity", z[1], e[1], 1e-9)
        c.true("number of patterns", len(g["pats"]) == len(sp["pats"]))
        if len(g["pats"]) != len(sp["pats"]): continue
        for (k, em, kw), want in zip(g["pats"], sp["pats"]):
            c.true("pattern type", k == want["type"])
            if k != want["type"]: continue
            z, e = core.parts(em), index(c, want["mat"], wl)
            c.eq("pattern permittivity", z[0], e[0], 1e-9); c.eq("pattern permittivity", z[1], e[1], 1e-9)
            if k == "polygon":
                cx, cy = want["center"]
                v, off = kw["vertices"], kw.get("center") or (0.0, 0.0)
                c.true("polygon corners", len(v) == len(want["vertices"]))
                for a, b in zip(v, want["vertices"]):
                    c.eq("polygon x", a[0] + off[0], b[0] + cx, 1e-9); c.eq("polygon y", a[1] + off[1], b[1] + cy, 1e-9)
                continue
            for a in want:
                if a in ("type", "mat"): continue
                ga, wa = flist(kw[a]), flist(want[a])
                c.true("pattern " + a, len(ga) == len(wa))
                for x, y in zip(ga, wa): c.eq("pattern " + a, x, y, 1e-9)
    if s.exc is not None and th is not None:
        c.eq("polar angle", s.exc[0], th * 180 / PI, 1e-9); c.eq("azimuth", s.exc[1], ph * 180 / PI, 1e-9)
        c.eq("s amplitude", s.exc[2], pol[0], 1e-9); c.eq("p amplitude", s.exc[3], pol[1], 1e-9)
    return wl


def check_results(c, w, res, mark, specs, wls, size, orders, th, ph, pol, profile=None, must_run=True):
    sims = [s for s in w.made[mark:] if s.freq is not None]
    per = {}
    for s in sims:
        wl = check_stack(c, s, specs, wls, size, orders, th, ph, pol)
        if wl is None: return
        per.setdefault(wl, []).append(s)
    nl = len(specs)
    c.true("every wavelength simulated", not must_run or all(x in per for x in wls))
    R, Tt, A = np.asarray(res["R"], dtype=object), np.asarray(res["T"], dtype=object), np.asarray(res["A_per_layer"], dtype=object)
    ok = np.shape(R) == (len(wls),) and np.shape(Tt) == (len(wls),) and np.shape(A) == (len(wls), nl)
    c.true("shape of the results", ok)
    if not ok: return
    for i, x in enumerate(wls):
        st = w.state(per[x][0]) if x in per else next((v for v in w.memo.values() if matches(c, v["s"], v, specs, x, size, orders, th, ph, pol)), None)
        c.true("results belong to a simulation", st is not None)
        if st is None: return
        c.eq("reflectance", R[i], st["R"], 1e-9)
        c.eq("transmittance", Tt[i], st["T"], 1e-9)
        for l in range(nl): c.eq("absorption per layer, never negative", A[i, l], core.ite(st["A"][l] > 0, st["A"][l], 0.0), 1e-9)
        if profile is None: continue
        P = np.asarray(res["profile"], dtype=object)
        c.true("shape of the profile", np.shape(P) == (len(wls), len(profile)))
        if np.shape(P) != (len(wls), len(profile)): return
        start = [total([s["d"] for s in specs[:q]]) for q in range(nl + 1)]
        for j, z in enumerate(profile):
            l = max(q for q in range(nl) if start[q] <= z + 1e-9)
            g = [st["dens"].get((l + 1, round(z - start[l], 5)))] if st["dens"].get((l + 1, round(z - start[l], 5))) is not None else []
            c.true("profile evaluated at its depth", len(g) == 1)
            if g: c.eq("absorption density at its depth", P[i, j], core.ite(g[0] > 0, g[0], 0.0), 1e-4)


def matches(c, s, v, specs, wl, size, orders, th, ph, pol):
    """does this (concrete) simulation describe the current structure and light?"""
    if abs(1e-9 / float(s.freq) - wl) > 1e-15 or s.orders != orders or not np.allclose(np.asarray(s.size), np.asarray(size)): return False
    e = v["exc"]
    if max(abs(float(e[0]) - th * 180 / PI), abs(float(e[1]) - ph * 180 / PI), abs(float(e[2]) - pol[0]), abs(float(e[3]) - pol[1])) > 1e-9: return False
    st = s.stack()
    for l, sp in enumerate(specs):
        if abs(float(st[l + 1]["d"]) - sp["d"]) > 1e-6: return False
        for (k, em, kw), want in zip(st[l + 1]["pats"], sp["pats"]):
            for a in want:
                if a not in ("type", "mat") and not np.allclose(np.asarray(kw[a], dtype=float), np.asarray(want[a], dtype=float)): return False
    return True


def mat(c, name, lo=1.0): return Mat(n=c.real("n_" + name, lo, 4.0), k=c.real("k_" + name, 0.0, 1.0), name=name)


def shapes(c, be, shape):
    w = World21(c, BASIS)
    v = lambda n, lo=-100.0, hi=100.0: c.real(n, lo, hi)
    m0, m1 = mat(c, "pattern"), mat(c, "other")
    geo = {"circle": [dict(type="circle", mat=m0, center=(v("cx"), v("cy")), radius=v("r", 1.0))],
           "ellipse": [dict(type="ellipse", mat=m0, center=(v("cx"), v("cy")), angle=v("an", 0, 90), halfwidths=(v("hx", 1.0), v("hy", 1.0)))],
           "rectangle": [dict(type="rectangle", mat=m0, center=(v("cx"), v("cy")), angle=v("an", 0, 90), halfwidths=(v("hx", 1.0), v("hy", 1.0)))],
           "polygon": [dict(type="polygon", mat=m0, center=(v("cx"), v("cy")), angle=0.0, vertices=[(v("x%d" % i), v("y%d" % i)) for i in range(3)])],
           "polygon_tuple": [dict(type="polygon", mat=m0, center=(v("cx"), v("cy")), angle=0.0, vertices=tuple((v("x%d" % i), v("y%d" % i)) for i in range(3)))],
           "two": [dict(type="circle", mat=m0, center=(v("cx"), v("cy")), radius=v("r", 1.0)), dict(type="rectangle", mat=m1, center=(v("dx"), v("dy")), angle=v("an", 0, 90), halfwidths=(v("hx", 1.0), v("hy", 1.0)))],
           "none": []}[shape]
    specs = [dict(d=v("w0", 1.0, 500.0), mat=mat(c, "a"), pats=[]), dict(d=v("w1", 1.0, 500.0), mat=mat(c, "b"), pats=geo), dict(d=v("w2", 1.0, 500.0), mat=mat(c, "c"), pats=geo[::-1] if shape == "two" else [])]
    keep = [dict(g, vertices=[tuple(p) for p in g["vertices"]]) if "vertices" in g else dict(g) for g in geo]
    want = [dict(s, pats=keep if s["pats"] is geo else (keep[::-1] if s["pats"] else [])) for s in specs]
    s, o = build(c, be, specs)
    for turn in range(2):
        mark = len(w.made)
        res = s.calculate(o)
        check_results(c, w, res, mark, want, WLS[0], SIZES[0], 3, 0.25, 0.5, (1, 0))


def kinds(c, be):
    w = World21(c, BASIS)
    specs = []
    for i in range(3):
        k = ("layer", "list4", "list5")[c.pick("kind%d" % i, 3)]
        if k == "layer": specs.append(dict(d=50.0 + i, mat=mat(c, "m%d" % i), pats=[], kind=k))
        else: specs.append(dict(d=50.0 + i, n=1.5 + i, k=0.25 * i, pats=[], kind=k))
    shp = mat(c, "shape")
    specs[1]["pats"] = [dict(type="circle", mat=shp, center=(1.0, 2.0), radius=30.0)]
    s, o = build(c, be, specs)
    for wl in (WLS[0], WLS[1]):
        o.wavelength = np.array(wl)
        mark = len(w.made)
        res = s.calculate(o)
        check_results(c, w, res, mark, specs, wl, SIZES[0], 3, 0.25, 0.5, (1, 0))


def normalised(c, be, nl, nwl):
    w = World21(c, BASIS, negative=True)
    specs = [dict(d=100.0 + i, mat=Mat(2.0 + i, 0.1, name="m%d" % i), pats=[]) for i in range(nl)]
    wl = WLS[nwl - 1]
    s, o = build(c, be, specs, wl=wl)
    res = s.calculate(o)
    check_results(c, w, res, 0, specs, wl, SIZES[0], 3, 0.25, 0.5, (1, 0))


def per_order(c, be):
    w = World21(c, BASIS)
    specs = [dict(d=100.0 + i, mat=Mat(2.0 + i, 0.1, name="m%d" % i), pats=[]) for i in range(2)]
    s, o = build(c, be, specs, wl=WLS[1], A_per_order=True)
    res = s.calculate(o)
    check_results(c, w, res, 0, specs, WLS[1], SIZES[0], 3, 0.25, 0.5, (1, 0))
    got = np.asarray(res["A_layer_order"], dtype=object)
    c.true("shape", np.shape(got) == (2, 2, 3))
    c.true("orders", [tuple(b) for b in res["basis_set"]] == BASIS)
    c.true("reciprocal lattice", np.allclose(np.asarray(res["reciprocal"], dtype=float), recip(SIZES[0])))
    if np.shape(got) != (2, 2, 3): return
    for i, x in enumerate(WLS[1]):
        st = next(v for v in w.memo.values() if abs(1e-9 / float(v["s"].freq) - x) < 1e-15)
        for l in range(2):
            top = st["inner"][l + 1]
            bot = st["inner"][2] if l == 0 else st["t"]
            for q in range(3): c.eq("absorption per order", got[i, l, q], top[q] - bot[q], 1e-9)


def pols(c, be):
    w = World21(c, BASIS)
    specs = [dict(d=100.0, mat=mat(c, "a"), pats=[])]
    k = c.pick("kind", 5)
    a, b = c.real("ps", -1.0, 1.0), c.real("pp", -1.0, 1.0)
    th, ph = c.real("theta", 0.0, 1.5), c.real("phi", -3.0, 6.0)
    pol, want = [("s", (1, 0)), ("p", (0, 1)), ("u", (math.sqrt(0.5), math.sqrt(0.5))), ((a, b), (a, b)), ([a, b], (a, b))][k]
    s, o = build(c, be, specs, pol=pol, theta_in=th, phi_in=ph)
    res = s.calculate(o)
    check_results(c, w, res, 0, specs, WLS[0], SIZES[0], 3, th, ph, want)


def history(c, be, first, depth, prof):
    w = World21(c, BASIS)
    shp = Mat(n=lambda wl: np.asarray(wl) * 1e6 + 1.0, k=0.25, name="shape")
    specs = [dict(d=200.0, mat=Mat(n=lambda wl: np.asarray(wl) * 1e6 + 1.5, k=0.1, name="a"), pats=[dict(type="circle", mat=shp, center=(1.0, 2.0), radius=30.0)]), dict(d=150.0, mat=Mat(2.5, 0.125, name="b"), pats=[])]
    s, o = build(c, be, specs, wl=WLS[1])
    st = dict(specs=specs, wls=WLS[1], size=SIZES[0], orders=3, th=0.25, ph=0.5, pol=(1, 0))

    def go():
        mark = len(w.made)
        if not prof:
            res = s.calculate(o)
            check_results(c, w, res, mark, st["specs"], st["wls"], st["size"], st["orders"], st["th"], st["ph"], st["pol"])
        else:
            res = s.calculate_profile(o)
            z, zs = 0.0, []
            while z < sum(x["d"] for x in st["specs"]) - 1e-9: zs.append(z); z += 100.0
            check_results(c, w, res, mark, st["specs"], st["wls"], st["size"], st["orders"], st["th"], st["ph"], st["pol"], profile=zs, must_run=False)

    if c.flag("evaluate_first"):
        if prof and c.flag("totals_first"): s.calculate(o)
        else: go()
    for i in range(depth):
        op = OPS[first if i == 0 else c.pick("op%d" % i, len(OPS))]
        if op == "wavelengths": st["wls"] = WLS[1][::-1]
        elif op == "more_wavelengths": st["wls"] = WLS[2]
        elif op == "widths":
            st["specs"] = [dict(x, d=x["d"] + 37.3 + i) for x in st["specs"]]
            s.set_widths([x["d"] for x in st["specs"]])
        elif op == "size": st["size"] = SIZES[1]; s.set_size(SIZES[1])
        elif op == "angle": st["th"], st["ph"] = 0.75 + i * 0.125, 1.25
        elif op == "pol": st["pol"] = (0, 1)
        elif op == "shape":
            p = dict(st["specs"][0]["pats"][0], radius=45.0 + i)
            st["specs"] = [dict(st["specs"][0], pats=[p])] + st["specs"][1:]
            s.edit_geom_list(1, 0, {"radius": 45.0 + i})
        elif op == "orders": st["orders"] = 5
        o.wavelength, o.theta_in, o.phi_in, o.pol, o.orders = np.array(st["wls"]), st["th"], st["ph"], "s" if st["pol"] == (1, 0) else "p", st["orders"]
        if i < depth - 1 and not c.flag("evaluate_after_%d" % i): continue
        go()


def depths(c, be):
    w = World21(c, BASIS, negative=False)
    w.neg_density = True
    specs = [dict(d=200.0, mat=Mat(1.5, 0.1, name="a"), pats=[]), dict(d=150.0, mat=Mat(2.5, 0.125, name="b"), pats=[])]
    s, o = build(c, be, specs, wl=WLS[1], depth_spacing=70e-9)
    k = c.pick("where", 3)
    if k == 1: o.z_limit = 230.0
    if k == 2: o.z_points = np.array([10.0, 205.0, 340.0, 60.0])
    lim = 350.0 if k == 0 else 230.0
    zs = [i * 70.0 for i in range(10) if i * 70.0 < lim] if k < 2 else [10.0, 205.0, 340.0, 60.0]
    res = s.calculate_profile(o)
    check_results(c, w, res, 0, specs, WLS[1], SIZES[0], 3, 0.25, 0.5, (1, 0), profile=zs)


def s4opts(c, be):
    w = World21(c, BASIS)
    base = dict(LatticeTruncation="Circular", DiscretizedEpsilon=False, DiscretizationResolution=8, PolarizationDecomposition=False, PolarizationBasis="Default", LanczosSmoothing=False, SubpixelSmoothing=False, ConserveMemory=False, WeismannFormulation=False, Verbosity=0)
    other = dict(LatticeTruncation="Parallelogramic", DiscretizedEpsilon=True, DiscretizationResolution=16, PolarizationDecomposition=True, PolarizationBasis="Normal", LanczosSmoothing=True, SubpixelSmoothing=True, ConserveMemory=True, WeismannFormulation=True, Verbosity=3)
    names = sorted(base)
    k = c.pick("changed", len(names) + 1)
    user = {names[k]: other[names[k]]} if k < len(names) else dict(other)
    want = dict(base, **user)
    specs = [dict(d=200.0, mat=Mat(1.5, 0.1, name="a"), pats=[])]
    s, o = build(c, be, specs, S4_options=dict(user))
    if k < len(names) and c.flag("absent") and hasattr(o, "S4_options"):
        want = dict(base)
        s, o = build(c, be, specs, S4_options={})
    s.calculate(o); s.calculate_profile(o)
    if hasattr(s, "make_S"): s.make_S(o, 0)
    for x in w.made: c.true("S4 options", x.opts == want)


def fields(c, be):
    w = World21(c, BASIS)
    from . import rcwastub
    specs = [dict(d=200.0, mat=mat(c, "a"), pats=[]), dict(d=150.0, mat=mat(c, "b"), pats=[])]
    s, o = build(c, be, specs, wl=WLS[1], pol="p", theta_in=0.25)
    li = 1 + c.pick("layer", 3)
    wi = c.pick("wavelength", 2)
    start = [0.0, 200.0, 350.0][li - 1]
    nm = WLS[1][wi] * 1e9
    asked = []

    def vec(): return (np.array([1.0, 2.0, 3.0]), np.array([3.0, 2.0, 1.0]))
    S4, I = rcwastub.S4Stub, rcwastub.InkstoneStub
    S4.GetEpsilon = lambda self, x, y, z: asked.append(("z", z, self)) or (2.0 + 1.0j)
    S4.GetFields = lambda self, x, y, z: asked.append(("z", z, self)) or vec()
    S4.GetLayerZIntegral = lambda self, Layer, xy: asked.append(("layer", self.index(Layer), self)) or vec()
    S4.GetFieldsOnGrid = lambda self, z, NumSamples, Format: asked.append(("z", z, self)) or (0, 0)
    I.ReconstructLayer = lambda self, layer, nx, ny: asked.append(("layer", self.index(layer), self)) or (np.arange(nx), np.arange(ny), np.ones((nx, ny, 3, 3), dtype=complex), None)
    I.GetLayerFields = lambda self, x, y, z, layer: asked.append(("in", self.index(layer), self, z)) or tuple(np.ones((len(x), len(y), 1)) for _ in range(6))
    what = c.pick("what", 4)
    light = False
    if what == 0: s.get_fourier_epsilon(li, nm, o, n_points=2, plot=False)
    elif what == 1: s.get_fields(li, nm, o, depth=25.0, n_points=2, plot=False); light = True
    elif be == "S4" and what == 2: s.get_fields_z_integral(li, nm, o, n_points=2, plot=False); light = True
    elif be == "S4": s.get_fields_unit_cell(li, nm, o, depth=25.0, n_points=2); light = True
    else: return
    c.true("the solver is asked", len(asked) > 0)
    for a in asked:
        if a[0] == "z":
            z = float(a[1])
            c.true("depth inside the requested layer", start - 1e-9 < z and (li == 3 or z < start + specs[li - 1]["d"]) and (what == 0 or abs(z - start - 25.0) < 1e-9))
        else: c.true("requested layer", a[1] == li and (a[0] == "layer" or abs(float(a[3]) - 25.0) < 1e-9))
        sim = a[2]
        if light: check_stack(c, sim, specs, [WLS[1][wi]], SIZES[0], 3, 0.25, 0.5, (0, 1))
        else:
            z, e = core.parts(sim.stack()[1]["eps"]), eps_of(c, specs[0], WLS[1][wi])
            c.eq("permittivity of the wavelength", z[0], e[0], 1e-9); c.eq("permittivity of the wavelength", z[1], e[1], 1e-9)
