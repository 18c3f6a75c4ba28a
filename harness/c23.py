"""C23: the generation function puts every profile at its depth, in 1/m, and zero elsewhere."""
from .util import *
from .c15 import Lay
from .c16 import TM
import types, importlib

UT, RT, ST, PS = "rayflare.utilities", "rayflare.ray_tracing.rt", "rayflare.structure", "rayflare.matrix_formalism.process_structure"
ASSUMPTIONS = ["layout of the stored profiles as the calculations produce it (C15, C18-C21): TMM/RCWA interfaces and planar/RCWA structures on one grid through all layers, a point belonging to the layer whose front edge is at or before it; ray-traced interfaces from the front of each layer; bulk layers of ray-traced structures on one grid through all bulks",
               "the interpolator (solcore interp1d, third party) is replaced while symbolic by one that returns the stored values at the stored depths; the real one is used on replay",
               "matrix structures: one bulk (all the code base supports); tmm/rcwa structures: profile of all layers",
               "widths from a list (multiples of the spacing, other fractions, values whose floating-point rounding straddles a grid point); all profile values symbolic"]
# layer widths of the two interfaces (nm), depth spacing (nm)
GEO = {"multiple": ([32.0, 16.0], [24.0, 8.0], 8.0), "fraction": ([20.0, 12.0], [28.0, 10.0], 8.0), "rounding": None, "three": ([10.0, 10.0, 10.0], [9.0, 9.0, 9.0], 4.0)}
SPECIAL = {"rounding": ([3.0000000000000004e-09, 2e-09], [3.0000000000000004e-09, 6.000000000000001e-09], 1e-9)}


def geometry(g):
    if g in SPECIAL: return SPECIAL[g]
    a, b, ds = GEO[g]
    return [x * 1e-9 for x in a], [x * 1e-9 for x in b], ds * 1e-9


def instances(tier):
    out = []
    T = tier == "thorough"
    combos = [("TMM", "TMM"), ("TMM", "RT_TMM"), ("RT_TMM", "TMM"), ("RCWA", "RT_TMM"), ("TMM", "RT_Fresnel"), ("Mirror", "RCWA")]
    if T: combos = [(a, b) for a in ("TMM", "RT_TMM", "RCWA", "RT_Fresnel", "Lambertian") for b in ("TMM", "RT_TMM", "RCWA", "RT_Fresnel", "Mirror")]
    for g in GEO:
        for a, b in combos:
            if g == "three" and not T and (a, b) not in (("TMM", "RT_TMM"), ("RT_TMM", "TMM")): continue
            out.append(dict(name="matrix-%s-%s-%s" % (g, a, b), fn=matrix, params=dict(g=g, ma=a, mb=b, nwl=1), cost=2, max_s=300, max_paths=400, bounds="widths %s, %s over %s, every subset of profile layers and of bulk profile" % (g, a, b)))
    out.append(dict(name="matrix-wavelengths", fn=matrix, params=dict(g="fraction", ma="TMM", mb="RT_TMM", nwl=2), bounds="2 wavelengths", max_s=300))
    for g in GEO:
        for which in ("planar", "rcwa"):
            out.append(dict(name="%s-%s" % (which, g), fn=stack, params=dict(g=g, which=which), bounds="2-3 layers, widths %s, profile of all layers" % g))
    for g in ("multiple", "fraction", "three"):
        for tmm in ((), (0,), (1,), (0, 1), (2,), (0, 2), (0, 1, 2)) if g != "three" or T else ((0, 1),):
            for bulks in (("multiple", "fraction", "rounding", "more") if tmm in ((0,), (0, 1)) or T else ("fraction",)):
                out.append(dict(name="rays-%s-%s-%s" % (g, "".join(map(str, tmm)) or "none", bulks), fn=rays, params=dict(g=g, tmm=tmm, bulks=bulks), max_s=300, bounds="ray-traced structure, lookup tables on surfaces %s, every subset of profile layers, bulk widths %s" % (tmm, bulks)))
    return out


def interpolator(c):
    if not c.symbolic: return

    class Exact:
        def __init__(self, x, y, *a, **k):
            self.x, self.y = np.asarray(x, dtype=float), y
            c.true("one value per position", np.shape(y)[-1] == len(self.x))

        def __call__(self, x):
            x = np.asarray(x, dtype=float)
            ix = [int(np.argmin(np.abs(self.x - v))) for v in x]
            c.true("asked at stored positions", all(self.x[i] == v for i, v in zip(ix, x)))
            return np.asarray(self.y)[:, ix]
    m = importlib.import_module(UT)
    if hasattr(m, "interp1d"): c.patch(m, "interp1d", Exact)
    import solcore.interpolate as si
    c.patch(si, "interp1d", Exact)


def global_points(widths, ds):
    """grid points (nm) of an equally spaced profile, with the layer to which each belongs"""
    import solcore
    w = [solcore.asUnit(x, "nm") for x in widths]
    edges = np.cumsum([0.0] + w)
    z = np.arange(0, float(np.sum(np.array(w))), ds * 1e9)
    return [(float(v), max(l for l in range(len(w)) if v >= edges[l]) + 1) for v in z if v < edges[-1]]


def layer_points(widths, ds):
    out, off = [], 0.0
    for l, w in enumerate(widths):
        n = int(math.ceil(w / ds - 1e-6))
        out += [(off + i * ds * 1e9, l + 1) for i in range(n)]
        off += w * 1e9
    return out


def subset(c, name, n):
    k = [l for l in range(1, n + 1) if c.flag("%s_%d" % (name, l))]
    return k or None


def check(c, positions, f, want, nwl, end):
    """want: list of (depth in m, [value per wavelength, 1/m])"""
    pos = [float(v) for v in flist(positions)]
    c.true("number of positions", len(pos) == len(want))
    if len(pos) != len(want): return
    c.true("every depth at its true position", all(abs(a - b[0]) <= 1e-13 for a, b in zip(pos, want)))
    c.true("increasing", all(b > a for a, b in zip(pos, pos[1:])) and (not pos or pos[-1] <= end))
    got = np.asarray(f(np.array(pos)), dtype=object)
    c.true("one row per wavelength", got.shape == (nwl, len(pos)))
    if got.shape != (nwl, len(pos)): return
    for i, (z, v) in enumerate(want):
        for w in range(nwl):
            c.eq("absorption density", got[w, i], v[w], 1e-6 * (1 if not core.is_sym(v[w]) else 1))


def values(c, name, nwl, n):
    a = zeros(c, (nwl, n))
    for w in range(nwl):
        for i in range(n): a[w, i] = c.real("%s_%d_%d" % (name, w, i), 0.0, 1.0)
    return a


def matrix(c, g, ma, mb, nwl):
    import xarray as xr
    f = fn(c, UT, "make_absorption_function")
    interpolator(c)
    Interface, Bulk, Structure = fn(c, ST, "Interface"), fn(c, ST, "BulkLayer"), fn(c, ST, "Structure")
    from solcore.structure import Layer
    wa, wb, ds = geometry(g)
    m = Mat(1.5, 0.1)
    parts, wl = [], np.array([4e-7, 5e-7][:nwl])
    for meth, w, nm in ((ma, wa, "front"), (mb, wb, "rear")):
        has = meth in ("TMM", "RT_TMM", "RCWA")
        pl = subset(c, "prof_" + nm, len(w)) if has else None
        parts.append((Interface(meth, layers=[Layer(x, m) for x in w] if has else None, prof_layers=pl, name=nm, coherent=True), w if has else [], pl, meth))
    bulk = bool(c.flag("bulk"))
    wbulk, dsb = (8e-6, 2e-6) if g == "multiple" else (7e-6, 2e-6)
    SC = Structure([parts[0][0], Bulk(wbulk, m, name="b"), parts[1][0]], incidence=m, transmission=m)
    o = options(wavelength=wl, depth_spacing=ds, depth_spacing_bulk=dsb, bulk_profile=bulk)
    result, want, off = [None, None], [], 0.0
    profs = []
    for k, (itf, w, pl, meth) in enumerate(parts):
        pts = layer_points(w, ds) if meth == "RT_TMM" else global_points(w, ds) if w else []
        sel = [i for i, (z, l) in enumerate(pts) if pl is not None and l in pl]
        v = values(c, "p%d" % k, nwl, len(sel))
        if pl is not None: profs.append(xr.DataArray(v, dims=["wl", "z"], coords={"wl": wl}, name="A_profile%d" % k))
        val = {i: [v[q, j] * 1e9 for q in range(nwl)] for j, i in enumerate(sel)}
        want += [(off + z * 1e-9, val.get(i, [0.0] * nwl)) for i, (z, l) in enumerate(pts)]
        off += sum(w)
        if k == 0:
            nb = len(np.arange(0, wbulk, dsb))
            b = values(c, "b", nwl, nb)
            want += [(off + i * dsb, [b[q, i] if bulk else 0.0 for q in range(nwl)]) for i in range(nb)]
            off += wbulk
    if profs or bulk: result += [profs, [b] if bulk else [0.0]]
    r = f(result, SC, o)
    c.true("positions and function", len(r) == 2)
    check(c, r[0], r[1], want, nwl, off)


def stack(c, g, which):
    f = fn(c, UT, "make_absorption_function")
    interpolator(c)
    w, _, ds = geometry(g)
    from solcore.structure import Layer
    m = Mat(1.5, 0.1)
    wl = np.array([4e-7])
    o = options(wavelength=wl, depth_spacing=ds)
    changed = c.flag("widths_changed_afterwards")
    w0 = [2.5 * x for x in w] if changed else w
    if which == "planar": S = fn(c, TM, "tmm_structure")([Layer(x, m) for x in w0], m, m)
    else:
        from .c21 import build, World21
        from . import rcwastub
        import inspect
        world = World21(c, [(0, 0)])
        S, _ = build(c, "Inkstone", [dict(d=x * 1e9, mat=m, pats=[]) for x in w0], w=world)
    if changed: S.set_widths([x * 1e9 for x in w])
    pts = global_points(w, ds)
    v = values(c, "p", 1, len(pts))
    pos, fun = f({"profile": v, "R": None}, S, o)
    check(c, pos, fun, [(z * 1e-9, [v[0, i] * 1e9]) for i, (z, l) in enumerate(pts)], 1, sum(w))


def rays(c, g, tmm, bulks):
    f = fn(c, UT, "make_absorption_function")
    interpolator(c)
    cls = fn(c, RT, "rt_structure")
    planar = fn(c, "rayflare.textures.standard_rt_textures", "planar_surface")
    wa, wb, ds = geometry(g)
    widths, dsb = {"multiple": ([4e-6, 2e-6], 1e-6), "fraction": ([3e-6, 5e-6], 2e-6), "rounding": ([1e-05, 5e-06], 5e-6), "more": ([2.3e-05, 3e-06], 2e-6)}[bulks]
    mats = [Mat(1.0 + i, 0.0) for i in range(4)]
    tex, info = [], []
    for s in range(3):
        w = (wa, wb, wa)[s]
        if s in tmm:
            pl = subset(c, "prof_%d" % s, len(w))
            mode = 0 if pl is not None else c.pick("absent_%d" % s, 2)
            kw = {} if pl is None and mode == 0 else dict(prof_layers=pl)
            tex.append(planar(size=1, interface_layers=[Lay(x, mats[0]) for x in w], name="s%d" % s, **kw))
            info.append((w, pl))
        else:
            tex.append(planar(size=1)); info.append(None)
    o = options(wavelength=np.array([4e-7]), depth_spacing=ds, depth_spacing_bulk=dsb, project_name="p")
    if tmm:
        replace(c, RT, "make_TMM_lookuptable", lambda a: None, ("surf_name", "structpath"))
        S = cls(tex, mats[1:-1], list(widths), mats[0], mats[-1], options=o, use_TMM=True, save_location=c.scratch())
    else: S = cls(tex, mats[1:-1], list(widths), mats[0], mats[-1])
    zb = [float(z) for z in np.arange(0, sum([1e6 * v for v in widths]), 1e6 * dsb)]        # as in rt_structure.calculate
    b = values(c, "b", 1, len(zb))
    profs, want, off = [], [], 0.0
    for s in range(3):
        if info[s] is not None:
            w, pl = info[s]
            pts = layer_points(w, ds)
            sel = [i for i, (z, l) in enumerate(pts) if pl is not None and l in pl]
            v = values(c, "p%d" % s, 1, len(sel))
            profs.append(v if pl is not None else [])
            val = {i: [v[0, j] * 1e9] for j, i in enumerate(sel)}
            want += [(off + z * 1e-9, val.get(i, [0.0])) for i, (z, l) in enumerate(pts)]
            off += sum(w)
        else: profs.append([])
        if s < 2:
            z0 = sum(widths[:s]) * 1e6
            want += [(off + (z - z0) * 1e-6, [b[0, i] * 1e9]) for i, z in enumerate(zb) if z0 <= z < z0 + widths[s] * 1e6]
            off += widths[s]
    pos, fun = f({"profile": b, "interface_profiles": profs if tmm else 0}, S, o)
    check(c, pos, fun, want, 1, off)
