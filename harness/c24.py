"""C24: stored matrices are reused only for the same project, surface and side, complete, and never mixed (driven through TMM, RT, RCWA, mirror_matrix, lambertian_matrix)."""
import os, sys
from .util import *
from .c18 import SideKernel, TM, WL
from .c08 import Surf
from .rcwastub import World, RC

RTM, UT, MM = "rayflare.ray_tracing.rt", "rayflare.utilities", "rayflare.matrix_formalism.multiply_matrices"
ASSUMPTIONS = ["every calculation gives new content: symbolic results of the optical kernels (transfer matrix, rigorous coupled-wave solver, outcome of a ray, profile of a ray-traced interface) that differ from one request to the next",
               "sequences of 2 requests over two surface names (one a prefix of the other), both sides, with or without profile, overwriting or not; sequences of 3 for one surface and side; an interruption before any of the file operations of a request",
               "an interruption falls between two file operations (a file half written by the operating system is outside the bounds)",
               "1 polar bin, 1 wavelength, 1-2 layers; files in memory while symbolic, real npz/netCDF files on replay"]
NAMES = ("s", "srear")
# names which are easily confused: same letters in capitals, blanks, dots, the name of a side, one the start of the other
PAIRS = {"": NAMES, "-case": ("s", "S"), "-space": ("a b", "a_b"), "-dots": ("s.1", "s.2"), "-side": ("s", "sfront"), "-start": ("long_name_of_a_surface_1", "long_name_of_a_surface_2")}


def instances(tier):
    out = []
    T = tier == "thorough"
    for d in ("tmm", "rt", "rcwa", "mirror", "lambertian"):
        out.append(dict(name="two-%s" % d, fn=history, params=dict(drv=d, n=2), cost=6, max_s=600, max_paths=4000, bounds="2 requests to %s, 2 names, 2 sides, profile/overwrite flags" % d))
        out.append(dict(name="three-%s" % d, fn=history, params=dict(drv=d, n=3, one=True), cost=6, max_s=600, max_paths=4000, bounds="3 requests to %s for one surface and side, profile/overwrite flags" % d))
        out.append(dict(name="interrupted-%s" % d, fn=interrupted, params=dict(drv=d), cost=4, max_s=600, max_paths=4000, bounds="complete request, overwriting request interrupted before any of its file operations, another request (%s)" % d))
        if T: out.append(dict(name="threefree-%s" % d, fn=history, params=dict(drv=d, n=3), cost=20, max_s=3000, max_paths=40000, bounds="3 requests to %s, 2 names, 2 sides, profile/overwrite flags" % d))
    for a, b in PAIRS.items():
        out.append(dict(name="files" + a, fn=files, params=dict(names=b), cost=4, max_paths=4000, bounds="every combination of stored files for the surface and of those of others, names %s, %s" % b))
    out.append(dict(name="unsaved", fn=unsaved, params={}, cost=2, bounds="request without saving leaves what is stored"))
    out.append(dict(name="folders", fn=folders, params={}, cost=1, bounds="three kinds of save location, %d pairs of project names, existing folders or not" % len(PAIRS)))
    for a, b in PAIRS.items():
        if a and a not in ("-case", "-dots") and not T: continue
        out.append(dict(name="lookup" + a, fn=lookup, params=dict(names=b), cost=2, max_paths=2000, bounds="2 requests for a lookup table of a 2-layer stack, every subset of profile layers, overwrite or not, names %s, %s" % b))
    return out


class Interrupted(Exception): pass


class Driver:
    profiles = True

    def __init__(self, c):
        self.c, self.gen, self.used = c, -1, {}
        self.d = c.scratch()
        self.prepare()

    def request(self, name, side, prof, overwrite, save=True):
        """-> (RT, A, P or None) as scalars, True if anything was calculated"""
        self.gen += 1
        before = self.count()
        res = self.call(name, side, prof, overwrite, save)
        self.c.true("profile returned if and only if requested", len(res) == (3 if prof else 2))
        return self.content(res[0], res[1], res[2] if prof and len(res) > 2 else None, side), self.count() > before

    def content(self, RT, A, P, side): return [flist(dense(RT)), flist(dense(A)), None if P is None else flist(P["profile"].data) + flist(P["intgr"].data)]

    def count(self): return self.k_calls()
    # the value in RT, A, P that names the calculation
    def marks(self, gen): return self.used[gen]


class TmmD(Driver):
    def prepare(self):
        c, me = self.c, self

        class K(SideKernel):
            def key(s, pol, n_list, d_list, th):
                a = SideKernel.key(s, pol, n_list, d_list, th)
                return a[0], a[1] + "_g%d" % me.gen, a[2]

            def absor(s, key, l, d, w):
                v = SideKernel.absor(s, key, l, d, w)
                s.c.assume(v >= 0.0)
                return v
        self.k = K(c, 1, 1, 1.0)
        self.f = fn(c, TM, "TMM")
        from solcore.structure import Layer
        self.L = [Layer(4e-9, Mat(n=lambda wl: np.asarray(wl) * 0 + 1.25, k=lambda wl: np.asarray(wl) * 0 + 0.125))]
        self.inc = Mat(n=lambda wl: np.asarray(wl) * 0 + 1.0 + 1e-9, k=lambda wl: np.asarray(wl) * 0.0)
        self.trn = Mat(n=lambda wl: np.asarray(wl) * 0 + 3.0, k=lambda wl: np.asarray(wl) * 0.0)

    def k_calls(self): return len(self.k.calls)

    def call(self, name, side, prof, ow, save):
        o = options(wavelength=np.array(WL[:1]), n_theta_bins=1, phi_symmetry=PI / 2, c_azimuth=1.0, pol="s", depth_spacing=4e-9)
        return self.f(self.L, self.inc, self.trn, name, o, self.d, coherent=True, coherency_list=None, prof_layers=[1] if prof else None, front_or_rear=side, save=save, overwrite=ow)

    def marks(self, gen):
        for kk, v in self.k.memo.items():
            if kk[1].endswith("_g%d" % gen):
                side = kk[1].split("_")[0]
                return v["R"][0], v["A"][1, 0], lambda: self.k.absor(kk, 1, 0.0 if side == "front" else 4.0, 0)

    def got(self, x, side): return x[0][0] if side == "front" else x[0][1], x[1][0], None if x[2] is None else x[2][0]


class RtD(Driver):
    def prepare(self):
        c = self.c
        self.f, self.grp = fn(c, RTM, "RT"), fn(c, "rayflare.structure", "RTgroup")
        self.n = 0
        import xarray as xr
        ds = xr.Dataset({"R": (("side",), [0.0, 0.0])}, coords={"side": [1, -1]})
        for nm in NAMES:
            p = os.path.join(self.d, nm + ".nc")
            if c.symbolic:
                from symx import patch
                patch._touch(p, ds)
            else: ds.to_netcdf(p)
        self.v = {}

        def val(g):
            if g not in self.v: self.v[g] = (c.real("up_%d" % g, 0.0, PI / 2), c.real("A_%d" % g, 0.0, 1.0), c.real("P_%d" % g, 0.0, 1.0))
            return self.v[g]

        def one(a):
            self.n += 1
            A = val(self.gen)[1]
            arr = zeros(c, 2)
            arr[0], arr[1] = A, 1.0 - A
            return 1, 10, 0.0, [arr, 0.5]

        def prof(a):
            import xarray as xr
            p = zeros(c, (1, 1))
            p[0, 0] = val(self.gen)[2]
            return xr.DataArray(p, dims=["dim_0", "global_index"], coords={"dim_0": [0.0], "global_index": [0]})
        replace(c, RTM, "single_ray_interface", one, ("x", "y"))
        replace(c, RTM, "make_profiles_wl", prof, ())

    def k_calls(self): return self.n

    def call(self, name, side, prof, ow, save):
        o = options(n_theta_bins=1, c_azimuth=1.0, phi_symmetry=PI / 2, n_rays=1, nx=1, ny=1, wavelength=np.array(WL[:1]), pol="u", random_ray_position=False, random_ray_angles=False, only_incidence_angle=False, depth_spacing=1e-9)
        g = self.grp(textures=[[Surf("down"), Surf("up")]])
        inc, trn = Mat(n=lambda wl: wl * 2e6), Mat(n=lambda wl: wl * 6e6, k=lambda wl: wl * 1e6)
        return self.f(g, inc, trn, name, o, self.d, 1, side, 2, [1] if prof else None, False, [4.0, 6.0], save=save, overwrite=ow)

    def marks(self, gen):
        v = self.v[gen]
        return None, v[1], lambda: v[2]

    def got(self, x, side): return None, x[1][0], None if x[2] is None else x[2][0]


class RcwaD(Driver):
    def prepare(self):
        me = self

        class W(World):
            def key(s, o): return World.key(s, o) + (me.gen,)

            def state(s, o):
                m = World.state(s, o)
                m.setdefault("gen", me.gen)
                return m
        self.w = W(self.c, [(0, 0)])
        self.f = fn(self.c, RC, "RCWA")
        from solcore.structure import Layer
        self.L = [Layer(4e-7, Mat(n=2.0, k=0.125, name="a"))]

    def k_calls(self): return len(self.w.made)

    def call(self, name, side, prof, ow, save):
        o = options(wavelength=np.array([6.3e-7]), n_theta_bins=1, phi_symmetry=PI, c_azimuth=1.0, pol="s", depth_spacing=4e-7, RCWA_method="inkstone")
        return self.f(self.L, ((700.0, 0.0), (0.0, 700.0)), 1, o, self.d, Mat(n=1.0, k=0.0, name="i"), Mat(n=1.5, k=0.0, name="t"), False, [1] if prof else None, side, name, save=save, overwrite=ow)

    def marks(self, gen):
        m = next(v for v in self.w.memo.values() if v["gen"] == gen)
        return m["R"], m["A"][0], lambda: list(m["dens"].values())[0]

    def got(self, x, side): return x[0][0] if side == "front" else x[0][-1], x[1][0], None

    def content(self, RT, A, P, side):
        # specular reflection is the only order: add up the hemisphere
        M = dense(RT)[0]
        na = np.shape(M)[1]
        x = Driver.content(self, RT, A, P, side)
        return [[total([M[i, 0] for i in (range(na) if side == "front" else range(na, 2 * na))])] + flist(M)] + x[1:]

    def got(self, x, side): return x[0][0], x[1][0], None


class IdealD(Driver):
    profiles = False

    def prepare(self):
        self.f = fn(self.c, "rayflare.matrix_formalism.ideal_cases", self.what)
        self.mav = fn(self.c, "rayflare.angles", "make_angle_vector")

    def request(self, name, side, prof, overwrite, save=True):
        self.gen += 1
        n = self.gen + 1                       # another angular resolution each time
        th, ph, vec = self.mav(n, PI / 2, 1.0, "sin")
        if self.what == "mirror_matrix":
            o = options(phi_symmetry=PI / 2, n_theta_bins=n, c_azimuth=1.0)
            res = self.f(vec, th, ph, name, o, self.d, front_or_rear=side, save=save, overwrite=overwrite)
        else: res = self.f(vec, th, name, self.d, side, save, overwrite)
        na = np.shape(dense(res[0]))[-1]
        self.c.true("two matrices", len(res) == 2)
        return self.content(res[0], res[1], None, side), na == len(vec) // 2

    def marks(self, gen):
        n = gen + 1
        return n * (n + 1), None, None

    def got(self, x, side): return len(x[0]) ** 0.5 * 2 ** 0.5 if x[0] else 0, None, None


class MirrorD(IdealD): what = "mirror_matrix"
class DiffuseD(IdealD): what = "lambertian_matrix"


DRV = dict(tmm=TmmD, rt=RtD, rcwa=RcwaD, mirror=MirrorD, lambertian=DiffuseD)


def same(c, what, x, y):
    for i, nm in enumerate(("matrix", "absorption", "profile")):
        if x[i] is None or y[i] is None: continue
        c.true("%s: size of the %s" % (what, nm), len(x[i]) == len(y[i]))
        if len(x[i]) != len(y[i]): continue
        for a, b in zip(x[i], y[i]): c.eq("%s: %s" % (what, nm), a, b, 1e-12)


def of_gen(c, drv, x, side, gen, tol=1e-9):
    """condition: the content is that of calculation `gen`"""
    m, g = drv.marks(gen), drv.got(x, side)
    r = True
    for i in (0, 1, 2):
        if g[i] is None or m[i] is None: continue
        v = m[i]() if callable(m[i]) else m[i]
        d = g[i] - v
        r = both(c, r, d <= tol, d >= -tol)
    return r


def load(c, drv, name, side, prof):
    f = fn(c, MM, "load_redistribution_matrices")
    R, T, A, P, I = f(drv.d, 0, 1 if side == "front" else 2, [name, "unused"], side, [[1] if prof else None, None])
    if side == "front": M = T            # n_a_in = 0: everything counts as below
    else: M = R
    pf = None
    if prof: pf = {"profile": P[0], "intgr": I[0]}
    return drv.content(M[0], A[0], pf, side)


def history(c, drv, n, one=False):
    d = DRV[drv](c)
    stored = {}
    for i in range(n):
        name = NAMES[0] if one or (i == 0) else NAMES[c.pick("name_%d" % i, 2)]
        side = "front" if one and drv != "tmm" else ("rear" if one else ("front", "rear")[c.pick("side_%d" % i, 2)])
        prof = d.profiles and bool(c.flag("profile_%d" % i))
        ow = bool(c.flag("overwrite_%d" % i))
        x, fresh = d.request(name, side, prof, ow)
        have = stored.get((name, side))
        reuse = have is not None and not ow and (have[1] or not prof)
        c.true("reused only if stored and overwriting was not requested", fresh != reuse)
        if fresh == reuse: return
        if reuse:
            same(c, "reused", x, have[0])
            c.true("content of one calculation", of_gen(c, d, x, side, have[2]))
        else:
            c.true("content of this calculation", of_gen(c, d, x, side, d.gen))
            stored[name, side] = (x, prof, d.gen)
    for nm in NAMES:
        for side in ("front", "rear"):
            there = [os.path.isfile(os.path.join(d.d, nm + side + e)) for e in ("RT.npz", "A.npz")]
            c.true("stored for the requested surfaces and sides only", there == [(nm, side) in stored] * 2)
            if (nm, side) in stored and all(there):
                same(c, "read back", load(c, d, nm, side, stored[nm, side][1]), stored[nm, side][0])


def hooks(c, d, limit):
    """interrupt before file operation number `limit`"""
    cnt = [0]

    def step(path):
        if not str(path).startswith(d.d): return
        if cnt[0] == limit: raise Interrupted()
        cnt[0] += 1

    def wrap(f, pos):
        def g(*a, **k):
            step(a[pos] if len(a) > pos else next(iter(k.values())))
            return f(*a, **k)
        return g
    for nm in ("remove", "unlink", "rename", "replace"): c.patch(os, nm, wrap(getattr(os, nm), 0))
    if c.symbolic:
        from symx import patch
        c.patch(patch, "_touch", wrap(patch._touch, 0))
    else:
        import sparse, xarray
        real = sparse.save_npz
        for m in [m for k, m in list(sys.modules.items()) if k.startswith("rayflare") and m is not None]:
            for a, v in list(vars(m).items()):
                if v is real: c.patch(m, a, wrap(real, 0))
        c.patch(xarray.Dataset, "to_netcdf", wrap(xarray.Dataset.to_netcdf, 1))
    return cnt


def interrupted(c, drv):
    d = DRV[drv](c)
    side = "front"
    p = [d.profiles and bool(c.flag("profile_%d" % i)) for i in range(3)]
    d.request("s", side, p[0], False)
    at = c.pick("interrupted_before_operation", 7)
    undo = len(c.undos)
    cnt = hooks(c, d, at)
    try:
        d.request("s", side, p[1], True)
        done = True
    except Interrupted:
        done = False
    while len(c.undos) > undo: c.undos.pop()()          # the interruption is over
    c.true("some file operations", cnt[0] >= min(at, 2))
    x, fresh = d.request("s", side, p[2], False)
    if done: c.true("reused after completing", fresh == (p[2] and not p[1]))
    if fresh: c.true("content of this calculation", of_gen(c, d, x, side, d.gen))
    else:
        # whatever was kept is that of a single calculation
        c.true("content of one calculation", either(c, of_gen(c, d, x, side, 0), of_gen(c, d, x, side, 1)))
    same(c, "read back", load(c, d, "s", side, p[2]), x)


def unsaved(c):
    d = TmmD(c)
    if c.flag("stored_before"): d.request("s", "front", True, False)
    first = d.gen
    before = sorted(os.listdir(d.d))
    x, fresh = d.request("s", "front", bool(c.flag("profile")), True, save=False)
    c.true("calculated", fresh)
    c.true("content of this calculation", of_gen(c, d, x, "front", d.gen))
    c.true("files left alone", sorted(os.listdir(d.d)) == before)
    if first >= 0: c.true("stored content left alone", of_gen(c, d, load(c, d, "s", "front", True), "front", first))


def files(c, names):
    f = fn(c, UT, "get_matrices_or_paths")
    d = c.scratch()
    name, side = names[c.pick("name", 2)], ("front", "rear")[c.pick("side", 2)]
    others = [(n, s) for n in names for s in ("front", "rear") if (n, s) != (name, side)]
    j = 0
    import xarray as xr
    vals = {}

    def put(n, s, which):
        v = c.real("v_%s_%s_%s" % (n, s, which), 1.0, 2.0)
        vals[n, s, which] = v
        m = zeros(c, (1, 1, 1))
        m[0, 0, 0] = v
        if which != "profmat": save_npz(c, os.path.join(d, n + s + which + ".npz"), m)
        else: xr.Dataset({"profile": (("wl", "z", "global_index"), m), "intgr": (("wl", "global_index"), m[0])}).to_netcdf(os.path.join(d, n + s + "profmat.nc"))
    have = {}
    for w in ("RT", "A", "profmat"):
        have[w] = bool(c.flag("has_" + w))
        if have[w]: put(name, side, w)
    if c.flag("others_stored"):
        for n, s in others:
            for w in ("RT", "A", "profmat"): put(n, s, w)
    if c.flag("lookup_table_stored"): xr.Dataset({"R": (("side",), [0.0])}).to_netcdf(os.path.join(d, name + ".nc"))
    prof, ow = bool(c.flag("profile")), bool(c.flag("overwrite"))
    ex, got = f(d, name, side, [1] if prof else None, ow)
    need = ["RT", "A"] + (["profmat"] if prof else [])
    want = all(have[w] for w in need) and not ow
    c.true("found if and only if everything needed is there", bool(ex) == want)
    c.true("one entry per file", len(got) == len(need))
    if bool(ex) != want or len(got) != len(need): return
    if want:
        for w, g in zip(need, got):
            c.eq("content of the surface and side", flist(g["profile"].data)[0] if w == "profmat" else flist(dense(g))[0], vals[name, side, w], 1e-12)
    else:
        ends = dict(RT="RT.npz", A="A.npz", profmat="profmat.nc")
        c.true("paths the loader reads", [os.path.abspath(p) for p in got] == [os.path.join(os.path.abspath(d), name + side + ends[w]) for w in need])


def folders(c):
    f = fn(c, UT, "get_savepath")
    d = os.path.realpath(c.scratch())
    one, two = list(PAIRS.values())[c.pick("names", len(PAIRS))]
    kind = ("current", "default", "path")[c.pick("location", 3)]
    home, cwd = os.path.join(d, "home"), os.path.join(d, "cwd")
    os.mkdir(home); os.mkdir(cwd)
    base = {"current": cwd, "default": os.path.join(home, "RayFlare_results"), "path": os.path.join(d, "given")}[kind]
    if kind != "current" and c.flag("location_exists"): os.mkdir(base)
    if os.path.isdir(base) and c.flag("project_exists"):
        os.mkdir(os.path.join(base, one))
        with open(os.path.join(base, one, "keep"), "w") as h: h.write("x")
    kept = os.path.isfile(os.path.join(base, one, "keep"))
    keep_home, keep_cwd = os.environ.get("HOME"), os.getcwd()
    try:
        os.environ["HOME"] = home
        os.chdir(cwd)
        arg = base if kind == "path" else kind
        got = {}
        for p in (one, two, one):
            q = os.path.realpath(f(arg, p))
            c.true("project folder inside the save location", q == os.path.join(base, p))
            c.true("project folder exists", os.path.isdir(q))
            c.true("same folder every time", got.setdefault(p, q) == q)
        c.true("one folder per project", got[one] != got[two])
        c.true("stored files kept", os.path.isfile(os.path.join(base, one, "keep")) == kept)
    finally:
        os.chdir(keep_cwd)
        if keep_home is None: os.environ.pop("HOME", None)
        else: os.environ["HOME"] = keep_home


def lookup(c, names):
    from .c19 import media, LUT
    f = fn(c, LUT, "make_TMM_lookuptable")
    gen = [0]

    class K(SideKernel):
        def key(s, pol, n_list, d_list, th):
            a = SideKernel.key(s, pol, n_list, d_list, th)
            return a[0], a[1] + "_g%d" % gen[0], a[2]
    k = K(c, 1, 2, 1.0)
    L, inc, trn = media(c, 2)
    d = c.scratch()
    o = options(wavelength=np.array(WL[:1]), lookuptable_angles=1)
    have = {}
    for i in range(2):
        gen[0] = i
        nm = names[c.pick("name_%d" % i, 2)] if i else names[0]
        pl = [l for l in (1, 2) if c.flag("prof_%d_%d" % (i, l))] or None
        ow = bool(c.flag("overwrite_%d" % i))
        n = len(k.calls)
        t = f(L, inc, trn, nm, o, d, coherent=True, coherency_list=None, prof_layers=pl, overwrite=ow)
        if hasattr(t, "load") and not c.symbolic: t.load(); t.close()
        fresh = len(k.calls) > n
        h = have.get(nm)
        if h is None or ow or not set(pl or []) <= set(h[1]): c.true("calculated", fresh)
        else: c.true("reused", not fresh)
        g = i if fresh else h[0] if h else i
        if fresh: have[nm] = (i, pl or [])
        key = next((x for x in k.memo if x[1] == "front_g%d" % g and x[0] == "s"), None)
        c.true("calculated for the front", key is not None)
        if key is None: return
        c.eq("content of the calculation", flist(t["R"].sel(side=1, pol="s").data)[0], k.memo[key]["R"][0], 1e-9)
        for l in pl or []:
            a = "Aprof" in t and l in [int(v) for v in flist(t["layer"].data)]
            c.true("profile information of the requested layers", a)
            if a: c.eq("profile information of the calculation", flist(t["Aprof"].sel(side=1, pol="s", layer=l, coeff="A1").data)[0], k.coeff(dict(k.memo[key], key=key), "A1", l, 0), 1e-9)
