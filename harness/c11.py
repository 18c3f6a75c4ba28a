"""C11: lookup-table interfaces decide a ray by the tabulated probabilities."""
from .util import *

RT = "rayflare.ray_tracing.rt"
POLS = ["s", "p", "u"]
ASSUMPTIONS = ["tables with 2-3 angles, 2 wavelengths, both sides, three polarisations; all entries symbolic with R + T + sum(A) = 1",
               "local incidence angles at least 1e-6 away from the midpoints between tabulated angles; draws at least 1e-6 away from the interval ends",
               "single facet decision (decide_RT_TMM) plus one planar interface traced through rt_structure.calculate with symbolic tables at concrete incidence angles"]


class Fake:
    """symbolic stand-in for the xarray lookup table (only label access and nearest selection)"""

    def __init__(self, c, R, T, A, angle, wl, sides=(1, -1), pols=POLS, fixed=None):
        self.c, self.R, self.T, self.A, self.angle, self.wl, self.sides, self.pols = c, R, T, A, angle, wl, list(sides), list(pols)
        self.fix = fixed or {}

    @property
    def loc(self): return self

    def __getitem__(self, k):
        if isinstance(k, dict): return self._label(k)
        if isinstance(k, str):
            from symx.core import Unsupported
            if not all(x in self.fix for x in ("side", "pol", "angle", "wl")): raise Unsupported("table access before selection")
            i = (self.fix["side"], self.fix["pol"], self.fix["angle"], self.fix["wl"])
            return Val({"R": self.R, "T": self.T, "Alayer": self.A}[k][i])
        raise core.Unsupported("table access")

    def __getattr__(self, n):
        if n in ("Alayer", "R", "T"): return self[n]
        raise core.Unsupported("lookup table attribute " + n)

    def _label(self, k):
        f = dict(self.fix)
        for n, v in k.items():
            if n == "side": f["side"] = self.sides.index(v)
            elif n == "pol": f["pol"] = self.pols.index(v)
            else: raise core.Unsupported("table label " + n)
        return Fake(self.c, self.R, self.T, self.A, self.angle, self.wl, self.sides, self.pols, f)

    def sel(self, indexers=None, method=None, **kw):
        k = dict(indexers or {}); k.update(kw)
        f = dict(self.fix)
        near = {n: k.pop(n) for n in ("angle", "wl") if n in k}
        out = self._label(k)
        how = {"nearest": nearest, "pad": pad, "ffill": pad, "backfill": backfill, "bfill": backfill, None: exact}
        if near and method not in how: raise core.Unsupported("table selection method %r" % method)
        for n, v in near.items(): out.fix[n] = how[method](v, self.angle if n == "angle" else self.wl)
        return out


class Val:
    def __init__(self, v): self.data = self.values = v
    def item(self, *a): return self.data[()] if np.ndim(self.data) == 0 else self.data[0]


def nearest(v, grid_):
    for i in range(len(grid_) - 1):
        if bool(v <= (grid_[i] + grid_[i + 1]) / 2): return i
    return len(grid_) - 1


def pad(v, grid_):
    for i in reversed(range(len(grid_))):
        if bool(v >= grid_[i]): return i
    raise KeyError(v)


def backfill(v, grid_):
    for i in range(len(grid_)):
        if bool(v <= grid_[i]): return i
    raise KeyError(v)


def exact(v, grid_):
    for i in range(len(grid_)):
        if bool(v == grid_[i]): return i
    raise KeyError(v)


ANG = [0.0, 0.6, 1.2]
WLS = [400.0, 500.0]


def table(c, nl, angles, tag="", picks=None):
    """(table for the code, R, T, A arrays)"""
    R, T, A = zeros(c, (2, 3, len(angles), 2)), zeros(c, (2, 3, len(angles), 2)), zeros(c, (2, 3, len(angles), 2, nl))
    for ix in np.ndindex(2, 3, len(angles), 2):
        n = "%s%d%s%d%d" % (tag, ix[0], POLS[ix[1]], ix[2], ix[3])
        R[ix] = c.real("R" + n, 0.0, 1.0); T[ix] = c.real("T" + n, 0.0, 1.0)
        a = [c.real("A%s_%d" % (n, l), 2.0 ** -8, 1.0) for l in range(nl)]
        c.assume(R[ix] + T[ix] + total(a) == 1.0 if c.symbolic else True)
        for l in range(nl): A[ix + (l,)] = a[l]
    if c.symbolic: return Fake(c, R, T, A, angles, WLS), R, T, A
    return dataset(R, T, A, angles), R, T, A


def dataset(R, T, A, angles):
    import xarray as xr
    co = {"side": [1, -1], "pol": POLS, "angle": list(angles), "wl": WLS}
    return xr.Dataset({"R": (("side", "pol", "angle", "wl"), np.asarray(R, dtype=float)), "T": (("side", "pol", "angle", "wl"), np.asarray(T, dtype=float)),
                       "Alayer": (("side", "pol", "angle", "wl", "layer"), np.asarray(A, dtype=float))}, coords=dict(co, layer=list(range(1, A.shape[-1] + 1))))


def instances(tier):
    out = []
    for side in (1, -1):
        for pol in POLS:
            out.append(dict(name="decide-%s-%s" % ("front" if side == 1 else "rear", pol), fn=decide, params=dict(side=side, pol=pol, nl=2), cost=2,
                            bounds="all tables with 3 angles x 2 wavelengths, 2 layers, all local angles and draws"))
            out.append(dict(name="stack-%s-%s" % ("front" if side == 1 else "rear", pol), fn=stack, params=dict(side=side, pol=pol), cost=3, max_s=300,
                            bounds="planar interface with a table under 1 layer, concrete incidence angle, all tables, draws and bulk attenuations"))
    return out


def decide(c, side, pol, nl):
    f = fn(c, RT, "decide_RT_TMM")
    tab, R, T, A = table(c, nl, ANG)
    th = c.angle("theta", -PI / 2 + 1e-3, PI / 2 - 1e-3)
    off_edges(c, abs(th), [0.3, 0.9], 1e-6)
    off_edges(c, th, [0.0], 1e-6)
    w = c.pick("wavelength", 2)
    wl = [[4e-7, 4.4e-7], [4.6e-7, 5e-7]][w][c.pick("near", 2)]
    N = np.array([0.0, 0.0, 1.0])
    d = np.array([0.6, 0.0, -0.8])
    r = c.rand()
    i = nearest(abs(th), ANG)
    ix = (0 if side == 1 else 1, POLS.index(pol), i, w)
    for e in (R[ix], R[ix] + T[ix]): c.assume(either(c, r >= e + 1e-6, r <= e - 1e-6))
    dd, s2, ab = f(1.0, 1.25, th, d, N, side, pol, r, wl, tab)
    if bool(r < R[ix]): want = "R"
    elif bool(r < R[ix] + T[ix]): want = "T"
    else: want = "A"
    c.true("outcome follows the tabulated probabilities", (ab is not None) == (want == "A"))
    if want == "R":
        c.true("stays on its side", s2 == side)
        c.eq("reflected direction", dd[2], 0.8, 1e-9)
    elif want == "T":
        c.true("goes to the other side", s2 == -side)
        c.true("transmitted direction", dd[2] < 0)
    elif ab is not None:
        s = total(flist(ab))
        want_s = total(flist(A[ix]))
        for l in range(nl): c.eq("split over layers as tabulated", ab[l] * want_s, A[ix][l] * s, 1e-7)


def stack(c, side, pol):
    """one ray at a planar interface that carries a table: front (surface 0) or from below (surface 0 reached after reflection at a mirror-like surface 1)"""
    cls = fn(c, RT, "rt_structure")
    pl = fn(c, "rayflare.textures.standard_rt_textures", "planar_surface")
    from .c15 import Lay
    import os
    th0 = [0.0, 0.5, 0.8][c.pick("angle", 3)]
    n1 = 1.0
    tab, R, T, A = table(c, 2, ANG)
    d0 = c.scratch()

    def mk(a):
        p = os.path.join(a["structpath"], a["surf_name"] + ".nc")
        if c.symbolic:
            from symx import patch
            patch._touch(p, FileTable(tab))
        else: tab.to_netcdf(p)
    replace(c, RT, "make_TMM_lookuptable", mk, ("surf_name", "structpath"))
    tex = [soft_surface(c, pl(size=1, interface_layers=[Lay(1.5e-9, Mat())] * 2, name="surf"))]
    if side == 1:
        mats, widths = [Mat(n=1.0), Mat(n=1.25)], []
    else:
        mats, widths = [Mat(n=1.25), Mat(n=1.0)], []
    o = options(wavelength=np.array([4.04e-7]), theta_in=th0, phi_in=0.3, n_rays=1, nx=1, ny=1, pol=pol, I_thresh=1e-3, depth_spacing_bulk=1e-6, depth_spacing=1e-9,
                random_ray_position=False, randomize_surface=False, initial_material=0 if side == 1 else 1, initial_direction=side)
    draws = []
    import rayflare.ray_tracing.rt as rt
    real = c.rand

    def rnd():
        draws.append(real()); return draws[-1]
    if not hasattr(rt, "random") or isinstance(rt.random, type(np)): c.skip("draws no longer come from rt.random")
    c.patch(rt, "random", rnd)
    pos = [0.3, 0.4]      # where the ray restarts when it misses (positions are the subject of C12/C13)

    def where():
        pos.append(pos.pop(0)); return pos[-1]
    c.patch(c, "rand", where)
    ix = (0 if side == 1 else 1, POLS.index(pol), nearest(th0, ANG), 0)
    S = cls(tex, mats[1:-1], widths, mats[0], mats[-1], options=o, use_TMM=True, save_location=d0)
    res = S.calculate(o)
    c.true("one draw", len(draws) == 1)
    if not draws: return
    r = draws[0]
    for e in (R[ix], R[ix] + T[ix]): c.assume(either(c, r >= e + 1e-6, r <= e - 1e-6))
    rr, tt = float(res["R"][0]), float(res["T"][0])
    back, thru = (rr, tt) if side == 1 else (tt, rr)
    if bool(r < R[ix]): c.true("reflected", back > 0.999 and thru < 1e-9)
    elif bool(r < R[ix] + T[ix]): c.true("transmitted", thru > 0.999 and back < 1e-9)
    else:
        c.true("absorbed", back == 0 and thru == 0)
        tot = total(flist(A[ix]))
        for l in range(2): c.eq("whole intensity split over the layers", res["A_per_interface"][0][0, l] * tot, A[ix][l], 1e-7)


class FileTable:
    def __init__(self, t): self.t = t
    def copy(self): return self.t
