"""C05: the matrix method conserves energy; per-pass results add up to the totals (driven through calculate_RAT)."""
import os
from .util import *

ASSUMPTIONS = ["redistribution matrices symbolic: any non-negative entries whose columns (R+T+A) sum to one; bulk attenuation symbolic per wavelength",
               "angular grids with 1 or 2 incidence bins (3 in the thorough tier); 1-2 wavelengths; 1 or 2 absorbing layers; up to the stated number of internal passes; threshold symbolic in [1e-3, 0.9]",
               "profile requests: bulk profile on a concrete absorption coefficient; interface profiles stored with two depths"]


def instances(tier):
    out = []
    deep = tier == "thorough"
    for nm, P, b, cost in [
        ("na1-wl1", dict(n=1, caz=1.0, nwl=1, passes=3, lay=1), "1 bin, 1 wavelength, <=3 passes", 1),
        ("na1-wl2", dict(n=1, caz=1.0, nwl=2, passes=2, lay=2), "1 bin, 2 wavelengths, <=2 passes, 2 interface layers", 1),
        ("na1-wl2-flat", dict(n=1, caz=1.0, nwl=2, passes=2, lay=1, threeD=False), "1 bin, 2 wavelengths, wavelength-independent matrices", 1),
        ("na2-wl1", dict(n=2, caz=0.5, nwl=1, passes=1, lay=1), "2 polar bins, 1 wavelength, <=1 pass", 2),
        ("na2-front", dict(n=2, caz=0.5, nwl=1, passes=2, lay=1, sym="A_frontfront"), "2 polar bins, <=2 passes, front matrix symbolic, others fixed", 2),
        ("na2-rear", dict(n=2, caz=0.5, nwl=1, passes=2, lay=1, sym="A_frontrear"), "2 polar bins, <=2 passes, front interface from below symbolic, others fixed", 2),
        ("na2-back", dict(n=2, caz=0.5, nwl=1, passes=2, lay=1, sym="B_backfront"), "2 polar bins, <=2 passes, back matrix symbolic, others fixed", 2),
        ("na3-back", dict(n=2, caz=1.0, nwl=1, passes=1, lay=1, sym="B_backfront"), "3 bins, <=1 pass, back matrix symbolic, others fixed", 2),
        ("na2-wl2", dict(n=2, caz=0.5, nwl=2, passes=1, lay=2), "2 polar bins, 2 wavelengths, <=1 pass, 2 interface layers", 2),
    ] + ([("na3-wl1", dict(n=2, caz=1.0, nwl=1, passes=1, lay=1), "3 bins, 1 wavelength, <=1 pass", 3),
          ("na3-front", dict(n=2, caz=1.0, nwl=1, passes=3, lay=1, sym="A_frontfront"), "3 bins, <=3 passes, front matrix symbolic, others fixed", 3),
          ("na3-rear", dict(n=2, caz=1.0, nwl=1, passes=3, lay=1, sym="A_frontrear"), "3 bins, <=3 passes, front interface from below symbolic, others fixed", 3),
          ("na1-wl1-deep", dict(n=1, caz=1.0, nwl=1, passes=6, lay=2), "1 bin, 1 wavelength, <=6 passes", 2),
          ("na4-wl1", dict(n=4, caz=0.25, nwl=1, passes=1, lay=1), "4 polar bins, <=1 pass", 3)] if deep else []):
        out.append(dict(name="conserve-" + nm, fn=conserve, params=P, bounds=b, cost=cost, max_s=500 if not deep else 3000))
        out.append(dict(name="positive-" + nm, fn=positive, params=P, bounds=b, cost=cost, max_s=500 if not deep else 3000))
    out.append(dict(name="profiles-na1", fn=profiles, params=dict(n=1, caz=1.0, nwl=2, passes=2), bounds="1 bin, 2 wavelengths, <=2 passes, with and without bulk and interface profiles", cost=2, max_s=400))
    out.append(dict(name="profiles-na2", fn=profiles, params=dict(n=2, caz=0.5, nwl=1, passes=1), bounds="2 bins, 1 wavelength, 1 pass, with and without bulk and interface profiles", cost=2, max_s=400))
    return out


NAMES = ("A_frontfront", "A_frontrear", "B_backfront")


def rand_mats(c, na, nwl, lay, conserve_cols, threeD=True, sym=None):
    """symbolic redistribution (2na x na) and absorption (lay x na) matrices per wavelength"""
    mats = {}
    for q, nm in enumerate(NAMES):
        if sym is not None and nm != sym:
            rng = np.random.default_rng(17 + q)
            X = np.floor(rng.random((nwl, 2 * na + lay, na)) * (56 // (2 * na + lay)))     # dyadic: columns sum to one exactly
            X[:, na - 1, :] += 64 - X.sum(1)
            mats[nm] = (X[:, :2 * na, :] / 64, X[:, 2 * na:, :] / 64)
            continue
        RT = zeros(c, (nwl, 2 * na, na)); A = zeros(c, (nwl, lay, na))
        for w in range(nwl if threeD else 1):
            for j in range(na):
                s = 0.0
                for i in range(2 * na):
                    RT[w, i, j] = c.real("%s_%d_%d_%d" % (nm, w, i, j), 0.0, 1.0); s = s + RT[w, i, j]
                for l in range(lay - 1):
                    A[w, l, j] = c.real("%sA_%d_%d_%d" % (nm, w, l, j), 0.0, 1.0); s = s + A[w, l, j]
                if conserve_cols:
                    A[w, lay - 1, j] = 1.0 - s
                    c.assume(s <= 1.0)
                else:
                    A[w, lay - 1, j] = c.real("%sA_%d_%d_%d" % (nm, w, lay - 1, j), 0.0, 1.0)
        mats[nm] = (RT, A)
    return mats


def store(c, d, mats, threeD=True):
    os.makedirs(os.path.join(d, "p"), exist_ok=True)
    for nm, (RT, A) in mats.items():
        save_npz(c, os.path.join(d, "p", nm + "RT.npz"), RT if threeD else RT[0])
        save_npz(c, os.path.join(d, "p", nm + "A.npz"), A if threeD else A[0])


def structure(c, mat, width=1e-4, prof=None, lay=1):
    st = fn(c, "rayflare.structure", "Structure")
    Interface = fn(c, "rayflare.structure", "Interface")
    Bulk = fn(c, "rayflare.structure", "BulkLayer")
    pl = prof or {}
    a = Interface("Mirror", name="A_front", layers=[], prof_layers=pl.get("A_front"))
    b = Interface("Mirror", name="B_back", layers=[], prof_layers=pl.get("B_back"))
    return st([a, Bulk(width, mat, name="b"), b], incidence=Mat(), transmission=Mat())


WLS = [5e-7, 6e-7, 7e-7]


def grid_size(n, caz):
    return sum(int(math.ceil(caz * r - 1e-12)) for r in range(1, n + 1))


def run(c, n, caz, nwl, mats, passes, bulk_profile=False, threeD=True, alphas=None, th_in=None, thresh=None, prof=None, width=1e-4, **kw):
    f = fn(c, "rayflare.matrix_formalism", "calculate_RAT")
    d = c.scratch()
    store(c, d, mats, threeD)
    th, ph, rows = grid(n, PI / 2, caz, "sin")
    if alphas is None:
        al = zeros(c, nwl)
        for w in range(nwl): al[w] = c.real("alpha_%d" % w, 0.0, 1e5)
    else:
        al = np.array(alphas[:nwl])
    if th_in is None:
        i = c.pick("theta_bin", n)
        th_in = (th[i] + th[i + 1]) / 2
    if thresh is None: thresh = c.real("I_thresh", 1e-3, 0.9)
    o = options(theta_in=th_in, phi_in=kw.pop("phi_in", "all"), n_theta_bins=n, c_azimuth=caz, phi_symmetry=PI / 2, wavelength=np.array(WLS[:nwl]), I_thresh=thresh,
                bulk_profile=bulk_profile, **kw)
    c.limit_decisions(passes + 1)
    res = f(structure(c, Mat(alpha=lambda wl: al), prof=prof, width=width), o, d)
    c.limit_decisions(10 ** 6)
    return res, o


def data(RAT, k, w):
    return np.asarray(RAT[k].data, dtype=object)[0, w]


def sums(res, nwl):
    """totals per wavelength from the per-pass results: list of (r, t, A_bulk, a_front, a_rear)"""
    p = res[1]
    out = []
    for w in range(nwl):
        r = total([x for ps in np.asarray(p["r"][0], dtype=object) for x in flist(ps[w])])
        t = total([x for ps in np.asarray(p["t"][0], dtype=object) for x in flist(ps[w])]) if len(p["t"][0]) else 0.0
        A = total([ps[w] for ps in np.asarray(p["A"][0], dtype=object)]) if len(p["A"][0]) else 0.0
        a = [total([x for ps in np.asarray(p["a"][k], dtype=object) for x in flist(ps[w])]) if len(p["a"][k]) else 0.0 for k in (0, 1)]
        out.append((r, t, A, a[0], a[1]))
    return out


def conserve(c, n, caz, nwl, passes, lay, threeD=True, sym=None):
    na = grid_size(n, caz)
    mats = rand_mats(c, na, nwl, lay, True, threeD, sym)
    thresh = c.real("I_thresh", 1e-3, 0.9)
    res, o = run(c, n, caz, nwl, mats, passes, threeD=threeD, thresh=thresh, alphas=[3e3] if sym else None)
    RAT = res[0]
    c.true("shape of per-pass results", np.shape(res[1]["r"][0])[1:] == (nwl, na))
    for w, (r, t, A, a0, a1) in enumerate(sums(res, nwl)):
        c.eq("R is the sum over passes", data(RAT, "R", w), r, 1e-7)
        if "T" in RAT: c.eq("T is the sum over passes", data(RAT, "T", w), t, 1e-7)
        else: c.eq("no transmission reported", t, 0.0, 1e-7)
        if "A_bulk" in RAT: c.eq("A_bulk is the sum over passes", data(RAT, "A_bulk", w), A, 1e-7)
        else: c.eq("no bulk absorption reported", A, 0.0, 1e-7)
        c.le("not more than the incident power", r + t + A + a0 + a1, 1.0, 1e-6)
        c.ge("missing power below the threshold", r + t + A + a0 + a1, 1.0 - thresh, 1e-6)


def positive(c, n, caz, nwl, passes, lay, threeD=True, sym=None):
    na = grid_size(n, caz)
    mats = rand_mats(c, na, nwl, lay, False, threeD, sym)
    res, o = run(c, n, caz, nwl, mats, passes, threeD=threeD, alphas=[3e3] if sym else None)
    p = res[1]
    for k in ("r", "t", "a", "A"):
        for x in p[k]:
            for y in flist(x): c.ge("%s not negative" % k, y, 0.0, 1e-7)
    for k in ("R", "T", "A_bulk"):
        if k in res[0]:
            for y in flist(res[0][k].data): c.ge("%s not negative" % k, y, 0.0, 1e-7)


def profmat(c, d, name, P, I, nwl):
    """store a profile dataset where the code under test will load it (dims as written by RT: wl, z, global_index)"""
    import xarray as xr
    nz, na = np.shape(P)[1:]
    ds = xr.Dataset({"profile": (("wl", "z", "global_index"), np.asarray(P)), "intgr": (("wl", "global_index"), np.asarray(I))},
                    coords={"wl": np.array(WLS[:nwl]) * 1e9, "z": np.arange(nz) * 1.0, "global_index": np.arange(na)})
    path = os.path.join(d, "p", name + "profmat.nc")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if c.symbolic:
        from symx import patch
        patch._touch(path, ds)
    else:
        ds.to_netcdf(path)


def profiles(c, n, caz, nwl, passes):
    na = grid_size(n, caz)
    mats = rand_mats(c, na, nwl, 1, True)
    th = c.real("I_thresh", 1e-3, 0.9)
    al = [2e3, 7e3]
    base, _ = run(c, n, caz, nwl, mats, passes, alphas=al, thresh=th, th_in=0.1)
    which = c.pick("request", 3)
    prof = {}
    if which >= 1:
        prof = {"A_front": [1], "B_back": [1]} if which == 1 else {"A_front": [1]}
    d0 = c.scratch
    d = c.scratch()
    names = {"A_front": ("A_frontfront", "A_frontrear"), "B_back": ("B_backfront",)}
    for s in prof:
        for nm in names[s]:
            P = np.full((nwl, 2, na), 0.25); I = np.full((nwl, na), 0.5)
            profmat(c, d, nm, P, I, nwl)
    c.scratch = lambda: d
    try:
        res, _ = run(c, n, caz, nwl, mats, passes, alphas=al, thresh=th, th_in=0.1, bulk_profile=which == 0, prof=prof, depth_spacing_bulk=5e-5)
    finally:
        c.scratch = d0
    for k in ("R", "T", "A_bulk"):
        c.true("same quantities reported", (k in base[0]) == (k in res[0]))
        if k in base[0]:
            for w in range(nwl): c.eq("profile request does not change " + k, data(res[0], k, w), data(base[0], k, w), 1e-7)
    for w, (x, y) in enumerate(zip(sums(res, nwl), sums(base, nwl))):
        for u, v in zip(x, y): c.eq("profile request does not change the per-pass results", u, v, 1e-7)
        if "A_interface" in res[0]:
            ai = np.asarray(res[0]["A_interface"].data, dtype=object)
            c.eq("front interface absorption is the sum over passes", ai[0, w], x[3], 1e-7)
            c.eq("rear interface absorption is the sum over passes", ai[1, w], x[4], 1e-7)
