"""C07: interface absorption profiles carry exactly the power absorbed in the interface (driven through calculate_RAT)."""
import os
from .util import *
from .c05 import run, grid_size, profmat, WLS
from .c06 import mats_for, perm
from .c08 import trace

ASSUMPTIONS = ["stored per-bin profiles symbolic and non-negative, stored integrals from a list (one instance with a symbolic integral), per-layer absorptances and incident powers symbolic; bins that absorb nothing have a zero integral",
               "the incident power per bin of each pass is read back from the per-pass transmission/reflection through diagonal matrices",
               "grids with 1-3 incidence bins, 1-2 wavelengths, 2 depths, up to 2 internal passes; profile data laid out as the ray-tracing/TMM code stores it (wl, depth, bin)",
               "ray-traced profiles: tabulated profile coefficients concrete (linear in the angle), the local angle and the absorption per layer of each of 1-2 absorbed rays symbolic, any choice of profile layers"]


def instances(tier):
    out = []
    for n, caz, nwl in [(1, 1.0, 2), (2, 0.5, 1), (2, 0.5, 2), (2, 1.0, 1)] + ([(3, 0.5, 2), (3, 1.0, 1)] if tier == "thorough" else []):
        for which in ("both", "front", "back"):
            out.append(dict(name="profile-n%d-c%g-w%d-%s" % (n, caz, nwl, which), fn=prof, params=dict(n=n, caz=caz, nwl=nwl, which=which), cost=n * nwl, max_s=400,
                            bounds="%d wavelengths, n_theta_bins=%d c_azimuth=%g, profiles of %s interface(s), <=2 passes" % (nwl, n, caz, which)))
    out.append(dict(name="zero-bin", fn=prof, params=dict(n=2, caz=0.5, nwl=1, which="both", zero=True), bounds="one bin absorbs nothing", cost=1))
    out.append(dict(name="symbolic-integral", fn=prof, params=dict(n=1, caz=1.0, nwl=1, which="both", symI=True), bounds="1 bin, symbolic stored integral", cost=1))
    for side in ("front", "rear"):
        for n, m, rays, nwl in [(2, 4, 2, 1), (1, 4, 1, 2), (2, 1, 4, 1)] + ([(2, 4, 4, 1), (3, 4, 6, 1)] if tier == "thorough" else []):
            out.append(dict(name="raytraced-n%d-r%d-w%d-%s" % (n, rays, nwl, side), fn=traced, params=dict(n=n, m=m, rays=rays, nwl=nwl, side=side), cost=rays, max_s=300,
                            bounds="RT with absorption profiles: n_theta_bins=%d, %d rays absorbed or reflected, %d wavelength(s), 3 layers, %s incidence" % (n, rays, nwl, side)))
    return out


COEFF = ["A1", "A2", "A3_r", "A3_i", "a1", "a3"]


def coeff(l, s, w, th):
    """made-up profile coefficients of layer l for side s (0 front, 1 rear), linear in the angle"""
    return [0.02 * l + 0.01 * s + 0.01 * th + 0.003 * w, 0.1 + 0.02 * l + 0.03 * s - 0.01 * th, 0.004 * l * (1 + s), 0.003 + 0.002 * th, 0.05 + 0.02 * l + 0.01 * s + 0.01 * w, 0.4 + 0.1 * l]


def proftable(nl, sel, wls):
    import xarray as xr
    ang = np.array([0.0, 0.4, 0.8, 1.2, 1.6])
    Al = np.full((2, 3, len(wls), 5, nl), 0.1)
    Ap = np.zeros((2, 3, len(wls), 5, len(sel), 6))
    for s in range(2):
        for p in range(3):
            for w in range(len(wls)):
                for t in range(5):
                    for q, l in enumerate(sel): Ap[s, p, w, t, q] = np.array(coeff(l, s, w, ang[t])) if p == 2 else 0.5
    co = {"side": [1, -1], "pol": ["s", "p", "u"], "wl": wls, "angle": ang}
    d1 = xr.Dataset({"Alayer": (("side", "pol", "wl", "angle", "layer"), Al), "R": (("side",), [0.0, 0.0])}, coords=dict(co, layer=list(range(1, nl + 1))))
    d2 = xr.Dataset({"Aprof": (("side", "pol", "wl", "angle", "layer", "coeff"), Ap)}, coords=dict(co, layer=sel, coeff=COEFF))
    return xr.merge([d1, d2])


def traced(c, n, m, rays, nwl, side):
    """the profile stored by RT is that of the local angles at which the rays of each incidence bin were absorbed"""
    sel = [[1, 2, 3], [2], [1, 3]][c.pick("profile_layers", 3)]
    nl, wd = 3, [3.0, 2.0, 4.0]
    th, ph, rows = grid(n, 2 * PI / m, 1.0, "sin")
    na = len(rows) // 2
    mid = [(th[i] + th[i + 1]) / 2 for i in range(n)]
    wls = [500.0, 600.0][:nwl]

    def out(k, theta, phi):
        if nwl == 1 and k and not c.flag("absorbed_%d" % k): return ("out", 0.3, 0.2)
        a = zeros(c, nl)
        for l in range(nl): a[l] = c.real("A_%d_%d" % (k, l), 2.0 ** -12, 0.3)
        loc = c.real("local_%d" % k, 1e-5, PI / 2 - 1e-5)
        off_edges(c, loc, th[1:n])
        back = c.flag("from_below_%d" % k) if k == 0 else False      # a ray which meets a facet from below has a negative local angle
        return ("abs", a, -loc if back else loc, loc)
    calls, res = trace(c, n, 1.0, m, rays, 1, side, 1, out, nwl=nwl, lay=nl, table=proftable(nl, sel, wls), widths=wd, prof=sel, whole=True)
    c.true("matrices and profiles returned", len(res) == 3)
    ds = res[2]
    P = ds["profile"].transpose("wl", "z", "global_index")
    I = ds["intgr"].transpose("wl", "global_index")
    offs = [sum(wd[:l]) for l in range(nl)]
    want_z = [offs[l - 1] + z for l in sel for z in range(int(wd[l - 1]))]
    c.true("one sample per spacing in each profile layer", np.shape(P) == (nwl, len(want_z), na) and np.allclose(np.sort(np.asarray(P["z"], dtype=float)), want_z))
    P, I = P.sortby("z").data, I.data
    s = 0 if side == "front" else 1
    hits = {}
    for cl in calls:
        w = 0 if nwl == 1 else int(round(float(cl["wl"]) * 1e7)) - 5
        t = cl["theta"] if side == "front" else PI - cl["theta"]
        js = [r for r in range(na) if abs(rows[r + s * na][1] - float(t)) < 1e-6]
        c.true("incident in a bin", len(js) >= 1)
        if len(js) > 1: js = [js[bin_of(float(cl["phi"]), ph[rows[js[0] + s * na][0]])]]
        if cl["out"][0] == "abs": hits.setdefault((w, js[0]), []).append(cl["out"])
    for w in range(nwl):
        for j in range(na):
            h = hits.get((w, j), [])
            c.eq("stored integral is the mean absorption of the absorbed rays", I[w, j], total([total(x[1]) for x in h]) / len(h) if h else 0.0, 1e-7)
            frac = [0.0] * n
            for x in h: frac[bin_of(x[3], th)] += 1.0 / len(h)
            at = 0
            for l in sel:
                N = int(wd[l - 1])
                f = np.zeros(N)
                for b in range(n):
                    if frac[b] == 0: continue
                    A1, A2, r3, i3, a1, a3 = coeff(l, s, w, mid[b])
                    z = np.arange(N, dtype=float)
                    f = f + frac[b] * (A1 * np.exp(a1 * z) + A2 * np.exp(-a1 * z) + 2 * np.real((r3 + 1j * i3) * np.exp(1j * a3 * z)))
                if s: f = f[::-1]
                for x in range(N): c.eq("profile of the absorbed rays", P[w, at + x, j], max(f[x], 0.0), 1e-7)
                at += N


def prof(c, n, caz, nwl, which, zero=False, symI=False):
    na = grid_size(n, caz)
    names = (["A_frontfront", "A_frontrear"] if which != "back" else []) + (["B_backfront"] if which != "front" else [])
    p, q, mats = mats_for(c, na, nwl, mix=n * nwl > 1)
    d = c.scratch()
    lay, nz = 2, 2
    A, P, I = {}, {}, {}
    for k, nm in enumerate(("A_frontfront", "A_frontrear", "B_backfront")):
        a = zeros(c, (nwl, lay, na)); pr = zeros(c, (nwl, nz, na)); it = zeros(c, (nwl, na))
        for w in range(nwl):
            for j in range(na):
                dead = zero and j == k % na
                for l in range(lay): a[w, l, j] = 0.0 if dead else c.real("A_%s_%d_%d_%d" % (nm, w, l, j), 0.0, 0.3)
                for x in range(nz): pr[w, x, j] = 0.0 if dead else c.real("P_%s_%d_%d_%d" % (nm, w, x, j), 0.0, 1.0)
                it[w, j] = 0.0 if dead else (c.real("I_" + nm, 0.1, 1.0) if symI else (0.5, 0.25, 1.0, 0.8)[(k + w + j) % 4])
        A[nm], P[nm], I[nm] = a, pr, it
        mats[nm] = (mats[nm][0], a)
        if nm in names: profmat(c, d, nm, pr, it, nwl)
    # second pass: the front reflects light coming from below back down, a known small amount into every downward bin
    back = mats["A_frontrear"][0]
    for w in range(nwl):
        for j in range(na):
            for k in range(na): back[w, na + j, k] = (0.05, 0.02, 0.1)[(j + w) % 3]
    for w in range(nwl): c.assume(total(p[w]) >= 0.05)
    pl = {}
    if which != "back": pl["A_front"] = [1, 2]
    if which != "front": pl["B_back"] = [1]
    d0 = c.scratch
    c.scratch = lambda: d
    th, ph, rows = grid(n, PI / 2, caz, "sin")
    tb = c.pick("theta_bin", n)
    try:
        res, o = run(c, n, caz, nwl, mats, 4, alphas=np.array([3e3, 9e3][:nwl]), th_in=(th[tb] + th[tb + 1]) / 2, thresh=2e-2, prof=pl)
    finally:
        c.scratch = d0
    t, r = dense(res[1]["t"][0]), dense(res[1]["r"][0])
    npass = np.shape(t)[0] if t.ndim == 3 else 0
    idx = [i for i, x in enumerate(rows[:na]) if x[0] == tb]

    def contrib(nm, w, v):
        out = []
        for x in range(nz):
            s = 0.0
            for j in range(na):
                if isinstance(I[nm][w, j], float) and I[nm][w, j] == 0.0: continue
                s = s + (A[nm][w, 0, j] + A[nm][w, 1, j]) * v[j] / I[nm][w, j] * P[nm][w, x, j]
            out.append(s)
        return out
    exp = {"A_front": [], "B_back": []}
    c.true("profiles per interface", len(res[2]) == len(pl) if npass else True)
    if not npass: return
    for w in range(nwl):
        f, b = [0.0] * nz, [0.0] * nz
        v0 = [1.0 / len(idx) if j in idx else 0.0 for j in range(na)]
        f = [x + y for x, y in zip(f, contrib("A_frontfront", w, v0))]
        for ps in range(npass):
            vb = [t[ps, w, j] * 2.0 for j in range(na)]          # power per bin arriving at the back
            vf = [r[ps + 1, w, j] for j in range(na)]            # power per bin arriving at the front from below
            b = [x + y for x, y in zip(b, contrib("B_backfront", w, vb))]
            f = [x + y for x, y in zip(f, contrib("A_frontrear", w, vf))]
        exp["A_front"].append(f); exp["B_back"].append(b)
    for k, s in enumerate(["A_front", "B_back"]):
        if s not in pl:
            if which == "front" and k == 1 or which == "back" and k == 0: continue
        got = dense(res[2][sorted(pl).index(s)])
        c.true("profile shape", np.shape(got) == (nwl, nz))
        for w in range(nwl):
            for x in range(nz): c.eq("profile of " + s, got[w, x], exp[s][w][x], 1e-7)
    for k, s in enumerate(["A_front", "B_back"]):
        if s not in pl: continue
        ap = np.asarray(res[1]["a_prof"][k], dtype=object)
        c.true("per-pass profiles", np.shape(ap)[0] == npass + (1 if k == 0 else 0))
        got = dense(res[2][sorted(pl).index(s)])
        for w in range(nwl):
            for x in range(nz):
                c.eq("profile is the sum over passes", got[w, x], total([ap[i, w, x] for i in range(np.shape(ap)[0])]), 1e-7)
