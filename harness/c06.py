"""C06: Beer-Lambert attenuation per angle and the bulk absorption profile (driven through calculate_RAT)."""
import os
from .util import *
from .c05 import run, structure, grid_size, NAMES, data, WLS

ASSUMPTIONS = ["the front transmits a symbolic power into every downward bin, the back reflects a symbolic power into every upward bin; per-pass transmission/reflection read back the power per bin",
               "attenuation: absorption coefficient symbolic in [0, 1e6] 1/m per wavelength, thickness from a list; exp is an uninterpreted monotone function with exp(x)>=1+x",
               "profiles: absorption coefficient and thickness from a list (so exp is a number), powers symbolic; 3-5 depths"]


def instances(tier):
    out = []
    for n, caz in [(1, 1.0), (2, 0.5), (2, 1.0), (3, 1.0)] if tier == "quick" else [(1, 1.0), (2, 0.5), (2, 1.0), (3, 1.0), (4, 0.5), (5, 0.6)]:
        for sp in ("sin", "linear"):
            out.append(dict(name="attenuation-n%d-c%g-%s" % (n, caz, sp), fn=attenuation, params=dict(n=n, caz=caz, sp=sp), cost=n,
                            bounds="n_theta_bins=%d c_azimuth=%g, 2 wavelengths, alpha in [0,1e6], down and up pass" % (n, caz)))
    for n, caz in [(1, 1.0), (2, 0.5), (2, 1.0)] if tier == "quick" else [(1, 1.0), (2, 0.5), (2, 1.0), (3, 0.5), (3, 1.0)]:
        for k in range(3):
            out.append(dict(name="profile-n%d-c%g-%d" % (n, caz, k), fn=profile, params=dict(n=n, caz=caz, k=k), cost=2 * n, max_s=400,
                            bounds="n_theta_bins=%d c_azimuth=%g, 2 wavelengths, concrete absorption, powers symbolic, down and up pass" % (n, caz)))
    for k in range(2):
        out.append(dict(name="profile-grazing-%d" % k, fn=profile, params=dict(n=12, caz=0.05, k=k, sp="linear"), cost=10, max_s=400,
                        bounds="12 evenly spaced polar bins (up to 86 degrees), 2 wavelengths, concrete absorption, powers symbolic, down and up pass"))
    out.append(dict(name="attenuation-grazing", fn=attenuation, params=dict(n=12, caz=0.05, sp="linear"), cost=12, bounds="12 evenly spaced polar bins (up to 86 degrees), 2 wavelengths, alpha in [0,1e6]"))
    out.append(dict(name="no-absorption", fn=dark, params={}, bounds="transparent bulk, 2 bins, powers symbolic"))
    return out


def mats_for(c, na, nwl, mix=False):
    """front transmits p_j into downward bin j; back reflects q_j upwards and transmits diagonally; front transmits upward light diagonally"""
    if mix:      # power distributions on a symbolic line between two fixed ones
        u = [(0.1, 0.35, 0.05, 0.2, 0.15, 0.15)[j % 6] for j in range(na)]; v = [(0.4, 0.05, 0.25, 0.0, 0.1, 0.2)[j % 6] for j in range(na)]
        p, q = [], []
        for w in range(nwl):
            s = c.real("s_%d" % w, 0.0, 1.0)
            p.append([a * s + b * (1.0 - s) for a, b in zip(u, v)])
            q.append([(0.3, 0.1, 0.05, 0.02, 0.01, 0.2)[(j + w) % 6] for j in range(na)])
    else:
        p = [[c.real("p_%d_%d" % (w, j), 0.0, 1.0) for j in range(na)] for w in range(nwl)]
        q = [[c.real("q_%d_%d" % (w, j), 0.0, 0.5) for j in range(na)] for w in range(nwl)]
    ff, fr, bf = (zeros(c, (nwl, 2 * na, na)) for _ in range(3))
    for w in range(nwl):
        for j in range(na):
            for k in range(na): ff[w, na + j, k] = p[w][j]
            for k in range(na): bf[w, j, k] = q[w][j]
            bf[w, na + j, j] = 0.5
            fr[w, j, j] = 1.0
    z = zeros(c, (nwl, 1, na))
    return p, q, {"A_frontfront": (ff, z), "A_frontrear": (fr, z), "B_backfront": (bf, z)}


def perm(n, caz, na, sp):
    """upward bin i <-> downward bin: rows with the same polar angle (mirrored), as sets of bins per polar angle"""
    th, ph, rows = grid(n, PI / 2, caz, sp)
    up = [r[1] for r in rows[:na]]
    down = [PI - r[1] for r in rows[na:]]
    return up, down


def by_polar(vals, angs):
    """sum of values per polar angle"""
    out = {}
    for v, a in zip(vals, angs):
        k = round(a, 9)
        out[k] = out.get(k, 0.0) + v
    return out


def attenuation(c, n, caz, sp):
    na = grid_size(n, caz)
    d = (1e-4, 5e-5, 2e-3)[c.pick("width", 3)]
    p, q, mats = mats_for(c, na, 2)
    al = zeros(c, 2)
    for w in range(2): al[w] = c.real("alpha_%d" % w, 0.0, 1e6)
    for w in range(2): c.assume(total(p[w]) >= 0.01)
    kw = {} if sp == "sin" else dict(theta_spacing=sp)
    res, o = run(c, n, caz, 2, mats, 8, alphas=al, th_in=0.05, thresh=1e-3, width=d, **kw)
    up, down = perm(n, caz, na, sp)
    t, r = dense(res[1]["t"][0]), dense(res[1]["r"][0])
    A = dense(res[1]["A"][0])
    for w in range(2):
        E = {}
        for a in up + down:
            E[round(a, 9)] = np.exp(-al[w] * d / math.cos(a))
        arr = by_polar([t[0, w, i] * 2.0 for i in range(na)], up)
        src = by_polar(p[w], down)
        for a in sorted(arr):
            c.eq("power after a downward pass", arr[a], src[a] * E[a], 1e-7)
        back = total([t[0, w, i] * 2.0 for i in range(na)])
        c.eq("absorbed on the way down", A[0, w], total(p[w]) - back, 1e-7)
        if np.shape(r)[0] > 1:
            arr = by_polar([r[1, w, i] for i in range(na)], down)     # incidence bins from below: downward half
            src = by_polar([x * back for x in q[w]], up)
            for a in sorted(arr): c.eq("power after an upward pass", arr[a], src[a] * E[a], 1e-6)
            c.eq("absorbed on the way up", A[1, w], total(q[w]) * back - total([r[1, w, i] for i in range(na)]), 1e-6)


CASES = [([8e3, 3e4], 1e-4, 2.6e-5), ([5e2, 2e5], 5e-5, 1.1e-5), ([1e6, 1e4], 2e-5, 4.3e-6)]


def profile(c, n, caz, k, sp="sin"):
    alphas, d, dz = CASES[k]
    na = grid_size(n, caz)
    p, q, mats = mats_for(c, na, 2, mix=True)
    kw = dict(depth_spacing_bulk=dz)
    if sp != "sin": kw["theta_spacing"] = sp
    res, o = run(c, n, caz, 2, mats, 8, alphas=np.array(alphas), th_in=0.05, thresh=1e-3, width=d, bulk_profile=True, **kw)
    up, down = perm(n, caz, na, sp)
    z = [i * dz for i in range(int(math.ceil(d / dz - 1e-9)))]
    prof, A = dense(res[1]["A_prof"][0]), dense(res[1]["A"][0])
    t = dense(res[1]["t"][0])
    c.true("one profile per pass", np.shape(prof)[0] == np.shape(A)[0] and np.shape(prof)[2] == len(z))
    for w in range(2):
        al = alphas[w]
        back = total([t[0, w, i] * 2.0 for i in range(na)])
        ent = {0: by_polar(p[w], down), 1: by_polar([x * back for x in q[w]], up)}
        for ps in range(min(2, np.shape(prof)[0])):
            P = [prof[ps, w, i] for i in range(len(z))]
            for x in P: c.ge("profile not negative", x, 0.0, 1e-6)
            along = P if ps == 0 else P[::-1]
            for i in range(len(z) - 1): c.ge("decays along the direction of travel", along[i], along[i + 1], 1e-6)
            integ = total([(P[i] + P[i + 1]) * 0.5 * dz for i in range(len(z) - 1)])
            c.eq("integral is the power absorbed in the pass", integ, A[ps, w], 1e-7)
            ref = [total([e * (al / math.cos(a)) * math.exp(-al * x / math.cos(a)) for a, e in sorted(ent[ps].items())]) for x in z]
            # proportional to the Beer-Lambert sum over bins (compared to first depth along the direction of travel)
            for i in range(1, len(z)):
                c.eq("Beer-Lambert shape", along[i] * ref[0] * (1 / al ** 2), along[0] * ref[i] * (1 / al ** 2), 1e-7)
    tot = dense(res[3][0])
    for w in range(2):
        for i in range(len(z)):
            c.eq("total profile is the sum over passes", tot[w, i] * dz, total([prof[ps, w, i] for ps in range(np.shape(prof)[0])]) * dz, 1e-7)


def dark(c):
    na = grid_size(2, 0.5)
    p, q, mats = mats_for(c, na, 1)
    c.assume(total(p[0]) >= 0.05)
    res, o = run(c, 2, 0.5, 1, mats, 4, alphas=np.array([0.0]), th_in=0.05, thresh=1e-3, width=1e-4, bulk_profile=True, depth_spacing_bulk=3e-5)
    for x in flist(res[1]["A"][0]): c.eq("nothing absorbed", x, 0.0, 1e-9)
    for x in flist(res[1]["A_prof"][0]): c.eq("profile is zero", x, 0.0, 1e-6)
    for x in flist(res[3][0]): c.eq("total profile is zero", x, 0.0, 1e-6)
