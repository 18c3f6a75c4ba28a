"""C04: light leaving one surface arrives at the other in the mirrored, rotated bin (driven through calculate_RAT)."""
import os
from .util import *

ASSUMPTIONS = ["no bulk absorption in these instances, so the per-pass results read back the power per bin after each crossing",
               "the azimuthal resolution is symbolic in (0,1] (1e-6 away from the jumps of the bin count) or picked from {1/4, 1/3, 1/2, 3/4, 1}; the symmetry angle is 2pi/m",
               "when the rotated azimuth falls exactly on an edge, the bin on either side is accepted"]


def instances(tier):
    out = []
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    ms = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8)
    for n in ns:
        for m in ms:
            sp = "sin" if (n + m) % 2 else "linear"
            if tier == "quick" and n == 3 and m == 3: continue
            out.append(dict(name="cross-n%d-m%d-%s" % (n, m, sp), fn=cross, params=dict(n=n, m=m, sp=sp), cost=n * n, max_s=400,
                            bounds="n_theta_bins=%d, phi_symmetry=2pi/%d, c_azimuth in (0,1], every source bin and power, both directions" % (n, m)))
    return out


def azimuth_res(c, n):
    """the azimuthal resolution: any value off the jumps of the bin counts, or one exactly on them"""
    if c.flag("exact_resolution"):
        return (0.25, 1 / 3, 0.5, 0.75, 1.0)[c.pick("resolution", 5)]
    caz = c.real("c_azimuth", 1e-4, 1.0)
    for r in range(1, n + 1):
        for k in range(1, r + 1): c.assume(either(c, caz * r >= k + 1e-6, caz * r <= k - 1e-6))
    return caz


def targets(vec, phi, row, theta_in, sym, rot=PI):
    """rows of the bin list with polar centre theta_in whose azimuth range contains row's azimuth rotated by rot"""
    out = []
    x = (float(vec[row, 2]) + rot) % sym
    for r in range(len(vec)):
        if abs(float(vec[r, 1]) - theta_in) > 1e-9: continue
        e = [float(y) for y in flist(phi[int(vec[r, 0])])]
        k = r - min(q for q in range(len(vec)) if int(vec[q, 0]) == int(vec[r, 0]))
        for b in (x, x - sym, x + sym):
            if e[k] - 1e-7 <= b <= e[k + 1] + 1e-7 and r not in out: out.append(r)
    return out


def only_in(c, name, v, ok, p):
    """all of p in exactly one of the ok bins, nothing elsewhere"""
    c.eq(name + ": power conserved", total(v), p, 1e-7)
    for i, x in enumerate(v):
        if i not in ok: c.eq(name + ": nothing in other bins", x, 0.0, 1e-7)
    one = False
    for i in ok: one = either(c, one, both(c, v[i] - p <= 1e-7, p - v[i] <= 1e-7))
    c.true(name + ": in exactly one bin", one)


def cross(c, n, m, sp):
    f = fn(c, "rayflare.matrix_formalism", "calculate_RAT")
    mav = fn(c, "rayflare.angles", "make_angle_vector")
    st = fn(c, "rayflare.structure", "Structure")
    Interface = fn(c, "rayflare.structure", "Interface")
    Bulk = fn(c, "rayflare.structure", "BulkLayer")
    sym = 2 * PI / m
    caz = azimuth_res(c, n)
    th, ph, vec = mav(n, sym, caz, sp)
    vec = np.asarray(vec, dtype=object)
    N = len(vec)
    na = N // 2
    src = c.pick("bin", na)
    p, q = c.real("power_down", 0.2, 1.0), c.real("power_up", 0.05, 0.5)
    d = c.scratch()
    os.mkdir(os.path.join(d, "p"))
    z = lambda *s: zeros(c, s)
    ff, fr, bf = z(2 * na, na), z(2 * na, na), z(2 * na, na)
    for j in range(na):
        ff[na + src, j] = p              # front, from above: all power into downward bin src
        bf[na + j, j] = 0.25             # back: diagonal transmission reads the bin it arrived in
        bf[src, j] = q                   # back reflects everything into upward bin src
        fr[j, j] = 1.0                   # front, from below: diagonal transmission reads the bin
    for nm, mat in (("A_frontfront", ff), ("A_frontrear", fr), ("B_backfront", bf)):
        save_npz(c, os.path.join(d, "p", nm + "RT.npz"), mat)
        save_npz(c, os.path.join(d, "p", nm + "A.npz"), z(1, na))
    o = options(theta_in=0.1, phi_in=0.01, n_theta_bins=n, c_azimuth=caz, phi_symmetry=sym, wavelength=np.array([5e-7]), I_thresh=0.01)
    if sp != "sin": o.theta_spacing = sp
    SC = st([Interface("Mirror", name="A_front", layers=[]), Bulk(1e-4, Mat(), name="b"), Interface("Mirror", name="B_back", layers=[])],
            incidence=Mat(), transmission=Mat())
    res = f(SC, o, d)
    t, r = dense(res[1]["t"][0]), dense(res[1]["r"][0])
    c.true("passes", np.shape(t)[0] == 1 and np.shape(r)[0] == 2)
    down = [t[0, 0, i] * 4.0 for i in range(na)]
    ok = targets(vec, ph, na + src, PI - float(vec[na + src, 1]), sym)
    only_in(c, "downwards", down, ok, p)
    up = [r[1, 0, i] for i in range(na)]
    # incidence bins of rear matrices are the downward half in the order of the bin list
    ok = [x - na for x in targets(vec, ph, src, PI - float(vec[src, 1]), sym)]
    only_in(c, "upwards", up, ok, p * q)
