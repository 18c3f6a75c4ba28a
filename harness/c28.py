"""C28: perfect mirror and perfect diffuser."""
import os
from .util import *
from .c04 import azimuth_res, targets, only_in

ASSUMPTIONS = ["azimuthal resolution symbolic in (0,1] (1e-6 away from the jumps of the bin count) or picked from {1/4, 1/3, 1/2, 3/4, 1}; symmetry angle 2pi/m",
               "when the rotated azimuth falls exactly on an edge, the bin on either side is accepted"]


def instances(tier):
    out = []
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    ms = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8)
    for n in ns:
        for m in ms:
            for sp in ("sin", "linear"):
                b = "n_theta_bins=%d, phi_symmetry=2pi/%d, c_azimuth in (0,1]" % (n, m)
                out.append(dict(name="mirror-n%d-m%d-%s" % (n, m, sp), fn=mirror, params=dict(n=n, m=m, sp=sp), cost=n, bounds=b + ", front and rear incidence"))
            out.append(dict(name="diffuse-n%d-m%d" % (n, m), fn=diffuse, params=dict(n=n, m=m), cost=n, bounds=b + ", both spacings"))
    return out


def mats(c, which, n, m, sp, side, d):
    mav = fn(c, "rayflare.angles", "make_angle_vector")
    f = fn(c, "rayflare.matrix_formalism.ideal_cases", which)
    sym = 2 * PI / m
    caz = azimuth_res(c, n)
    th, ph, vec = mav(n, sym, caz, sp)
    o = options(phi_symmetry=sym, n_theta_bins=n, c_azimuth=caz)
    if which == "mirror_matrix":
        RT, A = f(vec, th, ph, "s", o, d, front_or_rear=side, save=True, overwrite=c.flag("overwrite"))
    else:
        RT, A = f(vec, th, "s", d, side, True, c.flag("overwrite"))
    return th, ph, np.asarray(vec, dtype=object), sym, dense(RT), dense(A)


def common(c, RT, A, na):
    c.true("shape", np.shape(RT) == (2 * na, na) and np.shape(A)[-1] == na)
    for x in flist(A): c.eq("absorbs nothing", x, 0.0, 1e-12)
    for j in range(na): c.eq("column carries all power", total(col(RT, j)), 1.0, 1e-9)


def mirror(c, n, m, sp):
    d = c.scratch()
    side = ("front", "rear")[c.pick("side", 2)]
    th, ph, vec, sym, RT, A = mats(c, "mirror_matrix", n, m, sp, side, d)
    na = len(vec) // 2
    common(c, RT, A, na)
    off = 0 if side == "front" else na
    for j in range(na):
        ok = targets(vec, ph, off + j, float(vec[off + j, 1]), sym)
        # light incident from the front at polar angle theta leaves upwards at the same polar angle
        only_in(c, "mirror", [RT[i, j] for i in range(2 * na)], ok, 1.0)


def diffuse(c, n, m):
    d = c.scratch()
    sp = ("sin", "linear")[c.pick("spacing", 2)]
    th, ph, vec, sym, RT, A = mats(c, "lambertian_matrix", n, m, sp, "front", d)
    na = len(vec) // 2
    common(c, RT, A, na)
    tl = [float(x) for x in flist(th)]
    w = []
    for i in range(n):
        nb = len(flist(ph[i])) - 1
        w += [math.cos((tl[i] + tl[i + 1]) / 2) * (tl[i + 1] - tl[i]) / nb] * nb
    s = sum(w)
    for j in range(na):
        for i in range(2 * na):
            c.eq("diffuse distribution", RT[i, j], w[i] / s if i < na else 0.0, 1e-9)
