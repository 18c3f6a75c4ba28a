"""C01: angular bins tile the hemispheres; the bin list indexes them one to one."""
from .util import *

ASSUMPTIONS = ["exact real arithmetic stands for float64; polar bin counts <= 4 (quick) / 7 (thorough); the arcsine of the concrete sine-spaced grid is evaluated by numpy"]


def instances(tier):
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    out = []
    for n in ns:
        for sp in ("sin", "linear"):
            out.append(dict(name="tile-n%d-%s" % (n, sp), fn=tile, params=dict(n=n, sp=sp), cost=n,
                            bounds="n_theta_bins=%d, phi_sym in [0.05, 2pi], c_azimuth in (0.0001, 1]" % n))
    return out


def tile(c, n, sp):
    mav = fn(c, "rayflare.angles", "make_angle_vector")
    sym = c.real("phi_sym", 0.05, 2 * PI)
    caz = c.real("c_azimuth", 1e-4, 1.0)
    # ceil(c_azimuth*r) is a float comparison in the code: stay 1e-6 away from the jumps
    for r in range(1, n + 1):
        for k in range(0, r + 1):
            c.assume(either(c, caz * r >= k + 1e-6, caz * r <= k - 1e-6, False) if k else True)
            if k == r: pass
    theta, phi, vec = mav(n, sym, caz, sp)
    th = flist(theta)
    c.true("edge count", len(th) == 2 * n + 1)
    c.true("azimuth list count", len(phi) == 2 * n)
    c.eq("starts at 0", th[0], 0.0, 1e-9)
    c.eq("ends at pi", th[-1], PI, 1e-9)
    c.eq("edge at 90 degrees", th[n], PI / 2, 1e-9)
    for i in range(2 * n):
        c.true("polar edges increase", th[i + 1] > th[i])
        c.eq("downward half mirrors upward", th[i] + th[2 * n - i], PI, 1e-9)
    if sp == "linear":
        for i in range(2 * n): c.eq("linear spacing", th[i + 1] - th[i], PI / (2 * n), 1e-9)
    else:
        for i in range(n + 1): c.eq("sine spacing", math.sin(th[i]), i / n, 1e-9)
    row = 0
    for i in range(2 * n):
        p = flist(phi[i])
        nb = len(p) - 1
        r = i + 1 if i < n else 2 * n - i
        c.true("number of azimuthal bins", both(c, nb >= 1, nb - 1 <= caz * r + 1e-7, nb >= caz * r - 1e-7))
        c.eq("azimuth starts at 0", p[0], 0.0, 1e-9)
        c.eq("azimuth ends at symmetry angle", p[-1], sym, 1e-9)
        for k in range(nb):
            c.true("azimuth edges increase", p[k + 1] > p[k])
            c.eq("azimuth bins equal", p[k + 1] - p[k], sym / nb, 1e-9)
        for k in range(nb):
            if row >= np.shape(vec)[0]: break
            c.eq("row: polar index", vec[row, 0], i, 1e-9)
            c.eq("row: polar centre", vec[row, 1], (th[i] + th[i + 1]) / 2, 1e-9)
            c.eq("row: azimuth centre", vec[row, 2], (p[k] + p[k + 1]) / 2, 1e-9)
            row += 1
        c.true("mirrored azimuth count", nb == len(flist(phi[2 * n - 1 - i])) - 1)
    c.true("one row per bin", row == np.shape(vec)[0])
    c.true("three columns", np.shape(vec)[1] == 3)
