"""C02: azimuth folding."""
from .util import *
from symx.core import is_sym

ASSUMPTIONS = ["exact real arithmetic stands for float64 (results within rounding of the symmetry angle are not distinguished from it)",
               "symmetry angles 2pi/m for m = 1..6 (quick) / 1..12 (thorough), azimuth in [-2pi, 4pi]"]


def instances(tier):
    ms = range(1, 7) if tier == "quick" else range(1, 13)
    out = []
    for m in ms:
        for where in ("rayflare.angles", "rayflare.rigorous_coupled_wave_analysis.rcwa"):
            out.append(dict(name="fold-%s-m%d" % (where.split(".")[-1], m), fn=fold, params=dict(m=m, where=where),
                            bounds="phi in [-2pi,4pi], phi_sym=2pi/%d" % m))
    out.append(dict(name="array", fn=fold_array, params={}, bounds="array of 2 azimuths in [-pi,3pi], phi_sym = 2pi/m, m=1..4"))
    return out


def _post(c, f, phi, sym, r):
    c.le("not negative", 0.0, r, 1e-9)
    c.le("below symmetry angle", r, sym, 1e-9)
    k = floor((phi - r) / sym + 0.5)
    c.eq("whole multiple of symmetry angle", phi - r, k * sym, 1e-7)


def fold(c, m, where):
    f = fn(c, where, "fold_phi")
    sym = 2 * PI / m
    phi = c.real("phi", -2 * PI, 4 * PI)
    # stay 1e-7 away from multiples of the symmetry angle (float rounding decides those)
    k = floor(phi / sym)
    c.assume(phi - k * sym > 1e-7)
    c.assume((k + 1) * sym - phi > 1e-7)
    r = f(phi, sym)
    _post(c, f, phi, sym, r)
    c.eq("folding twice", f(r, sym), r, 1e-7)


def fold_array(c):
    f = fn(c, "rayflare.angles", "fold_phi")
    m = c.pick("m", 4) + 1
    sym = 2 * PI / m
    ph = c.reals("phi", 2, -PI, 3 * PI)
    for p in flist(ph):
        k = floor(p / sym)
        c.assume(p - k * sym > 1e-7)
        c.assume((k + 1) * sym - p > 1e-7)
    r = f(ph, sym)
    c.true("shape", np.shape(r) == (2,))
    for p, q in zip(flist(ph), flist(r)): _post(c, f, p, sym, q)
