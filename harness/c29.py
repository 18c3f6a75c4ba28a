"""C29: summaries over azimuth (theta_summary)."""
from .util import *

ASSUMPTIONS = ["matrices with arbitrary symbolic entries; angular grids with 1-4 polar bins, symmetry angles 360/m degrees and azimuthal resolutions from a list, both spacings",
               "full matrices (both hemispheres) only: halves are refused by the function"]
ANG = "rayflare.angles"


def instances(tier):
    out = []
    T = tier == "thorough"
    for n in (1, 2, 3) + ((4, 5) if T else ()):
        for caz in (0.25, 0.5, 1.0) if n > 1 else (1.0,):
            for side in ("front", "rear"):
                out.append(dict(name="summary-n%d-c%g-%s" % (n, caz, side), fn=run, params=dict(n=n, caz=caz, side=side), cost=n * n, max_s=300,
                                bounds="n_theta_bins=%d c_azimuth=%g, symmetry 2pi/1..4, both spacings, %s incidence" % (n, caz, side)))
    return out


def run(c, n, caz, side):
    f = fn(c, ANG, "theta_summary")
    mav = fn(c, ANG, "make_angle_vector")
    sym = [2 * PI, PI, 2 * PI / 3, PI / 2][c.pick("symmetry", 4)]
    sp = ("sin", "linear")[c.pick("spacing", 2)]
    th, ph, rows = grid(n, sym, caz, sp)
    vec = np.asarray(mav(n, sym, caz, sp)[2], dtype=float)
    na = len(rows) // 2
    if np.shape(vec) != (2 * na, 3): c.skip("other angular grid (C01)")
    M = zeros(c, (2 * na, na))
    big = na > 6
    for i in range(2 * na):
        for j in range(na): M[i, j] = c.real("m_%d_%d" % (i, j), 0.0, 1.0) if not big or (i + 2 * j) % 3 == 0 else 0.125 * ((i * 3 + j) % 5)
    M0 = M.copy()
    res = f(M, vec, n, side)
    S = dense(res)
    c.true("one row per outgoing and one column per incoming polar angle", np.shape(S) == (2 * n, n))
    if np.shape(S) != (2 * n, n): return
    cent = [(th[i] + th[i + 1]) / 2 for i in range(2 * n)]
    d = list(res.dims)
    out, inn = [[float(v) for v in np.asarray(res.coords[x].data)] for x in d]
    off = 0 if side == "front" else n
    c.true("labelled with the outgoing polar angles", all(abs(a - b) < 1e-9 for a, b in zip(out, cent)))
    c.true("labelled with the incoming polar angles", all(abs(a - b) < 1e-9 for a, b in zip(inn, cent[off:off + n])))
    for a in range(2 * n):
        ii = [i for i in range(2 * na) if rows[i][0] == a]
        for b in range(n):
            jj = [j for j in range(na) if rows[j + (0 if side == "front" else na)][0] == b + off]
            want = total([M0[i, j] for i in ii for j in jj]) / float(len(jj))
            c.eq("power into all azimuths, averaged over the incoming ones", S[a, b], want, 1e-9)
    for b in range(n):
        jj = [j for j in range(na) if rows[j + (0 if side == "front" else na)][0] == b + off]
        c.eq("power is preserved", total([S[a, b] for a in range(2 * n)]), total([M0[i, j] for i in range(2 * na) for j in jj]) / float(len(jj)), 1e-9)
    for i in range(2 * na):
        for j in range(na): c.eq("matrix left alone", M[i, j], M0[i, j], 0.0)
