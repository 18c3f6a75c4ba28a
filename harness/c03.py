"""C03: incident light enters exactly the bin containing its direction (driven through calculate_RAT)."""
import os
from .util import *

ASSUMPTIONS = ["front matrix loaded by the code = identity reflection, so the per-pass reflection reads back the incident power vector",
               "grids concrete per instance: n_theta_bins 1..3, c_azimuth and symmetry angle from the instance list; incidence angles symbolic over the full range",
               "interior: directions at least 1e-6 rad away from bin edges; edges: polar/azimuthal angles exactly on the (float) bin edges, adjacent bin accepted on either side"]


def instances(tier):
    cfg = [(2, 1.0, 4, "sin"), (3, 1.0, 2, "linear"), (2, 0.5, 1, "sin"), (3, 0.34, 3, "linear"), (1, 1.0, 4, "sin")]
    if tier == "thorough": cfg += [(3, 1.0, 4, "sin"), (4, 1.0, 1, "sin"), (4, 0.5, 6, "linear"), (5, 0.4, 2, "sin")]
    out = []
    for n, caz, m, sp in cfg:
        nm = "n%d-c%g-m%d-%s" % (n, caz, m, sp)
        P = dict(n=n, caz=caz, m=m, sp=sp)
        b = "n_theta_bins=%d c_azimuth=%g phi_symmetry=2pi/%d %s spacing" % (n, caz, m, sp)
        out.append(dict(name="interior-" + nm, fn=interior, params=P, bounds=b + ", theta_in in [0,pi/2), phi_in in [0,2pi]", cost=n))
        out.append(dict(name="all-" + nm, fn=allphi, params=P, bounds=b + ", phi_in='all'"))
        out.append(dict(name="edges-" + nm, fn=edges, params=P, bounds=b + ", every combination of polar and azimuthal bin edges"))
    for n, caz, m, sp in [(8, 0.25, 4, "sin"), (6, 0.3, 1, "linear")] + ([(12, 0.1, 2, "sin")] if tier == "thorough" else []):
        nm = "n%d-c%g-m%d-%s" % (n, caz, m, sp)
        b = "n_theta_bins=%d c_azimuth=%g phi_symmetry=2pi/%d %s spacing" % (n, caz, m, sp)
        out.append(dict(name="all-" + nm, fn=allphi, params=dict(n=n, caz=caz, m=m, sp=sp), bounds=b + ", phi_in='all'", cost=n))
        out.append(dict(name="interior-" + nm, fn=interior, params=dict(n=n, caz=caz, m=m, sp=sp), bounds=b + ", theta_in in [0,pi/2), phi_in in [0,2pi]", cost=n))
    return out


def incident(c, n, caz, m, sp, theta, phi, nwl=2):
    f = fn(c, "rayflare.matrix_formalism", "calculate_RAT")
    st = fn(c, "rayflare.structure", "Structure")
    Interface = fn(c, "rayflare.structure", "Interface")
    Bulk = fn(c, "rayflare.structure", "BulkLayer")
    sym = 2 * PI / m
    th, ph, rows = grid(n, sym, caz, sp)
    na = len(rows) // 2
    d = c.scratch()
    os.mkdir(os.path.join(d, "p"))
    RT = zeros(c, (2 * na, na))
    for i in range(na): RT[i, i] = 1.0
    for name in ("A_frontfront", "B_backfront"):
        save_npz(c, os.path.join(d, "p", name + "RT.npz"), RT)
        save_npz(c, os.path.join(d, "p", name + "A.npz"), zeros(c, (1, na)))
    save_npz(c, os.path.join(d, "p", "A_frontrearRT.npz"), zeros(c, (2 * na, na)))
    save_npz(c, os.path.join(d, "p", "A_frontrearA.npz"), zeros(c, (1, na)))
    o = options(theta_in=theta, phi_in=phi, n_theta_bins=n, c_azimuth=caz, phi_symmetry=sym, wavelength=np.array([5e-7, 6e-7][:nwl]))
    if sp != "sin": o.theta_spacing = sp
    SC = st([Interface("Mirror", name="A_front", layers=[]), Bulk(1e-4, Mat(), name="b"), Interface("Mirror", name="B_back", layers=[])],
            incidence=Mat(), transmission=Mat())
    res = f(SC, o, d)
    v = dense(res[1]["r"][0])[0]
    return th, ph, rows, na, v, res[0]


def unit(c, v, na, w, expect):
    c.true("vector length", np.shape(v)[1] == na)
    for i in range(na):
        c.eq("power in bin", v[w, i], expect.get(i, 0.0), 1e-9)


def interior(c, n, caz, m, sp):
    sym = 2 * PI / m
    th, ph, rows = grid(n, sym, caz, sp)
    theta = c.real("theta_in", 0.0, PI / 2 - 1e-6)
    off_edges(c, theta, th[1:n], 1e-6)
    phi = c.real("phi_in", 0.0, 2 * PI)
    i = bin_of(theta, th[:n + 1])
    edges = sorted({round(e + k * sym, 12) for e in ph[i] for k in range(m) } | {2 * PI})
    off_edges(c, phi, edges, 1e-6)
    q = floor(phi / sym)
    k = bin_of(phi - q * sym, ph[i])
    *_, na, v, RAT = incident(c, n, caz, m, sp, theta, phi)
    want = [r for r, x in enumerate(rows) if x[0] == i and x[3] == k][0]
    for w in range(2): unit(c, v, na, w, {want: 1.0})
    for x in flist(RAT["R"].data): c.eq("total incident power", x, 1.0, 1e-9)


def allphi(c, n, caz, m, sp):
    th, ph, rows = grid(n, 2 * PI / m, caz, sp)
    theta = c.real("theta_in", 0.0, PI / 2 - 1e-6)
    off_edges(c, theta, th[1:n], 1e-6)
    i = bin_of(theta, th[:n + 1])
    *_, na, v, RAT = incident(c, n, caz, m, sp, theta, "all")
    idx = [r for r, x in enumerate(rows) if x[0] == i]
    for w in range(2): unit(c, v, na, w, {r: 1.0 / len(idx) for r in idx})


def edges(c, n, caz, m, sp):
    """directions exactly on an edge: one adjacent bin receives everything"""
    sym = 2 * PI / m
    th, ph, rows = grid(n, sym, caz, sp)
    it = c.pick("theta_edge", 2 * n)           # even: edge it/2, odd: middle of bin
    theta = th[it // 2] if it % 2 == 0 else (th[it // 2] + th[it // 2 + 1]) / 2
    okt = [it // 2 - 1, it // 2] if it % 2 == 0 else [it // 2]
    cand = sorted({float(e) for t in okt if t >= 0 for e in ph[t]})
    ip = c.pick("phi_edge", len(cand))
    turn = c.pick("turns", m if m > 1 else 1)
    base = cand[ip]
    phi = base + turn * sym
    *_, na, v, RAT = incident(c, n, caz, m, sp, theta, phi)
    ok = []
    for r, x in enumerate(rows[:na]):
        if x[0] not in okt: continue
        e = ph[x[0]]
        lo, hi = e[x[3]], e[x[3] + 1]
        for b in (base, base - sym, base + sym):
            if lo - 1e-9 <= b <= hi + 1e-9 and r not in ok: ok.append(r)
    for w in range(2):
        s = total([v[w, i] for i in range(na)])
        c.eq("total incident power", s, 1.0, 1e-9)
        one = False
        for r in ok: one = either(c, one, v[w, r] == 1.0)
        c.true("in one adjacent bin", one)
