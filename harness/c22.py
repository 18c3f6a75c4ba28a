"""C22: diffraction orders follow the grating equation and grouping conserves power."""
from .util import *
import importlib, types

DF, RC = "rayflare.analytic.diffraction", "rayflare.rigorous_coupled_wave_analysis.rcwa"
ASSUMPTIONS = ["the S4 call that returns the reciprocal lattice is replaced by its formula (b1 = (by, -bx)/area, b2 = (-ay, ax)/area)",
               "real refractive indices in [1, 4] and wavelengths 250-1500 nm (polar angles); momenta checked with everything symbolic as long as all orders propagate",
               "directions at least 1e-3 (squared relative momentum) away from grazing; the azimuth of an order without in-plane momentum is not checked",
               "grouping: lattices from a list, 1-2 wavelengths, up to 9 orders, powers of the first wavelength in order or all equal (the others arbitrary)"]
CELLS = {"square": ((700.0, 0.0), (0.0, 700.0)), "oblong": ((900.0, 0.0), (0.0, 550.0)), "hex": ((800.0, 0.0), (400.0, 400.0 * math.sqrt(3.0))), "skew": ((300.0, 650.0), (-720.0, 180.0))}


def recip(size):
    (ax, ay), (bx, by) = size
    det = ax * by - ay * bx
    return ((by / det, -bx / det), (-ay / det, ax / det))


def instances(tier):
    out = []
    T = tier == "thorough"
    for m in (0, 1) + ((2,) if T else ()):
        for free in (("all",) if m == 0 else ("wl", "theta", "phi")):
            out.append(dict(name="momentum-m%d-%s" % (m, free), fn=momentum, params=dict(m=m, free=free), cost=1 + m, max_s=60, bounds="orders up to +-%d, %s and angles for which every order propagates" % (m, "all reciprocal lattices, wavelengths, indices" if m == 0 else "one skew lattice, every %s" % free)))
    cfg = [("oblong", 0.0, 0.0, 2 * PI), ("hex", 0.25, 0.375, PI / 2), ("skew", 0.75, 2.0, 2 * PI), ("square", 0.5, -0.75, 2 * PI / 3)]
    if T: cfg += [(cell, th, ph, sym) for cell in CELLS for th, ph in ((0.0, 0.0), (0.3, 1.0), (1.2, 4.0)) for sym in (PI / 2, PI, 2 * PI)]
    for i, (cell, th, ph, sym) in enumerate(cfg):
        for what in ("wl", "n_in", "n_out") if th == 0 else ("n_out",):
            out.append(dict(name="angles-%s-%d-%s" % (cell, i, what), fn=angles, params=dict(cell=cell, th=th, ph=ph, sym=sym, what=what), cost=3, max_s=300, bounds="%s cell, incidence %.3g/%.3g, orders up to +-1, symbolic %s" % (cell, th, ph, what)))
    for i, sym in enumerate((PI / 3, PI / 2, PI, 2 * PI)):
        out.append(dict(name="fold-%d" % i, fn=fold_one, params=dict(sym=sym), max_s=60, bounds="every azimuth in [-pi, pi], symmetry angle %.4f" % sym))
    out.append(dict(name="incidence", fn=incidence, params={}, cost=2, max_s=200, bounds="zeroth order, every incidence angle, index pair and wavelength"))
    for k in ("material", "constant", "complex", "list", "array"):
        out.append(dict(name="input-%s" % k, fn=inputs, params=dict(kind=k), bounds="media given as %s, 2 wavelengths" % k))
    for cell in CELLS:
        for eq in (True, False):
            out.append(dict(name="group-%s-%s" % (cell, "equal" if eq else "distinct"), fn=group, params=dict(cell=cell, equal=eq), max_s=200, bounds="%s lattice, 7-9 orders in any of several sequences, 2 wavelengths" % cell))
    return out


def lattice(c, given, asked):
    m = importlib.import_module(DF)

    def get(size, orders=9):
        asked.append(size)
        return given if given is not None else recip(size)
    r = importlib.import_module(RC)
    c.patch(r, "S4", types.SimpleNamespace(New=lambda size, orders: types.SimpleNamespace(GetReciprocalLattice=lambda: get(size))))
    if hasattr(m, "S4"): c.patch(m, "S4", types.SimpleNamespace(New=lambda size, orders: types.SimpleNamespace(GetReciprocalLattice=lambda: get(size))))


def entries(c, res, nwl, m):
    xv, yv = flist(res["order_index"][0]), flist(res["order_index"][1])
    no = (2 * m + 1) ** 2
    c.true("every order once", len(xv) == no and sorted((int(a), int(b)) for a, b in zip(xv, yv)) == [(a, b) for a in range(-m, m + 1) for b in range(-m, m + 1)])
    ok = all(np.shape(res[k]) == (nwl, no) for k in ("fr_x", "fr_y", "theta_r", "theta_t", "phi")) and np.shape(res["k_xy"]) == (no,)
    c.true("shapes", ok)
    return [(int(a), int(b)) for a, b in zip(xv, yv)] if ok and len(xv) == no else None


def momentum(c, m, free):
    f = fn(c, DF, "get_order_directions")
    if m == 0: rl = tuple(tuple(c.real("b%d%s" % (i, a), -0.25, 0.25) for a in "xy") for i in (1, 2))
    else: rl = ((0.25, -0.0625), (0.125, 0.1875))
    nwl = 2 if m == 0 else 1
    wl = zeros(c, nwl)
    for i in range(nwl): wl[i] = c.real("wl%d" % i, 1.0, 2.0) if m == 0 or free == "wl" else 1.5
    th, ph = c.angle("theta", 0.0, 0.5) if m == 0 or free == "theta" else 0.375, c.angle("phi", 0.0, 2 * PI) if m == 0 or free == "phi" else 2.625
    ni, no = c.real("n_in", 2.0, 4.0) if m == 0 else 3.5, c.real("n_out", 3.0, 4.0) if m == 0 else 4.0
    for i in range(nwl): c.assume(ni / wl[i] >= 1.75)         # with |G| <= 0.36 sqrt(2) m every order propagates
    # a common scale: wavelengths of 1-2 length units
    asked = []
    size = ((3.0, 0.0), (0.5, 4.0))
    lattice(c, rl, asked)
    c.forget_roots(m > 0)
    if m > 0 and c.symbolic: c.patch(importlib.import_module(DF), "fold_phi", lambda p, s: p)
    soft = lambda v: Mat(n=v, k=0.0)
    res = f(wl, size, m, soft(ni), soft(no), th, ph, 2 * PI)
    c.true("reciprocal lattice of the unit cell given", all(np.allclose(np.asarray(a, dtype=float), np.asarray(size)) for a in asked) and len(asked) > 0)
    e = entries(c, res, nwl, m)
    if e is None: return
    for w in range(nwl):
        kx, ky = ni / wl[w] * core.sin_(th) * core.cos_(ph), ni / wl[w] * core.sin_(th) * core.sin_(ph)
        for q, (a, b) in enumerate(e):
            c.eq("x momentum", res["fr_x"][w, q], kx + a * rl[0][0] + b * rl[1][0], 1e-9)
            c.eq("y momentum", res["fr_y"][w, q], ky + a * rl[0][1] + b * rl[1][1], 1e-9)
    for q, (a, b) in enumerate(e):
        g = [a * rl[0][i] + b * rl[1][i] for i in (0, 1)]
        c.eq("magnitude of the reciprocal-lattice vector", res["k_xy"][q] * res["k_xy"][q], 4 * PI * PI * (g[0] * g[0] + g[1] * g[1]), 1e-6)
        c.ge("magnitude of the reciprocal-lattice vector", res["k_xy"][q], 0.0)


def polar(c, name, t, s2, up, gap=1e-3):
    """t: polar angle of an order whose squared relative in-plane momentum is s2"""
    cs = core.cos_(t) if core.is_sym(t) else math.cos(t)
    if bool(s2 >= 1.0):
        c.eq(name + ": orders that do not fit are grazing", t, PI / 2, 1e-6)
    else:
        c.eq(name + ": from the in-plane momentum", cs * cs, 1.0 - s2, 1e-6)
        c.true(name + ": hemisphere", (cs >= -1e-9) if up else (cs <= 1e-9))


def angles(c, cell, th, ph, sym, what):
    f = fn(c, DF, "get_order_directions")
    c.unlink_angles()
    asked = []
    lattice(c, None, asked)
    wl = zeros(c, 1)
    wl[0] = c.real("wl", 250.0, 1500.0) if what == "wl" else 620.0
    ni = c.real("n_in", 1.0, 4.0) if what == "n_in" else 1.0
    no = c.real("n_out", 1.0, 4.0) if what == "n_out" else 2.5
    size = CELLS[cell]
    rl = recip(size)
    ref = []
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            kx = ni / wl[0] * (math.sin(th) * math.cos(ph)) + a * rl[0][0] + b * rl[1][0]
            ky = ni / wl[0] * (math.sin(th) * math.sin(ph)) + a * rl[0][1] + b * rl[1][1]
            k2 = (kx * kx + ky * ky) * wl[0] * wl[0]
            ref.append(((a, b), kx, ky, k2))
            for n in (ni, no):
                g = 1e-3 if c.symbolic else 9e-4
                c.assume(either(c, k2 >= n * n * (1 + g), k2 <= n * n * (1 - g)))
    folded = c.symbolic and th != 0 and what != "n_out"      # folding a symbolic azimuth is decided by the "fold" instances
    if folded:
        def fold(p, s):
            c.true("folded to the symmetry range", abs(float(s) - sym) < 1e-12)
            return p
        c.patch(importlib.import_module(DF), "fold_phi", fold)
    res = f(wl, size, 1, Mat(ni, 0.0), Mat(no, 0.0), th, ph, sym)
    e = entries(c, res, 1, 1)
    if e is None: return
    c.true("reciprocal lattice of the unit cell given", all(np.allclose(np.asarray(a, dtype=float), np.asarray(size)) for a in asked) and len(asked) > 0)
    for q, o in enumerate(e):
        _, kx, ky, k2 = next(r for r in ref if r[0] == o)
        polar(c, "reflected", res["theta_r"][0, q], k2 / (ni * ni), True)
        polar(c, "transmitted", res["theta_t"][0, q], k2 / (no * no), False)
        p = res["phi"][0, q]
        if folded:
            if th == 0 and o == (0, 0): continue
            cp, sp = core.cos_(p), core.sin_(p)
            c.eq("azimuth in which the order leaves", cp * ky, sp * kx, 1e-9)
            c.ge("azimuth in which the order leaves", cp * kx + sp * ky, 0.0)
            continue
        c.true("azimuth within the symmetry range", both(c, p >= -1e-9, p <= sym + 1e-9))
        if th == 0 and o == (0, 0): continue
        a = core.atan2_(ky, kx) if core.is_sym(kx) or core.is_sym(ky) else math.atan2(ky, kx)
        # equal up to a multiple of the symmetry angle
        c.true("azimuth in which the order leaves", either(c, *[abs(p + i * sym - a) <= 1e-6 for i in range(-7, 3)]))
        c.true("magnitude", abs(float(res["k_xy"][q]) - 2 * PI * math.hypot(o[0] * rl[0][0] + o[1] * rl[1][0], o[0] * rl[0][1] + o[1] * rl[1][1])) < 1e-9)


def fold_one(c, sym):
    f = fn(c, DF, "fold_phi")
    a = zeros(c, 2)
    a[0] = c.real("a", -PI, PI)
    a[1] = 0.5
    r = f(a, sym)
    for i in range(2):
        c.true("azimuth within the symmetry range", both(c, r[i] >= -1e-9, r[i] <= sym + 1e-9))
        c.true("a multiple of the symmetry angle", either(c, *[abs(r[i] + q * sym - a[i]) <= 1e-6 for q in range(-7, 7)]))


def incidence(c):
    f = fn(c, DF, "get_order_directions")
    lattice(c, None, [])
    wl = zeros(c, 1)
    wl[0] = c.real("wl", 250.0, 1500.0)
    ni, no = c.real("n_in", 1.0, 4.0), c.real("n_out", 1.0, 4.0)
    th, ph = c.angle("theta", 0.0, 1.5), c.angle("phi", 0.0, 2 * PI)
    s = core.sin_(th)
    g = 1e-3 if c.symbolic else 9e-4
    c.assume(either(c, s * ni >= no * (1 + g), s * ni <= no * (1 - g)))
    res = f(wl, CELLS["hex"], 0, Mat(ni, 0.0), Mat(no, 0.0), th, ph, 2 * PI)
    if entries(c, res, 1, 0) is None: return
    polar(c, "specular", res["theta_r"][0, 0], s * s, True)
    polar(c, "refracted", res["theta_t"][0, 0], s * s * ni * ni / (no * no), False)


def inputs(c, kind):
    f = fn(c, DF, "get_order_directions")
    lattice(c, None, [])
    wl = zeros(c, 2)
    wl[0], wl[1] = 600.0, 800.0
    a, b = ([1.0, 1.25], [2.0, 2.5]) if kind in ("material", "list", "array") else ([1.25, 1.25], [2.5, 2.5])

    def give(v):
        if kind == "material": return Mat(n=lambda x: np.array([v[0] if abs(q - 6e-7) < 1e-9 else v[1] for q in x]), k=lambda x: np.array([0.0 for q in x]))
        if kind == "constant": return v[0]
        if kind == "complex": return complex(v[0], 0.0)
        if kind == "list": return list(v)
        return np.array(v)
    th = (0.0, 0.125, 0.25)[c.pick("theta", 3)]
    res = f(wl, CELLS["oblong"], 1, give(a), give(b), th, 0.5, 2 * PI)
    e = entries(c, res, 2, 1)
    if e is None: return
    rl = recip(CELLS["oblong"])
    for w in range(2):
        for q, (m, n) in enumerate(e):
            k = a[w] / float(wl[w]) * core.sin_(th)
            c.eq("x momentum", res["fr_x"][w, q], k * math.cos(0.5) + m * rl[0][0] + n * rl[1][0], 1e-9)
            c.eq("y momentum", res["fr_y"][w, q], k * math.sin(0.5) + m * rl[0][1] + n * rl[1][1], 1e-9)
            if (m, n) == (0, 0):
                s = core.sin_(th)
                polar(c, "specular", res["theta_r"][w, q], s * s, True)
                polar(c, "refracted", res["theta_t"][w, q], s * s * (a[w] / b[w]) ** 2, False)


def group(c, cell, equal):
    f = fn(c, DF, "group_diffraction_orders")
    orders = [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, -1), (-1, 1)] + ([(1, 1), (-1, -1)] if cell != "hex" else [])
    k = c.pick("sequence", 3)
    if k == 1: orders = orders[::-1]
    if k == 2: orders = orders[3:] + orders[:3]
    P = zeros(c, (2, len(orders)))
    base = c.real("p", 0.0, 1.0)
    for j in range(len(orders)):
        P[0, j] = base if equal else c.real("p0_%d" % j, 0.125 * j, 0.125 * j + 0.0625)
        P[1, j] = c.real("p1_%d" % j, 0.0, 1.0)
    given = [[P[w, j] for j in range(len(orders))] for w in range(2)]
    res = f(CELLS[cell], [list(o) for o in orders], P)
    bare = f(CELLS[cell], [list(o) for o in orders])
    rl = recip(CELLS[cell])
    mag = [2 * PI * math.hypot(o[0] * rl[0][0] + o[1] * rl[1][0], o[0] * rl[0][1] + o[1] * rl[1][1]) for o in orders]
    for r in (res, bare):
        kk = [float(v) for v in flist(r["k_xy"])]
        c.true("each magnitude once", all(abs(a - b) > 1e-9 for i, a in enumerate(kk) for b in kk[:i]) and all(min(abs(m - a) for a in kk) < 1e-9 for m in mag) and all(min(abs(m - a) for m in mag) < 1e-9 for a in kk))
        reps = [int(v) for v in flist(r["reps"])]
        c.true("number of orders of the group", len(reps) == len(kk) and all(reps[i] == sum(abs(m - kk[i]) < 1e-8 for m in mag) for i in range(len(kk))))
    got = np.asarray(res["per_order"], dtype=object)
    kk = [float(v) for v in flist(res["k_xy"])]
    c.true("power per wavelength and group", np.shape(got) == (2, len(kk)))
    if np.shape(got) != (2, len(kk)): return
    reps = [sum(abs(mag[j] - a) < 1e-8 for j in range(len(orders))) for a in kk]
    c.true("number of different powers merged", [int(v) for v in flist(res["degeneracy"])] == ([1] * len(kk) if equal else reps))
    for w in range(2):
        for i, a in enumerate(kk):
            c.eq("group power", got[w, i], total([given[w][j] for j in range(len(orders)) if abs(mag[j] - a) < 1e-8]), 1e-9)
        c.eq("total power", total(list(got[w])), total(given[w]), 1e-9)
        for j in range(len(orders)): c.eq("powers given are left alone", P[w, j], given[w][j], 0.0)
