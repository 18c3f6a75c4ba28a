"""C20: RCWA redistribution matrices conserve power and place every order correctly (driven through RCWA())."""
from .util import *
from .rcwastub import World, RC, INC

ASSUMPTIONS = ["solver results symbolic at the library boundary (Inkstone and S4 replaced by recording stand-ins): per stack and excitation R + T + sum(A) = 1, transmitted orders sum to T with evanescent ones zero, reflected orders known up to a common factor (evanescent ones arbitrary)",
               "non-zero powers at least 2^-10 (negative rounding noise of the solver excluded here, C21 covers it), or nothing reflected at all",
               "unit cells, basis orders, wavelengths, indices and angle grids from lists (square, oblong and hexagonal cells; 1-3 layers; 1-3 polar bins; symmetry angles 90, 120, 180 and 360 degrees) so that directions are concrete",
               "an order whose direction lies within 1e-6 of a bin edge may go to either bin"]
CELLS = {"square": ((700.0, 0.0), (0.0, 700.0)), "oblong": ((900.0, 0.0), (0.0, 550.0)), "hex": ((800.0, 0.0), (400.0, 400.0 * math.sqrt(3.0))), "skew": ((300.0, 650.0), (-720.0, 180.0))}
BASIS = {1: [(0, 0)], 3: [(0, 0), (1, 0), (-1, 0)], 5: [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1)], 7: [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, -1), (-1, 1)]}


def instances(tier):
    out = []
    T = tier == "thorough"

    def add(name, cost=1, bounds="", **p):
        for side in ("front", "rear"):
            for be in ("inkstone", "S4"):
                q = dict(side=side, be=be, cell="square", nb=5, n=2, caz=0.5, sym=2 * PI, sp="sin", nl=1, pol="s", wls=1, n_top=1.0, n_bot=1.5)
                q.update(p)
                out.append(dict(name="%s-%s-%s" % (name, side, be.lower()), fn=matrix, params=q, cost=cost, max_s=400 if not T else 1500,
                                bounds="%(nl)d layers, %(nb)d orders, %(cell)s cell, n_theta_bins=%(n)d c_azimuth=%(caz)g symmetry %(sym).4g %(sp)s, indices %(n_top)g / %(n_bot)g, pol %(pol)s" % q))
    add("oblong", 3, cell="oblong", nb=5, caz=1.0, n=2, sym=2 * PI)
    add("hex", 3, cell="hex", nb=7, caz=1.0, n=2, sym=2 * PI / 3, pol="p", sp="linear")
    add("skew", 3, cell="skew", nb=5, caz=0.75, n=2, sym=PI, pol="u", n_bot=3.5)
    add("fold", 2, cell="oblong", nb=5, caz=1.0, n=1, sym=PI / 2, n_top=1.5, n_bot=1.0)
    add("layers", 2, nl=3, nb=3, n=1, caz=1.0, sym=PI / 2, geo=True)
    add("layers2", 2, nl=2, nb=1, n=1, caz=1.0, sym=PI, geo=True, pol="t")
    add("wavelengths", 2, nl=1, nb=3, n=1, caz=1.0, sym=PI / 2, wls=2, cell="oblong")
    add("transparent", 2, nl=1, nb=3, n=1, caz=1.0, sym=PI, none="r")
    add("absorbing", 2, nl=1, nb=3, n=2, caz=1.0, sym=PI, k_bot=0.002, cell="oblong")
    add("profile", 2, nl=2, nb=1, n=2, caz=1.0, sym=PI, prof=True, geo=True)
    add("profile3", 3, nl=3, nb=1, n=1, caz=0.5, sym=PI, prof=True)
    if T:
        for cell in CELLS:
            for sym in (PI / 2, 2 * PI / 3, PI, 2 * PI):
                for n, sp in ((2, "linear"), (3, "sin")):
                    add("grid-%s-%.3g-%d" % (cell, sym, n), 4, cell=cell, nb=7 if cell == "hex" else 5, caz=0.5, n=n, sym=sym, sp=sp, n_top=1.5, n_bot=2.5)
    return out


def matrix(c, side, be, cell, nb, n, caz, sym, sp, nl, pol, wls, n_top, n_bot, geo=False, prof=False, none="", k_bot=0.0):
    f = fn(c, RC, "RCWA")
    from solcore.structure import Layer
    w = World(c, BASIS[nb], none=none)
    WL = [6.3e-7, 5.1e-7][:wls]
    disp = lambda base: (lambda wl: np.asarray(wl) * 0 + base + (np.asarray(wl) - 6.3e-7) * 1e6)
    mats = [Mat(n=disp(2.0 + i), k=lambda wl, i=i: np.asarray(wl) * 0 + 0.125 * (i + 1), name="m%d" % i) for i in range(nl)]
    shp = [Mat(n=disp(1.5 + 0.25 * i), k=lambda wl, i=i: np.asarray(wl) * 0 + 0.5, name="shape%d" % i) for i in range(nl)]
    geos = [[{}], [{}], [{}]]
    if geo:
        geos = [[dict(type="circle", mat=shp[0], center=(1.0, 2.0), radius=50.0)],
                [],
                [dict(type="rectangle", mat=shp[-1], center=(0.0, 3.0), halfwidths=(40.0, 60.0), angle=10.0), dict(type="ellipse", mat=shp[0], center=(5.0, 3.0), halfwidths=(30.0, 20.0), angle=20.0)]][:nl]
    else: geos = [[]] * nl
    W = [400.0, 600.0, 500.0][:nl]
    step = 200.0
    if prof and c.flag("odd_widths"): W, step = [500.0, 450.0, 725.0][:nl], 150.0
    L = [Layer(W[i] * 1e-9, mats[i], geometry=list(geos[i])) for i in range(nl)]
    inc = Mat(n=disp(n_top), k=0.0, name="inc")
    trn = Mat(n=disp(n_bot), k=k_bot, name="trn")
    want_pol = {"s": (1, 0), "p": (0, 1), "u": (math.sqrt(0.5), math.sqrt(0.5)), "t": (0.6, 0.8)}[pol]
    o = options(wavelength=np.array(WL), n_theta_bins=n, phi_symmetry=sym, c_azimuth=caz, theta_spacing=sp, pol=pol if pol != "t" else (0.6, 0.8), depth_spacing=step * 1e-9, RCWA_method=be, S4_options=dict(SubpixelSmoothing=True))
    pl = None
    if prof: pl = [l for l in range(1, nl + 1) if c.flag("prof_%d" % l)] or [nl]
    given = list(pl) if pl else None
    if pl and len(pl) > 1 and c.flag("listed_backwards"): pl = pl[::-1]
    res = f(L, CELLS[cell], nb, o, c.scratch(), inc, trn, False, pl, side, "s", save=False)
    RT, AA = dense(res[0]), dense(res[1])
    th, ph, rows = grid(n, sym, caz, sp)
    na = len(rows) // 2
    ok = np.shape(RT) == (wls, 2 * na, na) and np.shape(AA) == (wls, nl, na)
    c.true("shapes", ok)
    if not ok: return
    order = list(range(nl)) if side == "front" else list(range(nl))[::-1]
    for s in w.made:
        if s.exc is None: continue
        wl = 1e-9 / float(s.freq)
        c.true("current wavelength", any(abs(wl - x) < 1e-15 for x in WL))
        st = s.stack()
        c.true("unit cell and orders", np.allclose(np.asarray(s.size), np.asarray(CELLS[cell])) and s.orders == nb)
        c.true("one solver layer per layer", len(st) == nl + 2)
        if len(st) != nl + 2: return
        eps = lambda m: complex(float(m.n(wl)), float(np.asarray(m.k(wl)))) ** 2
        media = (inc, trn) if side == "front" else (trn, inc)
        c.true("media", abs(complex(st[0]["eps"]) - (eps(media[0]) if media[0] is inc else complex(float(trn.n(wl))) ** 2)) < 1e-9 and abs(complex(st[-1]["eps"]) - eps(media[1])) < 1e-9)
        for q, i in enumerate(order):
            c.true("layers in the order the light meets them", abs(float(st[q + 1]["d"]) - W[i]) < 1e-6 and abs(complex(st[q + 1]["eps"]) - eps(mats[i])) < 1e-9)
            got = st[q + 1]["pats"]
            c.true("patterns stay with their layer", len(got) == len(geos[i]) and all(k == g["type"] and abs(complex(e) - eps(g["mat"])) < 1e-9 and all(np.allclose(np.asarray(kw[a], dtype=float), np.asarray(g[a], dtype=float)) for a in g if a not in ("type", "mat"))
                                                                                        for (k, e, kw), g in zip(got, geos[i])))
        c.true("polarisation", abs(float(s.exc[2]) - want_pol[0]) < 1e-12 and abs(float(s.exc[3]) - want_pol[1]) < 1e-12)
    for x in range(wls):
        for j in range(na):
            b, tc, pc, _ = rows[j] if side == "front" else rows[na + j]
            inside = tc if side == "front" else PI - tc
            m = next((v for v in w.memo.values() if abs(float(v["exc"][0]) - math.degrees(inside)) < 1e-6 and abs(((float(v["exc"][1]) - math.degrees(pc)) + 180) % 360 - 180) < 1e-6 and abs(1e-9 / float(v["s"].freq) - WL[x]) < 1e-15), None)
            c.true("evaluated at the centre of the bin", m is not None)
            if m is None: return
            colw = [RT[x, i, j] for i in range(2 * na)]
            s = m["s"]
            keep, s.exc, old = s.exc, m["exc"], s.freq
            s.freq = 1e-9 / WL[x]
            ev_r = [w.evanescent(s, q, "r") for q in range(nb)]
            ev_t = [w.evanescent(s, q, "t") for q in range(nb)]
            ks = [w.k(s, q) for q in range(nb)]
            n_in, n_out = (n_top, n_bot) if side == "front" else (n_bot, n_top)
            n_in, n_out = n_in + (WL[x] - 6.3e-7) * 1e6, n_out + (WL[x] - 6.3e-7) * 1e6
            s.exc, s.freq = keep, old
            rs = total([m["r"][q] for q in range(nb) if not ev_r[q]])
            share = [(m["r"][q] * (m["R"] / rs) if not ev_r[q] else 0.0) if not none else 0.0 for q in range(nb)]
            share_t = [m["t"][q] for q in range(nb)]
            must = [0.0] * (2 * na)
            may = []
            for q in range(nb):
                kx, ky = ks[q]
                kk = math.hypot(kx, ky) * WL[x] * 1e9
                phi = math.atan2(ky, kx) % sym if kk > 1e-9 else 0.0
                for pw, nn, ev, up in ((share[q], n_in, ev_r[q], side == "front"), (share_t[q], n_out, ev_t[q], side != "front")):
                    if ev: continue
                    t = math.asin(min(1.0, kk / nn))
                    if not up: t = PI - t
                    hit = where(th, ph, rows, t, phi, sym)
                    if len(hit) == 1: must[hit[0]] = must[hit[0]] + pw
                    else: may.append((hit, pw))
            loose = set(h for hs, _ in may for h in hs)
            for i in range(2 * na):
                if i in loose: c.ge("at least the power of the orders clearly inside the bin", colw[i], must[i] - 1e-9)
                else: c.eq("power of the orders that leave into the bin", colw[i], must[i], 1e-9)
            if loose: c.eq("orders on a bin edge counted once", total([colw[i] for i in loose]), total([must[i] for i in loose]) + total([p for _, p in may]), 1e-9)
            for l in range(nl):
                c.eq("absorption of the layers front to rear", AA[x, l, j], m["A"][l if side == "front" else nl - 1 - l], 1e-9)
            c.eq("all power accounted for", total(colw) + total([AA[x, l, j] for l in range(nl)]), 1.0, 1e-7)
    if not prof: return
    P, I = res[2]["profile"], res[2]["intgr"]
    start = [sum(W[:i]) for i in range(nl)]
    zs = []
    for l in pl:
        i = 0
        while i * step < sum(W) - 1e-9:
            if start[l - 1] <= i * step + 1e-9 and i * step < start[l - 1] + W[l - 1] - 1e-9: zs.append((l - 1, i * step))
            i += 1
    got = np.asarray(P.transpose("wl", "z", "global_index").data, dtype=object)
    gi = np.asarray(I.transpose("wl", "global_index").data, dtype=object)
    c.true("profile at the depths of the requested layers", np.shape(got) == (wls, len(zs), na))
    if np.shape(got) != (wls, len(zs), na): return
    zc = [float(v) for v in np.asarray(P.coords["z"].data).ravel()]
    c.true("depths front to rear", sorted(round(v, 4) for v in zc) == sorted(round(z, 4) for _, z in zs))
    for x in range(wls):
        for j in range(na):
            b, tc, pc, _ = rows[j] if side == "front" else rows[na + j]
            inside = tc if side == "front" else PI - tc
            m = next(v for v in w.memo.values() if abs(float(v["exc"][0]) - math.degrees(inside)) < 1e-6 and abs(((float(v["exc"][1]) - math.degrees(pc)) + 180) % 360 - 180) < 1e-6 and abs(1e-9 / float(v["s"].freq) - WL[x]) < 1e-15)
            c.eq("stored integral", gi[x, j], total(m["A"]), 1e-9)
            for q, v in enumerate(zc):
                l, z = next(y for y in zs if abs(y[1] - v) < 1e-4)
                key = (l + 1, round(z - start[l], 5)) if side == "front" else (nl - l, round(start[l] + W[l] - z, 5))
                c.true("profile evaluated at its depth", key in m["dens"])
                if key in m["dens"]: c.eq("profile at its depth below the front", got[x, q, j], m["dens"][key], 1e-4)


def where(th, ph, rows, t, phi, sym, gap=1e-6):
    """bins the direction may be counted in (several only on an edge)"""
    if t < 1e-6 or t > PI - 1e-6: azi = None
    else: azi = phi
    hit = []
    for i, (b, _, _, k) in enumerate(rows):
        if not th[b] - gap <= t <= th[b + 1] + gap: continue
        e = ph[b]
        if azi is None or e[k] - gap <= phi <= e[k + 1] + gap or (k == 0 and phi > sym - gap) or (k == len(e) - 2 and phi < gap): hit.append(i)
    return hit
