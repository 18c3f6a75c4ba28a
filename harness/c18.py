"""C18: planar-interface redistribution matrices put each channel in its specular bins (driven through TMM())."""
from .util import *
from .tmmstub import Kernel
from .c16 import TM

ASSUMPTIONS = ["kernel results symbolic at the library boundary (R, T, A per layer, position-resolved absorption) for every angle, polarisation and side, with R + T + sum(A) = 1 and all non-negative",
               "refractive index of the medium below symbolic in [1, 4] and of the one above from a list; refracted directions at least 1e-6 away from a bin edge and from the critical angle",
               "an azimuth that falls exactly on the edge between two azimuthal bins may go to either of the two",
               "1-3 layers with concrete widths (multiples of the depth spacing or not), 1-3 polar bins, 1-2 wavelengths, symmetry angles 90, 120 and 360 degrees"]
WL = [4e-7, 5e-7]


class SideKernel(Kernel):
    def __init__(self, c, nwl, nl, n_top):
        Kernel.__init__(self, c, nwl)
        self.nl, self.n_top = nl, n_top

    def key(self, pol, n_list, d_list, th):
        side = "front" if self.order(n_list) == list(range(self.nl)) and self.is_top(n_list[0]) else "rear"
        return pol, side, round(float(th), 9)

    def is_top(self, v):
        v = np.atleast_1d(np.asarray(v, dtype=object))[0]
        return (not core.is_sym(v)) and abs(complex(v).real - self.n_top - 1e-9) < 1e-12

    def order(self, n_list):
        out = []
        for v in n_list[1:-1]:
            z = complex(np.atleast_1d(np.asarray(v, dtype=object))[0])
            out.append(int(round(z.real - 1.25)))
        return out


def instances(tier):
    out = []
    T = tier == "thorough"
    for side in ("front", "rear"):
        # refraction: index below symbolic; ordering and bookkeeping of layers: index below fixed
        for pol, nl, n, caz, sym, sp, n_top in [("s", 1, 2, 1.0, PI / 2, "sin", 1.0), ("p", 1, 2, 0.5, 2 * PI / 3, "linear", 1.5), ("u", 1, 2, 0.5, 2 * PI, "sin", 3.5), ("s", 1, 3, 0.34, 2 * PI, "sin", 1.5)] + (
                [(q, 1, n, 0.5, s, sp, t) for q in "spu" for n in (2, 3, 4) for s, sp, t in [(PI / 2, "sin", 1.0), (2 * PI / 3, "linear", 1.5), (2 * PI, "sin", 3.5)] if not (q == "u" and n == 4)] if T else []):
            out.append(dict(name="refract-%s-%s-n%d-%s-top%g" % (side, pol, n, sp, n_top), fn=matrix, params=dict(side=side, pol=pol, nl=nl, n=n, caz=caz, sym=sym, sp=sp, nwl=1, n_top=n_top), cost=n * n * nl, max_s=400 if not T else 2000,
                            bounds="1 layer, n_theta_bins=%d c_azimuth=%g symmetry %.4g %s, refractive index below symbolic in [1, 4]" % (n, caz, sym, sp)))
        for pol, nl, n in [("s", 2, 2), ("p", 3, 1), ("u", 2, 2)] + ([("u", 3, 2), ("s", 4, 2)] if T else []):
            for coh in (True, False):
                out.append(dict(name="layers-%s-%s-l%d-%s" % (side, pol, nl, "coh" if coh else "inc"), fn=matrix, params=dict(side=side, pol=pol, nl=nl, n=n, caz=1.0, sym=PI / 2, sp="sin", nwl=1, nb=3.0, inc_list=not coh), cost=nl, max_s=400,
                                bounds="%d layers, %s, %d polar bins" % (nl, "coherent" if coh else "every coherency list", n)))
        for pol in ("s", "u"):
            for nl in (1, 2, 3):
                if nl == 3 and pol == "u" and not T: continue
                out.append(dict(name="profile-%s-%s-l%d" % (side, pol, nl), fn=matrix, params=dict(side=side, pol=pol, nl=nl, n=1, caz=1.0, sym=PI / 2, sp="sin", nwl=1, prof=True), cost=2 * nl, max_s=400,
                                bounds="%d layers, every subset of profile layers, 1 polar bin" % nl))
        out.append(dict(name="profile-%s-bins" % side, fn=matrix, params=dict(side=side, pol="u", nl=1, n=2, caz=1.0, sym=PI / 2, sp="sin", nwl=1, prof=True, n_top=3.5), cost=3, max_s=400, bounds="1 profile layer, 2 polar bins"))
        out.append(dict(name="wavelengths-%s" % side, fn=matrix, params=dict(side=side, pol="u", nl=1, n=1, caz=1.0, sym=PI / 2, sp="sin", nwl=2, prof=True, n_top=3.5), cost=2, bounds="2 wavelengths, 1 layer with profile"))
    return out


def matrix(c, side, pol, nl, n, caz, sym, sp, nwl, prof=False, n_top=1.0, nb=None, inc_list=None):
    f = fn(c, TM, "TMM")
    from solcore.structure import Layer
    k = SideKernel(c, nwl, nl, n_top)
    fixed = nb
    nb = [c.real("n_below_%d" % w, 1.0, 4.0) for w in range(nwl)] if not prof and fixed is None else [3.0] * nwl
    if not prof and fixed is None:
        th, ph, rows = grid(n, sym, caz, sp)
        for v in nb:
            c.assume(either(c, v >= n_top + 1.5e-9, v <= n_top + 0.5e-9))     # keeps the marked medium apart
            for q in range(n):
                s = ((n_top / v) if side == "front" else (v / n_top)) * math.sin((th[q] + th[q + 1]) / 2)
                for e in list(th[1:n]) + [PI / 2]:
                    m = 1e-6 if c.symbolic else 9e-7
                    c.assume(either(c, s >= math.sin(e) + m, s <= math.sin(e) - m))

    def n_below(wl):
        if np.ndim(wl) == 0: return nb[min(range(nwl), key=lambda i: abs(WL[i] - wl))]
        a = zeros(c, len(wl))
        for i, x in enumerate(wl): a[i] = n_below(x)
        return a
    mats = [Mat(n=lambda wl, i=i: np.asarray(wl) * 0 + 1.25 + i, k=lambda wl, i=i: np.asarray(wl) * 0 + 0.125 * (i + 1)) for i in range(nl)]
    inc = Mat(n=lambda wl: np.asarray(wl) * 0 + (n_top + 1e-9), k=lambda wl: np.asarray(wl) * 0.0)     # 1e-9 marks the medium
    trn = Mat(n=n_below, k=lambda wl: np.asarray(wl) * 0.0)
    W = [4.0, 6.0, 3.0][:nl]
    step = 2.0
    if prof and c.flag("odd_widths"): W, step = [5.0, 4.5, 7.25][:nl], 1.5
    L = [Layer(W[i] * 1e-9, mats[i]) for i in range(nl)]
    o = options(wavelength=np.array(WL[:nwl]), n_theta_bins=n, phi_symmetry=sym, c_azimuth=caz, theta_spacing=sp, pol=pol, depth_spacing=step * 1e-9)
    coh, lst = True, None
    if inc_list is None and prof: inc_list = c.flag("incoherent")
    if inc_list and prof: coh, lst = False, list(("ici", "cic")[int(c.flag("coherent_first"))][:nl])
    elif inc_list: coh, lst = False, [("c", "i")[int(c.flag("coh_%d" % i))] for i in range(nl)]
    pl = None
    if prof:
        pl = [l for l in range(1, nl + 1) if c.flag("prof_%d" % l)] or [nl]
    d = c.scratch()
    given = list(pl) if pl else None
    res = f(L, inc, trn, "s", o, d, coherent=coh, coherency_list=lst, prof_layers=pl, front_or_rear=side, save=False)
    c.true("arguments unchanged", pl == given)
    RT, AA = dense(res[0]), dense(res[1])
    th, ph, rows = grid(n, sym, caz, sp)
    na = len(rows) // 2
    c.true("shapes", np.shape(RT) == (nwl, 2 * na, na) and np.shape(AA) == (nwl, nl, na))
    if np.shape(RT) != (nwl, 2 * na, na) or np.shape(AA) != (nwl, nl, na): return
    for x in k.calls:
        if "d" not in x: continue
        c.true("coherent or incoherent kernel", x["kind"] == ("coh" if coh else "inc"))
        want = list(range(nl)) if side == "front" else list(range(nl))[::-1]
        c.true("layers in the order the light meets them", k.order(x["n"]) == want)
        c.true("widths in the order the light meets them", [float(v) for v in x["d"][1:-1]] == [W[i] for i in want])
        c.true("incidence medium", k.is_top(x["n"][0]) == (side == "front"))
        c.true("transmission medium", k.is_top(x["n"][-1]) == (side == "rear"))
        if not coh: c.true("coherency in the order the light meets the layers", x["coh"] == ["i"] + [lst[i] for i in want] + ["i"])
    pols = [pol] if pol != "u" else ["s", "p"]
    m = float(len(pols))
    start = [sum(W[:i]) for i in range(nl)]
    for w in range(nwl):
        for j in range(na):
            b, _, _, pb = rows[j] if side == "front" else rows[na + j]
            tc = (th[b] + th[b + 1]) / 2
            inside = tc if side == "front" else PI - tc
            keys = [next((kk for kk in k.memo if kk[0] == p and kk[1] == side and abs(kk[2] - inside) < 1e-8), None) for p in pols]
            c.true("evaluated at the centre of the polar bin, from the right side", None not in keys)
            if None in keys: return
            R = total([k.memo[kk]["R"][w] for kk in keys]) / m
            T = total([k.memo[kk]["T"][w] for kk in keys]) / m
            phi = ((ph[b][pb] + ph[b][pb + 1]) / 2 + PI) % sym
            colw = [RT[w, i, j] for i in range(2 * na)]
            rb = targets(ph, rows, b, phi, sym)
            c.eq("reflected power in the specular bin", total([colw[i] for i in rb]), R, 1e-9)
            ratio = (n_top / nb[w]) if side == "front" else (nb[w] / n_top)
            s = ratio * math.sin(inside)
            # the medium refracted into is the other one: its hemisphere is opposite to that of the incoming light
            reach = (lambda a: PI - a) if side == "front" else (lambda a: a)
            hemi = range(n, 2 * n) if side == "front" else range(n)
            refr = None
            for q in hemi:
                lo, hi = sorted((math.sin(th[q]), math.sin(th[q + 1])))
                if n in (q + 1, q) and hi < 1: hi = 1.0
                if bool(both(c, s > lo if lo > 0 else s >= 0.0, s < hi)): refr = q
            tb = targets(ph, rows, refr, phi, sym) if refr is not None else []
            for i in range(2 * na):
                if i in rb or i in tb: continue
                if refr is None and rows[i][0] in hemi: continue
                c.eq("no power in other bins", colw[i], 0.0, 1e-9)
            if refr is not None: c.eq("transmitted power in the bin of the refracted direction", total([colw[i] for i in tb]), T, 1e-9)
            else:
                # beyond the critical angle (or within the margin of an edge): what the kernel transmits leaves into that hemisphere
                if bool(s > 1.0):
                    out = total([colw[i] for i in range(2 * na) if rows[i][0] in hemi])
                    c.true("evanescent side", either(c, both(c, T > 1e-8, abs(out - T) <= 1e-9), both(c, T <= 1e-8, abs(out - T) <= 2e-8)))
            for l in range(nl):
                src = l + 1 if side == "front" else nl - l
                c.eq("absorption of the layers front to rear", AA[w, l, j], total([k.memo[kk]["A"][src, w] for kk in keys]) / m, 1e-9)
            if refr is not None: c.eq("all power accounted for", total(colw) + total([AA[w, l, j] for l in range(nl)]), 1.0, 1e-7)
    if not prof: return
    P, I = res[2]["profile"], res[2]["intgr"]
    zs, i = [], 0
    while i * step < sum(W) - 1e-9:
        l = max(q for q in range(nl) if start[q] <= i * step + 1e-9)
        if l + 1 in given: zs.append((l, i * step))
        i += 1
    got = np.asarray(P.transpose("wl", "z", "global_index").data, dtype=object)
    gi = np.asarray(I.transpose("wl", "global_index").data, dtype=object)
    c.true("profile at the depths of the requested layers", np.shape(got) == (nwl, len(zs), na))
    if np.shape(got) != (nwl, len(zs), na): return
    zc = [float(v) for v in np.asarray(P.coords["z"].data).ravel()]
    c.true("depths front to rear", all(abs(a - b[1]) < 1e-6 for a, b in zip(zc, zs)))
    for w in range(nwl):
        for j in range(na):
            b, _, _, pb = rows[j] if side == "front" else rows[na + j]
            tc = (th[b] + th[b + 1]) / 2
            inside = round(tc if side == "front" else PI - tc, 9)
            keys = [next(kk for kk in k.memo if kk[0] == p and kk[1] == side and abs(kk[2] - inside) < 1e-8) for p in pols]
            c.eq("stored integral", gi[w, j], total([AA[w, l, j] for l in range(nl)]), 1e-9)
            for q, (l, z) in enumerate(zs):
                cl, cd = (l + 1, z - start[l]) if side == "front" else (nl - l, start[l] + W[l] - z)
                x = [k.absor(kk, cl, cd, w) for kk in keys]
                # each polarisation's profile or their mean is cut at zero
                for v in x: c.assume(v >= 0.0)
                c.eq("profile at its depth below the front", got[w, q, j], total(x) / m, 1e-9)


def targets(ph, rows, b, phi, sym):
    """indices of the bins in polar bin b whose azimuth range contains phi (two if phi is on an edge)"""
    e = ph[b]
    hit = [q for q in range(len(e) - 1) if e[q] - 1e-9 <= phi <= e[q + 1] + 1e-9]
    if phi < 1e-9 or phi > sym - 1e-9: hit = sorted(set(hit) | {0, len(e) - 2})
    return [i for i, r in enumerate(rows) if r[0] == b and r[3] in hit]
