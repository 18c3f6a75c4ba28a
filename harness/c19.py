"""C19: lookup tables hold the response for the labelled side, polarisation, angle and layer (driven through make_TMM_lookuptable)."""
from .util import *
from .c16 import TM
from .c18 import SideKernel, WL

LUT = "rayflare.transfer_matrix_method.lookup_table"
ASSUMPTIONS = ["the transfer-matrix kernel (third-party numeric code) is replaced at the library boundary by symbolic results per angle, polarisation, side and wavelength that obey R + T + sum(A) = 1",
               "reference = tmm_structure.calculate (properties C16, C17) for the labelled stack: as given for side 1, reversed with exchanged media and reversed coherency list for side -1",
               "incoherent stacks absorb at least 1/64 of the light (stacks that absorb nothing: C16)",
               "1-3 layers (4 thorough), 2-3 angles, 1-2 wavelengths; file storage in memory while symbolic, a real netCDF file on replay"]


def instances(tier):
    out = []
    T = tier == "thorough"
    for nl in (1, 2, 3) + ((4,) if T else ()):
        for coh in (True, False):
            for prof in (False, True):
                nwl, na = (2, 2) if nl < 3 or T else (1, 3)
                out.append(dict(name="table-l%d-%s-%s" % (nl, "coh" if coh else "inc", "prof" if prof else "noprof"), fn=run, params=dict(nl=nl, coh=coh, prof=prof, nwl=nwl, na=na, sides=None),
                                cost=nl * (3 if prof else 1), max_s=300, bounds="%d layers, %s%s, %d wavelengths, %d angles, both sides" % (nl, "coherent" if coh else "any coherency list", ", every subset of profile layers" if prof else "", nwl, na)))
    for s in ([1], [-1], [-1, 1]):
        out.append(dict(name="sides-%s" % "_".join(map(str, s)), fn=run, params=dict(nl=2, coh=True, prof=True, nwl=1, na=2, sides=s), cost=3, bounds="2 layers, sides=%r, every subset of profile layers" % s))
    out.append(dict(name="negative", fn=run, params=dict(nl=2, coh=True, prof=False, nwl=1, na=2, sides=None, dip=True), cost=2, bounds="kernel values as low as -1e-6 (rounding of the library), 2 layers"))
    out.append(dict(name="stored", fn=stored, params={}, cost=3, bounds="stored table reused or overwritten, 1 layer"))
    return out


class Dip(SideKernel):
    """library values that may be slightly negative"""

    def make(self, key, n):
        o = SideKernel.make(self, key, n)
        t = "%s_%s_%s" % (key[0], key[1], ("%.4f" % key[2]).replace(".", "p"))
        for w in range(self.nwl):
            o["T"][w] = self.c.real("dipT_%s_%d" % (t, w), -1e-6, 1.0)
            for l in range(1, n + 1): o["A"][l, w] = self.c.real("dipA%d_%s_%d" % (l, t, w), -1e-6, 1.0)
        return o


class Lossy(SideKernel):
    def make(self, key, n):
        o = SideKernel.make(self, key, n)
        for w in range(self.nwl): self.c.assume(total([o["A"][l, w] for l in range(1, n + 1)]) >= 2.0 ** -6)
        return o


def media(c, nl, n_top=1.0, nb=3.0):
    from solcore.structure import Layer
    mats = [Mat(n=lambda wl, i=i: np.asarray(wl) * 0 + 1.25 + i, k=lambda wl, i=i: np.asarray(wl) * 0 + 0.125 * (i + 1)) for i in range(nl)]
    inc = Mat(n=lambda wl: np.asarray(wl) * 0 + (n_top + 1e-9), k=lambda wl: np.asarray(wl) * 0.0)
    trn = Mat(n=lambda wl: np.asarray(wl) * 0 + nb, k=lambda wl: np.asarray(wl) * 0.0)
    W = [4.0, 6.0, 3.0, 5.0][:nl]
    return [Layer(W[i] * 1e-9, mats[i]) for i in range(nl)], inc, trn


COEF = ["A1", "A2", "A3_r", "A3_i", "a1", "a3"]


def run(c, nl, coh, prof, nwl, na, sides, dip=False):
    f = fn(c, LUT, "make_TMM_lookuptable")
    k = (Dip if dip else SideKernel if coh else Lossy)(c, nwl, nl, 1.0)
    L, inc, trn = media(c, nl)
    o = options(wavelength=np.array(WL[:nwl]), lookuptable_angles=na)
    lst = None if coh else [("c", "i")[int(c.flag("coh_%d" % i))] for i in range(nl)]
    pl = None
    if prof: pl = [l for l in range(1, nl + 1) if c.flag("prof_%d" % l)] or [nl]
    d = c.scratch()
    kw = {} if sides is None else dict(sides=list(sides))
    tab = f(L, inc, trn, "s", o, d, coherent=coh, coherency_list=None if lst is None else list(lst), prof_layers=None if pl is None else list(pl), **kw)
    compare(c, tab, L, inc, trn, o, nl, coh, lst, pl, nwl, na, sides or [1, -1], dip)


def planar(c, L, inc, trn, o, side, pol, th, coh, lst, layers, nwl):
    cls = fn(c, TM, "tmm_structure")
    a = (L, inc, trn) if side == 1 else (L[::-1], trn, inc)
    q = dict(wavelength=np.array(WL[:nwl]), depth_spacing=1e5, coherent=coh, pol=pol, theta_in=th,
             coherency_list=(lst if lst is None or side == 1 else lst[::-1]) if lst is not None else ["c"] * len(L))
    s = cls(a[0], a[1], a[2])
    if layers is None: return s.calculate(q)
    return s.calculate(q, profile=True, layers=layers)


def compare(c, tab, L, inc, trn, o, nl, coh, lst, pl, nwl, na, sides, dip=False):
    angles = [float(x) for x in np.asarray(tab.coords["angle"].data)]
    c.true("angles", len(angles) == na and angles[0] == 0 and angles == sorted(angles) and abs(angles[-1] - PI / 2) < 2e-3)
    w_nm = [float(x) for x in np.asarray(tab.coords["wl"].data)]
    c.true("wavelengths in nm", len(w_nm) == nwl and all(abs(a - b * 1e9) < 1e-6 for a, b in zip(w_nm, WL)))
    c.true("layers from front to rear", [int(x) for x in np.asarray(tab.coords["layer"].data)] == list(range(1, nl + 1)))
    cut = (lambda v: v * (v > 0) if not core.is_sym(v) else core.ite(v > 0, v, 0.0)) if dip else (lambda v: v)
    names = [str(x) for x in np.asarray(tab.coords["coeff"].data)] if pl else []
    for side in sides:
        val = {}
        for pol in ("s", "p"):
            for i, th in enumerate(angles):
                layers = None if pl is None else [l if side == 1 else nl + 1 - l for l in pl]
                order = None if layers is None else sorted(layers)
                ref = planar(c, L, inc, trn, o, side, pol, th, coh, lst, order, nwl)
                A = np.asarray(ref["A_per_layer"], dtype=object)
                for w in range(nwl):
                    val[pol, i, w, "R"], val[pol, i, w, "T"] = flist(ref["R"])[w], flist(ref["T"])[w]
                    for l in range(1, nl + 1): val[pol, i, w, l] = A[w, l - 1 if side == 1 else nl - l]
                    if pl:
                        P = np.asarray(ref["profile_coeff"], dtype=object)          # (coefficient, layer, wavelength)
                        for l, m in zip(pl, layers):
                            for q in range(6): val[pol, i, w, l, COEF[q]] = P[q, order.index(m), w]
        for pol in ("s", "p", "u"):
            t = tab.loc[dict(side=side, pol=pol)]
            for i in range(na):
                for w in range(nwl):
                    x = t.isel(angle=i, wl=w)
                    want = lambda *key: cut(val[(pol, i, w) + key]) if pol != "u" else (cut(val[("s", i, w) + key]) + cut(val[("p", i, w) + key])) / 2
                    wantc = lambda *key: val[(pol, i, w) + key] if pol != "u" else (val[("s", i, w) + key] + val[("p", i, w) + key]) / 2
                    for nm in ("R", "T"):
                        v = flist(x[nm].data)[0]
                        c.eq("reflection and transmission of the labelled case", v, want(nm), 1e-9)
                        c.ge("not negative", v, 0.0, 0.0)
                    al = flist(x["Alayer"].sel(layer=list(range(1, nl + 1))).data)
                    for l in range(1, nl + 1):
                        c.eq("absorption of the labelled layer", al[l - 1], want(l), 1e-9)
                        c.ge("not negative", al[l - 1], 0.0, 0.0)
                    for l in pl or []:
                        for q in names:
                            v = flist(x["Aprof"].sel(layer=l, coeff=q).data)[0]
                            c.eq("profile coefficients of the labelled layer", v, wantc(l, q), 1e-9)


def stored(c):
    f = fn(c, LUT, "make_TMM_lookuptable")
    k = SideKernel(c, 1, 1, 1.0)
    L, inc, trn = media(c, 1)
    d = c.scratch()
    a = f(L, inc, trn, "s", options(wavelength=np.array(WL[:1]), lookuptable_angles=2), d)
    n = len(k.calls)
    vals = flist(a["R"].data) + flist(a["T"].data)
    if hasattr(a, "close") and not c.symbolic: a.close()
    b = f(L, inc, trn, "s", options(wavelength=np.array(WL[:1]), lookuptable_angles=2), d)
    c.true("stored table is reused", len(k.calls) == n)
    for x, y in zip(flist(b["R"].data) + flist(b["T"].data), vals): c.eq("the same values come back", x, y, 1e-9)
    if hasattr(b, "close") and not c.symbolic: b.close()
    e = f(L, inc, trn, "t", options(wavelength=np.array(WL[:1]), lookuptable_angles=3), d)
    c.true("another surface gets its own table", np.shape(e["R"].data)[-1] == 3)
    if hasattr(e, "close") and not c.symbolic: e.close()
    g = f(L, inc, trn, "s", options(wavelength=np.array(WL[:1]), lookuptable_angles=3), d, overwrite=True)
    compare(c, g, L, inc, trn, None, 1, True, None, None, 1, 3, [1, -1])
