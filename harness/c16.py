"""C16: planar-stack R, A and T add up to one and match the requested polarisation (driven through tmm_structure.calculate)."""
from .util import *
from .tmmstub import Kernel

TM = "rayflare.transfer_matrix_method.tmm"
ASSUMPTIONS = ["the transfer-matrix kernel (solcore coh_tmm/inc_tmm and its per-layer absorption, third-party numeric code) is replaced at the library boundary by symbolic results obeying its energy contract R + T + sum(A) = 1, all non-negative; "
               "for incoherent stacks the per-layer list may fall short of 1-R-T by a common factor",
               "1-3 layers (thorough 4), 1-2 wavelengths; layer indices of refraction and widths are concrete and distinct"]
WL = [4e-7, 5e-7]


def instances(tier):
    out = []
    for coh in (True, False):
        for pol in ("s", "p", "u"):
            for nl, nwl in [(1, 1), (2, 1), (3, 2)] + ([(4, 2)] if tier == "thorough" else []):
                out.append(dict(name="sum-%s-%s-l%d-w%d" % ("coh" if coh else "inc", pol, nl, nwl), fn=run, params=dict(coh=coh, pol=pol, nl=nl, nwl=nwl), cost=nl * nwl,
                                bounds="%d layers, %d wavelengths, %s, polarisation %s, all kernel results" % (nl, nwl, "coherent" if coh else "any incoherent/coherent list", pol)))
                if not coh: out.append(dict(name="slip-%s-l%d-w%d" % (pol, nl, nwl), fn=run, params=dict(coh=coh, pol=pol, nl=nl, nwl=nwl, exact=False), cost=nl * nwl, max_s=200,
                                            bounds="as sum-inc, per-layer list inexact"))
            out.append(dict(name="widths-%s-%s" % ("coh" if coh else "inc", pol), fn=widths, params=dict(coh=coh, pol=pol), bounds="2 layers, changed widths"))
    out.append(dict(name="opaque", fn=opaque, params={}, bounds="incoherent stack that absorbs nothing, one wavelength"))
    return out


def stack(c, nl, built="list"):
    cls = fn(c, TM, "tmm_structure")
    from solcore.structure import Layer
    mats = [Mat(n=lambda wl, i=i: np.asarray(wl) * 0 + 1.25 + i, k=lambda wl, i=i: np.asarray(wl) * 0 + 0.125 * (i + 1)) for i in range(nl)]
    inc, trn = Mat(n=lambda wl: np.asarray(wl) * 0 + 1.0, k=lambda wl: np.asarray(wl) * 0.0), Mat(n=lambda wl: np.asarray(wl) * 0 + 9.0, k=lambda wl: np.asarray(wl) * 0.0)
    W = [1e-9 * (10 + 7 * i) for i in range(nl)]
    L = [Layer(W[i], mats[i]) for i in range(nl)]
    if built == "optistack":
        from solcore.absorption_calculator import OptiStack
        return cls(OptiStack(L, substrate=trn, incidence=inc)), W
    return cls(L, inc, trn), W


def coherency(c, nl):
    return [("c", "i")[int(c.flag("coh_%d" % i))] for i in range(nl)]


def good_call(c, k, nl, W, nwl, pols, coh, lst, th):
    c.true("one kernel evaluation per polarisation", sorted(x["pol"] for x in k.calls if "d" in x) == sorted(pols))
    for x in k.calls:
        if "d" not in x: continue
        c.true("coherent or incoherent kernel", x["kind"] == ("coh" if coh else "inc"))
        c.true("widths in nm between the semi-infinite media", len(x["d"]) == nl + 2 and all(math.isinf(x["d"][i]) for i in (0, -1)) and all(abs(float(x["d"][i + 1]) - W[i] * 1e9) < 1e-6 for i in range(nl)))
        c.true("wavelengths in nm", len(x["wl"]) == nwl and all(abs(a - b * 1e9) < 1e-6 for a, b in zip(x["wl"], WL)))
        c.true("angle", abs(float(x["th"]) - th) < 1e-12)
        ns = [complex(np.atleast_1d(v)[0]) for v in x["n"]]
        c.true("indices front to rear", len(ns) == nl + 2 and abs(ns[0] - 1) < 1e-9 and abs(ns[-1] - 9) < 1e-9 and all(abs(ns[i + 1] - (1.25 + i + 0.125j * (i + 1))) < 1e-9 for i in range(nl)))
        if not coh: c.true("coherency list front to rear", x["coh"] == ["i"] + lst + ["i"])


def check(c, k, res, nl, nwl, pol, th, exact):
    pols = [pol] if pol != "u" else ["s", "p"]
    R, A, T, Al = flist(res["R"]), flist(res["A"]), flist(res["T"]), np.asarray(res["A_per_layer"], dtype=object)
    c.true("one value per wavelength", len(R) == len(A) == len(T) == nwl)
    c.true("per-layer absorption indexed (wavelength, layer)", np.shape(Al) == (nwl, nl))
    mem = [v for kk, v in sorted(k.memo.items(), key=lambda q: q[0][0])]
    c.true("kernel evaluated", len(mem) == len(pols))
    for w in range(nwl):
        c.eq("R is the requested polarisation's (mean for unpolarised)", R[w], total([m["R"][w] for m in mem]) / len(mem), 1e-9)
        c.eq("T is the requested polarisation's (mean for unpolarised)", T[w], total([m["T"][w] for m in mem]) / len(mem), 1e-9)
        c.eq("R + A + T = 1", R[w] + A[w] + T[w], 1.0, 1e-9)
        for l in range(nl):
            c.ge("absorption not negative", Al[w, l], 0.0, 1e-9)
            if exact: c.eq("per-layer absorption", Al[w, l], total([m["A"][l + 1, w] for m in mem]) / len(mem), 1e-7)
        s = total([Al[w, l] for l in range(nl)])
        if exact: c.eq("layers add up to A", s, A[w], 1e-7)
        else:
            raw = total([m["A"][l + 1, w] for m in mem for l in range(nl)])
            c.true("layers add up to A", either(c, raw <= 1e-3, both(c, s >= A[w] - 1e-6, s <= A[w] + 1e-6)))


def run(c, coh, pol, nl, nwl, exact=True):
    k = Kernel(c, nwl, exact=exact)
    S, W = stack(c, nl, "optistack" if nl == 2 else "list")
    th = 0.3
    o = dict(wavelength=np.array(WL[:nwl]), pol=pol, theta_in=th, coherent=coh)
    lst = None
    if not coh: o["coherency_list"] = lst = coherency(c, nl)
    elif nl == 1: o.pop("coherent")
    res = S.calculate(o)
    good_call(c, k, nl, W, nwl, [pol] if pol != "u" else ["s", "p"], coh, lst, th)
    if not exact:
        for m in k.memo.values():
            for w in range(nwl): c.assume(total([m["A"][l, w] for l in range(1, nl + 1)]) >= 1e-2)
    check(c, k, res, nl, nwl, pol, th, exact)


def widths(c, coh, pol):
    k = Kernel(c, 1)
    S, W = stack(c, 2)
    o = dict(wavelength=np.array(WL[:1]), pol=pol, theta_in=0.3, coherent=coh, coherency_list=["i", "c"])
    S.calculate(o)
    k.calls.clear(); k.memo.clear()
    S.set_widths([44.0, 33.0])
    res = S.calculate(o)
    good_call(c, k, 2, [44e-9, 33e-9], 1, [pol] if pol != "u" else ["s", "p"], coh, ["i", "c"], 0.3)
    check(c, k, res, 2, 1, pol, 0.3, True)


def opaque(c):
    pol = ("s", "p", "u")[c.pick("pol", 3)]
    k = Kernel(c, 1)
    S, W = stack(c, 2)
    ps = [pol] if pol != "u" else ["s", "p"]
    for p in ps:
        key = (p, "x", 0.3)
        T = c.real("T0_" + p, 0.0, 1.0)
        A, R, TT = zeros(c, (4, 1)), zeros(c, 1), zeros(c, 1)
        A[0, 0], A[3, 0], R[0], TT[0] = 1.0 - T, T, 1.0 - T, T
        k.memo[key] = dict(R=R, T=TT, A=A)
    res = S.calculate(dict(wavelength=np.array(WL[:1]), pol=pol, theta_in=0.3, coherent=False, coherency_list=["i", "c"]))
    for l in range(2): c.eq("a stack that absorbs nothing reports no absorption", np.asarray(res["A_per_layer"], dtype=object)[0, l], 0.0, 1e-9)
    c.eq("R + A + T = 1", res["R"][0] + res["A"][0] + res["T"][0], 1.0, 1e-9)
