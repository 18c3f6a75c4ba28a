"""C17: planar-stack absorption profiles and coefficients describe the requested layers (driven through tmm_structure)."""
from .util import *
from .tmmstub import Kernel
from .c16 import stack, coherency, WL, TM

ASSUMPTIONS = ["kernel results (per-layer absorption, position-resolved absorption per layer, depth and wavelength, analytic coefficients per layer) symbolic at the library boundary, obeying R + T + sum(A) = 1; "
               "the position-resolved absorption may be slightly negative (clipped by the code)",
               "1-3 layers with concrete widths (two sets: one a multiple of the depth spacing), every subset of profile layers, 1-2 wavelengths"]


def instances(tier):
    out = []
    for coh in (True, False):
        for pol in ("s", "p", "u"):
            for nl, nwl in [(1, 1), (2, 1), (2, 2), (3, 1)] + ([(3, 2)] if tier == "thorough" else []):
                out.append(dict(name="profile-%s-%s-l%d-w%d" % ("coh" if coh else "inc", pol, nl, nwl), fn=run, params=dict(coh=coh, pol=pol, nl=nl, nwl=nwl), cost=nl * nwl * (3 if pol == "u" else 1), max_s=300,
                                bounds="%d layers, %d wavelengths, every subset of profile layers, %s, polarisation %s" % (nl, nwl, "coherent" if coh else "any coherency list", pol)))
    return out


def run(c, coh, pol, nl, nwl):
    k = Kernel(c, nwl)
    S, W = stack(c, nl, "optistack" if nl == 2 else "list")
    W = [[4.0, 6.0, 3.0], [5.0, 4.5, 7.25]][c.pick("widths", 2)][:nl]
    step = 2.0 if W[0] == 4.0 else 1.5
    S.set_widths(list(W))
    th = 0.3
    o = dict(wavelength=np.array(WL[:nwl]), pol=pol, theta_in=th, coherent=coh, depth_spacing=step * 1e-9)
    lst = None
    if not coh: o["coherency_list"] = lst = coherency(c, nl)
    how = c.pick("how", 2)
    if how == 0 and not c.flag("subset"):
        layers, res = list(range(1, nl + 1)), S.calculate(o, profile=True)
    else:
        layers = [l for l in range(1, nl + 1) if bool(c.flag("prof_%d" % l))]
        if not layers: layers = [nl]
        res = S.calculate(o, profile=True, layers=layers) if how == 0 else S.calculate_profile(o, layers=layers)
    pols = [pol] if pol != "u" else ["s", "p"]
    keys = [(p, "x", 0.3) for p in pols]
    start = [sum(W[:i]) for i in range(nl)]
    # the depths of the requested layers: multiples of the spacing inside them, front to rear
    zs = []
    i = 0
    while i * step < sum(W) - 1e-9:
        l = max(j for j in range(nl) if start[j] <= i * step + 1e-9)
        if l + 1 in layers: zs.append((l + 1, i * step - start[l]))
        i += 1
    prof = np.asarray(res["profile"], dtype=object)
    c.true("profile per wavelength at the depths of the requested layers", np.shape(prof) == (nwl, len(zs)))
    if np.shape(prof) != (nwl, len(zs)): return
    for w in range(nwl):
        for j, (l, d) in enumerate(zs):
            x = total([k.absor(kk, l, d, w) for kk in keys]) / len(keys)
            c.ge("profile not negative", prof[w, j], 0.0, 1e-12)
            c.true("profile of the requested polarisation at this depth", either(c, both(c, x >= 0.0, abs(prof[w, j] - x) <= 1e-9), both(c, x <= 0.0, abs(prof[w, j]) <= 1e-9)))
    for x in k.calls:
        if x["kind"] == "inc_position":
            c.true("coherency list with the media", x["coh"] == ["i"] + lst + ["i"])
            al = np.asarray(x["alphas"], dtype=object)
            for l in range(1, nl + 1):
                for w in range(nwl): c.eq("absorption coefficient per nm", al[l][w], 4 * PI * 0.125 * l / (WL[w] * 1e9), 1e-9)
    pc = res["profile_coeff"]
    pc = np.asarray(pc, dtype=object)
    c.true("six coefficients per requested layer", np.shape(pc) == (6, len(layers), nwl))
    if np.shape(pc) != (6, len(layers), nwl): return
    m = len(keys)
    for i, l in enumerate(layers):
        for w in range(nwl):
            if coh or lst[l - 1] == "c":
                e = [total([k.coeff(dict(key=kk), a, l, w) for kk in keys]) / m for a in ("A1", "A2", "A3")]
                exp = [e[0], e[1], core.parts(e[2])[0] if c.symbolic else e[2].real, core.parts(e[2])[1] if c.symbolic else e[2].imag,
                       k.coeff(dict(key=keys[0]), "a1", l, w), k.coeff(dict(key=keys[0]), "a3", l, w)]
            else:
                al = 4 * PI * 0.125 * l / (WL[w] * 1e9)
                frac = total([1.0 - k.memo[kk]["R"][w] - total([k.memo[kk]["A"][q, w] for q in range(1, l)]) for kk in keys]) / m
                exp = [0.0, al * frac, 0.0, 0.0, al, 0.0]
            for q, nm in enumerate(("A1", "A2", "Re A3", "Im A3", "a1", "a3")):
                c.eq("coefficient %s of layer" % nm, pc[q, i, w], exp[q], 1e-7)
