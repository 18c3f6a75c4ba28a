"""the transfer-matrix kernel (solcore's tmm_core_vec) at its library boundary: outputs are symbolic values that obey its energy contract"""
import importlib
from .util import *
from .c15 import Lay

TMMOD = "solcore.absorption_calculator.tmm_core_vec"
PREC = 1e-9


def obj(c, shape):
    return zeros(c, shape)


class Kernel:
    """results keyed by (polarisation, key of the incident side, angle) and wavelength; `sizes(d_list)` layers"""

    def __init__(self, c, nwl, exact=True, neg=False, names=None, kinds=None):
        self.c, self.nwl, self.memo, self.calls, self.exact, self.neg = c, nwl, {}, [], exact, neg
        m = importlib.import_module(TMMOD)
        for n in ("coh_tmm", "inc_tmm", "absorp_in_each_layer", "inc_absorp_in_each_layer", "absorp_analytic_fn", "position_resolved", "inc_position_resolved",
                  "inc_find_absorp_analytic_fn"):
            if not hasattr(m, n): c.skip("kernel function %s is gone" % n)
        c.patch(m, "coh_tmm", lambda pol, n_list, d_list, th_0, lam_vac: self.run("coh", pol, n_list, d_list, None, th_0, lam_vac))
        c.patch(m, "inc_tmm", lambda pol, n_list, d_list, c_list, th_0, lam_vac: self.run("inc", pol, n_list, d_list, c_list, th_0, lam_vac))
        c.patch(m, "absorp_in_each_layer", lambda out: self.fresh(out["A"]))
        c.patch(m, "inc_absorp_in_each_layer", lambda out: self.fresh(out["A"]))
        c.patch(m, "position_resolved", self.position)
        c.patch(m, "inc_position_resolved", self.inc_position)
        k = self

        class Fn:
            def fill_in(s, out, layers):
                ls = [int(x) for x in np.atleast_1d(layers)]
                scalar = np.ndim(layers) == 0
                for a in ("A1", "A2", "A3", "a1", "a3"):
                    v = obj(c, (len(ls), nwl))
                    if not c.symbolic and a == "A3": v = v.astype(complex)
                    for i, l in enumerate(ls):
                        for w in range(nwl): v[i, w] = k.coeff(out, a, l, w)
                    setattr(s, a, v[0] if scalar else v)
                return s

            def scale(s, f):
                s.A1, s.A2, s.A3 = s.A1 * f, s.A2 * f, s.A3 * f
                return s

            def add(s, b):
                s.A1, s.A2, s.A3 = s.A1 + b.A1, s.A2 + b.A2, s.A3 + b.A3
                return s
        c.patch(m, "absorp_analytic_fn", Fn)
        c.patch(m, "inc_find_absorp_analytic_fn", lambda layer, out: Fn().fill_in(out, layer))

    def fresh(self, a):
        r = obj(self.c, np.shape(a))
        r[...] = a
        return r

    def key(self, pol, n_list, d_list, th):
        return pol, "x", round(float(th), 9)

    def run(self, kind, pol, n_list, d_list, c_list, th, wl):
        key = self.key(pol, n_list, d_list, th)
        wls = tuple(round(float(x), 6) for x in wl)
        self.calls.append(dict(kind=kind, pol=pol, n=n_list, d=list(d_list), coh=None if c_list is None else list(c_list), th=th, wl=wls, key=key))
        n = len(d_list) - 2
        if key not in self.memo: self.memo[key] = self.make(key, n)
        o = dict(self.memo[key])
        o["pol"], o["key"] = pol, key
        o["power_entering_list"] = []
        o["R"], o["T"] = self.fresh(o["R"]), self.fresh(o["T"])
        return o

    def make(self, key, n):
        c = self.c
        t = "%s_%s_%s" % (key[0], key[1], ("%.4f" % key[2]).replace(".", "p"))
        R, T, A = obj(c, self.nwl), obj(c, self.nwl), obj(c, (n + 2, self.nwl))
        for w in range(self.nwl):
            T[w] = c.real("T_%s_%d" % (t, w), 0.0, 1.0)
            for l in range(1, n + 1): A[l, w] = c.real("A%d_%s_%d" % (l, t, w), 0.0, 1.0)
            rest = T[w] + total([A[l, w] for l in range(1, n + 1)])
            c.assume(rest <= 1.0)
            R[w] = 1.0 - rest
            if not self.exact:
                # the per-layer list of the incoherent kernel need not add up to A exactly
                for l in range(1, n + 1): A[l, w] = A[l, w] * c.real("slip_%s_%d" % (t, w), 0.5, 1.0)
            A[0, w], A[n + 1, w] = R[w], T[w]
        return dict(R=R, T=T, A=A)

    def coeff(self, out, a, l, w):
        c = self.c
        if a in ("a1", "a3"): return c.real("%s_%d_%d" % (a, l, w), 0.0, 1.0)
        t = "%s_%s_%s" % (out["key"][0], out["key"][1], ("%.4f" % out["key"][2]).replace(".", "p"))
        if a == "A3":
            re, im = c.real("A3r_%s_%d_%d" % (t, l, w), -1.0, 1.0), c.real("A3i_%s_%d_%d" % (t, l, w), -1.0, 1.0)
            return core.mkcplx(re, im) if c.symbolic else complex(re, im)
        return c.real("%s_%s_%d_%d" % (a, t, l, w), -1.0 if self.neg else 0.0, 1.0)

    def absor(self, key, l, d, w):
        t = "%s_%s_%s" % (key[0], key[1], ("%.4f" % key[2]).replace(".", "p"))
        return self.c.real("P_%s_%d_%d_%d" % (t, int(l), int(round(float(d) * 1000)), w), -0.25, 1.0)

    def position(self, layer, dist, out):
        a = obj(self.c, (self.nwl, len(dist)))
        for w in range(self.nwl):
            for i in range(len(dist)): a[w, i] = self.absor(out["key"], layer[i], dist[i], w)
        return {"poyn": None, "absor": a}

    def inc_position(self, layer, dist, out, coherency_list, alphas, zero_threshold=1e-6):
        self.calls.append(dict(kind="inc_position", coh=list(coherency_list), alphas=alphas, pol=out["pol"]))
        return self.position(layer, dist, out)["absor"]
