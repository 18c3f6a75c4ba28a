"""C10: Fresnel reflectance is a probability with the right polarisation and limits."""
from .util import *

RT = "rayflare.ray_tracing.rt"
ASSUMPTIONS = ["refractive indices in [1, 4] (real), extinction coefficient in [0, 4] at normal incidence; at oblique incidence five pairs of absorbing media (the complex arcsine is represented by its cosine, a principal square root)",
               "angles of incidence below the critical angle by at least 1e-3 in sin(theta)",
               "the draw is compared with the reflection probability with a gap of 1e-6"]

MEDIA = [(1.0, 0.0, 4.0, 2.0), (1.0, 0.0, 1.0, 4.0), (2.0, 0.25, 1.0, 0.0), (3.5, 0.5, 1.5, 1.0), (1.0, 0.0, 0.25, 3.0)]


def instances(tier):
    out = []
    for pol in ("s", "p", "u"):
        for dirn in ("up", "down"):
            out.append(dict(name="formula-%s-%s" % (pol, dirn), fn=formula, params=dict(pol=pol, dirn=dirn), bounds="all angles below the critical angle, all indices in [1,4], n1 %s n2" % ("<=" if dirn == "up" else ">="), max_s=300, cost=3))
            out.append(dict(name="decision-%s-%s" % (pol, dirn), fn=decision, params=dict(pol=pol, dirn=dirn), bounds="all angles, indices, draws", max_s=300, cost=3))
        out.append(dict(name="identical-%s" % pol, fn=ident, params=dict(pol=pol), bounds="identical media, all angles below 90 degrees"))
        out.append(dict(name="normal-%s" % pol, fn=normal, params=dict(pol=pol), bounds="normal incidence, complex transmitted index"))
        out.append(dict(name="absorbing-%s" % pol, fn=absorbing, params=dict(pol=pol), bounds="one of %d pairs of media of which at least one absorbs, all angles up to 89 degrees" % len(MEDIA), max_s=300, cost=3))
        out.append(dict(name="decision-absorbing-%s" % pol, fn=decision_abs, params=dict(pol=pol), bounds="the same media, six angles of incidence, both sides, all draws", max_s=300, cost=3))
        out.append(dict(name="planar-%s" % pol, fn=planar, params=dict(pol=pol), bounds="one ray on a planar surface through rt_structure, concrete angle and indices, all draws", max_s=300, cost=3))
    return out


def ref(c, n1, n2, th, pol):
    ct = core.cos_(th) if c.symbolic else math.cos(th)
    st = core.sin_(th) if c.symbolic else math.sin(th)
    x = (n1 / n2) * st
    c2 = core.sqrt_(1 - x * x) if c.symbolic else math.sqrt(1 - x * x)
    rs = (n1 * ct - n2 * c2) / (n1 * ct + n2 * c2)
    rp = (n1 * c2 - n2 * ct) / (n1 * c2 + n2 * ct)
    rs, rp = abs(rs) ** 2, abs(rp) ** 2
    return {"s": rs, "p": rp, "u": (rs + rp) / 2}[pol]


def inputs(c, dirn):
    n1 = c.real("n1", 1.0, 4.0)
    n2 = c.real("n2", 1.0, 4.0)
    c.assume(n1 <= n2 if dirn == "up" else n1 >= n2)
    th = c.angle("theta", 0.0, PI / 2 - 1e-3)
    if dirn == "down":
        st = core.sin_(th) if c.symbolic else math.sin(th)
        c.assume(st * n1 <= n2 * (1 - 1e-3))
    return n1, n2, th


def formula(c, pol, dirn):
    f = fn(c, RT, "calc_R")
    n1, n2, th = inputs(c, dirn)
    R = f(n1, n2, th, pol)
    c.ge("not negative", R, 0.0, 1e-9)
    if pol == "u":
        a, b = f(n1, n2, th, "s"), f(n1, n2, th, "p")
        c.le("s at most one", a, 1.0, 1e-9)
        c.eq("unpolarised is the mean", R, (a + b) / 2, 1e-9)
    else: c.le("at most one", R, 1.0, 1e-9)
    c.eq("Fresnel formula", R, ref(c, n1, n2, th, pol), 1e-7)


def decision(c, pol, dirn):
    f = fn(c, RT, "decide_RT_Fresnel")
    n1, n2, th = inputs(c, dirn)
    ct = core.cos_(th) if c.symbolic else math.cos(th)
    st = core.sin_(th) if c.symbolic else math.sin(th)
    N = np.array([0.0, 0.0, 1.0])
    d = zeros(c, 3); d[0] = st; d[2] = -ct
    r = c.rand()
    dd, side, A = f(n1 + 0j, n2 + 0j, th, d, N, 1, pol, r)
    R = ref(c, n1, n2, th, pol)
    c.true("never absorbed", A is None)
    if side == 1: c.le("reflected only if the draw allows", r, R, 1e-6)
    else: c.ge("transmitted only if the draw exceeds", r, R, 1e-6)


def ident(c, pol):
    f = fn(c, RT, "calc_R")
    n = c.real("n", 1.0, 4.0)
    th = c.angle("theta", 0.0, PI / 2 - 1e-3)
    c.eq("nothing reflected", f(n, n, th, pol), 0.0, 1e-9)


def normal(c, pol):
    f = fn(c, RT, "calc_R")
    n1, n2, k2 = c.real("n1", 1.0, 4.0), c.real("n2", 1.0, 4.0), c.real("k2", 0.0, 4.0)
    k1 = c.real("k1", 0.0, 2.0)
    z = n2 + 1j * k2 if not c.symbolic else core.mkcplx(n2, k2)
    z0 = n1 + 1j * k1 if not c.symbolic else core.mkcplx(n1, k1)
    R = f(z0, z, 0.0, pol)
    c.eq("normal incidence", R * ((n1 + n2) * (n1 + n2) + (k1 + k2) * (k1 + k2)), (n1 - n2) * (n1 - n2) + (k1 - k2) * (k1 - k2), 1e-6)


def decision_abs(c, pol):
    f = fn(c, RT, "decide_RT_Fresnel")
    side = (1, -1)[c.pick("side", 2)]
    n1, k1, n2, k2 = MEDIA[c.pick("media", len(MEDIA))]
    th = [0.0, 0.2, 0.5, 0.9, 1.3, 1.5][c.pick("angle", 6)]
    ct, st = math.cos(th), math.sin(th)
    if st * n1 > n2 * (1 - 1e-3): return
    N = np.array([0.0, 0.0, 1.0])
    d = zeros(c, 3); d[0] = st; d[2] = -ct
    r = c.rand()
    dd, s2, A = f(complex(n1, k1), complex(n2, k2), th * side, d, N, side, pol, r)      # the local angle is negative for rays from below
    R = cref(None, complex(n1, k1), complex(n2, k2), ct, st, pol)
    c.true("never absorbed", A is None)
    if s2 == side: c.le("reflected only if the draw allows", r, R, 1e-6)
    else: c.ge("transmitted only if the draw exceeds", r, R, 1e-6)


def cref(c, z1, z2, ct, st, pol):
    x = (z1 / z2) * st
    c2 = core.sqrt_(1 - x * x) if c and c.symbolic else np.sqrt(1 - x * x)
    def a2(z):
        a, b = core.parts(z)
        return a * a + b * b
    rs = a2(z1 * ct - z2 * c2) / a2(z1 * ct + z2 * c2)
    rp = a2(z1 * c2 - z2 * ct) / a2(z1 * c2 + z2 * ct)
    return {"s": rs, "p": rp, "u": (rs + rp) / 2}[pol]


def absorbing(c, pol):
    f = fn(c, RT, "calc_R")
    n1, k1, n2, k2 = MEDIA[c.pick("media", len(MEDIA))]
    z1, z2 = complex(n1, k1), complex(n2, k2)
    th = c.angle("theta", 0.0, 89 * PI / 180)
    R = f(z1, z2, th, pol)
    ct = core.cos_(th) if c.symbolic else math.cos(th)
    st = core.sin_(th) if c.symbolic else math.sin(th)
    c.eq("complex Fresnel formula", R, cref(c, z1, z2, ct, st, pol), 1e-7)


def planar(c, pol):
    cls = fn(c, RT, "rt_structure")
    pl = fn(c, "rayflare.textures.standard_rt_textures", "planar_surface")
    n1, n2 = [(1.0, 1.5), (1.5, 1.0), (1.0, 3.5), (2.0, 1.75)][c.pick("media", 4)]
    th = [0.0, 0.3, 0.7, 1.2][c.pick("angle", 4)]
    S = cls([pl(size=1)], [], [], Mat(n=n1), Mat(n=n2))
    draws = []
    real = c.rand
    import rayflare.ray_tracing.rt as rt
    def rnd():
        draws.append(real()); return draws[-1]
    if hasattr(rt, "random") and not isinstance(rt.random, type(np)): c.patch(rt, "random", rnd)
    else: c.skip("draws no longer come from rt.random")
    o = options(wavelength=np.array([5e-7]), theta_in=th, phi_in=0.4, n_rays=1, nx=1, ny=1, pol=pol, I_thresh=1e-3, depth_spacing_bulk=1e-6, random_ray_position=False, randomize_surface=False)
    res = S.calculate(o)
    x = math.sin(th) * n1 / n2
    c.true("one draw per facet", len(draws) == 1)
    if x >= 1:
        c.eq("total reflection", res["R"][0], 1.0, 1e-9)
        return
    R = ref_conc(n1, n2, th, pol)
    c.eq("reflected or transmitted", res["R"][0] + res["T"][0], 1.0, 1e-9)
    if bool(res["R"][0] > 0.5): c.le("reflected only if the draw allows", draws[0], R, 1e-7)
    else: c.ge("transmitted only if the draw exceeds", draws[0], R, 1e-7)


def ref_conc(n1, n2, th, pol):
    c2 = math.sqrt(1 - (math.sin(th) * n1 / n2) ** 2)
    rs = ((n1 * math.cos(th) - n2 * c2) / (n1 * math.cos(th) + n2 * c2)) ** 2
    rp = ((n1 * c2 - n2 * math.cos(th)) / (n1 * c2 + n2 * math.cos(th))) ** 2
    return {"s": rs, "p": rp, "u": (rs + rp) / 2}[pol]
