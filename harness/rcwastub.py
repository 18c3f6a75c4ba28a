"""the rigorous coupled-wave solvers (S4 and Inkstone) at their library boundary: they record what they are handed and answer with symbolic powers"""
import importlib, types
from .util import *

RC = "rayflare.rigorous_coupled_wave_analysis.rcwa"
INC = 0.75          # incident power (forward flux in the incidence medium)
OFF = 0.25          # counter-propagating part of the flux inside the structure


def recip(size):
    (ax, ay), (bx, by) = size
    det = abs(ax * by - ay * bx)
    return ((by / det, -bx / det), (-ay / det, ax / det))


class Solver:
    """one simulation object; its answers come from the world (`key` of stack and excitation)"""

    def __init__(self, world, backend, size, orders):
        self.w, self.backend, self.size, self.orders = world, backend, size, orders
        self.materials, self.layers, self.patterns, self.opts = {}, [], [], None
        self.exc = self.freq = None
        world.made.append(self)
        if backend == "inkstone":
            r = recip(size)
            self.pr = types.SimpleNamespace(idx_g=[tuple(x) for x in world.basis], recipr_vec=tuple(tuple(2 * PI * v for v in q) for q in r))

    # building
    def add_material(self, name, eps): self.materials[str(name)] = eps
    def add_layer(self, name, d, mat): self.layers.append((str(name), d, str(mat)))
    def pattern(self, kind, layer, mat, **kw): self.patterns.append((str(layer), str(mat), kind, kw))

    def index(self, name):
        for i, l in enumerate(self.layers):
            if l[0] == name: return i
        raise ValueError("unknown layer %r" % (name,))

    def stack(self):
        """what the simulation contains: layers front to rear with thickness, background and patterns (by permittivity)"""
        return [dict(d=d, eps=self.materials[m], pats=[(k, self.materials[pm], kw) for (l, pm, k, kw) in self.patterns if l == name]) for name, d, m in self.layers]

    # answers
    def state(self): return self.w.state(self)

    def flux(self, layer, z=0):
        s, i, n = self.state(), self.index(layer), len(self.layers)
        if i == 0: return self.w.num(INC), -(s["R"] * INC)
        net = s["T"]
        for l in range(i - 1, n - 2): net = net + s["A"][l]
        net = net * INC
        z = float(z)
        if z != 0:
            d0 = round(z, 5)
            net = net - self.w.density(self, i, d0) * ((z - d0) * INC)
        off = OFF if i < n - 1 else 0.0        # nothing comes back in the transmission medium
        return net + off, self.w.num(-off)

    def by_order(self, layer):
        s, i = self.state(), self.index(layer)
        if i == 0: return [(self.w.num(INC if o == 0 else 0.0), -(s["r"][o] * INC)) for o in range(len(self.w.basis))]
        if i == len(self.layers) - 1: return [(s["t"][o] * INC, self.w.num(0.0)) for o in range(len(self.w.basis))]
        lo = self.w.inner(self, i)
        return [(lo[o] * INC + OFF, self.w.num(-OFF)) for o in range(len(self.w.basis))]


class InkstoneStub(Solver):
    def AddMaterial(self, name, epsilon, mu=1.0): self.add_material(name, epsilon)
    def AddLayer(self, name, thickness, material_background): self.add_layer(name, thickness, material_background)
    def AddPatternDisk(self, layer, material, radius, center=None): self.pattern("circle", layer, material, radius=radius, center=center)
    def AddPatternEllipse(self, layer, material, half_lengths, center=None, angle=None): self.pattern("ellipse", layer, material, halfwidths=half_lengths, center=center, angle=angle)
    def AddPatternRectangle(self, layer, material, side_lengths, center=None, angle=None): self.pattern("rectangle", layer, material, halfwidths=[x / 2 for x in side_lengths], center=center, angle=angle)
    def AddPatternPolygon(self, layer, material, vertices): self.pattern("polygon", layer, material, vertices=[list(v) for v in vertices])
    def SetExcitation(self, theta, phi, s_amplitude, p_amplitude): self.exc = (theta, phi, s_amplitude, p_amplitude)
    def SetFrequency(self, f): self.freq = f
    def GetPowerFlux(self, layer, z=0): return self.flux(layer, z)

    def GetPowerFluxByOrder(self, layer, order, z=0):
        return self.by_order(layer)[[tuple(b) for b in self.w.basis].index(tuple(int(x) for x in order))]


class S4Stub(Solver):
    def SetOptions(self, **k): self.opts = dict(k)
    def SetMaterial(self, Name, Epsilon): self.add_material(Name, Epsilon)
    def AddLayer(self, Name, Thickness, Material): self.add_layer(Name, Thickness, Material)
    def SetRegionCircle(self, Layer, Material, Center, Radius): self.pattern("circle", Layer, Material, radius=Radius, center=Center)
    def SetRegionEllipse(self, Layer, Material, Center, Angle, Halfwidths): self.pattern("ellipse", Layer, Material, halfwidths=Halfwidths, center=Center, angle=Angle)
    def SetRegionRectangle(self, Layer, Material, Center, Angle, Halfwidths): self.pattern("rectangle", Layer, Material, halfwidths=Halfwidths, center=Center, angle=Angle)
    def SetRegionPolygon(self, Layer, Material, Center, Angle, Vertices): self.pattern("polygon", Layer, Material, vertices=[list(v) for v in Vertices], center=Center, angle=Angle)
    def SetExcitationPlanewave(self, IncidenceAngles, sAmplitude=0, pAmplitude=0, Order=0): self.exc = (IncidenceAngles[0], IncidenceAngles[1], sAmplitude, pAmplitude)
    def SetFrequency(self, f): self.freq = f
    def GetPowerFlux(self, Layer, zOffset=0): return self.flux(Layer, zOffset)
    def GetPowerFluxByOrder(self, Layer, zOffset=0): return self.by_order(Layer)
    def GetBasisSet(self): return tuple(tuple(b) for b in self.w.basis)
    def GetReciprocalLattice(self): return recip(self.size)


class World:
    """the symbolic answers: per simulation content and excitation, R = sum of the reflected orders, T = sum of the transmitted ones, R + T + sum(A) = 1"""

    def __init__(self, c, basis, negative=False, none=()):
        self.c, self.basis, self.memo, self.made, self.calls, self.negative, self.none = c, basis, {}, [], [], negative, none
        m = importlib.import_module(RC)
        if not hasattr(m, "Inkstone"): c.skip("rcwa no longer imports Inkstone")
        c.patch(m, "Inkstone", lambda size, orders: InkstoneStub(self, "inkstone", size, orders))
        c.patch(m, "S4", types.SimpleNamespace(New=lambda size, orders: S4Stub(self, "s4", size, orders)))

    def num(self, x): return np.float64(x)

    def key(self, s):
        st = s.stack()
        return (round(float(s.exc[0]), 7), round(float(s.exc[1]), 7), round(float(s.freq), 12), tuple((round(float(l["d"]), 6), round(complex(l["eps"]).real, 9), round(complex(l["eps"]).imag, 9)) for l in st))

    def evanescent(self, s, o, which):
        kx, ky = self.k(s, o)
        n = math.sqrt(complex(s.stack()[0 if which == "r" else -1]["eps"]).real)
        return math.hypot(kx, ky) >= n * float(s.freq)

    def k(self, s, o):
        n = math.sqrt(complex(s.stack()[0]["eps"]).real)
        th, ph = math.radians(float(s.exc[0])), math.radians(float(s.exc[1]))
        r = recip(s.size)
        m, l = self.basis[o]
        return (n * float(s.freq) * math.sin(th) * math.cos(ph) + m * r[0][0] + l * r[1][0], n * float(s.freq) * math.sin(th) * math.sin(ph) + m * r[0][1] + l * r[1][1])

    def state(self, s):
        key = self.key(s)
        if key in self.memo: return self.memo[key]
        c, i, no, nl = self.c, len(self.memo), len(self.basis), len(s.layers) - 2
        lo = 2.0 ** -10
        # R is given by the other powers; the reflected orders are known up to a common factor
        r = [c.real("r%d_%d" % (i, o), lo, 1.0) if "r" not in self.none else np.float64(0.0) for o in range(no)]
        t = [np.float64(0.0) if self.evanescent(s, o, "t") or "t" in self.none else c.real("t%d_%d" % (i, o), lo, 1.0) for o in range(no)]
        A = [c.real("A%d_%d" % (i, l), lo if not self.negative else -0.25, 1.0) for l in range(nl)]
        T = total(t)
        if "r" in self.none:
            if nl: A[-1] = 1.0 - T - total(A[:-1]); c.assume(A[-1] >= lo)
            R = np.float64(0.0)
        else:
            R = 1.0 - T - total(A)
            c.assume(R >= lo)
        self.memo[key] = dict(R=R, T=T, A=A, r=r, t=t, s=s, exc=s.exc, i=i, dens={}, inner={})
        return self.memo[key]

    def density(self, s, layer, d0):
        m = self.state(s)
        if (layer, d0) not in m["dens"]: m["dens"][layer, d0] = self.c.real("g%d_%d_%d" % (m["i"], layer, len(m["dens"])), 0.0 if not (self.negative or getattr(self, "neg_density", False)) else -0.5, 2.0)
        return m["dens"][layer, d0]

    def inner(self, s, layer):
        m = self.state(s)
        if layer not in m["inner"]: m["inner"][layer] = [self.c.real("q%d_%d_%d" % (m["i"], layer, o), -0.5, 1.0) for o in range(len(self.basis))]
        return m["inner"][layer]
