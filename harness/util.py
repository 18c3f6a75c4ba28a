"""helpers shared by the harnesses (they run with symbolic and with concrete values)"""
import importlib, math
import numpy as np
from symx import core

PI = math.pi


def fn(c, module, name):
    """a function of the code under test, or skip this instance if a refactoring moved it"""
    try:
        m = importlib.import_module(module)
    except ImportError:
        c.skip("module %s is gone" % module)
    f = getattr(m, name, None)
    if f is None: c.skip("%s.%s is gone" % (module, name))
    return f


def floor(x):
    """integer floor, forking over the feasible values when x is symbolic"""
    if core.is_sym(x): return x.__floor__()
    return math.floor(x)


def flist(a):
    """1-D array-like -> python list of scalars"""
    return list(np.asarray(a, dtype=object).ravel())


def col(a, j):
    return [np.asarray(a, dtype=object)[i, j] for i in range(np.shape(a)[0])]


def both(c, *conds):
    r = True
    for x in conds: r = core.and_(r, x)
    return r


def either(c, *conds):
    r = False
    for x in conds: r = core.or_(r, x)
    return r


def inv(cond): return core.not_(cond)


def total(xs):
    s = 0.0
    for x in xs: s = s + x
    return s


def save_npz(c, path, a):
    """store a matrix where the code under test will load it"""
    if c.symbolic:
        from symx import patch
        patch._touch(path, patch.SymCOO(np.asarray(a, dtype=object)))
    else:
        import sparse
        sparse.save_npz(path, sparse.COO.from_numpy(np.asarray(a, dtype=float)))


def dense(m):
    """dense ndarray of a (sparse or dense, real or symbolic) matrix"""
    if hasattr(m, "todense"): m = m.todense()
    if hasattr(m, "data") and type(m).__name__ == "DataArray": m = m.data
    return np.asarray(m)


def options(**kw):
    from rayflare.options import default_options
    o = default_options()
    o.parallel = False
    o.n_jobs = 1
    o.bulk_profile = False
    o.project_name = "p"
    for k, v in kw.items(): setattr(o, k, v)
    return o


class Mat:
    """material with given n, k, alpha per wavelength (functions or constants)"""

    def __init__(self, n=1.0, k=0.0, alpha=None, name="m"):
        self._n, self._k, self._a, self.name = n, k, alpha, name

    def _get(self, v, wl):
        if callable(v): return v(wl)
        if np.ndim(wl) == 0: return v if np.ndim(v) == 0 else v[0]
        if np.ndim(v) == 0:
            out = np.empty(len(wl), dtype=object) if core.is_sym(v) else np.empty(len(wl))
            for i in range(len(wl)): out[i] = v
            return npwrap(out)
        return v

    def n(self, wl): return self._get(self._n, wl)
    def k(self, wl): return self._get(self._k, wl)
    def alpha(self, wl):
        if self._a is None: return self._get(self._k, wl) * 0.0
        return self._get(self._a, wl)
    def __str__(self): return self.name


def npwrap(a):
    from symx import npshim
    return npshim.wrap(a) if isinstance(a, np.ndarray) and a.dtype == object else a


def zeros(c, shape):
    if not c.symbolic: return np.zeros(shape)
    a = np.empty(shape, dtype=object); a.fill(np.float64(0.0))
    return npwrap(a)


def eye(c, n):
    a = zeros(c, (n, n))
    for i in range(n): a[i, i] = 1.0
    return a


def off_edges(c, x, edges, gap=1e-6):
    """stay away from the given edges (float rounding decides exactly there)"""
    for e in edges: c.assume(either(c, x >= e + gap, x <= e - gap))


def bin_of(x, edges):
    """index i with edges[i] <= x < edges[i+1] (forks when x is symbolic)"""
    for i in range(len(edges) - 1):
        if bool(both(None, x >= edges[i], x < edges[i + 1])): return i
    return len(edges) - 2


def grid(n, sym, caz, sp):
    """reference angular grid, written independently of the code under test (concrete)"""
    if sp == "sin":
        up = [math.asin(i / n) for i in range(n + 1)]
    else:
        up = [i * (PI / 2) / n for i in range(n + 1)]
    th = up + [PI - x for x in up[:-1][::-1]]
    phi, rows = [], []
    for i in range(2 * n):
        r = i + 1 if i < n else 2 * n - i
        nb = int(math.ceil(caz * r - 1e-12))
        phi.append([k * sym / nb for k in range(nb + 1)])
        for k in range(nb): rows.append((i, (th[i] + th[i + 1]) / 2, (k + 0.5) * sym / nb, k))
    return th, phi, rows


def replace(c, module, name, impl, need=()):
    """replace an internal function by impl(arguments by name, as the real signature binds them); skip if its interface changed"""
    import inspect
    m = importlib.import_module(module)
    f = fn(c, module, name)
    try: sig = inspect.signature(f)
    except (TypeError, ValueError): c.skip("no signature for " + name)
    if any(n not in sig.parameters for n in need): c.skip("%s has other parameters" % name)

    def stub(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        return impl(b.arguments)
    c.patch(m, name, stub)


def soft_surface(c, surfs):
    """in symbolic runs, hold the surface's arrays in a form which symbolic masks can index"""
    if not c.symbolic: return surfs
    from symx import npshim
    for t in (surfs if isinstance(surfs, (list, tuple)) else [surfs]):
        for k, v in list(vars(t).items()):
            if isinstance(v, np.ndarray) and v.dtype.kind == "f": setattr(t, k, npshim.wrap(npshim.obj(v)))
    return surfs


def rat(c, p, q):
    """the exact rational p/q in symbolic runs"""
    return core.SymReal(core.z3.Q(p, q)) if c.symbolic else p / q
