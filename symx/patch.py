"""Replace what the rayflare modules imported (numpy, math, random, sparse, joblib, files) by symbolic stand-ins.
Replacement is by identity of the imported object, so it does not depend on the names used in the source."""
import sys, os, types, math, cmath, random as _random, pickle
import numpy as _np
import xarray as _xr
from . import core, npshim
from .core import is_sym, Unsupported
from .npshim import SymArray, wrap, obj, plain, has_sym, arr

MEM = {}        # path -> object written by the code under test (symbolic data cannot go through real files)


def _touch(path, value):
    path = str(path)
    with open(path, "wb") as f: f.write(b"symx")
    MEM[os.path.abspath(path)] = value


def _load(path):
    p = os.path.abspath(str(path))
    if not os.path.exists(p): raise FileNotFoundError(p)
    if p not in MEM: raise Unsupported("reading a file not written in this run: " + p)
    return MEM[p]


class SymCOO:
    """dense stand-in for sparse.COO (same values, same shapes)"""
    __array_priority__ = 3000
    __array_ufunc__ = None

    def __init__(self, data, *a, **k):
        if a or k: raise Unsupported("COO from coordinates")
        if isinstance(data, SymCOO): data = data.a
        self.a = wrap(obj(arr(data)))

    @classmethod
    def from_numpy(cls, x, *a, **k): return cls(x)

    shape = property(lambda s: s.a.shape)
    ndim = property(lambda s: s.a.ndim)
    T = property(lambda s: SymCOO(s.a.T))
    size = property(lambda s: s.a.size)

    def __len__(self): return len(self.a)
    def todense(self): return self.a.copy()
    def __getitem__(self, k):
        r = self.a[k]
        return SymCOO(r) if isinstance(r, _np.ndarray) and r.ndim else r
    def sum(self, axis=None, **k):
        r = self.a.sum(axis)
        return SymCOO(r) if isinstance(r, _np.ndarray) else r
    def __array__(self, *a, **k): return plain(self.a)
    def dot(self, o): return sp_dot(self, o)
    def __matmul__(self, o): return sp_dot(self, o)
    def __rmatmul__(self, o): return sp_dot(o, self)
    def __mul__(self, o): return SymCOO(self.a * un(o))
    __rmul__ = __mul__
    def __add__(self, o): return SymCOO(self.a + un(o))
    __radd__ = __add__
    def __sub__(self, o): return SymCOO(self.a - un(o))
    def __truediv__(self, o): return SymCOO(self.a / un(o))
    def transpose(self, axes=None): return SymCOO(self.a.transpose(axes))
    def reshape(self, s): return SymCOO(self.a.reshape(s))
    def astype(self, t): return self


def un(x): return x.a if isinstance(x, SymCOO) else x


def sp_dot(a, b):
    dense = not (isinstance(a, SymCOO) and isinstance(b, SymCOO))
    r = npshim.np_dot(un(a), un(b))
    return r if dense or not isinstance(r, _np.ndarray) else SymCOO(r)


def sp_stack(xs, axis=0):
    xs = [un(x) for x in xs]
    return SymCOO(_np.stack([obj(x) for x in xs], axis))


def sp_concat(xs, axis=0):
    return SymCOO(_np.concatenate([obj(un(x)) for x in xs], axis))


class InlineParallel:
    def __init__(self, *a, **k): pass
    def __call__(self, jobs): return [f(*a, **k) for f, a, k in jobs]


def inline_delayed(f, *_, **__):
    return lambda *a, **k: (f, a, k)


class Patcher:
    """installed once in a worker process"""

    def __init__(self):
        self.np = npshim.SymNP()
        self.table = {}
        import sparse, joblib
        from sparse import COO, load_npz, save_npz, dot, stack
        t = self.table
        t[id(_np)] = self.np
        for m in (math, cmath):
            pm = npshim._Math(m)
            t[id(m)] = pm
            for n in dir(m):
                f = getattr(m, n)
                if callable(f) and not n.startswith("_"): t[id(f)] = getattr(pm, n)
        for n in dir(_np):
            if n.startswith("_"): continue
            try: f = getattr(_np, n)
            except Exception: continue
            if callable(f) and not isinstance(f, type) and not isinstance(f, types.ModuleType) and id(f) not in t:
                t[id(f)] = ("np", n)
        t[id(_random.random)] = lambda: core.ctx().rand()
        rm = types.ModuleType("random")
        rm.random = t[id(_random.random)]
        rm.uniform = lambda a, b: a + (b - a) * core.ctx().rand()
        t[id(_random)] = rm
        t[id(_np.random)] = self.np.random
        t[id(COO)] = SymCOO
        t[id(stack)] = sp_stack
        t[id(dot)] = sp_dot
        t[id(save_npz)] = lambda path, m, *a, **k: _touch(path, m)
        t[id(load_npz)] = lambda path: _load(path)
        sm = types.ModuleType("sparse")
        sm.__dict__.update(COO=SymCOO, stack=sp_stack, dot=sp_dot, save_npz=t[id(save_npz)], load_npz=t[id(load_npz)],
                           concatenate=sp_concat, matmul=sp_dot, tensordot=None, SparseArray=SymCOO)
        t[id(sparse)] = sm
        t[id(sparse.concatenate)] = sp_concat
        t[id(joblib.Parallel)] = InlineParallel
        t[id(joblib.delayed)] = inline_delayed
        jm = types.ModuleType("joblib")
        jm.Parallel, jm.delayed = InlineParallel, inline_delayed
        t[id(joblib)] = jm
        try:
            import scipy.spatial as ss
            real = ss.Delaunay

            def delaunay(p, *a, **k):
                o = obj(p)
                if has_sym(o): raise Unsupported("triangulation of symbolic points")
                return real(o.astype(float), *a, **k)
            t[id(real)] = delaunay
        except ImportError:
            pass
        self.keep = [_np, math, cmath, _random, sparse, joblib]

    def install(self, prefix="rayflare"):
        import xarray
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == prefix or name.startswith(prefix + ".")): continue
            for k, v in list(vars(mod).items()):
                r = self.table.get(id(v))
                if r is None: continue
                if isinstance(r, tuple): r = getattr(self.np, r[1])
                setattr(mod, k, r)
                if isinstance(v, type):       # class used as default etc. stays consistent
                    pass
        xarray.Dataset.to_netcdf = lambda s, path=None, *a, **k: _touch(path, s.copy())
        xarray.DataArray.to_netcdf = lambda s, path=None, *a, **k: _touch(path, s.to_dataset(name=s.name or "__xarray_dataarray_variable__"))
        xarray.load_dataset = lambda path, *a, **k: _load(path).copy()
        xarray.open_dataset = lambda path, *a, **k: _load(path).copy()
        import xarray.core.nanops as nanops
        def nanmean(a, axis=None, dtype=None):
            if a.dtype.kind == "O":
                return plain(obj(npshim.np_mean(a, axis)))
            return self._nanmean(a, axis=axis, dtype=dtype)
        if not hasattr(self, "_nanmean"): self._nanmean = nanops.nanmean
        nanops.nanmean = nanmean
        import xarray.core.duck_array_ops as dao
        self.fix_dao(dao)

    def fix_dao(self, dao):
        realsum, realmean = dao.sum, dao.mean

        def dsum(values, axis=None, skipna=None, **k):
            if getattr(values, "dtype", None) == object:
                r = npshim.np_sum(plain(_np.asarray(values)), axis)
                return plain(r) if isinstance(r, _np.ndarray) else obj(r)
            return realsum(values, axis=axis, skipna=skipna, **k)

        def dmean(values, axis=None, skipna=None, **k):
            if getattr(values, "dtype", None) == object:
                r = npshim.np_mean(plain(_np.asarray(values)), axis)
                return plain(r) if isinstance(r, _np.ndarray) else obj(r)
            return realmean(values, axis=axis, skipna=skipna, **k)
        for n, f in (("sum", dsum), ("mean", dmean)):
            f.__name__ = n
            for at in ("numeric_only", "available_min_count", "unallowed_in_1d"):
                if hasattr(getattr(dao, n), at): setattr(f, at, getattr(getattr(dao, n), at))
            setattr(dao, n, f)

    def reset(self, c):
        MEM.clear()


# ------------------------------------------------------------------ concrete replay: same inputs, real libraries
class ConcNP(types.ModuleType):
    """real numpy, except that random draws and uninitialised memory take the counterexample's values"""

    def __init__(self, c):
        super().__init__("numpy")
        d = self.__dict__

        def empty(shape, dtype=None, *a, **k):
            r = _np.empty(shape, *( (dtype,) if dtype is not None else ()), *a, **k)
            if r.dtype.kind == "f":
                fl = r.reshape(-1)
                for i in range(fl.size): fl[i] = c.lazy_real("uninit")
                r = fl.reshape(r.shape)
            return r

        def empty_like(x, dtype=None, **k): return empty(_np.shape(x), dtype)
        d["empty"], d["empty_like"] = empty, empty_like
        d["divide"] = d["true_divide"] = _CU(_np.divide, empty)
        d["random"] = ConcRandom(c)
        for n in dir(_np):
            if n not in d and isinstance(getattr(_np, n, None), _np.ufunc):
                d[n] = _CU(getattr(_np, n), empty)
        class M: pass
        m = types.ModuleType("math"); m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith("__")})
        d["math"] = m

    def __getattr__(self, n): return getattr(_np, n)


class _CU:
    def __init__(self, u, empty): self.u, self.empty = u, empty; self.__name__ = u.__name__

    def __call__(self, *a, **k):
        w = k.get("where", True)
        if w is not True and k.get("out") is None and not any(isinstance(x, _xr.DataArray) for x in a):
            shp = _np.broadcast_shapes(*[_np.shape(x) for x in a], _np.shape(w))
            k = dict(k); k["out"] = self.empty(shp)
        return self.u(*a, **k)

    def __getattr__(self, n): return getattr(self.u, n)


class ConcRandom:
    def __init__(self, c): self.c = c
    def _arr(self, shape, lo=0.0, hi=1.0):
        if shape is None or shape == (): return lo + (hi - lo) * self.c.rand()
        if not isinstance(shape, (tuple, list)): shape = (shape,)
        o = _np.empty(tuple(int(s) for s in shape))
        for ix in _np.ndindex(*o.shape): o[ix] = lo + (hi - lo) * self.c.rand()
        return o
    def rand(self, *shape): return self._arr(shape)
    def random(self, size=None): return self._arr(size)
    random_sample = random
    def uniform(self, low=0.0, high=1.0, size=None): return self._arr(size, low, high)
    def seed(self, *a): pass
    def choice(self, a, size=None, replace=True, p=None):
        vals = list(range(a)) if isinstance(a, int) else list(a)
        return vals[self.c.pick(self.c.freshname("choice"), len(vals))]
    def __getattr__(self, n): return getattr(_np.random, n)


def install_concrete(c, prefix="rayflare"):
    cn = ConcNP(c)
    rnd = lambda: c.rand()
    rm = types.ModuleType("random"); rm.random = rnd; rm.uniform = lambda a, b: a + (b - a) * c.rand()
    import joblib
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or name.startswith(prefix + ".")): continue
        for k, v in list(vars(mod).items()):
            if v is _np: setattr(mod, k, cn)
            elif v is _random.random: setattr(mod, k, rnd)
            elif v is _random: setattr(mod, k, rm)
            elif v is _np.random: setattr(mod, k, cn.random)
            elif v is joblib.Parallel: setattr(mod, k, InlineParallel)
            elif v is joblib.delayed: setattr(mod, k, inline_delayed)
