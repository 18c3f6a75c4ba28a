"""numpy on symbolic scalars: an object-dtype ndarray subclass plus a stand-in for the numpy module."""
import math, types
import numpy as _np
import xarray as _xr
from . import core
from .core import (SymReal, SymBool, SymComplex, SymBase, is_sym, isconc_real, Unsupported, ite, min_, max_, and_, or_, not_)

F = _np.float64


def norm(x):
    """normalise a scalar for storage"""
    if type(x) is float: return F(x)
    if isinstance(x, _np.ndarray) and x.ndim == 0: return norm(x.item())
    return x


class SymArray(_np.ndarray):
    __array_priority__ = 2000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __getitem__(self, k):
        k = fix_index(k, self)
        if isinstance(k, _SymMask):
            return mask_read(self, k)
        r = _np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        k = fix_index(k, self)
        if isinstance(k, _SymMask):
            return mask_write(self, k, v)
        if type(v) is float: v = F(v)
        if v is None: v = F("nan")
        if isinstance(v, _xr.DataArray): v = v.data
        if self.size and isinstance(self.item(0), (complex, _np.complexfloating)): v = as_complex(v)
        _np.ndarray.__setitem__(self, k, v)

    def astype(self, t, *a, **k):
        if t in (int, "int", _np.int64, _np.int32):
            return _np.array([int(x) for x in self.ravel()], dtype=int).reshape(self.shape)
        if t in (bool, "bool"):
            return _np.array([bool(x) for x in self.ravel()], dtype=bool).reshape(self.shape)
        if t in (float, "float", _np.float64, object, complex):
            return self.copy()
        if not has_sym(self):
            return _np.array(self.tolist()).astype(t)
        raise Unsupported("astype %r" % (t,))

    @property
    def real(self): return el1(lambda x: core.parts(x)[0] if is_sym(x) else x.real, self)

    @property
    def imag(self): return el1(lambda x: core.parts(x)[1] if is_sym(x) else x.imag, self)

    def conj(self): return el1(lambda x: x.conjugate(), self)
    conjugate = conj

    def any(self, axis=None, **k): return np_any(self, axis)
    def all(self, axis=None, **k): return np_all(self, axis)
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return np_sum(self, axis, keepdims=keepdims)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k): return np_mean(self, axis, keepdims=keepdims)
    def max(self, axis=None, out=None, keepdims=False, **k): return np_max(self, axis, keepdims=keepdims)
    def min(self, axis=None, out=None, keepdims=False, **k): return np_min(self, axis, keepdims=keepdims)
    def argmax(self, axis=None, **k): return np_argmax(self, axis)
    def argmin(self, axis=None, **k): return np_argmin(self, axis)
    def cumsum(self, axis=None, **k): return np_cumsum(self, axis)
    def nonzero(self): return np_nonzero(self)
    def dot(self, o): return np_dot(self, o)
    def round(self, n=0, **k): return el1(lambda x: core.round_(x, n), self)
    def clip(self, lo=None, hi=None, **k): return np_clip(self, lo, hi)

    def sort(self, axis=-1, **k):
        s = np_sort(self, axis)
        _np.ndarray.__setitem__(self, Ellipsis, s)

    def __bool__(self):
        if self.size == 1: return bool(self.ravel()[0])
        raise ValueError("truth value of an array is ambiguous")

    def __array_wrap__(self, a, *r):
        return a

    def __reduce__(self):
        raise Unsupported("pickle of symbolic array")


def as_complex(v):
    """what a complex array stores when a (concrete) real number is assigned to it"""
    if isinstance(v, _np.ndarray):
        if v.dtype.kind in "fiub": return v.astype(complex)
        if v.dtype == object:
            o = _np.empty(v.shape, dtype=object)
            for i in _np.ndindex(*v.shape): o[i] = as_complex(v[i])
            return o
        return v
    if isinstance(v, (int, float, _np.floating, _np.integer)) and not isinstance(v, bool): return complex(v)
    return v


class _SymMask:
    def __init__(self, mask): self.mask = mask


def plain(a):
    """same data, base ndarray class"""
    return a.view(_np.ndarray) if isinstance(a, SymArray) else a


def wrap(a):
    if isinstance(a, _np.ndarray) and a.dtype == object and not isinstance(a, SymArray):
        return a.view(SymArray)
    return a


def has_sym(a):
    if is_sym(a): return True
    if isinstance(a, _np.ndarray):
        return a.dtype == object and any(is_sym(x) for x in a.ravel().tolist())
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    if isinstance(a, _xr.DataArray):
        return has_sym(a.data)
    return False


def arr(x, dtype=None, ndmin=0):
    """np.array: object array when it holds anything symbolic, otherwise ordinary numpy"""
    if isinstance(x, _xr.DataArray): x = x.data
    if isinstance(x, _np.ndarray):
        if x.dtype == object: return wrap(x.copy())
        return _np.array(x, dtype=dtype) if dtype is not None else x.copy()
    if is_sym(x):
        a = _np.empty((), dtype=object)
        a[()] = x
        return wrap(a)
    if isinstance(x, (list, tuple)):
        x = [e.data if isinstance(e, _xr.DataArray) else e for e in x]
        if any(isinstance(e, (list, tuple, _np.ndarray)) for e in x) or has_sym(x):
            if not _deep_sym(x):
                return _np.array(x, dtype=dtype) if dtype is not None else _np.array(x)
            subs = [arr(e) if isinstance(e, (list, tuple, _np.ndarray)) else e for e in x]
            shp = _np.shape(subs[0]) if not is_sym(subs[0]) else ()
            for s in subs:
                ss = s.shape if isinstance(s, _np.ndarray) else ()
                if ss != shp:
                    raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            out = _np.empty((len(subs),) + shp, dtype=object)
            for i, s in enumerate(subs):
                if isinstance(s, _np.ndarray):
                    out[i] = plain(s) if s.dtype == object else s.astype(object)
                    if s.dtype != object:
                        o = out[i] if s.ndim else None
                        for ix in _np.ndindex(*s.shape): out[(i,) + ix] = s[ix]
                else:
                    out[i] = norm(s)
            return wrap(out)
    r = _np.array(x, dtype=dtype) if dtype is not None else _np.array(x)
    return r


def _deep_sym(x):
    if is_sym(x): return True
    if isinstance(x, _np.ndarray): return x.dtype == object
    if isinstance(x, (list, tuple)): return any(_deep_sym(e) for e in x)
    return False


def obj(a):
    """object ndarray (plain) holding np.float64 / symbolic scalars"""
    if isinstance(a, _xr.DataArray): a = a.data
    if isinstance(a, _np.ndarray):
        if a.dtype == object: return plain(a)
        o = _np.empty(a.shape, dtype=object)
        for ix in _np.ndindex(*a.shape): o[ix] = a[ix]
        return o
    if isinstance(a, (list, tuple)):
        return obj(arr(a))
    o = _np.empty((), dtype=object)
    o[()] = norm(a)
    return o


def finish(o, scalar=False):
    """result array -> bool ndarray if all boolean and concrete; scalar if 0-d"""
    if o.ndim == 0:
        return o[()]
    if o.size and all(isinstance(x, (bool, _np.bool_)) for x in o.ravel()):
        return o.astype(bool)
    return wrap(o)


def el1(f, a):
    o = obj(a)
    out = _np.empty(o.shape, dtype=object)
    for ix in _np.ndindex(*o.shape): out[ix] = norm(f(o[ix]))
    return finish(out)


def el2(f, a, b):
    a, b = obj(a), obj(b)
    A, B = _np.broadcast_arrays(a, b)
    out = _np.empty(A.shape, dtype=object)
    for ix in _np.ndindex(*A.shape): out[ix] = norm(f(A[ix], B[ix]))
    return finish(out)


# ------------------------------------------------------------------ indices
def fix_index(k, a):
    if isinstance(k, tuple):
        ks = []
        for i in k:
            f = fix_index(i, a)
            if isinstance(f, _SymMask):
                f = concrete_mask(f.mask)
            ks.append(f)
        return tuple(ks)
    if is_sym(k):
        if isinstance(k, SymBool): return bool(k)
        return k.__index__()
    if isinstance(k, _xr.DataArray): k = k.data
    if isinstance(k, _np.ndarray) and k.dtype == object:
        if k.size == 0: return _np.zeros(k.shape, dtype=int)
        if all(isinstance(x, (SymBool, bool, _np.bool_)) for x in k.ravel()):
            if any(isinstance(x, SymBool) for x in k.ravel()):
                return _SymMask(plain(k))
            return k.astype(bool)
        return _np.array([int(x) for x in k.ravel()], dtype=int).reshape(k.shape)
    if isinstance(k, list):
        return [fix_index(i, a) for i in k]
    if isinstance(k, slice):
        g = lambda v: v.__index__() if is_sym(v) else (int(v) if isinstance(v, _np.floating) else v)
        return slice(g(k.start), g(k.stop), g(k.step))
    if isinstance(k, _np.floating): return int(k)
    return k


def concrete_mask(m):
    return _np.array([bool(x) for x in m.ravel()], dtype=bool).reshape(m.shape)


def mask_read(a, k):
    return _np.ndarray.__getitem__(a, concrete_mask(k.mask))


def mask_write(a, k, v):
    m = k.mask
    if m.shape != a.shape:
        return _np.ndarray.__setitem__(a, concrete_mask(m), v)
    if isinstance(v, _np.ndarray) and v.ndim > 0:
        return _np.ndarray.__setitem__(a, concrete_mask(m), v)
    for ix in _np.ndindex(*m.shape):
        old = _np.ndarray.__getitem__(a, ix)
        new = ite(m[ix], norm(v), old)
        _np.ndarray.__setitem__(a, ix, new)


# ------------------------------------------------------------------ scalar kernels
def _c(uf):
    def f(*a):
        with _np.errstate(all="ignore"):
            return uf(*a)
    return f


def _bin(op, uf):
    import operator
    pyop = getattr(operator, op)
    u = _c(uf)

    def f(a, b):
        if is_sym(a) or is_sym(b):
            if isinstance(a, _np.generic): a = a.item()
            if isinstance(b, _np.generic): b = b.item()
            return pyop(a, b)
        return u(a, b)
    return f


def _arctan2(a, b):
    if is_sym(a) or is_sym(b): return core.atan2_(a, b)
    return _np.arctan2(a, b)


def _hypot(a, b):
    return core.sqrt_(a * a + b * b)


def _power(a, b):
    if is_sym(a) or is_sym(b):
        if isinstance(a, _np.generic): a = a.item()
        if isinstance(b, _np.generic): b = b.item()
        return a ** b
    with _np.errstate(all="ignore"): return _np.power(a, b)


def _log(x):
    if is_sym(x): raise Unsupported("log of a symbolic value")
    with _np.errstate(all="ignore"): return _np.log(x)


def _abs(x):
    return x if isinstance(x, (bool, _np.bool_, core.SymBool)) else abs(x)


U1 = {"negative": lambda x: -x, "positive": lambda x: x, "absolute": _abs, "fabs": _abs, "sign": core.sign_, "sqrt": core.sqrt_,
      "square": lambda x: x * x, "exp": core.exp_, "sin": core.sin_, "cos": core.cos_, "tan": core.tan_, "arcsin": core.asin_,
      "arccos": core.acos_, "arctan": core.atan_, "floor": core.floor_,
      "ceil": lambda x: x.__neg__() if False else (-core.floor_(-x) if is_sym(x) else _np.ceil(x)),
      "rint": lambda x: core.floor_(x + 0.5) if is_sym(x) else _np.rint(x),
      "isnan": core.isnan_, "isfinite": lambda x: True if is_sym(x) else bool(_np.isfinite(x)),
      "isinf": lambda x: False if is_sym(x) else bool(_np.isinf(x)), "conjugate": lambda x: x.conjugate(),
      "reciprocal": lambda x: 1.0 / x, "deg2rad": lambda x: x * (math.pi / 180), "radians": lambda x: x * (math.pi / 180),
      "rad2deg": lambda x: x * (180 / math.pi), "degrees": lambda x: x * (180 / math.pi), "logical_not": not_, "invert": not_, "log": _log,
      "trunc": lambda x: F(int(x)), "log10": _log}
U2 = {"add": _bin("add", _np.add), "subtract": _bin("sub", _np.subtract), "multiply": _bin("mul", _np.multiply),
      "divide": _bin("truediv", _np.true_divide), "true_divide": _bin("truediv", _np.true_divide),
      "floor_divide": _bin("floordiv", _np.floor_divide), "remainder": _bin("mod", _np.remainder), "mod": _bin("mod", _np.remainder),
      "power": _power, "float_power": _power, "arctan2": _arctan2, "hypot": _hypot,
      "maximum": max_, "minimum": min_, "fmax": max_, "fmin": min_,
      "greater": _bin("gt", _np.greater), "greater_equal": _bin("ge", _np.greater_equal), "less": _bin("lt", _np.less),
      "less_equal": _bin("le", _np.less_equal), "equal": _bin("eq", _np.equal), "not_equal": _bin("ne", _np.not_equal),
      "logical_and": and_, "logical_or": or_, "bitwise_and": and_, "bitwise_or": or_,
      "logical_xor": lambda a, b: _xor(a, b), "bitwise_xor": lambda a, b: _xor(a, b)}


def _xor(a, b):
    if not is_sym(a) and not is_sym(b): return bool(a) != bool(b)
    return core.mkbool(core.z3.Xor(core.zb(a), core.zb(b)))


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if any(isinstance(x, _xr.DataArray) for x in inputs) and method == "__call__":
        return xr_apply(lambda *a: ufunc_dispatch(ufunc, "__call__", a, {}), *inputs)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    if method == "__call__":
        if name == "matmul":
            r = np_dot(*inputs)
        elif len(inputs) == 1:
            if name not in U1: raise Unsupported("ufunc " + name)
            r = el1(U1[name], inputs[0])
        elif len(inputs) == 2:
            if name not in U2: raise Unsupported("ufunc " + name)
            if where is not True:
                return masked_call(U2[name], inputs, out, where)
            r = el2(U2[name], *inputs)
        else:
            if name == "clip": r = np_clip(*inputs)
            else: raise Unsupported("ufunc " + name)
        if out is not None:
            tgt = out[0] if isinstance(out, tuple) else out
            if isinstance(tgt, SymArray) or tgt.dtype == object:
                _np.ndarray.__setitem__(tgt, Ellipsis, plain(r) if isinstance(r, _np.ndarray) else r)
            elif not has_sym(r):
                tgt[...] = _np.array(r, dtype=tgt.dtype)
            else:
                raise Unsupported("symbolic result into a float array")
            return tgt
        return r
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        if name == "add": return np_sum(a, axis, keepdims=keep)
        if name == "maximum": return np_max(a, axis, keepdims=keep)
        if name == "minimum": return np_min(a, axis, keepdims=keep)
        if name == "logical_and": return np_all(a, axis)
        if name == "logical_or": return np_any(a, axis)
        if name == "multiply": return reduce_(a, axis, U2["multiply"], F(1.0), keep)
    if method == "accumulate" and name == "add":
        return np_cumsum(inputs[0], kw.get("axis", 0))
    if method == "outer":
        a, b = obj(inputs[0]), obj(inputs[1])
        return el2(U2[name], a.reshape(a.shape + (1,) * b.ndim), b)
    raise Unsupported("ufunc %s.%s" % (name, method))


def masked_call(f, inputs, out, where):
    a, b, w = _np.broadcast_arrays(obj(inputs[0]), obj(inputs[1]), obj(where))
    if out is not None:
        tgt = out[0] if isinstance(out, tuple) else out
        prev = obj(tgt)
    else:
        tgt, prev = None, uninit(a.shape)
    prev = _np.broadcast_to(prev, a.shape)
    res = _np.empty(a.shape, dtype=object)
    for ix in _np.ndindex(*a.shape):
        res[ix] = norm(f(a[ix], b[ix])) if bool(w[ix]) else norm(prev[ix])
    if tgt is not None:
        if isinstance(tgt, _np.ndarray) and tgt.dtype == object:
            _np.ndarray.__setitem__(tgt, Ellipsis, res)
            return tgt
        if not has_sym(res):
            tgt[...] = res.astype(float)
            return tgt
    return finish(res)


def uninit(shape):
    """uninitialised memory: arbitrary finite values"""
    c = core.ctx()
    o = _np.empty(shape, dtype=object)
    for ix in _np.ndindex(*o.shape): o[ix] = c.lazy_real("uninit")
    return o


def xr_apply(f, *args):
    das = [a for a in args if isinstance(a, _xr.DataArray)]
    if len(das) == 1 and not any(isinstance(a, _np.ndarray) and a.ndim > das[0].ndim for a in args):
        d = das[0]
        r = f(*[obj(a) if a is d else a for a in args])
        r = plain(r) if isinstance(r, _np.ndarray) else r
        if isinstance(r, _np.ndarray) and r.shape == d.shape:
            return d.copy(data=r)
        if d.ndim == 0:
            return d.copy(data=obj(r))
    return _xr.apply_ufunc(lambda *a: plain_res(f(*a)), *args)


def plain_res(r):
    return plain(r) if isinstance(r, _np.ndarray) else obj(r)


# ------------------------------------------------------------------ reductions
def _axes(a, axis):
    if axis is None: return tuple(range(a.ndim))
    if isinstance(axis, tuple): return tuple(x % a.ndim for x in axis)
    return (axis % a.ndim,)


def reduce_(a, axis, f, init, keepdims=False):
    o = obj(a)
    ax = _axes(o, axis)
    keep = [i for i in range(o.ndim) if i not in ax]
    t = o.transpose(keep + list(ax)).reshape([o.shape[i] for i in keep] + [-1])
    out = _np.empty(t.shape[:-1], dtype=object)
    for ix in _np.ndindex(*t.shape[:-1]):
        v = init
        first = True
        for x in t[ix]:
            v = x if (first and v is None) else f(v, x)
            first = False
        if v is None: raise ValueError("zero-size array to reduction operation")
        out[ix] = norm(v)
    if keepdims:
        out = out.reshape([1 if i in ax else o.shape[i] for i in range(o.ndim)])
    return finish(out)


def _addred(vs):
    pass


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, _xr.DataArray): return _np.sum(a, axis) if axis is not None else _np.sum(a)
    if isinstance(a, types.GeneratorType): a = list(a)
    o = obj(a)
    return reduce_(o, axis, U2["add"], F(0.0), keepdims)


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, _xr.DataArray):
        ax = axis
        r = a.sum(axis=ax) if ax is not None else a.sum()
        n = a.size if ax is None else _np.prod([a.shape[i] for i in _axes(a, ax)])
        return r / int(n)
    o = obj(a)
    n = 1
    for i in _axes(o, axis): n *= o.shape[i]
    return reduce_(o, axis, U2["add"], F(0.0), keepdims) / F(n)


def np_max(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, _xr.DataArray): a = a.data
    return reduce_(a, axis, max_, None, keepdims)


def np_min(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, _xr.DataArray): a = a.data
    return reduce_(a, axis, min_, None, keepdims)


def np_any(a, axis=None, **k):
    return reduce_(a, axis, or_, False)


def np_all(a, axis=None, **k):
    return reduce_(a, axis, and_, True)


def np_argmin(a, axis=None, **k):
    return _arg(a, axis, lambda x, y: x < y)


def np_argmax(a, axis=None, **k):
    return _arg(a, axis, lambda x, y: x > y)


def _arg(a, axis, lt):
    o = obj(a)
    if axis is None: o = o.reshape(-1); axis = 0
    o = _np.moveaxis(o, axis, -1)
    out = _np.empty(o.shape[:-1], dtype=int)
    for ix in _np.ndindex(*o.shape[:-1]):
        row = o[ix]
        if len(row) == 0: raise ValueError("attempt to get argmin of an empty sequence")
        best = 0
        if not _nan(row[0]):
            for i in range(1, len(row)):
                if _nan(row[i]): best = i; break
                if bool(lt(row[i], row[best])): best = i
        out[ix] = best
    return out if out.ndim else int(out)


def _nan(x):
    return (not is_sym(x)) and isinstance(x, (float, _np.floating)) and math.isnan(x)


def np_cumsum(a, axis=None, **k):
    o = obj(a)
    if axis is None: o = o.reshape(-1); axis = 0
    o = _np.moveaxis(o, axis, 0)
    out = _np.empty(o.shape, dtype=object)
    acc = None
    for i in range(o.shape[0]):
        acc = o[i] if acc is None else obj(el2(U2["add"], acc, o[i]))
        if isinstance(acc, _np.ndarray) and acc.ndim == 0: acc = acc[()]
        out[i] = acc
    return wrap(_np.moveaxis(out, 0, axis))


def np_nonzero(a):
    m = el1(lambda x: bool(x), a)
    return _np.nonzero(m)


def np_dot(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0: return el2(U2["multiply"], a, b)
    if b.ndim == 1:
        out = _np.empty(a.shape[:-1], dtype=object)
        if a.shape[-1] != b.shape[0]: raise ValueError("shapes not aligned")
        for ix in _np.ndindex(*a.shape[:-1]): out[ix] = _ip(a[ix], b)
        return finish(out)
    if a.ndim == 1:
        if a.shape[0] != b.shape[-2]: raise ValueError("shapes not aligned")
        out = _np.empty(b.shape[:-2] + b.shape[-1:], dtype=object)
        for ix in _np.ndindex(*out.shape): out[ix] = _ip(a, b[ix[:-1] + (slice(None), ix[-1])])
        return finish(out)
    if a.ndim == 2 and b.ndim == 2:
        if a.shape[1] != b.shape[0]: raise ValueError("shapes not aligned")
        out = _np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]): out[i, j] = _ip(a[i], b[:, j])
        return finish(out)
    raise Unsupported("dot of ndim %d,%d" % (a.ndim, b.ndim))


def _ip(u, v):
    s = F(0.0)
    m, ad = U2["multiply"], U2["add"]
    for x, y in zip(u, v):
        if not is_sym(x) and x == 0 and (is_sym(y) or _np.isfinite(y)): continue
        if not is_sym(y) and y == 0 and (is_sym(x) or _np.isfinite(x)): continue
        s = ad(s, m(x, y))
    return norm(s)


def np_clip(a, lo=None, hi=None, **k):
    r = a
    if lo is not None: r = el2(max_, r, lo)
    if hi is not None: r = el2(min_, r, hi)
    return r


def np_sort(a, axis=-1, **k):
    import functools
    o = obj(a).copy()
    o = _np.moveaxis(o, axis, -1)
    cmp = functools.cmp_to_key(lambda x, y: -1 if bool(x < y) else (1 if bool(x > y) else 0))
    for ix in _np.ndindex(*o.shape[:-1]):
        o[ix] = sorted(list(o[ix]), key=cmp)
    return wrap(_np.moveaxis(o, -1, axis))


def np_argsort(a, axis=-1, **k):
    import functools
    o = obj(a)
    if o.ndim != 1: raise Unsupported("argsort nd")
    cmp = functools.cmp_to_key(lambda i, j: -1 if bool(o[i] < o[j]) else (1 if bool(o[i] > o[j]) else i - j))
    return _np.array(sorted(range(len(o)), key=cmp), dtype=int)


# ------------------------------------------------------------------ functions
def np_where(cond, x=None, y=None):
    if x is None and y is None:
        if isinstance(cond, _xr.DataArray): cond = cond.data
        return np_nonzero(cond)
    if any(isinstance(v, _xr.DataArray) for v in (cond, x, y)):
        return xr_apply(lambda c, a, b: np_where(c, a, b), cond, x, y)
    c, a, b = _np.broadcast_arrays(obj(cond), obj(x), obj(y))
    out = _np.empty(c.shape, dtype=object)
    for ix in _np.ndindex(*c.shape): out[ix] = norm(ite(c[ix], a[ix], b[ix]))
    return finish(out)


def np_digitize(x, bins, right=False):
    """index of the bin of x: forks on the position"""
    if isinstance(x, _xr.DataArray): x = x.data
    if isinstance(bins, _xr.DataArray): bins = bins.data
    if not has_sym(x) and not has_sym(bins):
        xx = x.astype(float) if isinstance(x, _np.ndarray) and x.dtype == object else x
        bb = bins.astype(float) if isinstance(bins, SymArray) and False else _np.array([float(b) for b in obj(bins)])
        if isinstance(xx, SymArray): xx = _np.array([float(v) for v in xx.ravel()]).reshape(xx.shape)
        return _np.digitize(xx, bb, right=right)
    b = list(obj(bins))
    inc = True
    if len(b) > 1:
        inc = bool(b[0] <= b[-1]) if not (is_sym(b[0]) or is_sym(b[-1])) else bool(b[0] <= b[-1])

    def one(v):
        if _nan(v): return len(b)
        # increasing: number of edges e with e <= v (right False) or e < v (right True)
        lo, hi = 0, len(b)
        if inc:
            test = (lambda e: v > e) if right else (lambda e: v >= e)
        else:
            test = (lambda e: v <= e) if right else (lambda e: v < e)
        while lo < hi:
            mid = (lo + hi) // 2
            if bool(test(b[mid])): lo = mid + 1
            else: hi = mid
        return lo
    o = obj(x)
    out = _np.empty(o.shape, dtype=int)
    for ix in _np.ndindex(*o.shape): out[ix] = one(o[ix])
    return out if out.ndim else _np.int64(int(out))


def np_searchsorted(a, v, side="left", **k):
    return np_digitize(v, a, right=(side == "left"))


def np_linspace(a, b, num=50, endpoint=True, retstep=False, **k):
    num = int(num)
    if not has_sym(a) and not has_sym(b):
        return _np.linspace(a, b, num, endpoint=endpoint, retstep=retstep)
    if _np.ndim(obj(a)) or _np.ndim(obj(b)): raise Unsupported("linspace of arrays")
    n = num - 1 if endpoint else num
    out = _np.empty(num, dtype=object)
    for i in range(num):
        if i == 0: out[i] = norm(a)
        elif endpoint and i == num - 1: out[i] = norm(b)
        else: out[i] = norm(a + (b - a) * i / n)
    step = (b - a) / n if n else F("nan")
    return (wrap(out), step) if retstep else wrap(out)


def np_arange(*a, **k):
    if not any(is_sym(x) for x in a): return _np.arange(*a, **k)
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: (lo, hi), st = a, 1
    else: lo, hi, st = a
    n = -core.floor_(-((hi - lo) / st)) if is_sym((hi - lo) / st) else math.ceil((hi - lo) / st)
    n = max(int(n), 0)
    out = _np.empty(n, dtype=object)
    for i in range(n): out[i] = norm(lo + i * st)
    return wrap(out)


def _mk(val):
    def f(shape, dtype=None, *a, **k):
        if is_sym(shape): shape = shape.__index__()
        elif isinstance(shape, (tuple, list)): shape = tuple(s.__index__() if is_sym(s) else int(s) for s in shape)
        if dtype in (int, bool, "int", "bool") or (dtype is not None and dtype is not object and _np.dtype(dtype).kind in "iubSU"):
            return _np.full(shape, val, dtype=dtype)
        o = _np.empty(shape, dtype=object)
        o.fill(F(val) if dtype is not complex else complex(val))
        return wrap(o)
    return f


def np_empty(shape, dtype=None, *a, **k):
    """uninitialised: every element is an arbitrary number unless written"""
    if isinstance(dtype, type) and dtype is object: return wrap(_np.empty(shape, dtype=object))
    if dtype in (int, bool) or (dtype is not None and dtype not in (float, complex) and _np.dtype(dtype).kind in "iubSU"):
        return _np.zeros(shape, dtype=dtype)
    if isinstance(shape, (tuple, list)): shape = tuple(int(s) for s in shape)
    else: shape = (int(shape),)
    n = 1
    for s in shape: n *= s
    if n > 20000: raise Unsupported("large np.empty")
    return wrap(uninit(shape))


def np_full(shape, v, dtype=None, **k):
    o = _np.empty(shape, dtype=object)
    vv = obj(v)
    o[...] = vv if vv.ndim else vv[()]
    return wrap(o)


def np_zeros_like(a, dtype=None, **k):
    if isinstance(a, _xr.DataArray): return _xr.zeros_like(a) if not has_sym(a) else a * 0
    return _mk(0.0)(_np.shape(a), dtype)


def np_ones_like(a, dtype=None, **k):
    return _mk(1.0)(_np.shape(a), dtype)


def np_empty_like(a, dtype=None, **k):
    return np_empty(_np.shape(a), dtype)


def np_norm(x, ord=None, axis=None, keepdims=False):
    o = obj(x)
    sq = el1(lambda v: (v.abs2() if isinstance(v, SymComplex) else abs(v) ** 2 if not is_sym(v) else v * v), o)
    return el1(core.sqrt_, np_sum(sq, axis, keepdims=keepdims))


def np_det(m):
    m = obj(m)
    if m.ndim > 2:
        out = _np.empty(m.shape[:-2], dtype=object)
        for ix in _np.ndindex(*m.shape[:-2]): out[ix] = np_det(m[ix])
        return wrap(out)
    n = m.shape[0]
    if n == 1: return m[0, 0]
    if n == 2: return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    s = F(0.0)
    for j in range(n):
        minor = _np.array([[m[i, k] for k in range(n) if k != j] for i in range(1, n)], dtype=object)
        t = m[0, j] * np_det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


def np_cross(a, b, axis=-1, **k):
    a, b = obj(a), obj(b)
    A, B = _np.broadcast_arrays(a, b)
    if A.shape[-1] != 3: raise Unsupported("cross of %s" % (A.shape,))
    M, S = U2["multiply"], U2["subtract"]
    out = _np.empty(A.shape, dtype=object)
    for ix in _np.ndindex(*A.shape[:-1]):
        x, y = A[ix], B[ix]
        out[ix + (0,)] = norm(S(M(x[1], y[2]), M(x[2], y[1])))
        out[ix + (1,)] = norm(S(M(x[2], y[0]), M(x[0], y[2])))
        out[ix + (2,)] = norm(S(M(x[0], y[1]), M(x[1], y[0])))
    return wrap(out)


def np_trapz(y, x=None, dx=1.0, axis=-1):
    if isinstance(y, _xr.DataArray): y = y.data
    o = _np.moveaxis(obj(y), axis, -1)
    n = o.shape[-1]
    if x is not None:
        xv = obj(x)
        d = [U2["subtract"](xv[i + 1], xv[i]) for i in range(n - 1)]
    else:
        dv = obj(dx)
        d = [dv[()] if dv.ndim == 0 else dv[i] for i in range(n - 1)]
    out = _np.empty(o.shape[:-1], dtype=object)
    for ix in _np.ndindex(*o.shape[:-1]):
        s = F(0.0)
        for i in range(n - 1):
            s = U2["add"](s, U2["multiply"](d[i], U2["add"](o[ix + (i,)], o[ix + (i + 1,)]) / 2.0))
        out[ix] = norm(s)
    return finish(out)


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not has_sym(a):
        o = obj(a)
        v = _np.array([x for x in o.ravel()])
        return _np.unique(v.reshape(o.shape), return_index=return_index, return_inverse=return_inverse,
                          return_counts=return_counts, axis=axis)
    if axis is not None: raise Unsupported("unique along an axis")
    o = list(obj(a).ravel())
    order = np_argsort(_np.array(o + [None], dtype=object)[:-1])
    vals, idx, inv, cnt = [], [], [0] * len(o), []
    for i in order:
        if vals and bool(o[i] == vals[-1]):
            cnt[-1] += 1
        else:
            vals.append(o[i]); idx.append(i); cnt.append(1)
        inv[i] = len(vals) - 1
    out = _np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals): out[i] = norm(v)
    res = [wrap(out)]
    if return_index: res.append(_np.array(idx, dtype=int))
    if return_inverse: res.append(_np.array(inv, dtype=int))
    if return_counts: res.append(_np.array(cnt, dtype=int))
    return tuple(res) if len(res) > 1 else res[0]


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return el2(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)


def np_nan_to_num(a, nan=0.0, **k):
    return el1(lambda x: x if is_sym(x) else _np.nan_to_num(x, nan=nan), a)


def np_tile(a, reps):
    return wrap(_np.tile(plain(a) if isinstance(a, _np.ndarray) else arr(a), reps))


def np_flip(a, axis=None):
    if isinstance(a, _xr.DataArray):
        ax = range(a.ndim) if axis is None else ([axis] if isinstance(axis, int) else axis)
        ix = [slice(None)] * a.ndim
        for x in ax: ix[x] = slice(None, None, -1)
        return a[tuple(ix)]
    return wrap(_np.flip(plain(a) if isinstance(a, _np.ndarray) else arr(a), axis))


def np_insert(a, ix, v, axis=None):
    if not has_sym(a) and not has_sym(v) and not isinstance(a, SymArray): return _np.insert(a, ix, v, axis)
    o = obj(a)
    vv = obj(v)
    return wrap(_np.insert(o, ix, vv if vv.ndim else vv[()], axis))


def np_diff(a, n=1, axis=-1, **k):
    if not has_sym(a) and not isinstance(a, SymArray): return _np.diff(a, n, axis)
    o = _np.moveaxis(obj(a), axis, -1)
    r = el2(U2["subtract"], o[..., 1:], o[..., :-1])
    return wrap(_np.moveaxis(r, -1, axis)) if isinstance(r, _np.ndarray) else r


def np_real(x):
    if isinstance(x, _xr.DataArray): return xr_apply(np_real, x)
    if is_sym(x): return core.parts(x)[0]
    if not isinstance(x, (SymArray, list, tuple)) and not (isinstance(x, _np.ndarray) and x.dtype == object): return _np.real(x)
    return el1(lambda v: core.parts(v)[0] if is_sym(v) else _np.real(v), x)


def np_imag(x):
    if isinstance(x, _xr.DataArray): return xr_apply(np_imag, x)
    if is_sym(x): return core.parts(x)[1]
    if not isinstance(x, (SymArray, list, tuple)) and not (isinstance(x, _np.ndarray) and x.dtype == object): return _np.imag(x)
    return el1(lambda v: core.parts(v)[1] if is_sym(v) else _np.imag(v), x)


def np_round(x, n=0, **k):
    return el1(lambda v: core.round_(v, n), x)


def np_array_equal(a, b, **k):
    a, b = obj(a), obj(b)
    if a.shape != b.shape: return False
    return np_all(el2(U2["equal"], a, b))


def np_average(a, axis=None, weights=None, **k):
    if weights is None: return np_mean(a, axis)
    o, w = obj(a), obj(weights)
    if axis is not None and w.ndim == 1 and o.ndim > 1:
        shp = [1] * o.ndim; shp[axis] = -1
        w = w.reshape(shp)
    w = _np.broadcast_to(w, o.shape)
    return el2(U2["divide"], np_sum(el2(U2["multiply"], o, w), axis), np_sum(w, axis))


def np_median(*a, **k):
    raise Unsupported("median")


def np_diag(a, k=0):
    o = obj(a)
    if o.ndim == 1:
        n = len(o) + abs(k)
        out = _np.empty((n, n), dtype=object); out.fill(F(0.0))
        for i, v in enumerate(o): out[(i, i + k) if k >= 0 else (i - k, i)] = v
        return wrap(out)
    return wrap(_np.diag(o, k))


def np_isin(a, b, **k):
    ol = list(obj(b).ravel())
    return el1(lambda x: or_(*[x == y for y in ol]) if ol else False, a)


def np_interp(x, xp, fp, **k):
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)): return _np.interp(x, xp, fp, **k)
    X, Y = list(obj(xp)), list(obj(fp))

    def one(v):
        r = Y[-1]
        for i in range(len(X) - 2, -1, -1):
            seg = Y[i] + (Y[i + 1] - Y[i]) * ((v - X[i]) / (X[i + 1] - X[i]))
            r = ite(v <= X[i + 1], seg, r)
        return ite(v <= X[0], Y[0], r)
    return el1(one, x)


def np_einsum(*a, **k):
    raise Unsupported("einsum")


FUN = {"where": np_where, "digitize": np_digitize, "searchsorted": np_searchsorted, "linspace": np_linspace, "arange": np_arange,
       "zeros": _mk(0.0), "ones": _mk(1.0), "empty": np_empty, "full": np_full, "zeros_like": np_zeros_like,
       "ones_like": np_ones_like, "empty_like": np_empty_like, "sum": np_sum, "nansum": np_sum, "mean": np_mean, "max": np_max, "amax": np_max,
       "min": np_min, "amin": np_min, "any": np_any, "all": np_all, "argmin": np_argmin, "argmax": np_argmax, "nanargmin": np_argmin,
       "cumsum": np_cumsum, "nonzero": np_nonzero, "dot": np_dot, "matmul": np_dot, "inner": np_dot, "vdot": np_dot, "clip": np_clip, "sort": np_sort,
       "argsort": np_argsort, "cross": np_cross, "trapz": np_trapz, "trapezoid": np_trapz, "unique": np_unique, "isclose": np_isclose,
       "nan_to_num": np_nan_to_num, "tile": np_tile, "flip": np_flip, "insert": np_insert, "diff": np_diff, "real": np_real, "imag": np_imag,
       "round": np_round, "around": np_round, "array_equal": np_array_equal, "average": np_average, "diag": np_diag, "isin": np_isin,
       "in1d": np_isin, "interp": np_interp, "median": np_median, "einsum": np_einsum, "array": lambda x, dtype=None, *a, **k: np_array(x, dtype),
       "asarray": lambda x, dtype=None, *a, **k: np_asarray(x, dtype), "asanyarray": lambda x, dtype=None, *a, **k: np_asarray(x, dtype),
       "prod": lambda a, axis=None, **k: reduce_(a, axis, U2["multiply"], F(1.0)),
       "abs": lambda x, *a, **k: call_ufunc(_np.absolute, (x,) + a, k),
       "outer": lambda a, b: el2(U2["multiply"], obj(a).reshape(-1, 1), obj(b).reshape(1, -1)),
       "count_nonzero": lambda a, axis=None, **k: np_sum(el1(lambda x: 1 if bool(x) else 0, a), axis),
       "allclose": lambda a, b, rtol=1e-5, atol=1e-8, **k: bool(np_all(np_isclose(a, b, rtol, atol))),
       "isreal": lambda a: el1(lambda x: not isinstance(x, SymComplex), a),
       "copy": lambda a, **k: a.copy() if isinstance(a, _np.ndarray) else arr(a)}

# functions whose results are ordinary numpy when nothing symbolic and nothing object-typed goes in
LAZY = {"where", "digitize", "searchsorted", "sum", "nansum", "mean", "max", "amax", "min", "amin", "any", "all", "argmin", "argmax", "nanargmin", "cumsum",
        "nonzero", "dot", "matmul", "inner", "vdot", "clip", "sort", "argsort", "cross", "trapz", "trapezoid", "unique", "isclose", "nan_to_num", "tile",
        "flip", "insert", "diff", "real", "imag", "round", "around", "array_equal", "average", "isin", "in1d", "interp", "median",
        "einsum", "prod", "abs", "outer", "count_nonzero", "allclose", "isreal", "copy", "zeros_like_", "diag"}


def np_array(x, dtype=None):
    if dtype is not None and dtype not in (object, float, complex):
        r = arr(x)
        if isinstance(r, SymArray): return r.astype(dtype)
        return _np.array(r, dtype=dtype)
    return arr(x, dtype if dtype is not object else None)


def np_asarray(x, dtype=None):
    if isinstance(x, _np.ndarray) and (dtype is None or x.dtype == object): return wrap(x)
    return np_array(x, dtype)


def touches(x, depth=0):
    if is_sym(x): return True
    if isinstance(x, SymArray): return True
    if isinstance(x, _np.ndarray): return x.dtype == object
    if isinstance(x, _xr.DataArray): return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 4: return any(touches(e, depth + 1) for e in x)
    return False


def call_ufunc(u, a, k):
    if u is _np.divide or "where" in k:
        # keep uninitialised-memory semantics even for concrete data
        if "where" in k and k.get("out") is None:
            k = dict(k); k.pop("out", None)
            w = k.pop("where")
            return masked_call(U2[u.__name__], a, None, w)
    if any(touches(x) for x in a) or any(touches(x) for x in k.values()):
        k = dict(k); k.pop("dtype", None); k.pop("casting", None)
        return ufunc_dispatch(u, "__call__", a, k)
    return u(*a, **k)


class UfuncProxy:
    def __init__(self, u): self.u = u; self.__name__ = u.__name__
    def __call__(self, *a, **k): return call_ufunc(self.u, a, k)
    def __getattr__(self, n):
        m = getattr(self.u, n)
        if n in ("reduce", "accumulate", "outer"):
            def f(*a, **k):
                if any(touches(x) for x in a): return ufunc_dispatch(self.u, n, a, k)
                return m(*a, **k)
            return f
        return m


def strip(x):
    if isinstance(x, SymArray): return plain(x)
    if isinstance(x, list): return [strip(e) for e in x]
    if isinstance(x, tuple): return tuple(strip(e) for e in x)
    if is_sym(x): return obj(x)
    return x


class Linalg:
    def __getattr__(self, n):
        if n == "norm": return lambda x, ord=None, axis=None, keepdims=False: np_norm(x, ord, axis, keepdims) if touches(x) else _np.linalg.norm(x, ord, axis, keepdims)
        if n == "det": return lambda m: np_det(m) if touches(m) else _np.linalg.det(m)

        def f(*a, **k):
            if any(touches(x) for x in a): raise Unsupported("linalg." + n)
            return getattr(_np.linalg, n)(*a, **k)
        return f


class Random:
    """numpy.random: every draw is an arbitrary value of its range"""
    def _u(self, lo=0.0, hi=1.0):
        c = core.ctx()
        v = c.rand()
        if isconc_real(lo) and isconc_real(hi) and lo == 0 and hi == 1: return v
        return lo + v * (hi - lo)

    def _arr(self, shape, lo=0.0, hi=1.0):
        if shape is None or shape == (): return self._u(lo, hi)
        if not isinstance(shape, (tuple, list)): shape = (shape,)
        o = _np.empty(tuple(int(s) for s in shape), dtype=object)
        for ix in _np.ndindex(*o.shape): o[ix] = self._u(lo, hi)
        return wrap(o)

    def rand(self, *shape): return self._arr(shape)
    def random(self, size=None): return self._arr(size)
    random_sample = random
    ranf = random
    sample = random
    def uniform(self, low=0.0, high=1.0, size=None): return self._arr(size, low, high)
    def seed(self, *a): pass

    def choice(self, a, size=None, replace=True, p=None):
        c = core.ctx()
        vals = list(range(a)) if isinstance(a, int) else list(obj(a))
        if size is not None: raise Unsupported("choice with size")
        k = c.pick(c.freshname("choice"), len(vals))
        return vals[k]

    def __getattr__(self, n): raise Unsupported("numpy.random." + n)


class _Math:
    pi = math.pi
    inf = math.inf
    nan = math.nan
    e = math.e

    def __init__(self, real): self._r = real

    def __getattr__(self, n):
        t = {"sin": core.sin_, "cos": core.cos_, "tan": core.tan_, "asin": core.asin_, "acos": core.acos_, "atan": core.atan_,
             "atan2": core.atan2_, "exp": core.exp_, "floor": lambda x: x.__floor__() if is_sym(x) else math.floor(x),
             "ceil": lambda x: x.__ceil__() if is_sym(x) else math.ceil(x), "fabs": abs, "hypot": _hypot, "radians": U1["radians"],
             "degrees": U1["degrees"], "isnan": core.isnan_, "pow": lambda a, b: a ** b,
             "sqrt": core.csqrt_math if self._r.__name__ == "cmath" else core.sqrt_, "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0:
             abs(a - b) <= max_(rel_tol * max_(abs(a), abs(b)), abs_tol), "fmod": lambda a, b: _fmod(a, b), "phase": _phase}.get(n)
        r = getattr(self._r, n)
        if t is None:
            return r

        def f(*a, **k):
            a = tuple(x.item() if isinstance(x, _np.ndarray) and x.ndim == 0 else x for x in a)
            if any(is_sym(x) for x in a): return t(*a, **k)
            return r(*a, **k)
        f.__name__ = n
        return f


def _phase(z):
    a, b = core.parts(z)
    return core.atan2_(b, a)


def _fmod(a, b):
    q = (a / b).__int__() if is_sym(a / b) else int(a / b)
    return a - b * q


class SymNP(types.ModuleType):
    """what the rayflare modules see under the name of numpy"""

    def __init__(self):
        super().__init__("numpy")
        self.__dict__["linalg"] = Linalg()
        self.__dict__["random"] = Random()
        self.__dict__["math"] = _Math(math)
        self.__dict__["_memo"] = {}

    def __getattr__(self, n):
        m = self._memo
        if n in m: return m[n]
        m[n] = r = wrap_numpy(n)
        return r


def wrap_numpy(n):
    real = getattr(_np, n)
    if n in FUN:
        f = FUN[n]
        if n in LAZY:
            def g(*a, **k):
                if any(touches(x) for x in a) or any(touches(x) for x in k.values()):
                    return f(*a, **k)
                return real(*a, **k)
            g.__name__ = n
            return g
        return f
    if isinstance(real, _np.ufunc):
        return UfuncProxy(real)
    if isinstance(real, type) or isinstance(real, types.ModuleType) or not callable(real):
        return real

    def h(*a, **k):
        if any(touches(x) for x in a) or any(touches(x) for x in k.values()):
            r = real(*[_obj_arg(x) for x in a], **{kk: _obj_arg(v) for kk, v in k.items()})
        else:
            r = real(*a, **k)
        if isinstance(r, (list, tuple)): return type(r)(wrap(x) for x in r)
        return wrap(r)
    h.__name__ = n
    return h


def _obj_arg(x):
    if isinstance(x, (list, tuple)) and _deep_sym(x):
        # list of arrays (concatenate, stack, ...): make every member an object array
        if any(isinstance(e, (_np.ndarray, list, tuple)) for e in x):
            return type(x)(obj(e) if isinstance(e, (_np.ndarray, list, tuple)) or is_sym(e) else e for e in x)
        return obj(x)
    if isinstance(x, SymArray): return plain(x)
    if is_sym(x): return obj(x)
    if isinstance(x, _xr.DataArray) and x.dtype == object: return x.data
    return x
