"""Symbolic values and the path explorer.

A *context* (SymCtx) is live during one execution of a harness.  SymReal / SymBool / SymComplex wrap Z3 terms
over exact reals; a branch on a SymBool is decided by Z3 and both feasible sides are explored by re-execution.
"""
import sys, math, time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:                                   # the repo's venv has no solver bindings
    sys.path.append(_VT)
    import z3
import numpy as _np

PI = math.pi
INF = float("inf")


class PathAbort(BaseException):
    """current path is infeasible / cut (not an error)"""


class Unsupported(Exception):
    """the encoding cannot represent what the code asked for"""


class BudgetExceeded(BaseException):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside a context")
    return CTX


# ------------------------------------------------------------------ literals
_lit = {}


def lit(x):
    """z3 numeral for a concrete finite number (floats exactly)"""
    if isinstance(x, (bool, _np.bool_)):
        x = int(x)
    k = (type(x), x)
    r = _lit.get(k)
    if r is None:
        if isinstance(x, (int, _np.integer)):
            r = z3.RealVal(int(x))
        else:
            f = Fraction(float(x))
            r = z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
        _lit[k] = r
    return r


def is_sym(x):
    return isinstance(x, (SymReal, SymBool, SymComplex))


def is_num(x):
    return isinstance(x, (int, float, complex, _np.number, _np.bool_, bool))


def zr(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, SymComplex):
        raise Unsupported("complex where real expected")
    if isinstance(x, (complex, _np.complexfloating)):
        if x.imag != 0:
            raise Unsupported("complex where real expected")
        x = x.real
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return zr(x.item())
    if isinstance(x, (float, _np.floating)) and not math.isfinite(x):
        raise Unsupported("non-finite value in exact arithmetic")
    return lit(x)


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymReal):
        return x.e != 0
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return zb(x.item())
    return z3.BoolVal(bool(x))


def isconc_real(x):
    return isinstance(x, (int, float, _np.integer, _np.floating, bool, _np.bool_))


def _nonfin(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


def _cplx(x):
    return isinstance(x, SymComplex) or isinstance(x, (complex, _np.complexfloating))


# ------------------------------------------------------------------ numpy hooks (shared)
class SymBase:
    __slots__ = ()
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.ufunc_dispatch(ufunc, method, inputs, kw)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def item(self, *a):
        return self

    def copy(self):
        return self

    def flatten(self):
        from . import npshim
        return npshim.arr([self])

    def astype(self, t, *a, **k):
        if t in (float, "float", _np.float64, object):
            return self
        if t in (int, "int", _np.int64):
            return int(self)
        if t in (bool,):
            return SymBool(self.e != 0) if isinstance(self, SymReal) else self
        return self

    def tolist(self):
        return self

    def squeeze(self, *a):
        return self


class Angle:
    """an angle known through its sine and cosine"""
    __slots__ = ("e", "s", "c", "lo", "hi", "consts")

    def __init__(self, e, s, c, lo, hi):
        self.e, self.s, self.c, self.lo, self.hi = e, s, c, lo, hi


class SymBool(SymBase):
    __slots__ = ("e",)
    dtype = _np.dtype(object)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __hash__(self):
        return hash(self.e)

    def __and__(self, o):
        if _isarr(o): return NotImplemented
        return mkbool(z3.And(self.e, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        if _isarr(o): return NotImplemented
        return mkbool(z3.Or(self.e, zb(o)))
    __ror__ = __or__

    def __xor__(self, o):
        if _isarr(o): return NotImplemented
        return mkbool(z3.Xor(self.e, zb(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def _r(self):
        return SymReal(zr(self))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return mkbool(self.e == zb(o))
        return self._r() == o

    def __ne__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return mkbool(z3.Xor(self.e, zb(o)))
        return self._r() != o

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o): return self._r() + o
    def __radd__(self, o): return o + self._r()
    def __sub__(self, o): return self._r() - o
    def __rsub__(self, o): return o - self._r()
    def __mul__(self, o):
        if isinstance(o, SymReal):
            return SymReal(z3.If(self.e, o.e, z3.RealVal(0)))
        return self._r() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self._r() / o
    def __rtruediv__(self, o): return o / self._r()
    def __lt__(self, o): return self._r() < o
    def __le__(self, o): return self._r() <= o
    def __gt__(self, o): return self._r() > o
    def __ge__(self, o): return self._r() >= o
    def __neg__(self): return -self._r()
    def __abs__(self): return self._r()
    def __pow__(self, n): return self._r() ** n

    real = property(lambda self: self)
    imag = property(lambda self: 0.0)

    def __repr__(self):
        return "SymBool(%s)" % _short(self.e)


def _short(e):
    s = str(e)
    return s if len(s) < 120 else s[:117] + "..."


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkreal(e):
    if z3.is_rational_value(e):
        n, d = e.numerator_as_long(), e.denominator_as_long()
        if d & (d - 1) == 0: return n / d
    return SymReal(e)


def _isarr(x):
    return isinstance(x, _np.ndarray) or type(x).__name__ in ("DataArray", "Variable")


class SymReal(SymBase):
    __slots__ = ("e", "sq", "ang", "absof", "nn")
    dtype = _np.dtype(object)

    def __init__(self, e, sq=None, ang=None, absof=None, nn=False):
        self.e = e
        self.sq = sq        # known square (exact) of this value, as python number or SymReal
        self.ang = ang      # (Angle, sign, offset)
        self.absof = absof
        self.nn = nn        # known non-negative

    def __hash__(self):
        return hash(self.e)

    # ---- arithmetic
    def __neg__(self):
        a = self.ang
        return SymReal(-self.e, sq=self.sq, ang=None if a is None else (a[0], -a[1], -a[2]))

    def __pos__(self):
        return self

    def __add__(self, o):
        if _isarr(o): return NotImplemented
        if _cplx(o): return tocplx(self) + o
        if isconc_real(o):
            if o == 0: return self
            if _nonfin(o): return o
            a = self.ang
            return SymReal(self.e + zr(o), ang=None if a is None else (a[0], a[1], a[2] + float(o)))
        if isinstance(o, (SymReal, SymBool)):
            if isinstance(o, SymReal) and o.ang is not None and self.ang is not None:
                r = _ang_combine(self, o, 1)
                if r is not None: return r
            return mkreal(z3.simplify(self.e + zr(o)))
        return NotImplemented
    def __radd__(self, o): return self.__add__(o)

    def __sub__(self, o):
        if _isarr(o): return NotImplemented
        if _cplx(o): return tocplx(self) - o
        if isconc_real(o):
            if o == 0: return self
            if _nonfin(o): return -o
            return self.__add__(-o)
        if isinstance(o, (SymReal, SymBool)):
            if o is self: return 0.0
            if isinstance(o, SymReal) and o.ang is not None and self.ang is not None:
                r = _ang_combine(self, o, -1)
                if r is not None: return r
            return mkreal(z3.simplify(self.e - zr(o)))
        return NotImplemented

    def __rsub__(self, o):
        if _isarr(o): return NotImplemented
        if isconc_real(o):
            if _nonfin(o): return o
            return (-self).__add__(o)
        return (-self).__add__(o)

    def __mul__(self, o):
        if _isarr(o): return NotImplemented
        if _cplx(o): return tocplx(self) * o
        if isconc_real(o):
            if _nonfin(o):
                if math.isnan(o): return o
                if self > 0: return o
                if self < 0: return -o
                return float("nan")
            if o == 0: return 0.0
            if o == 1: return self
            if o == -1: return -self
            sq = None if self.sq is None else self.sq * (Fraction_f(o) ** 2)
            return SymReal(self.e * zr(o), nn=self.nn and o > 0)
        if isinstance(o, SymBool):
            return SymReal(z3.If(o.e, self.e, z3.RealVal(0)))
        if isinstance(o, SymReal):
            if o is self or z3.eq(o.e, self.e):
                if self.sq is not None: return self.sq
                return SymReal(self.e * self.e, nn=True)
            return SymReal(self.e * o.e, nn=self.nn and o.nn)
        return NotImplemented
    def __rmul__(self, o): return self.__mul__(o)

    def __truediv__(self, o):
        if _isarr(o): return NotImplemented
        if _cplx(o): return tocplx(self) / o
        if isconc_real(o):
            if _nonfin(o):
                return float("nan") if math.isnan(o) else 0.0
            if o == 0:
                if self > 0: return INF
                if self < 0: return -INF
                return float("nan")
            if o == 1: return self
            f = Fraction(1) / Fraction(float(o))
            return SymReal(self.e * z3.Q(f.numerator, f.denominator), nn=self.nn and o > 0)
        if isinstance(o, (SymReal, SymBool)):
            return _div(self, o)
        return NotImplemented

    def __rtruediv__(self, o):
        if _isarr(o): return NotImplemented
        if _cplx(o): return o / tocplx(self)
        if _nonfin(o):
            return o * self
        return _div(o, self)

    def __pow__(self, n):
        if is_sym(n):
            raise Unsupported("symbolic exponent")
        if n == 2: return self * self
        if n == 1: return self
        if n == 0: return 1.0
        if n == 0.5: return sqrt_(self)
        if n == -1: return 1.0 / self
        if float(n).is_integer():
            n = int(n)
            r = self
            for _ in range(abs(n) - 1):
                r = r * self
            return r if n > 0 else 1.0 / r
        raise Unsupported("power %r" % n)

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        if self.nn: return self
        if self.ang is not None and self.ang[0].lo is not None:     # sign known from the angle's range
            A, s, o = self.ang
            lo, hi = sorted((s * A.lo + o, s * A.hi + o))
            if lo >= 0: return self
            if hi <= 0: return -self
        return SymReal(z3.If(self.e >= 0, self.e, -self.e), sq=self.sq, absof=self, nn=True)

    def __floordiv__(self, o):
        return floor_(self / o)
    def __rfloordiv__(self, o):
        return floor_(o / self)

    def __mod__(self, o):
        if _isarr(o): return NotImplemented
        q = floordiv_int(self, o)
        return self - o * q if is_sym(o) else self - float(o) * q
    def __rmod__(self, o):
        q = floordiv_int(o, self)
        return o - self * q

    def __divmod__(self, o):
        return self // o, self % o

    # ---- comparisons
    def _cmp(self, o, op):
        if _isarr(o): return NotImplemented
        if isinstance(o, (complex, _np.complexfloating)) and o.imag == 0:
            o = o.real
        if _nonfin(o):
            if math.isnan(o): return op == "ne"
            return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0, "eq": False, "ne": True}[op]
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return op == "ne" if op in ("eq", "ne") else NotImplemented
        if not (isconc_real(o) or isinstance(o, (SymReal, SymBool))):
            return NotImplemented
        _cmp_lemma(self, o)
        b = zr(o)
        a = self.e
        e = (a < b if op == "lt" else a <= b if op == "le" else a > b if op == "gt" else
             a >= b if op == "ge" else a == b if op == "eq" else a != b)
        return mkbool(e)

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")

    def __bool__(self):
        return bool(self != 0)

    # ---- integer conversions (fork on the value)
    def __int__(self):
        return ctx().concretise_floor(self.e, trunc=True)
    __trunc__ = __int__

    def __index__(self):
        v = ctx().concretise_floor(self.e)
        return v

    def __floor__(self): return ctx().concretise_floor(self.e)
    def __ceil__(self): return -ctx().concretise_floor(-self.e)
    def __round__(self, n=None):
        if n in (None, 0):
            return ctx().concretise_floor(self.e + lit(0.5))
        return round_(self, n)

    def is_integer(self):
        return False

    # numpy-like
    real = property(lambda self: self)
    imag = property(lambda self: 0.0)
    T = property(lambda self: self)
    def conjugate(self): return self
    conj = conjugate
    def sin(self): return sin_(self)
    def cos(self): return cos_(self)
    def tan(self): return tan_(self)
    def exp(self): return exp_(self)
    def sqrt(self): return sqrt_(self)
    def arcsin(self): return asin_(self)
    def arccos(self): return acos_(self)
    def arctan(self): return atan_(self)
    def floor(self): return floor_(self)
    def ceil(self): return -floor_(-self)
    def rint(self): return floor_(self + 0.5)
    def isnan(self): return False
    def sum(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "SymReal(%s)" % _short(self.e)


def Fraction_f(x):
    return Fraction(float(x))


def _ang_combine(a, b, sgn):
    """A ± B for the same base angle collapses"""
    A, sa, oa = a.ang
    B, sb, ob = b.ang
    if A is B:
        k = sa + sgn * sb
        if k == 0:
            return oa + sgn * ob
    return None


def _div(a, b):
    c = ctx()
    bz = zr(b)
    z = mkbool(bz == 0)
    if not (z is False) and not (isinstance(b, SymReal) and b.nn is None):
        if c.decide(bz == 0):
            if isconc_real(a):
                if a == 0: return float("nan")
                return INF if a > 0 else -INF
            if a > 0: return INF
            if a < 0: return -INF
            return float("nan")
    if isconc_real(a) and a == 0:
        return 0.0
    az = zr(a)
    if isinstance(a, SymReal) and z3.eq(az, bz):
        return 1.0
    return SymReal(az / bz, nn=getattr(a, "nn", isconc_real(a) and a >= 0) and getattr(b, "nn", False))


def floordiv_int(x, y):
    """integer floor(x/y), by forking (no nonlinear integer arithmetic)"""
    c = ctx()
    xz, yz = zr(x), zr(y)
    if isconc_real(y):
        return c.concretise_floor(z3.simplify(xz / yz)) if y != 0 else _raise_zero()
    return c.concretise_floordiv(xz, yz)


def _raise_zero():
    raise ZeroDivisionError


def floor_(x):
    if isinstance(x, SymReal):
        return float(ctx().concretise_floor(x.e))
    return _np.floor(x)


def round_(x, n=0):
    if isinstance(x, SymReal):
        # round() to a fixed number of decimals is kept as an uninterpreted shift: |r - x| <= 0.5*10^-n,
        # equal inputs give equal outputs (structural cache), order preserved against earlier roundings
        return ctx().rounded(x, n)
    return _np.round(x, n)


# ------------------------------------------------------------------ complex
class LazyRoot(SymReal):
    """modulus of a complex number: its square is known; the root itself is only introduced when it is used"""
    __slots__ = ("x2", "root")

    def __init__(self, x2):
        self.x2, self.root = x2, None
        self.sq, self.ang, self.absof, self.nn = SymReal(x2.e, nn=True), None, None, True

    @property
    def e(self):
        if self.root is None: self.root = zr(ctx().sqrt(self.x2, nonneg=True))
        return self.root


class SymComplex(SymBase):
    __slots__ = ("re", "im")
    dtype = _np.dtype(object)

    def __init__(self, re, im):
        self.re, self.im = re, im

    real = property(lambda self: self.re)
    imag = property(lambda self: self.im)
    def conjugate(self): return mkcplx(self.re, -self.im)
    conj = conjugate
    def __hash__(self): return hash((self.re, self.im))
    def __neg__(self): return mkcplx(-self.re, -self.im)
    def __pos__(self): return self
    def __add__(self, o):
        if _isarr(o): return NotImplemented
        a, b = parts(o)
        return mkcplx(self.re + a, self.im + b)
    __radd__ = __add__
    def __sub__(self, o):
        if _isarr(o): return NotImplemented
        a, b = parts(o)
        return mkcplx(self.re - a, self.im - b)
    def __rsub__(self, o):
        a, b = parts(o)
        return mkcplx(a - self.re, b - self.im)
    def __mul__(self, o):
        if _isarr(o): return NotImplemented
        a, b = parts(o)
        return mkcplx(self.re * a - self.im * b, self.re * b + self.im * a)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if _isarr(o): return NotImplemented
        a, b = parts(o)
        if isconc_real(b) and b == 0:
            return mkcplx(self.re / a, self.im / a)
        d = a * a + b * b
        return mkcplx((self.re * a + self.im * b) / d, (self.im * a - self.re * b) / d)
    def __rtruediv__(self, o):
        a, b = parts(o)
        return SymComplex(a, b) / self
    def __pow__(self, n):
        if n == 2: return self * self
        if n == 1: return self
        if n == 0.5: return sqrt_(self)
        raise Unsupported("complex power %r" % n)
    def abs2(self):
        return self.re * self.re + self.im * self.im
    def __abs__(self):
        x = self.abs2()
        return LazyRoot(x) if isinstance(x, SymReal) and not ctx().havoc else sqrt_(x)
    def __eq__(self, o):
        if _isarr(o): return NotImplemented
        if not (is_num(o) or is_sym(o)): return False
        a, b = parts(o)
        return and_(self.re == a, self.im == b)
    def __ne__(self, o):
        return not_(self == o)
    def __lt__(self, o): return self.re < parts(o)[0]
    def __gt__(self, o): return self.re > parts(o)[0]
    def __le__(self, o): return self.re <= parts(o)[0]
    def __ge__(self, o): return self.re >= parts(o)[0]
    def __bool__(self): return bool(self != 0)
    def __repr__(self): return "SymComplex(%r,%r)" % (self.re, self.im)


def parts(o):
    if isinstance(o, SymComplex): return o.re, o.im
    if isinstance(o, (SymReal, SymBool)): return o, 0.0
    if isinstance(o, _np.ndarray) and o.ndim == 0: return parts(o.item())
    return float(o.real), float(o.imag)


def mkcplx(re, im):
    if not is_sym(re) and not is_sym(im):
        return complex(re, im)
    return SymComplex(re, im)


def tocplx(x):
    if isinstance(x, SymComplex): return x
    a, b = parts(x)
    return SymComplex(a, b)


# ------------------------------------------------------------------ boolean helpers
def and_(*xs):
    es = []
    for x in xs:
        if isinstance(x, (bool, _np.bool_)):
            if not x: return False
        else:
            es.append(zb(x))
    if not es: return True
    return mkbool(z3.And(*es))


def or_(*xs):
    es = []
    for x in xs:
        if isinstance(x, (bool, _np.bool_)):
            if x: return True
        else:
            es.append(zb(x))
    if not es: return False
    return mkbool(z3.Or(*es))


def not_(x):
    if isinstance(x, (bool, _np.bool_)): return not x
    return mkbool(z3.Not(zb(x)))


def ite(c, a, b):
    """merge two scalars under a condition (no fork)"""
    if isinstance(c, (bool, _np.bool_)): return a if c else b
    if isinstance(c, (int, float, _np.number)): return a if c else b
    c = zb(c)
    s = z3.simplify(c)
    if z3.is_true(s): return a
    if z3.is_false(s): return b
    if a is b: return a
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
        return mkbool(z3.If(c, zb(a), zb(b)))
    if _cplx(a) or _cplx(b):
        (ar, ai), (br, bi) = parts(a), parts(b)
        return mkcplx(ite(SymBool(c), ar, br), ite(SymBool(c), ai, bi))
    if _nonfin(a) or _nonfin(b) or a is None or b is None or isinstance(a, str):
        return a if ctx().decide(c) else b
    if isconc_real(a) and isconc_real(b) and a == b:
        return a
    nn = lambda v: v.nn if isinstance(v, SymReal) else v >= 0
    return SymReal(z3.If(c, zr(a), zr(b)), nn=bool(nn(a) and nn(b)) if not isinstance(a, SymBool) and not isinstance(b, SymBool) else False)


def min_(a, b):
    if not is_sym(a) and not is_sym(b):
        return _np.minimum(a, b)
    return ite(a < b, a, b)


def max_(a, b):
    if not is_sym(a) and not is_sym(b):
        return _np.maximum(a, b)
    return ite(a > b, a, b)


# ------------------------------------------------------------------ transcendental functions
def _near(x, y, tol=1e-11):
    return abs(x - y) <= tol


def _cmp_lemma(a, b):
    A = a.ang if isinstance(a, SymReal) else None
    for x, y in ((a, b), (b, a)):        # |x| against a number: both signs of x matter
        if isinstance(x, SymReal) and x.ang is None and x.absof is not None and x.absof.ang is not None and isconc_real(y):
            _cmp_lemma(x.absof, float(y)); _cmp_lemma(x.absof, -float(y))
            return
    B = b.ang if isinstance(b, SymReal) else None
    if A is None and B is None: return
    c = CTX
    if c is None: return
    if A is not None and B is not None:
        if A[1] == 1 and B[1] == 1 and A[2] == 0 and B[2] == 0:
            c.angle_order(A[0], B[0])
    elif A is not None and isconc_real(b):
        if A[1] == 1: c.angle_const(A[0], float(b) - A[2])
        else: c.angle_const(A[0], A[2] - float(b))
    elif B is not None and isconc_real(a):
        if B[1] == 1: c.angle_const(B[0], float(a) - B[2])
        else: c.angle_const(B[0], B[2] - float(a))


def _angle_of(x):
    """(Angle, sign, offset) for a symbolic angle, registering a base if needed"""
    if x.ang is not None: return x.ang
    if x.absof is not None and (x.absof.ang is not None):
        inner = x.absof
        if inner >= 0: return inner.ang
        A, s, o = inner.ang
        return (A, -s, -o)
    return ctx().angle_for(x)


def sincos(x):
    A, sg, off = _angle_of(x)
    s, c = A.s, A.c
    if sg < 0: s = -s
    k = off / (PI / 2)
    if _near(k, round(k), 1e-9):
        k = int(round(k)) % 4
        if k == 0: return s, c
        if k == 1: return c, -s
        if k == 2: return -s, -c
        return -c, s
    so, co = math.sin(off), math.cos(off)
    return s * co + c * so, c * co - s * so


def sin_(x):
    if isinstance(x, SymReal): return sincos(x)[0]
    if isinstance(x, SymComplex):
        if isconc_real(x.im) and x.im == 0: return sin_(x.re)
        a = getattr(ctx(), "casin", {}).get(id(x))
        if a is not None: return a[0]
        raise Unsupported("sin of complex")
    return _np.sin(x)


def cos_(x):
    if isinstance(x, SymReal): return sincos(x)[1]
    if isinstance(x, SymComplex):
        if isconc_real(x.im) and x.im == 0: return cos_(x.re)
        a = getattr(ctx(), "casin", {}).get(id(x))
        if a is not None: return a[1]
        raise Unsupported("cos of complex")
    return _np.cos(x)


def tan_(x):
    if isinstance(x, SymReal):
        s, c = sincos(x)
        return s / c
    return _np.tan(x)


def sqrt_(x):
    if isinstance(x, SymReal):
        c = ctx()
        if c.havoc: return c.any_value("sqrt", x)
        r = c.sqrt(x)
        return r
    if isinstance(x, SymComplex):
        if ctx().havoc: return ctx().any_value("sqrt", x)
        return ctx().csqrt(x)
    if isinstance(x, SymBool): return x
    if isinstance(x, (complex, _np.complexfloating)): return _np.sqrt(x)
    with _np.errstate(all="ignore"):
        return _np.sqrt(x)


def csqrt_math(x):
    """cmath.sqrt"""
    if isinstance(x, SymReal):
        if x.nn or (x >= 0):
            return ctx().sqrt(x, nonneg=True)
        return SymComplex(0.0, ctx().sqrt(-x, nonneg=True))
    if isinstance(x, SymComplex):
        return ctx().csqrt(x)
    import cmath
    return cmath.sqrt(x)


def exp_(x):
    if isinstance(x, SymReal): return ctx().exp(x)
    if isinstance(x, SymComplex):
        m = ctx().exp(x.re) if is_sym(x.re) else _np.exp(x.re)
        if is_sym(x.im):
            s, c = sincos(x.im)
        else:
            s, c = math.sin(x.im), math.cos(x.im)
        return mkcplx(m * c, m * s)
    return _np.exp(x)


def asin_(x):
    if isinstance(x, SymReal): return ctx().asin(x)
    if isinstance(x, SymComplex): return ctx().casin_(x)
    with _np.errstate(all="ignore"):
        return _np.arcsin(x)


def acos_(x):
    if is_sym(x) and ctx().havoc: return ctx().any_value("acos", x)
    if isinstance(x, SymReal): return ctx().acos(x)
    if isinstance(x, SymComplex):
        if isconc_real(x.im) and x.im == 0: return acos_(x.re)
        if isconc_real(x.re) and x.re == 0: return SymComplex(math.pi / 2, SymReal(ctx().fresh("acos_im")))     # acos(iy) = pi/2 - i asinh(y)
        raise Unsupported("acos of complex")
    with _np.errstate(all="ignore"):
        return _np.arccos(x)


def atan_(x):
    if is_sym(x) and ctx().havoc: return ctx().any_value("atan", x)
    if isinstance(x, SymReal): return ctx().atan(x)
    if isinstance(x, SymComplex):
        if isconc_real(x.im) and x.im == 0: return atan_(x.re)
        raise Unsupported("atan of complex")
    return _np.arctan(x)


def atan2_(y, x):
    if (is_sym(x) or is_sym(y)) and ctx().havoc: return ctx().any_value("atan2", x)
    if is_sym(x) or is_sym(y): return ctx().atan2(y, x)
    return math.atan2(y, x)


def sign_(x):
    if isinstance(x, SymReal):
        return SymReal(z3.If(x.e > 0, z3.RealVal(1), z3.If(x.e < 0, z3.RealVal(-1), z3.RealVal(0))))
    return _np.sign(x)


def isnan_(x):
    if is_sym(x):
        if isinstance(x, SymComplex):
            return bool(isnan_(x.re)) or bool(isnan_(x.im))
        return False
    if x is None: return True
    return bool(_np.isnan(x))
