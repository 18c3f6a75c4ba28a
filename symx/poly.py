"""Exact polynomial normal form of real terms, modulo known squares (sin² = 1 - cos², sqrt(e)² = e)."""
from fractions import Fraction
from .core import z3

LIMIT = 400


class TooBig(Exception): pass


def frac(e): return Fraction(e.numerator_as_long(), e.denominator_as_long())


class Normal:
    """rules: {atom id: (atom, square as z3 term)}"""

    def __init__(self):
        self.rules, self.memo, self.atoms, self.keep = {}, {}, {}, []
        self.invs = {}           # atom id: (power, leading monomial, its coefficient, rest): leading + rest = atom^-power

    def rule(self, var, sq, root=False):
        self.keep += [var, sq]
        self.rules[var.get_id()] = sq
        self.memo.clear()
        if root:
            try: self.cancel(var.get_id(), -2, self.poly(sq))
            except (TooBig, RecursionError): pass

    def cancel(self, a, power, p):
        m = max(p, key=lambda m: (sum(x for _, x in m), m))
        if not m or any(x < 0 for _, x in m) or len(p) > 30: return
        self.invs[a] = (power, m, p[m], {k: c for k, c in p.items() if k != m})
        self.memo.clear()

    # polynomials: {((atom id, exponent), ...): coefficient}
    def atom(self, e):
        self.atoms[e.get_id()] = e
        return {((e.get_id(), 1),): Fraction(1)}

    def poly(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.reduce(self._poly(e))
            if len(r) > LIMIT: raise TooBig
            self.keep.append(e)
            self.memo[i] = r
        return r

    def _poly(self, e):
        if z3.is_rational_value(e):
            f = frac(e)
            return {(): f} if f else {}
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_ADD:
            r = {}
            for a in e.children(): r = add(r, self.poly(a))
            return r
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            r = self.poly(ch[0])
            for a in ch[1:]: r = add(r, self.poly(a), -1)
            return r
        if k == z3.Z3_OP_UMINUS: return scale(self.poly(e.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for a in e.children(): r = self.reduce(mul(r, self.poly(a)))
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
            f = frac(e.arg(1))
            if f.denominator == 1 and 0 <= f <= 4:
                r = {(): Fraction(1)}
                for _ in range(int(f)): r = self.reduce(mul(r, self.poly(e.arg(0))))
                return r
        if k == z3.Z3_OP_DIV:
            d = self.poly(e.arg(1))
            if len(d) == 1:
                (m, c), = d.items()
                return mul(self.poly(e.arg(0)), {tuple((a, -p) for a, p in m): 1 / c})
            if d: return mul(self.poly(e.arg(0)), self.inverse(d))
        return self.atom(e)

    def inverse(self, d):
        m0 = min(d)
        c0 = d[m0]
        n = {m: c / c0 for m, c in d.items()}
        t = z3.simplify(1 / self.term(n))
        if t.get_id() not in self.invs:
            self.keep.append(t)
            self.cancel(t.get_id(), 1, n)
        return scale(self.atom(t), 1 / c0)

    def reduce(self, p):
        for _ in range(300):
            for m in p:
                hit = next((a for a, x in m if x >= 2 and a in self.rules), None)
                if hit is not None: break
            else:
                q = self.cancelled(p) if self.invs else None
                if q is None: return p
                p = q
                continue
            out = {}
            sq = self.poly(self.rules[hit])
            for m, c in p.items():
                x = dict(m).get(hit, 0)
                if x >= 2:
                    rest = tuple((a, y) for a, y in ((a, y - 2 if a == hit else y) for a, y in m) if y)
                    out = add(out, mul({rest: c}, sq))
                else: out = add(out, {m: c})
                if len(out) > LIMIT: raise TooBig
            p = out
        raise TooBig

    def cancelled(self, p):
        """one round of leading-monomial cancellations, None when nothing cancels"""
        for m, c in p.items():
            e = dict(m)
            for a, x in m:
                r = self.invs.get(a)
                if r is None: continue
                k, lead, lc, tail = r
                if (x > k if k < 0 else x < k) or any(e.get(b, 0) < y for b, y in lead): continue
                rest = dict(e)
                for b, y in lead: rest[b] -= y
                gone = dict(rest); gone[a] -= k
                q = dict(p); del q[m]
                q = add(q, {mono(gone): c / lc})
                return add(q, mul({mono(rest): -c / lc}, tail))
        return None

    def term(self, p):
        if not p: return z3.RealVal(0)
        L = []
        for m, c in sorted(p.items()):
            num, den = [], []
            for a, x in m:
                (num if x > 0 else den).extend([self.atoms[a]] * abs(x))
            t = z3.Q(c.numerator, c.denominator)
            for v in num: t = t * v
            if den:
                q = den[0]
                for v in den[1:]: q = q * v
                t = t / q
            L.append(t)
        s = L[0]
        for t in L[1:]: s = s + t
        return z3.simplify(s)

    def canon(self, e):
        """equal term in normal form, or e itself when it grows too large"""
        try: p = self.poly(e)
        except (TooBig, RecursionError): return e
        return self.term(p)


def mono(e): return tuple(sorted((a, x) for a, x in e.items() if x))


def add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def scale(p, s): return {m: c * s for m, c in p.items()}


def mul(p, q):
    if len(p) * len(q) > LIMIT * 8: raise TooBig
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            e = dict(m)
            for a, x in n: e[a] = e.get(a, 0) + x
            k = tuple(sorted((a, x) for a, x in e.items() if x))
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r


def root(f):
    """exact rational square root or None"""
    import math
    if f < 0: return None
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    return Fraction(a, b) if a * a == f.numerator and b * b == f.denominator else None


def content(p):
    """p = q² · prod(atom^(2k)) · rest: (q, {atom: k}, rest) with the largest even monomial factored out"""
    com = None
    for m in p:
        e = dict(m)
        if com is None: com = e
        else: com = {a: min(x, e.get(a, 0)) for a, x in com.items() if a in e or x < 0} | {a: x for a, x in e.items() if x < 0 and a not in com}
    ev = {}
    for a, x in (com or {}).items():
        k = x // 2 if x > 0 else -((-x + 1) // 2)
        if k: ev[a] = k
    rest = mul(p, {tuple(sorted((a, -2 * k) for a, k in ev.items())): Fraction(1)}) if ev else dict(p)
    lead = rest[min(rest)]
    q = root(abs(lead))
    if q is None or q == 0: return Fraction(1), ev, rest
    return q, ev, {m: c / (q * q) for m, c in rest.items()}
