"""Symbolic execution engine: path exploration by re-execution, Z3 queries, and the two harness contexts
(SymCtx: inputs are solver variables; ConcCtx: inputs are the numbers of one counterexample / witness)."""
import math, time, hashlib, fractions
from fractions import Fraction
from . import core, poly
from .core import (z3, PathAbort, BudgetExceeded, Unsupported, SymReal, SymBool, SymComplex, Angle, lit, zr, zb,
                   mkbool, mkreal, is_sym, isconc_real, PI, parts, mkcplx)
import numpy as np

INF = float("inf")

HPI = PI / 2


# ------------------------------------------------------------------ variables of a term
_vc = {}


def vars_of(e):
    k = e.get_id()
    r = _vc.get(k)
    if r is not None:
        return r[1]
    stack = [e]
    while stack:
        t = stack[-1]
        kt = t.get_id()
        if kt in _vc:
            stack.pop(); continue
        ch = t.children()
        if not ch:
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                _vc[kt] = (t, frozenset([t.decl().name()]))
            else:
                _vc[kt] = (t, frozenset())
            stack.pop(); continue
        todo = [c for c in ch if c.get_id() not in _vc]
        if todo:
            stack.extend(todo); continue
        _vc[kt] = (t, frozenset().union(*[_vc[c.get_id()][1] for c in ch]))
        stack.pop()
    return _vc[k][1]


def val_float(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        return float(fractions.Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_int_value(v):
        return float(v.as_long())
    raise Unsupported("value %s" % v)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.forks = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.unknown = 0
        self.unknown_feas = 0

    def asdict(self):
        return dict(self.__dict__)


class Solver:
    """one-shot queries with sliced constraints, cached"""

    def __init__(self, stats, seed=1, quick_ms=4000, slow_ms=20000):
        self.st, self.seed, self.quick, self.slow = stats, seed, quick_ms, slow_ms
        self.cache = {}

    def check(self, cons, slow=False, want_model=True, ms=None):
        key = (frozenset(c.get_id() for c in cons), slow)
        r = self.cache.get(key)
        if r is not None:
            return r[0], r[1]
        self.st.queries += 1
        t0 = time.time()
        res, model = "unknown", None
        limit = ms or (self.slow if slow else self.quick)
        plans = [("auto", limit)]
        if slow:
            plans = [("auto", limit // 4), ("qfnra-nlsat", limit // 2), ("smt6", limit)]
        for how, t in plans:
            if how == "auto":
                s = z3.Solver()
            elif how == "smt6":
                s = z3.SimpleSolver()
                s.set("arith.solver", 6)
            else:
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "simplify", "tseitin-cnf", how).solver() \
                    if False else z3.Tactic("qfnra").solver()
            s.set("timeout", int(t))
            if how != "qfnra-nlsat": s.set("random_seed", self.seed)
            s.add(*cons)
            try:
                q = s.check()
            except z3.Z3Exception:
                q = z3.unknown
            if q == z3.sat:
                res = "sat"
                m = s.model()
                model = {d.name(): m[d] for d in m.decls() if d.arity() == 0}
                break
            if q == z3.unsat:
                res = "unsat"; break
        self.st.solver_s += time.time() - t0
        self.cache[key] = (res, model, cons)
        return res, model


# ------------------------------------------------------------------ results of an instance
class Candidate:
    def __init__(self, name, vals, detail="", path=None):
        self.name, self.vals, self.detail, self.path = name, vals, detail, path


class Explorer:
    def __init__(self, fn, params, max_paths=4000, max_s=300.0, seed=1, quick_ms=4000, slow_ms=20000,
                 witness_every=1, max_witness=12, stop_on_candidates=6, patcher=None, eager=False):
        self.fn, self.params = fn, params
        self.stats = Stats()
        self.solver = Solver(self.stats, seed, quick_ms, slow_ms)
        self.max_paths, self.max_s = max_paths, max_s
        self.candidates = []
        self.unknowns = []
        self.unsupported = {}
        self.witnesses = []
        self.max_witness = max_witness
        self.notes = {}
        self.skips = {}
        self.asserts_seen = {}
        self.vars_seen = {}
        self.stubs = set()
        self.exhausted = True
        self.stop_on = stop_on_candidates
        self.patcher = patcher
        self.seed = seed
        self.fns = set()
        self.fresh_cache = {}

    def run(self):
        work = [((), None)]
        t0 = time.time()
        n = 0
        while work:
            if n >= self.max_paths or time.time() - t0 > self.max_s:
                self.exhausted = False
                break
            if len(self.candidates) >= self.stop_on:
                self.exhausted = False
                break
            prefix, model = work.pop()
            c = SymCtx(self, prefix, model)
            n += 1
            self.one(c)
            work.extend(reversed(c.alts))
        self.wall = time.time() - t0
        return self

    def one(self, c):
        old = core.CTX
        core.CTX = c
        exc = None
        try:
            if self.patcher is not None:
                self.patcher.reset(c)
            self.fn(c, **self.params)
        except PathAbort:
            self.stats.aborted += 1
            c.done = False
        except BudgetExceeded:
            c.done = False
            self.exhausted = False
        except Unsupported as e:
            import traceback
            self.unsupported[str(e)] = traceback.format_exc()
            c.done = False
            self.exhausted = False
        except Exception as e:
            import traceback
            tb = traceback.format_exc()
            if "Unsupported" in tb or "z3.z3types" in tb:
                self.unsupported[str(e)[:200]] = tb
                c.done = False
                self.exhausted = False
            else:
                exc = (type(e).__name__, str(e)[:300], tb)
        finally:
            c.undo()
            core.CTX = old
        if exc is not None:
            core.CTX = c
            try:
                c.exception(exc)
            finally:
                core.CTX = old
        if c.done:
            self.stats.paths += 1
            core.CTX = c
            try:
                c.finish()
            finally:
                core.CTX = old


class Env:
    """stubs and scratch space of one harness run"""

    def patch(self, owner, attr, value):
        if isinstance(owner, dict):
            old = owner.get(attr, _MISSING)
            self.undos.append(lambda: owner.__setitem__(attr, old) if old is not _MISSING else owner.pop(attr, None))
            owner[attr] = value
            return
        old = owner.__dict__.get(attr, _MISSING) if isinstance(owner, type) or hasattr(owner, "__dict__") else getattr(owner, attr)
        if old is _MISSING:
            self.undos.append(lambda: delattr(owner, attr))
        else:
            self.undos.append(lambda: setattr(owner, attr, old))
        setattr(owner, attr, value)

    def scratch(self):
        import tempfile, shutil
        d = tempfile.mkdtemp(prefix="symx_")
        self.undos.append(lambda: shutil.rmtree(d, ignore_errors=True))
        return d

    def undo(self):
        for u in reversed(self.undos): u()
        self.undos = []


_MISSING = object()


class SymCtx(Env):
    symbolic = True

    def __init__(self, ex, prefix, model):
        self.ex = ex
        self.st = ex.stats
        self.solver = ex.solver
        self.prefix = list(prefix)
        self.trace = []
        self.alts = []
        self.cons = []                # path condition + definitions
        self.model = dict(model) if model else {}
        self.names = {}
        self.inputs = {}              # name -> (kind, payload)
        self.done = True
        self.asserts = []             # (name, z3 bool that must hold, margin version)
        self.cache = {}
        self.angles = []
        self.rounds = {}
        self.exps = []
        self.nfresh = 0
        self.tags = {}
        self.exc_ok = ()
        self.observed = []
        self.expect_exc = None
        self.undos = []
        self.lazy = 0
        self.dec_limit, self.dec_base = None, 0
        self.bnd = {}                 # declared bounds of variables
        self.normal, self.roots = poly.Normal(), {}

    # ------------------------------------------------------------ constraints
    def add(self, e, trusted=False):
        """add a constraint; model values of connected variables are dropped unless known to satisfy it"""
        if z3.is_true(e):
            return
        if isinstance(e, bool):
            if not e: raise PathAbort()
            return
        if not trusted and not self.replaying:
            ok = self._eval(e)
            if ok is not True:
                for v in self._closure(vars_of(e))[0]:
                    self.model.pop(v, None)
        self.cons.append(e)

    @property
    def replaying(self):
        """still inside the decision prefix: the stored model already satisfies everything up to its end"""
        return len(self.trace) < len(self.prefix)

    def upd(self, m):
        if m and not self.replaying: self.model.update(m)

    def _closure(self, vs):
        vs = set(vs)
        sel = []
        rest = self.cons
        changed = True
        while changed:
            changed = False
            nr = []
            for c in rest:
                cv = vars_of(c)
                if cv & vs:
                    sel.append(c)
                    if not cv <= vs:
                        vs |= cv
                        changed = True
                else:
                    nr.append(c)
            rest = nr
        return vs, sel

    def slice(self, e):
        vs, sel = self._closure(vars_of(e))
        return sel

    def _eval(self, e):
        vs = vars_of(e)
        sub = []
        for v in vs:
            m = self.model.get(v)
            if m is None:
                return None
            sub.append((self.ex.vars_seen[v], m))
        r = z3.simplify(z3.substitute(e, *sub)) if sub else z3.simplify(e)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return None

    def query(self, e, slow=False, ms=None):
        """is pc ∧ e satisfiable (on the slice of e)?"""
        sel = self.slice(e)
        return self.solver.check(sel + [e], slow=slow, ms=ms)

    # ------------------------------------------------------------ decisions
    def _tick(self):
        self.st.decisions += 1

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        self._tick()
        if self.dec_limit is not None and sum(1 for d in self.trace[self.dec_base:] if not d[2]) >= self.dec_limit: raise PathAbort()
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] != "b":
                raise RuntimeError("non-deterministic re-execution (expected %r)" % (d,))
            self.trace.append(d)
            if not d[2]:                       # d[2]: forced (implied) -> no constraint needed
                self.add(e if d[1] else z3.Not(e), trusted=True)
            return d[1]
        # new decision
        mv = self._eval(e)
        ne = z3.Not(e)
        if mv is None:
            r, m = self.query(e)
            if r == "sat":
                self.model.update(m)
                mv = True
            elif r == "unsat":
                self.trace.append(("b", False, True))
                return False
            else:
                r2, m2 = self.query(ne)
                self.st.unknown_feas += 1
                if r2 == "unsat":
                    self.trace.append(("b", True, True))
                    return True
                # keep both
                alt = tuple(self.trace) + (("b", False, False),)
                self.alts.append((alt, dict(self.model, **(m2 or {}))))
                self.st.forks += 1
                self.trace.append(("b", True, False))
                for v in self._closure(vars_of(e))[0]: self.model.pop(v, None)
                self.cons.append(e)
                return True
        other = ne if mv else e
        r, m = self.query(other)
        if r == "unsat":
            self.trace.append(("b", mv, True))
            return mv
        if r == "unknown":
            self.st.unknown_feas += 1
        alt = tuple(self.trace) + (("b", not mv, False),)
        am = dict(self.model)
        if m: am.update(m)
        else:
            for v in self._closure(vars_of(e))[0]: am.pop(v, None)
        self.alts.append((alt, am))
        self.st.forks += 1
        self.trace.append(("b", mv, False))
        self.cons.append(e if mv else ne)
        return mv

    def choose(self, mk, first):
        """multi-way concretisation: mk(v) -> constraint that the value is v; first() -> candidate int from model.
        Every value that is feasible is explored."""
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                if d[0] != "c":
                    raise RuntimeError("non-deterministic re-execution (expected %r)" % (d,))
                v = d[1]
                self.trace.append(d)
                e = mk(v)
                if d[2]:
                    self.add(e, trusted=True)
                    return v
                self.add(z3.Not(e), trusted=True)
                continue
            v = first()
            if v is None:
                raise PathAbort()
            self._tick()
            e = mk(v)
            r, m = self.query(z3.Not(e))
            if r != "unsat":
                am = dict(self.model)
                if m: am.update(m)
                else:
                    for x in self._closure(vars_of(e))[0]: am.pop(x, None)
                self.alts.append((tuple(self.trace) + (("c", v, False),), am))
                self.st.forks += 1
            self.trace.append(("c", v, True))
            self.add(e)
            return v

    def _model_value(self, e):
        """value of real term e under a model of the path condition (solving if needed)"""
        vs = vars_of(e)
        if any(v not in self.model for v in vs):
            t = z3.Real("$probe")
            self.ex.vars_seen["$probe"] = t
            sel = self._closure(vs)[1]
            r, m = self.solver.check(sel + [t == e])
            if r == "unsat":
                return None
            if r == "unknown":
                r, m = self.solver.check(sel + [t == e], slow=True)
                if r != "sat":
                    raise Unsupported("cannot find a value to concretise")
            m.pop("$probe", None)
            self.model.update(m)
            for v in vs:
                if v not in self.model:
                    self.model[v] = z3.RealVal(0)
        v = z3.simplify(z3.substitute(e, *[(self.ex.vars_seen[v], self.model[v]) for v in vs]))
        return v

    def concretise_floor(self, e, trunc=False):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            n, d = e.numerator_as_long(), e.denominator_as_long()
            return int(fractions.Fraction(n, d)) if trunc else n // d

        def mk(v):
            if not trunc or v > 0:
                return z3.And(e >= v, e < v + 1)
            if v == 0:
                return z3.And(e > -1, e < 1)
            return z3.And(e > v - 1, e <= v)

        def first():
            m = self._model_value(e)
            if m is None: return None
            f = val_float(m)
            base = math.trunc(f) if trunc else math.floor(f)
            for v in (base, base - 1, base + 1):
                if z3.is_true(z3.simplify(z3.substitute(mk(v), (e, m)))) or self._eval(mk(v)) is True:
                    return v
            return base
        return self.choose(mk, first)

    def concretise_floordiv(self, xz, yz):
        pos = self.decide(yz > 0)
        if not pos and self.decide(yz == 0):
            raise ZeroDivisionError

        def mk(v):
            if pos: return z3.And(xz >= v * yz, xz < (v + 1) * yz)
            return z3.And(xz <= v * yz, xz > (v + 1) * yz)

        def first():
            q = self._model_value(xz)
            if q is None: return None
            w = self._model_value(yz)
            v = math.floor(val_float(q) / val_float(w))
            for k in (v, v - 1, v + 1):
                if self._eval(mk(k)) is True: return k
            return v
        return self.choose(mk, first)

    # ------------------------------------------------------------ variables
    def _var(self, name):
        v = z3.Real(name)
        self.ex.vars_seen[name] = v
        return v

    def fresh(self, tag):
        k = self.tags.get(tag, 0)
        self.tags[tag] = k + 1
        return self._var("%s!%d" % (tag, k))

    def freshname(self, tag):
        k = self.tags.get(tag, 0)
        self.tags[tag] = k + 1
        return "%s!%d" % (tag, k)

    def real(self, name, lo=None, hi=None, strict=False):
        v = self._var(name)
        if name not in self.inputs:
            self.inputs[name] = ("real", lo, hi)
            if lo is not None: self.add(v > lit(lo) if strict else v >= lit(lo))
            if hi is not None: self.add(v < lit(hi) if strict else v <= lit(hi))
            self.bnd[name] = (-INF if lo is None else lo, INF if hi is None else hi)
        return SymReal(v, nn=lo is not None and lo >= 0)

    def reals(self, name, shape, lo=None, hi=None):
        from . import npshim
        if isinstance(shape, int): shape = (shape,)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.real(name + "".join("_%d" % i for i in ix), lo, hi)
        return npshim.wrap(out)

    def lazy_real(self, tag):
        """arbitrary value, registered only if it ever matters"""
        n = self.freshname(tag)
        v = z3.Real(n)
        self.ex.vars_seen[n] = v
        self.inputs[n] = ("lazy",)
        return SymReal(v)

    def rand(self):
        n = self.freshname("rand")
        v = self._var(n)
        self.inputs[n] = ("real", 0.0, 0.999)
        self.add(v >= 0); self.add(v < 1)
        return SymReal(v, nn=True)

    def flag(self, name):
        """a nondeterministic boolean, explored both ways"""
        v = self.real(name, 0, 1)
        self.inputs[name] = ("real", None, None)
        return self.decide(v.e > lit(0.5))

    def pick(self, name, n):
        """a nondeterministic integer 0..n-1 (forked)"""
        for k in range(n - 1):
            if self.flag("%s_is%d" % (name, k)): return k
        return n - 1

    def angle(self, name, lo=0.0, hi=2 * PI):
        """angle with bounds; its sine and cosine are solver variables tied to it"""
        e = self._var(name)
        if name in self.inputs:
            return self.cache[("angle", name)]
        self.inputs[name] = ("angle", lo, hi)
        self.add(e >= lit(lo)); self.add(e <= lit(hi))
        a = self._mk_angle(e, lo, hi, name)
        r = SymReal(e, ang=(a, 1, 0.0), nn=lo >= 0)
        self.cache[("angle", name)] = r
        return r

    def _mk_angle(self, e, lo, hi, tag, s=None, c=None):
        if s is None:
            sv, cv = self._var("sin(%s)" % tag), self._var("cos(%s)" % tag)
            self.add(sv * sv + cv * cv == 1)
            for w in (sv, cv):
                self.add(z3.And(w >= -1, w <= 1))
            s, c = SymReal(sv), SymReal(cv)
            # s²+c²=1 lets products simplify
            s.nn = bool(lo is not None and lo >= 0 and hi <= PI)
            c.nn = bool(lo is not None and lo >= -HPI and hi <= HPI)
            if s.nn: self.add(sv >= 0)
            if c.nn: self.add(cv >= 0)
            self.bnd[sv.decl().name()] = (0.0 if s.nn else -1.0, 1.0)
            self.bnd[cv.decl().name()] = (0.0 if c.nn else -1.0, 1.0)
            self._new_square(abs(s), sv * sv)
            self.normal.rule(sv, 1 - cv * cv)
            self._new_square(abs(s), sv * sv)
        a = Angle(e, s, c, lo, hi)
        a.consts = set()
        self.angles.append(a)
        if lo is not None:
            for k in (-HPI, 0.0, HPI, PI):
                if lo < k < hi:
                    self.angle_const(a, k)
            if tag is not None and hi - lo < 2 * PI - 1e-9:
                for k in (lo, hi):
                    if k not in (-HPI, 0.0, HPI, PI): self.angle_const(a, k)
        return a

    # monotonicity links between an angle and its sine/cosine
    def angle_const(self, A, k):
        if A.lo is None or k in A.consts: return
        A.consts.add(k)
        lo, hi = A.lo, A.hi
        if k < lo - 1e-12 or k > hi + 1e-12: return
        s, c = zr(A.s), zr(A.c)
        kz = lit(k)
        eps = 1e-12

        def snap(v):
            return 0.0 if abs(v) < 1e-15 else v
        sk, ck = snap(math.sin(k)), snap(math.cos(k))
        L = []
        if lo >= -eps and hi <= PI + eps:          # cos decreasing
            L += [(A.e <= kz) == (c >= lit(ck)), (A.e < kz) == (c > lit(ck))]
            if hi <= HPI + eps:
                L += [(A.e <= kz) == (s <= lit(sk))]
        elif lo >= -HPI - eps and hi <= HPI + eps:  # sin increasing
            L += [(A.e <= kz) == (s <= lit(sk)), (A.e < kz) == (s < lit(sk))]
        else:
            # general window [lo, lo+2π]: rotate so that window start is 0: u = A.e - lo in [0,2π]
            def rot(w):                              # sin/cos of (A.e - w)
                return s * lit(snap(math.cos(w))) - c * lit(snap(math.sin(w))), c * lit(snap(math.cos(w))) + s * lit(snap(math.sin(w)))
            if hi - lo <= 2 * PI + 1e-9:
                su, cu = rot(lo)
                u = k - lo
                sd, cd = rot(k)                      # sin(A.e-k)
                if u <= PI + eps:
                    # A.e<=k  <=>  su>=0-ish and cos u >= cos(u_k)
                    L += [z3.Implies(A.e <= kz, z3.And(su >= 0 if abs(u - PI) > eps else su >= 0, cu >= lit(snap(math.cos(u))))),
                          z3.Implies(A.e >= kz, z3.Or(su <= 0, cu <= lit(snap(math.cos(u)))))]
                else:
                    L += [z3.Implies(A.e >= kz, z3.And(su <= 0, cu >= lit(snap(math.cos(u))))),
                          z3.Implies(A.e <= kz, z3.Or(su >= 0, cu <= lit(snap(math.cos(u)))))]
        for l in L: self.add(l)

    def angle_order(self, A, B):
        if A is B: return
        key = ("ord", id(A), id(B)) if id(A) < id(B) else ("ord", id(B), id(A))
        if key in self.cache: return
        self.cache[key] = (A, B)
        if A.lo is None or B.lo is None: return
        eps = 1e-12
        sa, ca, sb, cb = zr(A.s), zr(A.c), zr(B.s), zr(B.c)
        if min(A.lo, B.lo) >= -HPI - eps and max(A.hi, B.hi) <= HPI + eps:
            self.add((A.e <= B.e) == (sa <= sb)); self.add((A.e >= B.e) == (sa >= sb))
        elif min(A.lo, B.lo) >= -eps and max(A.hi, B.hi) <= PI + eps:
            self.add((A.e <= B.e) == (ca >= cb)); self.add((A.e >= B.e) == (ca <= cb))

    def angle_for(self, x):
        e = z3.simplify(x.e)
        k = ("angle_for", e.get_id())
        r = self.cache.get(k)
        if r is None:
            r = self._same_angle(e)
            if r is not None: self.cache[k] = r
        if r is None:
            tag = self.freshname("ang")
            a = self._mk_angle(e, None, None, tag)
            self.add(z3.Implies(e == 0, z3.And(zr(a.s) == 0, zr(a.c) == 1)))
            r = ((a, 1, 0.0), e)
            # sin/cos of the negated argument share the same variables
            self.cache[k] = r
            ne = z3.simplify(-e)
            self.cache[("angle_for", ne.get_id())] = ((a, -1, 0.0), ne)
        return r[0]

    def _same_angle(self, e):
        """a known angle which went through a unit conversion and back: (1 +- rounding) * angle"""
        co, v = 1.0, e
        if z3.is_app_of(e, z3.Z3_OP_MUL) and e.num_args() == 2 and z3.is_rational_value(e.arg(0)): co, v = val_float(e.arg(0)), e.arg(1)
        if not (z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED) or abs(abs(co) - 1) > 1e-12: return None
        a = self.cache.get(("angle", v.decl().name()))
        if a is None or getattr(a, "ang", None) is None or not a.e.eq(v): return None
        A, sg, off = a.ang
        return (A, sg, off) if co > 0 else (A, -sg, -off), e

    # ------------------------------------------------------------ functions
    def sqrt(self, x, nonneg=False):
        e = z3.simplify(x.e)
        if z3.is_rational_value(e):
            return np.sqrt(val_float(e))
        k = ("sqrt", e.get_id())
        r = self.cache.get(k)
        if r is not None: return r[0]
        if x.nn is not True and not nonneg:
            if not self.decide(e >= 0):
                return float("nan")
        # perfect squares we know
        sim = self._known_square(e)
        if sim is None: sim = self._poly_root(e)
        if sim is not None:
            self.cache[k] = (sim, e)
            return sim
        if self._prove(e == 1, ms=400):
            self.cache[k] = (1.0, e)
            return 1.0
        vs = vars_of(e)
        for (k2, r2) in [x for x in self.cache.items() if x[0][0] == "sqrt" and isinstance(x[1][0], SymReal)][:6]:
            if vars_of(r2[1]) == vs and self._prove(e == r2[1], ms=300):
                self.cache[k] = (r2[0], e)
                return r2[0]
        v = self.fresh("sqrt")
        self.add(v >= 0)
        self.add(v * v == e)
        r = SymReal(v, sq=SymReal(e, nn=True), nn=True)
        self.cache[k] = (r, e)
        self.bnd[v.decl().name()] = (0.0, INF)
        self._new_square(r, e)
        self.normal.rule(v, e, root=True)
        return r

    def _new_square(self, r, e):
        """remember that r >= 0 has the square e"""
        try: self.roots[frozenset(self.normal.poly(e).items())] = r
        except (poly.TooBig, RecursionError): pass

    def _poly_root(self, e):
        """square root by normal form: constants, perfect squares of monomials, square roots seen before, and products of these"""
        try:
            p = self.normal.poly(e)
            if not p: return 0.0
            q, ev, rest = poly.content(p)
        except (poly.TooBig, RecursionError): return None
        if rest == {(): 1}: r = SymReal(z3.RealVal(1), nn=True)
        elif rest == {(): Fraction(1)}: r = 1.0
        else: r = self.roots.get(frozenset(rest.items()))
        if r is None: return None
        for a, k in ev.items():
            x = self.normal.atoms[a]
            nn = z3.is_const(x) and self.bnd.get(x.decl().name(), (-INF,))[0] >= 0
            x = SymReal(x, nn=True if nn else None)
            if not nn: x = abs(x)
            for _ in range(abs(k)): r = r * x if k > 0 else core._div(r, x)
        if q != 1: r = r * SymReal(z3.Q(q.numerator, q.denominator), nn=True)
        if isinstance(r, SymReal):
            s = z3.simplify(r.e)
            if z3.is_rational_value(s):
                f = poly.frac(s)
                if Fraction(float(f)) == f: return float(f)
            return SymReal(s, nn=True)
        return r

    def _known_square(self, e):
        if z3.is_mul(e) and e.num_args() == 2 and z3.eq(e.arg(0), e.arg(1)):
            return abs(SymReal(e.arg(0)))
        if z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)) and val_float(e.arg(1)) == 2:
            return abs(SymReal(e.arg(0)))
        return None

    def _prove(self, e, ms=500):
        if z3.is_false(z3.simplify(e)): return False
        i = len(self.trace)
        if self.replaying:
            d = self.prefix[i]
            if d[0] != "p": raise RuntimeError("non-deterministic re-execution (expected %r)" % (d,))
            self.trace.append(d)
            return d[1]
        ans = False
        if self._eval(e) is not False:
            r, m = self.query(z3.Not(e), ms=ms)
            if r == "sat": self.upd(m)
            ans = r == "unsat"
        self.trace.append(("p", ans))
        return ans

    def csqrt(self, x):
        """principal complex square root p+iq: p>=0, p²-q²=re, 2pq=im"""
        re, im = x.re, x.im
        if isconc_real(im) and im == 0:
            return core.tocplx(core.csqrt_math(re)) if is_sym(re) else np.sqrt(complex(re, im))
        k = ("csqrt", zr(re).get_id(), zr(im).get_id())
        if k in self.cache: return self.cache[k][0]
        k2 = None
        try:
            f = lambda e: frozenset((m, round(float(v), 14)) for m, v in self.normal.poly(z3.simplify(zr(e))).items())
            k2 = ("csqrt", f(re), f(im))
            if k2 in self.cache: return self.cache[k2][0]
        except (poly.TooBig, RecursionError): pass
        p, q = self.fresh("csqrt_re"), self.fresh("csqrt_im")
        self.add(p >= 0)
        self.add(p * p - q * q == zr(re))
        self.add(2 * p * q == zr(im))
        self.add(z3.Implies(p == 0, q >= 0))
        r = SymComplex(SymReal(p, nn=True), SymReal(q))
        self.cache[k] = (r, re, im)
        if k2: self.cache[k2] = (r, re, im)
        return r

    def exp(self, x):
        if not is_sym(x): return np.exp(x)
        e = round_numerals(z3.simplify(x.e, som=True))
        k = ("exp", e.get_id())
        if k in self.cache: return self.cache[k][0]
        v = self.fresh("exp")
        self.bnd[v.decl().name()] = (0.0, INF)
        self.add(v > 0)
        self.add((e <= 0) == (v <= 1))
        self.add((e >= 0) == (v >= 1))
        self.add(v >= 1 + e)
        for (e2, v2) in self.exps:
            self.add((e <= e2) == (v <= v2))
            self.add((e >= e2) == (v >= v2))
        self.exps.append((e, v))
        r = SymReal(v, nn=True)
        self.cache[k] = (r, e)
        return r

    def _inv(self, kind, x, mk):
        e = z3.simplify(x.e)
        k = (kind, e.get_id())
        if k not in self.cache:
            self.cache[k] = (mk(e), e)
        return self.cache[k][0]

    def asin(self, x):
        # arcsin(sin θ) on the principal branch
        def mk(e):
            for a in self.angles:
                if a.lo is not None and z3.eq(zr(a.s), e) and a.lo >= -HPI - 1e-12 and a.hi <= HPI + 1e-12:
                    return SymReal(a.e, ang=(a, 1, 0.0), nn=a.lo >= 0)
            if not self.decide(z3.And(e <= 1, e >= -1)):
                return float("nan")
            c = self.sqrt(SymReal(1 - e * e), nonneg=True)
            v = self.fresh("asin")
            self.add(z3.And(v >= lit(-HPI), v <= lit(HPI)))
            if x.nn: self.add(v >= 0)
            a = self._mk_angle(v, 0.0 if x.nn else -HPI, HPI, None, s=SymReal(e, nn=x.nn), c=c)
            self._anglinks(a)
            return SymReal(v, ang=(a, 1, 0.0), nn=x.nn)
        return self._inv("asin", x, mk)

    def unlink_angles(self):
        """inverse-trigonometric results are no longer ordered against each other (fewer facts: sound, cheaper)"""
        self.unlinked = True

    unlinked = False
    havoc = False

    def forget_roots(self, on=True):
        """square roots and inverse trigonometric functions return arbitrary numbers (for assertions that do not involve them)"""
        self.havoc = on

    def any_value(self, kind, x):
        v = self.fresh("any_" + kind)
        if kind == "sqrt": self.add(v > 0)
        return SymReal(v, nn=kind == "sqrt")

    def _local(self, e):
        """is e implied by the definitions of its auxiliary variables alone?"""
        vs = {v for v in vars_of(e) if v not in self.inputs}
        sel, seen = [], set()
        while True:
            new = [c for c in self.cons if c.get_id() not in seen and vars_of(c) & vs]
            if not new: break
            for c in new:
                seen.add(c.get_id()); sel.append(c)
                vs |= {v for v in vars_of(c) if v not in self.inputs}
            if len(sel) > 40: return False
        return self.solver.check(sel + [z3.Not(e)], ms=1500)[0] == "unsat"

    def _anglinks(self, a):
        if self.unlinked: return
        for b in self.angles:
            if b is not a: self.angle_order(a, b)

    def acos(self, x):
        def mk(e):
            for a in self.angles:
                if a.lo is not None and z3.eq(zr(a.c), e) and a.lo >= -1e-12 and a.hi <= PI + 1e-12:
                    return SymReal(a.e, ang=(a, 1, 0.0), nn=True)
            if not (self.unlinked and self._local(e <= 1) and self._local(e >= -1)) and not self.decide(z3.And(e <= 1, e >= -1)):
                return float("nan")
            s = self.sqrt(SymReal(1 - e * e), nonneg=True)
            v = self.fresh("acos")
            self.add(z3.And(v >= 0, v <= lit(PI)))
            a = self._mk_angle(v, 0.0, PI, None, s=s, c=SymReal(e))
            self._anglinks(a)
            return SymReal(v, ang=(a, 1, 0.0), nn=True)
        return self._inv("acos", x, mk)

    def atan(self, x):
        def mk(e):
            tag = self.freshname("atan")
            v = self._var(tag)
            self.add(z3.And(v >= lit(-HPI), v <= lit(HPI)))
            if z3.is_div(e):
                num, den = e.arg(0), e.arg(1)
                rad = self._poly_root(num * num + den * den)     # e.g. components of a unit vector
                if isconc_real(rad) and rad > 0:
                    sg = z3.If(den > 0, z3.RealVal(1), z3.RealVal(-1))
                    if z3.is_true(z3.simplify(den > 0)) or self._prove(den > 0): sg = z3.RealVal(1)
                    elif self._prove(den < 0): sg = z3.RealVal(-1)
                    k = lit(1.0 / rad)
                    a = self._mk_angle(v, -HPI, HPI, None, s=SymReal(num * sg * k), c=SymReal(den * sg * k, nn=True))
                    self.add(zr(a.c) > 0)
                    self._anglinks(a)
                    for q in (0.0,): self.angle_const(a, q)
                    return SymReal(v, ang=(a, 1, 0.0), nn=x.nn)
            a = self._mk_angle(v, -HPI, HPI, tag)
            self.add(zr(a.c) > 0)
            self.add(zr(a.s) == e * zr(a.c))
            self._anglinks(a)
            return SymReal(v, ang=(a, 1, 0.0), nn=x.nn)
        return self._inv("atan", x, mk)

    def atan2(self, y, x):
        if not is_sym(y) and not is_sym(x):
            return math.atan2(y, x)
        ye, xe = z3.simplify(zr(y)), z3.simplify(zr(x))
        k = ("atan2", ye.get_id(), xe.get_id())
        if k in self.cache: return self.cache[k][0]
        # (sin θ * r, cos θ * r) of a known angle
        for a in self.angles:
            if a.lo is not None and a.lo >= -PI and a.hi <= PI and z3.eq(zr(a.s), ye) and z3.eq(zr(a.c), xe):
                r = SymReal(a.e, ang=(a, 1, 0.0))
                self.cache[k] = (r, ye, xe)
                return r
        if self.decide(z3.And(ye == 0, xe == 0)):
            self.cache[k] = (0.0, ye, xe)
            return 0.0
        rad = self.sqrt(SymReal(z3.simplify(xe * xe + ye * ye)), nonneg=True)
        tag = self.freshname("atan2")
        v = self._var(tag)
        self.add(z3.And(v >= lit(-PI), v <= lit(PI)))
        if isconc_real(rad) and rad == 1:
            a = self._mk_angle(v, -PI, PI, None, s=SymReal(ye), c=SymReal(xe))
        else:
            a = self._mk_angle(v, -PI, PI, tag)
            self.add(zr(a.s) * zr(rad) == ye)
            self.add(zr(a.c) * zr(rad) == xe)
            self.add((zr(a.s) > 0) == (ye > 0)); self.add((zr(a.s) < 0) == (ye < 0))
            self.add((zr(a.c) > 0) == (xe > 0)); self.add((zr(a.c) < 0) == (xe < 0))
        s, c = zr(a.s), zr(a.c)
        self.add(z3.Implies(s > 0, z3.And(v > 0, v < lit(PI))))
        self.add(z3.Implies(s < 0, z3.And(v < 0, v > lit(-PI))))
        self.add(z3.Implies(z3.And(s == 0, c > 0), v == 0))
        self.add(z3.Implies(z3.And(s == 0, c < 0), v == lit(PI)))
        self.add((c > 0) == z3.And(v > lit(-HPI), v < lit(HPI)))
        self.add((c < 0) == z3.Or(v < lit(-HPI), v > lit(HPI)))
        r = SymReal(v, ang=(a, 1, 0.0))
        self.cache[k] = (r, ye, xe)
        return r

    casin = {}

    def casin_(self, x):
        """complex arcsine: only its cosine/sine are available afterwards"""
        if isconc_real(x.im) and x.im == 0 and is_sym(x.re):
            if self.decide(z3.And(zr(x.re) <= 1, zr(x.re) >= -1)):
                return core.tocplx(self.asin(x.re))
        r = SymComplex(self.real(self.freshname("casin_re")), self.real(self.freshname("casin_im")))
        one = mkcplx(1.0, 0.0, True) if False else 1.0
        c = self.csqrt(core.tocplx(one - x * x))
        self.casin = dict(self.casin)
        self.casin[id(r)] = (x, c)
        self.cache[("keep", id(r))] = r
        return r

    def rounded(self, x, n):
        e = z3.simplify(x.e)
        k = ("round", n, e.get_id())
        if k in self.cache: return self.cache[k][0]
        v = self.fresh("round")
        h = lit(0.5 * 10.0 ** (-n))
        self.add(z3.And(v - e <= h, e - v <= h))
        L = self.rounds.setdefault(n, [])
        for (e2, v2) in L:
            self.add(z3.Implies(e <= e2, v <= v2)); self.add(z3.Implies(e >= e2, v >= v2))
            # rounded values lie on a grid: they are equal or at least one step apart
            st = lit(10.0 ** (-n))
            self.add(z3.Or(v == v2, v - v2 >= st - lit(1e-12), v2 - v >= st - lit(1e-12)))
        L.append((e, v))
        r = SymReal(v)
        self.cache[k] = (r, e)
        return r

    # ------------------------------------------------------------ harness API
    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond: raise PathAbort()
            return
        e = zb(cond)
        if self.replaying:
            self.add(e)
            return
        if self._eval(e) is True:
            self.cons.append(e)
            return
        # infeasible assumption -> cut path
        r, m = self.query(e)
        if r == "unsat": raise PathAbort()
        self.add(e)
        if r == "sat": self.upd(m)

    def _assert(self, name, good, big=None, shown=()):
        self.ex.asserts_seen[name] = self.ex.asserts_seen.get(name, 0) + 1
        self.st.obligations += 1
        if isinstance(good, (bool, np.bool_)):
            good = z3.BoolVal(bool(good))
        g = z3.simplify(good)
        if z3.is_true(g):
            self.st.discharged += 1
            self.st.trivial += 1
            return
        self.asserts.append((name, g, big, len(self.cons)))

    def true(self, name, cond):
        if isinstance(cond, (bool, np.bool_)):
            self._assert(name, bool(cond))
        else:
            self._assert(name, zb(cond))

    def eq(self, name, a, b, tol=1e-6):
        if a is b:
            return self._assert(name, True)
        if isinstance(a, (complex, np.complexfloating, SymComplex)) or isinstance(b, (complex, np.complexfloating, SymComplex)):
            (ar, ai), (br, bi) = parts(a), parts(b)
            self.eq(name, ar, br, tol); self.eq(name, ai, bi, tol)
            return
        if not is_sym(a) and not is_sym(b):
            return self._assert(name, _close(a, b, tol))
        if (not is_sym(a) and not _finite(a)) or (not is_sym(b) and not _finite(b)):
            return self._assert(name, False)
        d = z3.simplify(zr(a) - zr(b), som=True)
        if not z3.is_rational_value(d) and self.normal.rules:
            d2 = self.normal.canon(d)
            if z3.is_rational_value(d2) or upper(d2, self.bnd) is not None: d = d2
        if z3.is_rational_value(d):
            return self._assert(name, abs(val_float(d)) <= tol)
        u, v = upper(d, self.bnd), upper(d, self.bnd, True)
        if u is not None and v is not None and u <= tol and v <= tol: return self._assert(name, True)
        t = lit(tol)
        big = lit(max(1e-3, tol * 100))
        self._assert(name, z3.And(d <= t, d >= -t), z3.Or(d > big, d < -big))

    def le(self, name, a, b, tol=1e-6):
        if not is_sym(a) and not is_sym(b):
            return self._assert(name, bool(a <= b + tol))
        if (not is_sym(a) and not _finite(a)) or (not is_sym(b) and not _finite(b)):
            return self._assert(name, bool(a <= b))
        d = z3.simplify(zr(a) - zr(b), som=True)
        u = upper(d, self.bnd)
        if u is not None and u <= tol: return self._assert(name, True)
        if _mul_count(d):
            for cc in reversed(self.cons):          # the goal is one of the path conditions up to rounding
                p = _ineq(cc)
                if p is None: continue
                u = upper(z3.simplify(zr(a) - zr(b) - (p[0] - p[1]), som=True), self.bnd)
                if u is not None and u <= tol: return self._assert(name, True)
        self._assert(name, d <= lit(tol), d > lit(max(1e-3, tol * 100)))

    def ge(self, name, a, b, tol=1e-6):
        self.le(name, b, a, tol)

    def arr_eq(self, name, A, B, tol=1e-6):
        A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
        if A.shape != B.shape:
            self.true(name + ".shape", False); return
        for x, y in zip(A.ravel(), B.ravel()):
            self.eq(name, x, y, tol)

    def limit_decisions(self, k):
        """bound: paths taking more than k two-sided decisions from here on are not followed"""
        self.dec_limit, self.dec_base = k, len(self.trace)

    def observe(self, **kw):
        self.observed.append(kw)

    def note(self, msg):
        self.ex.notes[msg] = self.ex.notes.get(msg, 0) + 1

    def skip(self, why):
        self.ex.skips[why] = self.ex.skips.get(why, 0) + 1
        raise PathAbort()

    # ------------------------------------------------------------ end of path
    def exception(self, exc):
        name = "exception:" + exc[0]
        self.ex.asserts_seen[name] = self.ex.asserts_seen.get(name, 0) + 1
        self.st.obligations += 1
        self.asserts.append((name, z3.BoolVal(False), None, len(self.cons)))
        self.ex.notes.setdefault("exception " + exc[0] + ": " + exc[1], 0)
        self.last_exc = exc

    def concretise_inputs(self, model):
        """float values for the harness inputs under a (full) model"""
        vals = {}
        ev = lambda n: model.get(n)
        for name, kind in self.inputs.items():
            if kind[0] == "lazy":
                m = ev(name)
                if m is not None: vals[name] = val_float(m)
            elif kind[0] == "real":
                m = ev(name)
                vals[name] = val_float(m) if m is not None else None
            elif kind[0] == "angle":
                lo, hi = kind[1], kind[2]
                s, c, e = ev("sin(%s)" % name), ev("cos(%s)" % name), ev(name)
                if s is not None and c is not None:
                    t = math.atan2(val_float(s), val_float(c))
                    cand = [t + 2 * PI * k for k in (-2, -1, 0, 1, 2, 3)]
                    ok = [x for x in cand if lo - 1e-9 <= x <= hi + 1e-9]
                    if e is not None and len(ok) > 1:
                        ok.sort(key=lambda x: abs(x - val_float(e)))
                    t = ok[0] if ok else t
                    if e is not None and abs(t - val_float(e)) < 1e-9: t = val_float(e)
                    vals[name] = min(max(t, lo), hi)
                elif e is not None:
                    vals[name] = val_float(e)
                else:
                    vals[name] = None
        return vals

    def _ground(self, extra):
        """a full model of pc ∧ extra (all slices)"""
        full = {}
        # split constraints in connected components
        cons = list(self.cons) + list(extra)
        comps = _components(cons)
        for comp in comps:
            r, m = self.solver.check(comp)
            if r == "unknown":
                r, m = self.solver.check(comp, slow=True)
            if r != "sat":
                return r, None
            full.update(m)
        return "sat", full

    def finish(self):
        ex = self.ex
        # group by slice
        pend = list(self.asserts)
        if pend:
            groups = {}
            for a in pend:
                sel = self.slice(a[1])
                key = frozenset(c.get_id() for c in sel)
                groups.setdefault(key, (sel, []))[1].append(a)
            for sel, items in groups.values():
                self._discharge(sel, items)
        if len(ex.witnesses) < ex.max_witness and not any(a[0].startswith("exception") for a in pend):
            r, m = self._ground([])
            if r == "sat":
                ex.witnesses.append((self.concretise_inputs(m), len(self.trace)))
            elif r == "unsat":
                self.st.paths -= 1
                self.st.aborted += 1

    def _discharge(self, sel, items):
        ex = self.ex
        B = 24
        for i in range(0, len(items), B):
            chunk = items[i:i + B]
            if len(chunk) > 1:
                bad = z3.Or(*[z3.Not(a[1]) for a in chunk])
                r, m = self.solver.check(sel + [bad])
                if r == "unsat":
                    self.st.discharged += len(chunk)
                    continue
            for a in chunk:
                self._one(sel, a)

    def _one(self, sel, a):
        ex = self.ex
        name, good, big, _ = a
        bad = z3.simplify(z3.Not(good))
        r, m = self.solver.check(sel + [bad])
        if r == "unknown":
            r, m = self.solver.check(sel + [bad], slow=True)
        if r == "unsat":
            self.st.discharged += 1
            return
        if r == "unknown":
            fx = self._partial(bad)
            if fx is not None:
                detail = self.last_exc[1] + "\n" + self.last_exc[2] if name.startswith("exception") else ""
                ex.candidates.append(Candidate(name, fx, detail, path=len(self.trace)))
                return
            self.st.unknown += 1
            ex.unknowns.append((name, "solver gave no answer"))
            return
        # is the whole path feasible?  find concrete inputs, preferring a wide margin
        got = []
        for extra in ([bad, big] if big is not None else None, [bad]):
            if extra is None: continue
            rr, full = self._ground(extra)
            if rr == "sat":
                got.append(self.concretise_inputs(full))
                # alternative models: push inputs apart from the first one
                for alt in self._variants(full, extra):
                    got.append(alt)
                break
            if rr == "unsat" and extra == [bad]:
                self.st.discharged += 1        # the path itself is infeasible
                return
        if not got:
            self.st.unknown += 1
            ex.unknowns.append((name, "no ground model"))
            return
        detail = ""
        if name.startswith("exception"):
            detail = self.last_exc[1] + "\n" + self.last_exc[2]
        ex.candidates.append(Candidate(name, got, detail, path=len(self.trace)))

    def _partial(self, bad):
        """counterexample search after a timeout: fix all inputs but one to values in range and let the solver finish"""
        import random
        rng = random.Random(len(self.trace) * 7919 + len(self.cons))
        ins = [(n, k) for n, k in self.inputs.items() if k[0] in ("real", "angle") and n in self.ex.vars_seen]
        if not ins: return None
        for t in range(6):
            keep = ins[t % len(ins)][0] if len(ins) > 1 else None
            fix = []
            for n, k in ins:
                if n == keep: continue
                lo, hi = k[1], k[2]
                if k[0] == "angle":
                    x = lo + (hi - lo) * rng.randint(1, 63) / 64.0
                    sv, cv = self.ex.vars_seen.get("sin(%s)" % n), self.ex.vars_seen.get("cos(%s)" % n)
                    if sv is None or cv is None: continue
                    if abs(x - PI) < 1e-6: continue
                    h = lit(round(math.tan(x / 2) * 64) / 64.0)
                    den = 1 + h * h
                    fix += [sv == z3.simplify(2 * h / den), cv == z3.simplify((1 - h * h) / den)]
                else:
                    if lo is None or hi is None or not (math.isfinite(lo) and math.isfinite(hi)): continue
                    w = hi - lo
                    x = lo + w * rng.randint(1, 63) / 64.0
                    fix.append(self.ex.vars_seen[n] == lit(round(x * 1024) / 1024.0 if w > 0.01 else x))
            full = {}
            for comp in _components(list(self.cons) + [bad] + fix):
                r, m = self.solver.check(comp, ms=700)
                if r != "sat": break
                full.update(m)
            else:
                return [self.concretise_inputs(full)]
        return None

    def _variants(self, full, extra):
        """further models away from boundaries: nudge strict margins on the linear path conditions"""
        out = []
        cons = []
        for c in self.cons:
            c2 = _margin(c, lit(1e-4))
            cons.append(c2 if c2 is not None else c)
        comps = _components(cons + list(extra))
        m2 = {}
        ok = True
        for comp in comps:
            r, m = self.solver.check(comp)
            if r != "sat":
                # fall back to the unshifted component
                ok = False
                break
            m2.update(m)
        if ok: out.append(self.concretise_inputs(m2))
        return out


def _margin(c, d):
    """strengthened version of an inequality (None if not an inequality)"""
    neg = False
    if z3.is_not(c):
        neg = True
        c = c.arg(0)
    if z3.is_and(c) and not neg:
        xs = [_margin(x, d) for x in c.children()]
        return z3.And(*[x if x is not None else y for x, y in zip(xs, c.children())])
    if z3.is_le(c) or z3.is_lt(c):
        a, b = c.arg(0), c.arg(1)
    elif z3.is_ge(c) or z3.is_gt(c):
        b, a = c.arg(0), c.arg(1)
    else:
        return None
    if neg: a, b = b, a
    return a + d <= b


def upper(d, bnd, neg=False):
    """upper bound of a sum of monomials (of its negation) by interval arithmetic over the variables' bounds (None: unbounded)"""
    tot = 0.0
    for m in (d.children() if z3.is_add(d) else [d]):
        lo = hi = -1.0 if neg else 1.0
        for x in _factors(m):
            n = 1
            if z3.is_rational_value(x): l = h = val_float(x)
            else:
                if x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)):
                    n, x = int(val_float(x.arg(1))), x.arg(0)
                if not z3.is_const(x): return None
                l, h = bnd.get(x.decl().name(), (-INF, INF))
                if n % 2 == 0 and l < 0: return None
            for _ in range(n):
                c = [0.0 if (p == 0 or q == 0) else p * q for p in (lo, hi) for q in (l, h)]
                lo, hi = min(c), max(c)
        if hi == INF: return None
        tot += hi
    return tot + 1e-13 * (1 + abs(tot))


def _factors(m):
    if not z3.is_mul(m): return [m]
    r = []
    for x in m.children(): r += _factors(x)
    return r


def _mul_count(d):
    return any(sum(1 for x in _factors(m) if not z3.is_rational_value(x)) > 1 for m in (d.children() if z3.is_add(d) else [d]))


def _ineq(c):
    """(a, b) with a <= b for an inequality constraint, else None"""
    neg = z3.is_not(c)
    if neg: c = c.arg(0)
    if z3.is_le(c) or z3.is_lt(c): a, b = c.arg(0), c.arg(1)
    elif z3.is_ge(c) or z3.is_gt(c): b, a = c.arg(0), c.arg(1)
    else: return None
    return (b, a) if neg else (a, b)


def round_numerals(e):
    """numerals rounded to 12 significant digits, so that different floating-point orders of evaluation meet"""
    if z3.is_rational_value(e):
        v = val_float(e)
        return lit(float("%.12g" % v))
    if e.num_args() == 0: return e
    ch = [round_numerals(x) for x in e.children()]
    if all(z3.eq(a, b) for a, b in zip(ch, e.children())): return e
    return e.decl()(*ch)


def _components(cons):
    """split a constraint list into variable-connected components"""
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    ground = []
    for c in cons:
        vs = list(vars_of(c))
        if not vs:
            ground.append(c); continue
        for v in vs[1:]:
            parent[find(v)] = find(vs[0])
        find(vs[0])
    comps = {}
    for c in cons:
        vs = list(vars_of(c))
        if vs: comps.setdefault(find(vs[0]), []).append(c)
    out = list(comps.values())
    if ground: out.append(ground)
    return out


def _finite(x):
    try:
        return bool(np.isfinite(x))
    except TypeError:
        return False


def _close(a, b, tol):
    try:
        a, b = complex(a), complex(b)
    except (TypeError, ValueError):
        return a == b
    if not (np.isfinite(a) and np.isfinite(b)): return False
    return abs(a - b) <= tol


# ------------------------------------------------------------------ concrete twin
class ReplayAbort(BaseException):
    pass


class ConcCtx(Env):
    """the harness, with one concrete assignment, on the unmodified code"""
    symbolic = False

    def __init__(self, vals):
        self.vals = dict(vals)
        self.failed = []
        self.checked = 0
        self.seen = {}
        self.tags = {}
        self.observed = []
        self.undos = []
        self.nrand = 0

    def lazy_real(self, tag):
        v = self.vals.get(self.freshname(tag))
        return 0.0 if v is None else float(v)

    def rand(self):
        self.nrand += 1
        v = self.vals.get(self.freshname("rand"))
        return 0.5 if v is None else min(max(float(v), 0.0), 1.0 - 2.0 ** -53)

    def _default(self, lo, hi):
        if lo is not None and hi is not None: return (lo + hi) / 2.0
        if lo is not None: return lo + 1.0
        if hi is not None: return hi - 1.0
        return 0.5

    def freshname(self, tag):
        k = self.tags.get(tag, 0)
        self.tags[tag] = k + 1
        return "%s!%d" % (tag, k)

    def real(self, name, lo=None, hi=None, strict=False):
        v = self.vals.get(name)
        if v is None:
            v = self._default(lo, hi)
            self.vals[name] = v
        if lo is not None and v < lo: v = lo
        if hi is not None and v > hi: v = hi
        return float(v)

    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int): shape = (shape,)
        out = np.empty(shape)
        for ix in np.ndindex(*shape):
            out[ix] = self.real(name + "".join("_%d" % i for i in ix), lo, hi)
        return out

    def angle(self, name, lo=0.0, hi=2 * PI):
        return self.real(name, lo, hi)

    def flag(self, name):
        v = self.vals.get(name)
        return False if v is None else v > 0.5

    def pick(self, name, n):
        for k in range(n - 1):
            if self.flag("%s_is%d" % (name, k)): return k
        return n - 1

    def assume(self, cond):
        if not bool(cond): raise ReplayAbort("assume")

    def _rec(self, name, ok, msg=""):
        self.checked += 1
        if not ok: self.failed.append((name, msg))

    def true(self, name, cond):
        self._rec(name, bool(cond), "false")

    def eq(self, name, a, b, tol=1e-6):
        if a is b: return self._rec(name, True)
        self._rec(name, _close(a, b, tol * 0.5), "got %r, expected %r" % (a, b))

    def le(self, name, a, b, tol=1e-6):
        self._rec(name, bool(a <= b + tol * 0.5), "%r > %r" % (a, b))

    def ge(self, name, a, b, tol=1e-6):
        self.le(name, b, a, tol)

    def arr_eq(self, name, A, B, tol=1e-6):
        A, B = np.asarray(A), np.asarray(B)
        if A.shape != B.shape:
            self._rec(name + ".shape", False, "%s vs %s" % (A.shape, B.shape)); return
        for x, y in zip(A.ravel(), B.ravel()):
            self.eq(name, x, y, tol)

    def observe(self, **kw):
        self.observed.append(kw)

    def note(self, msg): pass

    def limit_decisions(self, k): pass

    def unlink_angles(self): pass
    def forget_roots(self, on=True): pass

    def skip(self, why):
        raise ReplayAbort("skip " + why)
