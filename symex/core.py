"""
Path-exploring symbolic executor for Python code (core: explorer + scalar
proxies).

The code under test is the real pdr source, loaded through the AST rewriter
in `rewrite.py`.  Inputs are proxy objects wrapping z3 terms.  Every branch on
a symbolic condition asks z3 which sides are feasible; the explorer visits
every feasible side by depth-first replay of decision prefixes.  `Sx.check`
asks z3 for the negation of the property under the path condition.
"""
from __future__ import annotations

import time
from fractions import Fraction

import z3

from . import domains

from . import poly


class PathStop(BaseException):
    """Base of everything that ends a path without ending the exploration."""


class PathInfeasible(PathStop):
    """An assumption is unsatisfiable on this path."""


class PathCut(PathStop):
    """A bound of the exploration was reached; the path is incomplete."""


class Limit(PathCut):
    """the code did something the engine does not model: the path is cut"""

    def __init__(self, what="not modelled"):
        super().__init__(what)
        if CUR is not None:
            CUR.note("engine limit: " + what)


class BudgetExceeded(BaseException):
    """The harness ran out of its time budget."""


CUR = None  # the active Explorer


def cur():
    return CUR


# ----------------------------------------------------------------- explorer
class Explorer:
    def __init__(
        self, budget_s=60.0, max_paths=20000, query_timeout_ms=20000,
        enum_cap=64, max_depth=4000, seed=1,
    ):
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.enum_cap = enum_cap
        self.max_depth = max_depth
        self.query_timeout_ms = query_timeout_ms
        self.seed = seed
        # statistics
        self.n_paths = 0            # complete paths
        self.n_cut = 0              # paths ended by a bound
        self.n_infeasible = 0       # paths ended by an assumption
        self.n_forks = 0
        self.n_queries = 0
        self.n_checks = 0           # property queries
        self.n_unsat = 0            # property queries discharged
        self.n_unknown = 0
        self.n_trivial = 0          # property obligations closed by simplification
        self.solver_s = 0.0
        self.cex = []               # [(label, inputs)]
        self.witnesses = []         # [inputs] one per complete path
        self.cut_witnesses = []     # [inputs] of some paths that were cut
        self.notes = {}
        self.exhausted = False
        self.max_cex = 4
        self.trail = []

    # -- solver plumbing
    def _check(self, *assumptions):
        self.n_queries += 1
        if time.time() > self.deadline:
            raise BudgetExceeded()
        t = time.time()
        r = self.solver.check(*assumptions)
        self.solver_s += time.time() - t
        if r == z3.unknown:
            self.n_unknown += 1
        return r

    def begin(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_timeout_ms)
        self.solver.set("random_seed", self.seed)
        self.pos = 0
        self.model = None
        self.inputs = {}
        self.fresh = 0
        self.path_flags = set()
        self.depth = 0
        self.const_hash = False
        self.reached = 0
        self.state = {}
        self.small = []
        self.bounds = {}            # variable id -> (variable, low, high)
        self.domains = {}           # variable id -> bit mask of possible values
        self.tangled = set()        # variables in constraints with others

    # -- variables with small domains: branches on a single one of them are
    # decided from the set of values it can still take
    def small_domain(self, var, codes):
        mask = 0
        for c in codes:
            mask |= 1 << c
        domains.keep(var)
        self.domains[var.get_id()] = mask
        self.solver.add(domains.member(var, mask))
        self.model = None

    def _assert(self, expr):
        self.solver.add(expr)
        if not self.domains:
            return
        vm = domains.predicate(expr)
        if vm is not None and vm[0] in self.domains:
            self.domains[vm[0]] &= vm[1]
        else:
            self.tangled |= domains.variables(expr)

    def small_model(self, extra=None):
        """prefer small values in reported inputs (replayability)"""
        if not self.small:
            return None
        for k in (3, 9, 40, 300):
            cons = [z3.And(e >= -k, e <= k) for e in self.small]
            r = self._check(*([extra] if extra is not None else []), *cons)
            if r == z3.sat:
                return self.solver.model()
        return None

    def add(self, expr):
        self._assert(expr)
        if self.model is not None:
            v = self.model.eval(expr, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def _model(self):
        """A model of the current path condition (or None if unsat)."""
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                return None
            if r == z3.unknown:
                self.note("unknown feasibility")
                raise PathCut()
            self.model = self.solver.model()
        return self.model

    def note(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1
        self.path_flags.add(what)

    # -- decisions
    def decide(self, expr):
        """Fork on a boolean z3 term; returns a Python bool."""
        if isinstance(expr, bool):
            return expr
        free = False
        if self.domains:
            vm = domains.predicate(expr)
            if vm is not None and vm[0] in self.domains:
                dom = self.domains[vm[0]]
                hit = dom & vm[1]
                if hit == dom:
                    return True
                if not hit:
                    return False
                free = vm[0] not in self.tangled
        if not free:
            expr = z3.simplify(expr)
            if z3.is_true(expr):
                return True
            if z3.is_false(expr):
                return False
        if self.pos < len(self.trail):
            entry = self.trail[self.pos]
            self.pos += 1
            take = entry["take"]
            self._assert(expr if take else z3.Not(expr))
            self.model = None
            return take
        if free:
            # the variable is in no other constraint: both sides are possible
            self.depth += 1
            if len(self.trail) > self.max_depth:
                self.note("depth bound")
                raise PathCut()
            if time.time() > self.deadline:
                raise BudgetExceeded()
            first = True
            if self.model is not None:
                first = z3.is_true(self.model.eval(expr, model_completion=True))
            self.n_forks += 1
            self.trail.append({"take": first, "alt": True})
            self.pos += 1
            self._assert(expr if first else z3.Not(expr))
            return first
        self.depth += 1
        if len(self.trail) > self.max_depth:
            self.note("depth bound")
            raise PathCut()
        m = self._model()
        if m is None:
            raise PathInfeasible()
        first = z3.is_true(m.eval(expr, model_completion=True))
        other = z3.Not(expr) if first else expr
        r = self._check(other)
        alt = r != z3.unsat
        if r == z3.unknown:
            self.note("unknown branch feasibility")
        if alt:
            self.n_forks += 1
        self.trail.append({"take": first, "alt": alt})
        self.pos += 1
        self._assert(expr if first else z3.Not(expr))
        # the current model satisfies the side taken
        return first

    def pick(self, expr, to_py, cap=None):
        """
        Concretise a z3 term by exhaustive enumeration: pick a value from the
        model, fork on equality with it; on the other side pick again.
        """
        cap = cap or self.enum_cap
        expr = z3.simplify(expr)
        v = to_py(expr)
        if v is not None:
            return v
        n = 0
        while True:
            n += 1
            if n > cap:
                self.note("enumeration cap")
                raise PathCut()
            if self.pos < len(self.trail):
                value = self.trail[self.pos]["value"]
            else:
                m = self._model()
                if m is None:
                    raise PathInfeasible()
                value = m.eval(expr, model_completion=True)
            # inline decide() so the value is stored in the trail entry
            eq = expr == value
            if self.pos < len(self.trail):
                entry = self.trail[self.pos]
                self.pos += 1
                self._assert(eq if entry["take"] else z3.Not(eq))
                self.model = None
                take = entry["take"]
            else:
                r = self._check(z3.Not(eq))
                alt = r != z3.unsat
                if alt:
                    self.n_forks += 1
                self.trail.append({"take": True, "alt": alt, "value": value})
                self.pos += 1
                self._assert(eq)
                take = True
            if take:
                return to_py(value)

    def implied(self, expr):
        """True or False if the path decides an expression, else None"""
        if isinstance(expr, bool):
            return expr
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        if self._check(z3.Not(expr)) == z3.unsat:
            return True
        return False if self._check(expr) == z3.unsat else None

    def assume(self, expr):
        if isinstance(expr, bool):
            if not expr:
                raise PathInfeasible()
            return
        self.add(expr)
        if self.pos >= len(self.trail) and self._model() is None:
            raise PathInfeasible()

    # -- property
    def prove(self, expr, label):
        """Is expr true for every value on this path?"""
        self.reached += 1
        self.n_checks += 1
        if isinstance(expr, bool):
            if expr:
                self.n_unsat += 1
                self.n_trivial += 1
                return True
            m = self.small_model() or self._model()
            if m is None:
                raise PathInfeasible()
            self.report(label, m)
            return False
        simp = z3.simplify(expr, som=True)
        if z3.is_true(simp):
            self.n_unsat += 1
            self.n_trivial += 1
            return True
        r = self._check(z3.Not(expr))
        if r == z3.unsat:
            self.n_unsat += 1
            return True
        if r == z3.unknown:
            self.note(f"inconclusive: {label}")
            return None
        m = self.solver.model()
        self.report(label, self.small_model(z3.Not(expr)) or m)
        return False

    def report(self, label, model):
        self.cex.append(
            {"label": label, "inputs": self.decode(model),
             "flags": sorted(self.path_flags)}
        )

    def cut_witness(self):
        """inputs that lead to the place where a path was cut"""
        if len(self.cut_witnesses) >= 40:
            return
        try:
            m = self.small_model() or self._model()
        except PathStop:
            return
        if m is not None:
            self.cut_witnesses.append(self.decode(m))

    def decode(self, model):
        out = {}
        for name, (kind, payload) in self.inputs.items():
            out[name] = kind(model, payload)
        return out

    # -- main loop
    def explore(self, body):
        global CUR
        self.t0 = time.time()
        self.deadline = self.t0 + self.budget_s
        self.trail = []
        CUR = self
        try:
            while True:
                self.begin()
                try:
                    body()
                    m = self.small_model() or self._model()
                    if m is not None:
                        self.n_paths += 1
                        self.witnesses.append(self.decode(m))
                except PathInfeasible:
                    self.n_infeasible += 1
                except PathCut:
                    self.n_cut += 1
                    self.cut_witness()
                if len(self.cex) >= self.max_cex:
                    break
                while self.trail and not self.trail[-1]["alt"]:
                    self.trail.pop()
                if not self.trail:
                    self.exhausted = True
                    break
                last = self.trail[-1]
                last["take"] = not last["take"]
                last["alt"] = False
                if self.n_paths + self.n_cut + self.n_infeasible >= self.max_paths:
                    self.note("path bound")
                    break
                if time.time() > self.deadline:
                    self.note("time budget")
                    break
        except BudgetExceeded:
            self.note("time budget")
        finally:
            CUR = None
        self.wall_s = time.time() - self.t0


# ------------------------------------------------------------------ helpers
def py_int(v):
    return v.as_long() if z3.is_int_value(v) else None


def py_real(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        w = v.approx(20)
        return Fraction(w.numerator_as_long(), w.denominator_as_long())
    return None


def py_bool(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


class Sym:
    """Base class of all proxies."""
    __slots__ = ()


def is_sym(x):
    return isinstance_real(x, Sym)


def isinstance_real(x, cls):
    return issubclass(type(x), cls)


def has_sym(x, depth=3):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if depth == 0:
        return False
    if t in (list, tuple, set, frozenset):
        return any(has_sym(i, depth - 1) for i in x)
    if t is dict:
        return any(has_sym(v, depth - 1) for v in x.values()) or any(
            has_sym(k, depth - 1) for k in x
        )
    return False


def zint(x):
    """z3 Int (or python int) from int-like."""
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance_real(x, bool):
        return z3.IntVal(int(x))
    if isinstance_real(x, int):
        return z3.IntVal(x)
    if hasattr(x, "dtype") and getattr(x.dtype, "kind", "") in "iub" and x.ndim == 0:
        return z3.IntVal(int(x))
    return None


def zreal(x):
    if type(x) is SymReal:
        return x.e
    if type(x) is float or type(x).__name__ in ("float64", "float32"):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            return None
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if type(x) is Fraction:
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    i = zint(x)
    if i is not None:
        return z3.ToReal(i)
    return None


def zbool(x):
    if type(x) is SymBool:
        return x.e
    if type(x) is bool:
        return z3.BoolVal(x)
    if z3.is_bool(x) if isinstance_real(x, z3.ExprRef) else False:
        return x
    if type(x) is SymInt:
        return x.e != 0
    return z3.BoolVal(bool(x))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CUR.decide(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def _lift(self, o):
        if type(o) is SymBool:
            return o.e
        if isinstance_real(o, bool) or type(o).__name__ == "bool_":
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        v = self._lift(o)
        if v is None:
            return NotImplemented
        return mkbool(z3.simplify(z3.And(self.e, v)))

    __rand__ = __and__

    def __or__(self, o):
        v = self._lift(o)
        if v is None:
            return NotImplemented
        return mkbool(z3.simplify(z3.Or(self.e, v)))

    __ror__ = __or__

    def __xor__(self, o):
        v = self._lift(o)
        if v is None:
            return NotImplemented
        return mkbool(z3.simplify(z3.Xor(self.e, v)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.simplify(z3.Not(self.e)))

    def __eq__(self, o):
        v = self._lift(o)
        if v is not None:
            return mkbool(z3.simplify(self.e == v))
        if isinstance_real(o, (int, float)) or type(o) in (SymInt, SymReal):
            return self._int() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if type(r) is bool else ~r

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __repr__(self):
        return f"<SymBool {self.e}>"

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return format(bool(self), spec)


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "lt", "le", "gt", "ge",
           "floordiv", "truediv", "mod", "neg"):
    def _mk(n):
        def f(self, *a):
            return getattr(self._int(), f"__{n}__")(*a)
        return f
    setattr(SymBool, f"__{_n}__", _mk(_n))


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def int_eq(a, b):
    if isinstance_real(a, z3.ExprRef) and isinstance_real(b, z3.ExprRef) \
            and poly.equal(a, b):
        return z3.BoolVal(True)
    return a == b


class SymInt(Sym):
    """Mathematical integer (Python int semantics)."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    # numbers.Integral attributes
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def _bin(self, o, fi, fr, swap=False):
        v = zint(o)
        if v is not None:
            a, b = (v, self.e) if swap else (self.e, v)
            return fi(a, b)
        v = zreal(o)
        if v is not None:
            s = z3.ToReal(self.e)
            a, b = (v, s) if swap else (s, v)
            return fr(a, b)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: mkint(z3.simplify(a + b)), lambda a, b: SymReal(a + b))

    def __radd__(self, o):
        return self._bin(o, lambda a, b: mkint(z3.simplify(a + b)), lambda a, b: SymReal(a + b), True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: mkint(z3.simplify(a - b)), lambda a, b: SymReal(a - b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: mkint(z3.simplify(a - b)), lambda a, b: SymReal(a - b), True)

    def __mul__(self, o):
        if isinstance_real(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: mkint(z3.simplify(a * b)), lambda a, b: SymReal(a * b))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        v = zreal(o)
        if v is None:
            return NotImplemented
        return real_div(z3.ToReal(self.e), v)

    def __rtruediv__(self, o):
        v = zreal(o)
        if v is None:
            return NotImplemented
        return real_div(v, z3.ToReal(self.e))

    def __floordiv__(self, o):
        v = zint(o)
        if v is None:
            if zreal(o) is not None:
                return (self / o).__floor__to_real()
            return NotImplemented
        return int_floordiv(self.e, v)

    def __rfloordiv__(self, o):
        v = zint(o)
        if v is None:
            return NotImplemented
        return int_floordiv(v, self.e)

    def __mod__(self, o):
        v = zint(o)
        if v is None:
            return NotImplemented
        return int_mod(self.e, v)

    def __rmod__(self, o):
        v = zint(o)
        if v is None:
            return NotImplemented
        return int_mod(v, self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, mod=None):
        k = o if isinstance_real(o, int) else (o.__index__() if type(o) is SymInt else None)
        if k is None:
            return NotImplemented
        if k < 0:
            return 1 / (self ** -k)
        out = 1
        for _ in range(k):
            out = self * out
        return out

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        k = o.__index__()
        return self * (1 << k)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        k = o.__index__()
        return self // (1 << k)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if type(o) in (SymInt, SymBool):
            return bv_op(self, o, lambda a, b: a & b)
        if not isinstance_real(o, int) and not hasattr(o, "__index__"):
            return NotImplemented
        return and_const(self, o.__index__())

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (SymInt, SymBool):
            return bv_op(self, o, lambda a, b: a | b)
        if not isinstance_real(o, int):
            return NotImplemented
        return self + o - (self & o)

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (SymInt, SymBool):
            return bv_op(self, o, lambda a, b: a ^ b)
        if not isinstance_real(o, int):
            return NotImplemented
        return self + o - 2 * (self & o)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __neg__(self):
        return mkint(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        v = zint(o)
        if v is not None:
            return mkbool(z3.simplify(f(self.e, v)))
        if type(o) is float:
            if o != o:
                return None
            if o in (float("inf"), float("-inf")):
                return f(0, 1 if o > 0 else -1)
        v = zreal(o)
        if v is not None:
            return mkbool(z3.simplify(f(z3.ToReal(self.e), v)))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, int_eq)
        return False if r is None or r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: z3.Not(int_eq(a, b)))
        return True if r is None or r is NotImplemented else r

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return False if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return False if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return False if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return False if r is None else r

    def __bool__(self):
        return CUR.decide(self.e != 0)

    def __index__(self):
        return CUR.pick(self.e, py_int)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        return int(self.__index__()).bit_length()

    def __hash__(self):
        if CUR is not None and CUR.const_hash:
            return 7
        return hash(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __str__(self):
        return str(self.__index__())

    def __repr__(self):
        if CUR is None:
            return f"<SymInt {self.e}>"
        return repr(self.__index__())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self


def and_const(x, c):
    """x & c for a Python int constant c (two's complement semantics)."""
    if c == 0:
        return 0
    if c < 0:
        # x & c == x - (x & ~c)
        return x - and_const(x, ~c)
    out, bit = 0, 0
    while c >> bit:
        if not (c >> bit) & 1:
            bit += 1
            continue
        start = bit
        while (c >> bit) & 1:
            bit += 1
        width = bit - start
        out = out + ((x // (1 << start)) % (1 << width)) * (1 << start)
    return out


def bv_op(a, b, f, width=64):
    ea, eb = zint(a), zint(b)
    # non-negative operands below 2**width only
    ok = z3.And(ea >= 0, eb >= 0, ea < 2 ** width, eb < 2 ** width)
    if not CUR.decide(ok):
        return f(int(a), int(b))
    return SymInt(z3.BV2Int(f(z3.Int2BV(ea, width), z3.Int2BV(eb, width))))


def split_div(a, k):
    """(a // k, a % k) by algebra, for a linear combination of variables of
    known range; else None"""
    bounds = CUR.bounds
    if not bounds:
        return None
    p = poly.poly(a)
    q, r, lo, hi = {}, {}, 0, 0
    for m, c in p.items():
        if c.denominator != 1:
            return None
        if m and c % k == 0:
            q[m] = c / k
            continue
        r[m] = c
        if not m:
            lo, hi = lo + c, hi + c
            continue
        b = bounds.get(m[0]) if len(m) == 1 else None
        if b is None:
            return None
        lo += c * (b[1] if c > 0 else b[2])
        hi += c * (b[2] if c > 0 else b[1])
    d = lo // k
    if hi // k != d:
        return None
    one = {(): Fraction(1)}
    q = poly.to_term(poly.add(q, poly.scale(one, d)))
    r = poly.to_term(poly.add(r, poly.scale(one, -d * k)))
    if q is None or r is None:
        return None
    return mkint(z3.simplify(q)), mkint(z3.simplify(r))


def int_floordiv(a, b):
    if CUR.decide(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if not z3.is_int_value(b):
        q = poly.exact_div(poly.poly(a), poly.poly(b))
        q = None if q is None else poly.to_term(q)
        if q is not None:
            return mkint(z3.simplify(q))
    if z3.is_int_value(b):
        k = b.as_long()
        if k > 0:
            s = split_div(a, k)
            return s[0] if s else mkint(z3.simplify(a / b))
        return mkint(z3.simplify((-a) / (-b)))
    if CUR.decide(b > 0):
        return mkint(a / b)
    return mkint((-a) / (-b))


def int_mod(a, b):
    if CUR.decide(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if z3.is_int_value(b) and b.as_long() > 0:
        s = split_div(a, b.as_long())
        return s[1] if s else mkint(z3.simplify(a % b))
    q = int_floordiv(a, b)
    return mkint(z3.simplify(a - zint(q) * b))


def real_div(a, b):
    if CUR.decide(b == 0):
        raise ZeroDivisionError("division by zero")
    if not z3.is_rational_value(b):
        q = poly.exact_div(poly.poly(a), poly.poly(b))
        q = None if q is None else poly.to_term(q)
        if q is not None:
            return SymReal(z3.ToReal(z3.simplify(q)))
    return SymReal(a / b)


class SymReal(Sym):
    """Exact real standing for a Python float (rounding is not modelled)."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def _b(self, o, f, swap=False):
        v = zreal(o)
        if v is None:
            return NotImplemented
        return f(v, self.e) if swap else f(self.e, v)

    def __add__(self, o):
        return self._b(o, lambda a, b: SymReal(a + b))

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: SymReal(a - b))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: SymReal(a - b), True)

    def __mul__(self, o):
        return self._b(o, lambda a, b: SymReal(a * b))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, real_div)

    def __rtruediv__(self, o):
        return self._b(o, real_div, True)

    def __floordiv__(self, o):
        r = self / o
        return r if r is NotImplemented else SymReal(z3.ToReal(z3.ToInt(r.e)))

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __pow__(self, k):
        k = int(k)
        out = 1
        for _ in range(abs(k)):
            out = self * out
        return out if k >= 0 else 1 / out

    def __neg__(self):
        return SymReal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def _c(self, o, f):
        if type(o) is float or type(o).__name__ in ("float64", "float32"):
            o = float(o)
            if o != o:
                return None
            if o in (float("inf"), float("-inf")):
                return f(0, 1 if o > 0 else -1)
        v = zreal(o)
        if v is None:
            return NotImplemented
        return mkbool(z3.simplify(f(self.e, v)))

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is None or r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is None or r is NotImplemented else r

    def __lt__(self, o):
        r = self._c(o, lambda a, b: a < b)
        return False if r is None else r

    def __le__(self, o):
        r = self._c(o, lambda a, b: a <= b)
        return False if r is None else r

    def __gt__(self, o):
        r = self._c(o, lambda a, b: a > b)
        return False if r is None else r

    def __ge__(self, o):
        r = self._c(o, lambda a, b: a >= b)
        return False if r is None else r

    def __bool__(self):
        return CUR.decide(self.e != 0)

    def trunc(self):
        if self.e.decl().kind() == z3.Z3_OP_TO_REAL:
            return mkint(self.e.arg(0))
        return mkint(z3.simplify(
            z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))
        ))

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        return mkint(z3.simplify(z3.ToInt(self.e)))

    def __ceil__(self):
        return mkint(z3.simplify(-z3.ToInt(-self.e)))

    def __round__(self, n=None):
        if n is not None:
            return self
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        return SymInt(z3.If(d < half, f, z3.If(d > half, f + 1,
                      z3.If(f % 2 == 0, f, f + 1))))

    def is_integer(self):
        return mkbool(z3.simplify(z3.IsInt(self.e)))

    def __int__(self):
        t = self.trunc()
        return t if isinstance_real(t, int) else t.__index__()

    def __float__(self):
        return float(CUR.pick(self.e, py_real))

    def __hash__(self):
        if CUR is not None and CUR.const_hash:
            return 7
        return hash(float(self))

    def __format__(self, spec):
        return format(float(self), spec)

    def __repr__(self):
        if CUR is None:
            return f"<SymReal {self.e}>"
        return repr(float(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self


def _ftr(self):
    return SymReal(z3.ToReal(z3.ToInt(self.e)))


SymReal._SymInt__floor__to_real = _ftr
