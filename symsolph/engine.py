"""Symbolic execution engine for real oemof.solph code.

Proxy values (``SymReal``, ``SymInt``, ``SymBool``) carry z3 terms.  They are
registered with Pyomo as native numeric types, so the *real* solph functions
(flow/component/constraint builders, validation, result post-processing) can
be executed with symbolic parameters.  A conditional on a symbolic value forks
the execution; forks are explored by re-execution (depth first), with the
solver pruning infeasible branches.
"""

import itertools
import math
import numbers
import operator
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # pragma: no cover
    # Only z3 is taken from the verification tooling environment.
    sys.path.append(_VT)
    import z3  # noqa: E402

    sys.path.remove(_VT)

import numpy as np
import pyomo.environ as po  # noqa: F401
from pyomo.common.numeric_types import RegisterIntegerType
from pyomo.common.numeric_types import RegisterNumericType

sys.set_int_max_str_digits(0)  # (rationals in models of the solver)

# --------------------------------------------------------------------------
# exceptions used for path steering; BaseException, so that code under test
# can not swallow them with ``except Exception``
# --------------------------------------------------------------------------
class Unsupported(BaseException):
    """Symbolic value reached an operation that needs a concrete value."""

    def __init__(self, what, term=None):
        super().__init__(what)
        self.term = term


class PathInfeasible(BaseException):
    pass


class Budget(BaseException):
    pass


# --------------------------------------------------------------------------
# z3 helpers
# --------------------------------------------------------------------------
class NonFinite(Unsupported):
    """inf or nan where a number is needed"""


def rv(x):
    """Exact z3 rational of a python number."""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if not math.isfinite(x):
            raise NonFinite(f"non-finite number {x} in formula")
        return z3.RealVal(Fraction(x))
    raise TypeError(f"no number: {type(x)}")


def to_z3(x):
    """z3 real term of a number or a proxy."""
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.b, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, z3.ArithRef):
        return z3.ToReal(x) if x.is_int() else x
    if isinstance(x, np.ndarray) and x.size == 1:
        return to_z3(x.reshape(-1)[0])
    return rv(x)


def model_fraction(model, term):
    v = model.eval(term, model_completion=True)
    return value_fraction(v)


def value_fraction(v):
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f"no rational value {v}")


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.forks = 0
        self.models_built = 0


STATS = Stats()


def check(*assertions, timeout_ms=20000, need_model=True, logic=None):
    """One solver query. Returns ("sat", model) / ("unsat", None) /
    ("unknown", None)."""
    s = z3.Solver() if logic is None else z3.SolverFor(logic)
    s.set("timeout", int(timeout_ms))
    s.add(*assertions)
    t0 = time.time()
    r = s.check()
    STATS.time += time.time() - t0
    STATS.queries += 1
    if r == z3.sat:
        STATS.sat += 1
        return "sat", s.model()
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    STATS.unknown += 1
    return "unknown", None


# --------------------------------------------------------------------------
# proxies
# --------------------------------------------------------------------------
_CTX = None  # current execution context


def _caller_is_pyomo(depth):
    f = sys._getframe(depth)
    return f.f_globals.get("__name__", "").startswith("pyomo")


class SymBool:
    __slots__ = ("b", "kind")

    def __init__(self, b, kind=None):
        self.b = b
        self.kind = kind

    def __bool__(self):
        if self.kind is not None and _caller_is_pyomo(2):
            # structural simplification inside pyomo ("coef == 0" ...):
            # skipping a simplification is always sound
            return self.kind == "ne"
        return _CTX.decide(self.b)

    def __and__(self, o):
        return SymBool(z3.And(self.b, _b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.b, _b(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.b, _b(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.b))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool, np.bool_)):
            return SymBool(self.b == _b(o))
        return NotImplemented

    def __hash__(self):
        return hash(self.b)

    # arithmetic use of truth values
    def _num(self):
        return SymReal(z3.If(self.b, z3.RealVal(1), z3.RealVal(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __repr__(self):
        return f"SymBool({self.b})"


def _b(o):
    if isinstance(o, SymBool):
        return o.b
    return z3.BoolVal(bool(o))


def _coerce(o):
    if isinstance(o, SymReal):
        return o.t
    if isinstance(o, (bool, int, float, np.integer, np.floating, np.bool_)):
        return rv(o)
    if isinstance(o, Fraction):
        return rv(o)
    if isinstance(o, SymBool):
        return o._num().t
    return None


def _inf(o):
    """+1/-1 for infinite floats, 2 for nan, else None"""
    if isinstance(o, (float, np.floating)):
        if math.isnan(o):
            return 2
        if math.isinf(o):
            return 1 if o > 0 else -1
    return None


def _elementwise(arr, f):
    out = np.empty(arr.shape, dtype=object)
    for i in np.ndindex(arr.shape):
        x = arr[i]
        r = f(x.item() if isinstance(x, np.generic) else x)
        if r is NotImplemented:
            return NotImplemented
        out[i] = r
    return out


class SymReal:
    """A real number known only as z3 term."""

    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # ---- arithmetic ------------------------------------------------------
    def _arith(self, o, f, name):
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                o = o.item()
            else:
                return _elementwise(o, lambda x: self._arith(x, f, name))
        i = _inf(o)
        if i is not None:
            raise Unsupported(f"arithmetic {name} with {o}", self.t)
        c = _coerce(o)
        if c is None:
            return NotImplemented
        return SymReal(f(self.t, c))

    def __add__(self, o):
        return self._arith(o, operator.add, "+")

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a, "+")

    def __sub__(self, o):
        return self._arith(o, operator.sub, "-")

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a, "-")

    def __mul__(self, o):
        return self._arith(o, operator.mul, "*")

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: b * a, "*")

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _elementwise(o, lambda x: self / x)
        c = _coerce(o) if _inf(o) is None else None
        if _inf(o) in (1, -1):
            return SymReal(z3.RealVal(0))
        if c is None:
            if _inf(o) == 2:
                raise Unsupported("division by nan", self.t)
            return NotImplemented
        _CTX.nonzero(c)
        return SymReal(self.t / c)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _elementwise(o, lambda x: x / self)
        if _inf(o) is not None:
            raise Unsupported("inf / symbolic", self.t)
        c = _coerce(o)
        if c is None:
            return NotImplemented
        _CTX.nonzero(self.t)
        return SymReal(c / self.t)

    def __neg__(self):
        return SymReal(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, o):
        if isinstance(o, (int, np.integer)) or (
            isinstance(o, (float, np.floating)) and float(o).is_integer()
        ):
            n = int(o)
            if n == 0:
                return SymReal(z3.RealVal(1))
            r = self.t
            for _ in range(abs(n) - 1):
                r = r * self.t
            if n < 0:
                _CTX.nonzero(self.t)
                r = z3.RealVal(1) / r
            return SymReal(r)
        if isinstance(o, SymInt) and not _CTX.abstract_pow:
            return self ** operator.index(o)
        c = _coerce(o)
        if c is None:
            return NotImplemented
        return SymReal(_CTX.pow(self.t, c))

    def __rpow__(self, o):
        if isinstance(self, SymInt) and not _CTX.abstract_pow:
            return o ** operator.index(self)
        c = _coerce(o)
        if c is None:
            return NotImplemented
        return SymReal(_CTX.pow(c, self.t))

    # ---- comparison ------------------------------------------------------
    def _cmp(self, o, f, inf_res, kind=None):
        i = _inf(o)
        if i == 2:
            return inf_res[2]
        if i is not None:
            return inf_res[0] if i > 0 else inf_res[1]
        if isinstance(o, np.ndarray) and o.ndim:
            return _elementwise(o, lambda x: self._cmp(x, f, inf_res, kind))
        c = _coerce(o)
        if c is None:
            return NotImplemented
        return SymBool(f(self.t, c), kind)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, (True, False, False))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, (True, False, False))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, (False, True, False))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, (False, True, False))

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, SymReal) and o.t.eq(self.t):
            return True
        r = self._cmp(o, lambda a, b: a == b, (False, False, False), "eq")
        return r

    def __ne__(self, o):
        if o is self:
            return False
        if isinstance(o, SymReal) and o.t.eq(self.t):
            return False
        r = self._cmp(o, lambda a, b: a != b, (True, True, True), "ne")
        return r

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return bool(self != 0)

    # ---- conversions -----------------------------------------------------
    def __float__(self):
        v = z3.simplify(self.t)
        if z3.is_rational_value(v) or z3.is_int_value(v):
            return float(value_fraction(v))
        raise Unsupported("float() of a symbolic value", self.t)

    def __int__(self):
        v = z3.simplify(self.t)
        if z3.is_rational_value(v) or z3.is_int_value(v):
            return int(value_fraction(v))
        raise Unsupported("int() of a symbolic value", self.t)

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round() of a symbolic value", self.t)
        f = z3.ToInt(self.t)
        d = self.t - z3.ToReal(f)
        half = z3.Q(1, 2)
        return SymInt(z3.If(d < half, f, z3.If(
            d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))), None, None)

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.t), None, None)

    def __floor__(self):
        return SymInt(z3.ToInt(self.t), None, None)

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __rfloordiv__(self, o):
        return (o / self).__floor__()

    def __trunc__(self):
        raise Unsupported("trunc() of a symbolic value", self.t)

    def is_integer(self):
        return SymBool(z3.IsInt(self.t))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{z3.simplify(self.t)}>"

    __str__ = __repr__

    def __format__(self, spec):
        if not spec and _CTX is not None and _CTX.tokens is not None:
            # a text that stands for the value and can be found again
            _CTX.tokens.append(self)
            return f"\u27e6{len(_CTX.tokens) - 1}\u27e7"
        return repr(self)

    # numpy helpers on object arrays
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


class SymInt(SymReal):
    """Integer with a small stated range; ``__index__`` forks on its value."""

    __slots__ = ("i", "lo", "hi")

    def __init__(self, i, lo, hi):
        super().__init__(z3.ToReal(i))
        self.i = i
        self.lo = lo
        self.hi = hi

    def __index__(self):
        if self.lo is None:
            v = z3.simplify(self.i)
            if z3.is_int_value(v):
                return v.as_long()
            raise Unsupported("index of unknown range", self.t)
        for v in range(self.lo, self.hi):
            if _CTX.decide(self.i == v):
                return v
        return self.hi

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def _ia(self, o, f):
        """integer arithmetic stays integer"""
        if isinstance(o, SymInt):
            i, rng = o.i, (o.lo, o.hi)
        elif isinstance(o, (bool, int, np.integer)):
            i, rng = z3.IntVal(int(o)), (int(o), int(o))
        else:
            return None
        if self.lo is None or rng[0] is None:
            return SymInt(z3.simplify(f(self.i, i)), None, None)
        c = [f(a, b) for a in (self.lo, self.hi) for b in rng]
        return SymInt(z3.simplify(f(self.i, i)), min(c), max(c))

    def __add__(self, o):
        r = self._ia(o, operator.add)
        return r if r is not None else SymReal.__add__(self, o)

    def __radd__(self, o):
        r = self._ia(o, operator.add)
        return r if r is not None else SymReal.__radd__(self, o)

    def __sub__(self, o):
        r = self._ia(o, operator.sub)
        return r if r is not None else SymReal.__sub__(self, o)

    def __rsub__(self, o):
        r = self._ia(o, lambda a, b: b - a)
        return r if r is not None else SymReal.__rsub__(self, o)

    def __mul__(self, o):
        r = self._ia(o, operator.mul)
        return r if r is not None else SymReal.__mul__(self, o)

    def __rmul__(self, o):
        r = self._ia(o, operator.mul)
        return r if r is not None else SymReal.__rmul__(self, o)

    def __neg__(self):
        return self._ia(-1, operator.mul)

    def __mod__(self, o):
        if isinstance(o, (int, np.integer)) and o > 0:
            return SymInt(z3.simplify(self.i % int(o)), 0, int(o) - 1)
        raise Unsupported("modulo of a symbolic value", self.t)

    def __floordiv__(self, o):
        if isinstance(o, (int, np.integer)) and o > 0:
            rng = ((None, None) if self.lo is None
                   else (self.lo // int(o), self.hi // int(o)))
            return SymInt(z3.simplify(self.i / int(o)), *rng)
        raise Unsupported("division of a symbolic value", self.t)

    def __round__(self, n=None):
        return self

    def __hash__(self):
        return hash(self.__index__())

    def __eq__(self, o):
        return SymReal.__eq__(self, o)

    def __ne__(self, o):
        return SymReal.__ne__(self, o)


numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)
RegisterNumericType(SymReal)
RegisterNumericType(SymInt)


# ---- patch the few library predicates that insist on machine floats --------
def _wrap_scalar_pred(mod, name, result):
    orig = getattr(mod, name)

    def wrapper(x, *a, **k):
        if isinstance(x, SymReal):
            return result
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.array(
                [
                    result if isinstance(e, SymReal) else bool(orig(e))
                    for e in x.reshape(-1)
                ],
                dtype=bool,
            ).reshape(x.shape)
            return out
        return orig(x, *a, **k)

    wrapper.__wrapped__ = orig
    wrapper.__name__ = name
    setattr(mod, name, wrapper)


for _m in (math, np):
    _wrap_scalar_pred(_m, "isfinite", True)
    _wrap_scalar_pred(_m, "isinf", False)
    _wrap_scalar_pred(_m, "isnan", False)


def _wrap_isclose():
    # np.isclose / math.isclose with symbolic arguments: exact equality of
    # reals (tolerances are outside the model of exact arithmetic)
    o_np, o_m = np.isclose, math.isclose

    def w_np(a, b, *r, **k):
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            return a == b
        return o_np(a, b, *r, **k)

    def w_m(a, b, *r, **k):
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            return a == b
        return o_m(a, b, *r, **k)

    np.isclose, math.isclose = w_np, w_m


_wrap_isclose()


def _wrap_extrema():
    """minimum and maximum of an array of proxies as one term (numpy would
    compare them pairwise, i.e. split the path for every order of them)"""
    from numpy._core import _methods as mod

    def wrap(name, better):
        orig = getattr(mod, name)

        def reduce(a, axis=None, *args, **kw):
            if not (
                isinstance(a, np.ndarray)
                and a.dtype == object
                and a.size
                and (axis is None or a.ndim == 1)
                and any(isinstance(x, SymReal) for x in a.flat)
            ):
                return orig(a, axis, *args, **kw)
            worst = 1 if name == "umr_minimum" else -1
            out = None
            for x in a.flat:
                i = _inf(x)
                if i == 2:
                    return x
                if i is not None:
                    if i == -worst:
                        return x
                    continue
                c = _coerce(x)
                if c is None:
                    return orig(a, axis, *args, **kw)
                out = c if out is None else z3.If(better(c, out), c, out)
            return SymReal(out)

        setattr(mod, name, reduce)

    wrap("umr_minimum", lambda a, b: a < b)
    wrap("umr_maximum", lambda a, b: a > b)


_wrap_extrema()


def _wrap_linalg():
    """exact linear algebra on small matrices of proxies (Cramer's rule);
    singular matrices are reported as numpy does"""
    solve, inv, det = np.linalg.solve, np.linalg.inv, np.linalg.det

    def sym(*a):
        return any(np.asarray(x).dtype == object for x in a)

    def _det(A):
        n = A.shape[0]
        if n == 1:
            return A[0, 0]
        tot = 0
        for j in range(n):
            minor = np.delete(np.delete(A, 0, axis=0), j, axis=1)
            tot = tot + (-1) ** j * A[0, j] * _det(minor)
        return tot

    def w_det(a):
        return _det(np.asarray(a)) if sym(a) else det(a)

    def w_solve(a, b):
        if not sym(a, b):
            return solve(a, b)
        A, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        d = _det(A)
        if d == 0:
            raise np.linalg.LinAlgError("Singular matrix")
        cols = b.reshape(A.shape[0], -1)
        out = np.empty(cols.shape, dtype=object)
        for k in range(cols.shape[1]):
            for i in range(A.shape[0]):
                M = A.copy()
                M[:, i] = cols[:, k]
                out[i, k] = _det(M) / d
        return out.reshape(b.shape)

    def w_inv(a):
        if not sym(a):
            return inv(a)
        A = np.asarray(a, dtype=object)
        return w_solve(A, np.eye(A.shape[0]).astype(object))

    np.linalg.solve, np.linalg.inv, np.linalg.det = w_solve, w_inv, w_det


_wrap_linalg()


# --------------------------------------------------------------------------
# execution context
# --------------------------------------------------------------------------
class Context:
    """One execution of a scenario: symbolic (values is None) or concrete."""

    def __init__(self, values=None, prefix=(), pinned=None, max_forks=3000):
        self.values = values
        self.prefix = list(prefix)
        self.trace = []
        self.pc = []
        self.params = {}
        self.assumptions = []
        self.pinned = pinned or {}
        self.max_forks = max_forks
        self.pows = []
        self.touched = set()
        self.abstract_pow = False
        self.tokens = None  # list: formatting a value gives a token
        self.decided = {}

    # ---- parameters ------------------------------------------------------
    @property
    def concrete(self):
        return self.values is not None

    def real(self, name, lo=None, hi=None, default=None, lo_open=False):
        """A symbolic real parameter with optional bounds."""
        if name in self.params:
            return self.params[name]
        if default is None:
            default = _default_for(name, lo, hi)
        if self.concrete or name in self.pinned:
            v = (
                self.values.get(name, default)
                if self.concrete
                else self.pinned[name]
            )
            v = float(v)
            self.params[name] = v
            return v
        t = z3.Real("p_" + name)
        s = SymReal(t)
        self.params[name] = s
        if lo is not None:
            self.assume(t > rv(lo) if lo_open else t >= rv(lo))
        if hi is not None:
            self.assume(t <= rv(hi))
        return s

    def pos(self, name, hi=None):
        return self.real(name, lo=0, hi=hi, lo_open=True)

    def reals(self, name, n, lo=None, hi=None, **kw):
        return [self.real(f"{name}_{i}", lo, hi, **kw) for i in range(n)]

    def integer(self, name, lo, hi):
        if name in self.params:
            return self.params[name]
        if self.concrete or name in self.pinned:
            src = self.values if self.concrete else self.pinned
            v = int(src.get(name, lo))
            self.params[name] = v
            return v
        i = z3.Int("p_" + name)
        self.assume(z3.And(i >= lo, i <= hi))
        s = SymInt(i, lo, hi)
        self.params[name] = s
        return s

    def boolean(self, name):
        """A symbolic yes/no choice, decided by forking."""
        if name in self.params:
            return self.params[name]
        if self.concrete or name in self.pinned:
            src = self.values if self.concrete else self.pinned
            v = bool(src.get(name, False))
            self.params[name] = v
            return v
        v = self.decide(z3.Bool("p_" + name))
        self.params[name] = v
        return v

    def choice(self, name, n):
        """index 0..n-1, decided by forking"""
        return operator.index(self.integer(name, 0, n - 1))

    def z(self, x):
        """z3 term of parameter, number or proxy (for specifications)."""
        return to_z3(x)

    # ---- path steering ---------------------------------------------------
    def assume(self, b):
        if isinstance(b, SymBool):
            b = b.b
        if isinstance(b, (bool, np.bool_)):
            b = z3.BoolVal(bool(b))
        self.assumptions.append(b)

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        if key in self.decided:
            return self.decided[key][1]
        d = self._decide(cond)
        self.decided[key] = (c, d)
        return d

    def _decide(self, cond):
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.trace.append((cond, d, False))
            self.pc.append(cond if d else z3.Not(cond))
            return d
        if k > self.max_forks:
            raise Budget("too many forks on one path")
        base = self.assumptions + self.pc
        rt, _ = check(*base, cond, timeout_ms=3000)
        rf, _ = check(*base, z3.Not(cond), timeout_ms=3000)
        STATS.forks += 1
        if rt == "unsat" and rf == "unsat":
            raise PathInfeasible()
        if rt == "unsat":
            d, alt = False, False
        elif rf == "unsat":
            d, alt = True, False
        else:
            d, alt = True, True
        self.trace.append((cond, d, alt))
        self.pc.append(cond if d else z3.Not(cond))
        return d

    def nonzero(self, t):
        """division side condition: fork into ZeroDivisionError"""
        t = z3.simplify(t)
        if z3.is_rational_value(t) or z3.is_int_value(t):
            if value_fraction(t) == 0:
                raise ZeroDivisionError("symbolic division by zero")
            return
        if self.abstract_pow and "pow" in t.sexpr():
            # powers are abstracted and not part of the property
            self.assume(t != 0)
            return
        if self.decide(t == 0):
            raise ZeroDivisionError("symbolic division by zero")

    def pow(self, base, expo):
        """real power with symbolic exponent: an uninterpreted function,
        constrained by its laws at 0 and 1 (everything else is abstracted)"""
        f = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        r = f(base, expo)
        self.assume(z3.Implies(expo == 1, r == base))
        self.assume(z3.Implies(z3.And(expo == 0), r == 1))
        self.assume(z3.Implies(base == 1, r == 1))
        self.assume(z3.Implies(base > 0, r > 0))
        self.assume(z3.Implies(z3.And(base > 1, expo > 0), r > 1))
        self.pows.append((base, expo))
        return r

    def param_terms(self):
        out = {}
        for n, p in self.params.items():
            if isinstance(p, SymInt):
                out[n] = p.i
            elif isinstance(p, SymReal):
                out[n] = p.t
            elif isinstance(p, bool) and not self.concrete:
                out[n] = z3.Bool("p_" + n)
        return out


def _default_for(name, lo, hi):
    """deterministic, 'generic' default value for pinned parameters"""
    h = 0
    for ch in name:
        h = (h * 131 + ord(ch)) % 9973
    frac = Fraction(h % 61 + 2, 64)  # dyadic, so floats are exact
    if lo is not None and hi is not None:
        return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * frac
    if lo is not None:
        return Fraction(lo) + 1 + 4 * frac
    if hi is not None:
        return Fraction(hi) - 1 - 4 * frac
    return 1 + 4 * frac


class Outcome:
    """Result of one path."""

    def __init__(self, ctx, result=None, exc=None):
        self.ctx = ctx
        self.result = result
        self.exc = exc

    @property
    def cond(self):
        return self.ctx.assumptions + self.ctx.pc


def run_context(ctx, fn):
    global _CTX
    old = _CTX
    _CTX = ctx
    try:
        try:
            return Outcome(ctx, result=fn(ctx))
        except Exception as e:  # the code under test raised
            return Outcome(ctx, exc=e)
    finally:
        _CTX = old


class using:
    """make ctx current (specifications may create proxies too)"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        global _CTX
        self.old = _CTX
        _CTX = self.ctx
        return self.ctx

    def __exit__(self, *a):
        global _CTX
        _CTX = self.old


def _vars_of(term, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    stack = [term]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(e.decl().name())
        stack.extend(e.children())
    return acc


def explore(fn, max_paths=400, pinned=None, notes=None, deadline=None,
            over=None):
    """All feasible paths of ``fn(ctx)``.

    When a symbolic value reaches an operation that needs a machine number
    (``Unsupported``), the parameters in that value are pinned to default
    values and the exploration is restarted; pins are reported in ``notes``.
    """
    pinned = dict(pinned or {})
    notes = notes if notes is not None else []
    while True:
        outs = []
        work = [()]
        try:
            while work:
                # alternatives of late and of early decisions in turn, so
                # that a truncated exploration has seen both
                prefix = work.pop(0 if len(outs) % 2 else -1)
                if len(outs) > max_paths:
                    if over is None:
                        raise Budget(f"more than {max_paths} paths")
                    over.append(f"more than {max_paths} paths")
                    return outs, pinned
                if deadline and time.time() > deadline:
                    raise Budget("time budget used up during exploration")
                ctx = Context(prefix=prefix, pinned=pinned)
                try:
                    out = run_context(ctx, fn)
                except PathInfeasible:
                    out = None
                STATS.paths += 1
                for k in range(len(prefix), len(ctx.trace)):
                    cond, d, alt = ctx.trace[k]
                    if alt:
                        work.append(
                            tuple(t[1] for t in ctx.trace[:k]) + (not d,)
                        )
                if out is not None:
                    outs.append(out)
            return outs, pinned
        except Unsupported as e:
            names = _vars_of(e.term) if e.term is not None else set()
            names = {n[2:] for n in names if n.startswith("p_")}
            new = {}
            for n, p in ctx.params.items():
                if not isinstance(p, SymReal):
                    continue
                if names and n not in names:
                    continue
                if isinstance(p, SymInt):
                    new[n] = p.lo
                else:
                    lo = hi = None
                    # a default respecting the declared assumptions
                    r, mdl = check(
                        *ctx.assumptions, timeout_ms=3000
                    )
                    new[n] = _pick(ctx, n, p)
            new = {k: v for k, v in new.items() if k not in pinned}
            if not new:
                raise
            notes.append(f"pinned {sorted(new)}: {e}")
            pinned.update(new)


def _pick(ctx, name, p):
    """a default value compatible with the assumptions made so far"""
    for cand in (
        _default_for(name, None, None),
        _default_for(name, 0, 1),
        Fraction(1, 2),
        Fraction(1),
        Fraction(2),
    ):
        r, _ = check(*ctx.assumptions, p.t == rv(cand), timeout_ms=3000)
        if r == "sat":
            return cand
    r, m = check(*ctx.assumptions, timeout_ms=3000)
    if r == "sat":
        return model_fraction(m, p.t)
    return Fraction(1)
