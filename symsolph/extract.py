"""Translate a built Pyomo model (with symbolic or float coefficients) into a
z3 formula over its decision variables."""

import math

import pyomo.environ as po
from pyomo.common.numeric_types import native_numeric_types
from pyomo.core.base.sos import SOSConstraint
from pyomo.core.expr import numeric_expr as ne
from pyomo.core.expr import relational_expr as re_

from .engine import STATS
from .engine import SymBool
from .engine import SymReal
from .engine import Unsupported
from .engine import rv
from .engine import to_z3
from .engine import z3

ZERO = z3.RealVal(0)
ONE = z3.RealVal(1)


class Row:
    """one constraint: lb <= body <= ub (body as z3 term)"""

    __slots__ = ("name", "body", "lb", "ub", "eq", "vars", "extra", "_names")

    def __init__(self, name, body, lb, ub, eq, vars_, extra=None):
        self.name = name
        self.body = body
        self.lb = lb
        self.ub = ub
        self.eq = eq
        self.vars = vars_
        self.extra = extra

    def formula(self, tol=0, sub=None):
        if self.extra is not None:
            f = self.extra
            return z3.substitute(f, *sub) if sub else f
        b, lo, hi = self.body, self.lb, self.ub
        fs = []
        if self.eq and not tol:
            fs.append(b == hi)
        else:
            if lo is not None:
                fs.append(b >= lo - rv(tol) if tol else b >= lo)
            if hi is not None:
                fs.append(b <= hi + rv(tol) if tol else b <= hi)
        f = z3.And(*fs) if len(fs) != 1 else fs[0]
        return z3.substitute(f, *sub) if sub else f


class Extracted:
    """z3 view of a pyomo model"""

    def __init__(self, model, tag=""):
        STATS.models_built += 1
        self.m = model
        self.tag = tag
        self.terms = {}  # id(vardata) -> z3 term
        self.vars = []  # list of vardata
        self.consts = {}  # id(vardata) -> z3 constant
        self.rows = []
        self._touch = None
        for v in model.component_data_objects(po.Var, descend_into=True):
            self.var(v)
        for c in model.component_data_objects(
            po.Constraint, active=True, descend_into=True
        ):
            self._constraint(c)
        for c in model.component_data_objects(
            SOSConstraint, active=True, descend_into=True
        ):
            self._sos(c)

    # ---- variables -------------------------------------------------------
    def var(self, v):
        key = id(v)
        if self._touch is not None:
            self._touch.add(key)
        if key in self.terms:
            return self.terms[key]
        name = f"{v.name}#{len(self.vars)}{self.tag}"
        self.vars.append(v)
        dom = v.domain
        lo, hi = dom.bounds()
        lo = lo if lo is not None and math.isfinite(lo) else None
        hi = hi if hi is not None and math.isfinite(hi) else None
        if v.is_binary():
            t = c = z3.Real(name)
        elif v.is_integer():
            c = z3.Int(name)
            t = z3.ToReal(c)
        else:
            t = c = z3.Real(name)
        self.terms[key] = t
        self.consts[key] = c
        vs = {key}
        if v.is_binary():
            self.rows.append(
                Row(
                    v.name + ".domain",
                    t,
                    None,
                    None,
                    False,
                    vs,
                    z3.Or(t == 0, t == 1),
                )
            )
        elif lo is not None or hi is not None:
            self.rows.append(
                Row(
                    v.name + ".domain",
                    t,
                    rv(lo) if lo is not None else None,
                    rv(hi) if hi is not None else None,
                    False,
                    vs,
                )
            )
        for b in self._split(v.lower, ne.MaxExpression):
            b = self._bound(b)
            if b is not None:
                self.rows.append(Row(v.name + ".lb", t, b, None, False, vs))
        for b in self._split(v.upper, ne.MinExpression):
            b = self._bound(b)
            if b is not None:
                self.rows.append(Row(v.name + ".ub", t, None, b, False, vs))
        if v.fixed:
            x = to_z3(v.value)
            self.rows.append(Row(v.name + ".fixed", t, x, x, True, vs))
        return t

    def _split(self, e, cls):
        """the bounds pyomo merged with the domain by max()/min()"""
        if isinstance(e, cls):
            return [x for a in e.args for x in self._split(a, cls)]
        return [e]

    def v(self, vardata):
        return self.terms[id(vardata)]

    # ---- expressions -----------------------------------------------------
    def expr(self, e):
        if isinstance(e, (SymReal, SymBool)):
            return to_z3(e)
        cls = e.__class__
        if cls in native_numeric_types:
            return rv(e)
        if hasattr(e, "is_variable_type") and e.is_variable_type():
            return self.var(e)
        if hasattr(e, "is_named_expression_type") and (
            e.is_named_expression_type()
        ):
            return self.expr(e.expr)
        if hasattr(e, "is_expression_type") and e.is_expression_type():
            if isinstance(e, (ne.SumExpression, ne.LinearExpression)):
                args = [self.expr(a) for a in e.args]
                return z3.Sum(*args) if args else ZERO
            if isinstance(e, ne.NegationExpression):
                return -self.expr(e.args[0])
            if isinstance(e, ne.DivisionExpression):
                return self.expr(e.args[0]) / self.expr(e.args[1])
            if isinstance(e, (ne.ProductExpression, ne.MonomialTermExpression)):
                a, b = e.args
                return self.expr(a) * self.expr(b)
            if isinstance(e, ne.PowExpression):
                b, x = e.args
                if (
                    x.__class__ in native_numeric_types
                    and float(x).is_integer()
                ):
                    n = int(x)
                    bt = self.expr(b)
                    r = ONE
                    for _ in range(abs(n)):
                        r = r * bt
                    return r if n >= 0 else ONE / r
                raise Unsupported(f"power expression {e}")
            if isinstance(e, (ne.MaxExpression, ne.MinExpression)):
                r = None
                for a in e.args:
                    t = self.expr(a)
                    if r is None:
                        r = t
                    elif isinstance(e, ne.MaxExpression):
                        r = z3.If(r >= t, r, t)
                    else:
                        r = z3.If(r <= t, r, t)
                return r
            if isinstance(e, ne.AbsExpression):
                t = self.expr(e.args[0])
                return z3.If(t >= 0, t, -t)
            if isinstance(e, re_.RelationalExpression):
                return self.relation(e)
            raise Unsupported(f"expression type {cls}")
        # parameters and other constants
        return to_z3(po.value(e))

    def relation(self, e):
        a = [self.expr(x) for x in e.args]
        if isinstance(e, re_.EqualityExpression):
            return a[0] == a[1]
        if isinstance(e, re_.RangedExpression):
            return z3.And(a[0] <= a[1], a[1] <= a[2])
        return a[0] <= a[1]

    def _bound(self, b):
        if b is None:
            return None
        if not isinstance(b, SymReal) and b.__class__ in native_numeric_types:
            f = float(b)
            if math.isinf(f):
                return None
            if math.isnan(f):
                raise Unsupported("nan bound")
        return self.expr(b)

    def _constraint(self, c):
        lb, body, ub = c.to_bounded_expression()
        self._touch = set()
        bt = self.expr(body)
        lo, hi = self._bound(lb), self._bound(ub)
        vs, self._touch = self._touch, None
        eq = c.equality
        if eq:
            x = hi if hi is not None else lo
            if x is None:
                raise Unsupported("infinite equality")
            self.rows.append(Row(c.name, bt, x, x, True, vs))
        elif lo is not None or hi is not None:
            self.rows.append(Row(c.name, bt, lo, hi, False, vs))

    def _sos(self, c):
        vs = [self.var(v) for v in c.variables]
        fs = [
            z3.Or(vs[i] == 0, vs[j] == 0)
            for i in range(len(vs))
            for j in range(i + c.level, len(vs))
        ]
        self.rows.append(
            Row(
                c.name,
                None,
                None,
                None,
                False,
                {id(v) for v in c.variables},
                z3.And(*fs) if fs else z3.BoolVal(True),
            )
        )

    # ---- formula ---------------------------------------------------------
    def formula(self, tol=0):
        return [r.formula(tol) for r in self.rows]

    def objective(self):
        objs = list(
            self.m.component_data_objects(
                po.Objective, active=True, descend_into=True
            )
        )
        if len(objs) != 1:
            raise Unsupported(f"{len(objs)} active objectives")
        o = objs[0]
        t = self.expr(o.expr)
        return t if o.sense == po.minimize else -t
