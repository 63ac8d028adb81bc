"""Decide scenario obligations with the solver, replay counterexamples."""

import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import pyomo.environ as po

from . import engine as E
from .engine import STATS
from .engine import Budget
from .engine import Context
from .engine import SymBool
from .engine import SymInt
from .engine import SymReal
from .engine import NonFinite, Unsupported
from .engine import explore
from .engine import rv
from .engine import to_z3
from .engine import using
from .engine import value_fraction
from .engine import z3
from .extract import Extracted

REPO_SRC = "/repo/src/oemof/solph"


# --------------------------------------------------------------------------
# specification objects
# --------------------------------------------------------------------------
class Atom:
    """One elementary claim; ``kind``: eq, le or prop."""

    def __init__(self, label, kind, a, b, sound, complete, guard):
        self.label = label
        self.kind = kind
        self.a = a
        self.b = b
        self.sound = sound
        self.complete = complete
        self.guard = guard

    def pos(self, shrink=0):
        if self.kind == "eq":
            f = self.a == self.b
        elif self.kind == "le":
            f = self.a <= self.b
        else:
            f = self.a
        if self.guard is not None:
            f = z3.Implies(self.guard, f)
        return f

    def neg(self, margin=0):
        m = rv(margin)
        if self.kind == "eq":
            f = z3.Or(self.a > self.b + m, self.a < self.b - m)
            if not margin:
                f = self.a != self.b
        elif self.kind == "le":
            f = self.a > self.b + m
        else:
            f = z3.Not(relax(self.a, m) if margin else self.a)
        if self.guard is not None:
            f = z3.And(self.guard, f)
        return f


def relax(f, eps, pos=True):
    """a formula that holds up to eps (pos) / with a margin of eps"""
    if not z3.is_expr(f):
        return f
    k, c = f.decl().kind(), f.children()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        r = [relax(x, eps, pos) for x in c]
        return z3.And(r) if k == z3.Z3_OP_AND else z3.Or(r)
    if k == z3.Z3_OP_NOT:
        return z3.Not(relax(c[0], eps, not pos))
    if k == z3.Z3_OP_IMPLIES:
        return z3.Implies(relax(c[0], eps, not pos), relax(c[1], eps, pos))
    if k == z3.Z3_OP_ITE:
        return z3.If(c[0], relax(c[1], eps, pos), relax(c[2], eps, pos))
    if len(c) != 2 or not z3.is_arith(c[0]) or not (
            c[0].is_real() or c[1].is_real()):
        return f
    a, b = c
    e = eps if pos else -eps
    if k == z3.Z3_OP_LE:
        return a <= b + e
    if k == z3.Z3_OP_LT:
        return a < b + e
    if k == z3.Z3_OP_GE:
        return a >= b - e
    if k == z3.Z3_OP_GT:
        return a > b - e
    if k == z3.Z3_OP_EQ and pos:
        return z3.And(a <= b + eps, a >= b - eps)
    if k == z3.Z3_OP_DISTINCT and not pos:
        return z3.Or(a > b + eps, a < b - eps)
    return f


def poly(t, memo=None):
    """sum of monomials {(factor names ...): coefficient}; what is not a
    sum, product or number counts as a factor"""
    memo = {} if memo is None else memo
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    k = t.decl().kind()
    if z3.is_rational_value(t) or z3.is_int_value(t):
        v = value_fraction(t)
        r = {(): v} if v else {}
    elif k == z3.Z3_OP_TO_REAL:
        r = poly(t.arg(0), memo)
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        r = {}
        for n, c in enumerate(t.children()):
            sg = -1 if k == z3.Z3_OP_UMINUS or (
                k == z3.Z3_OP_SUB and n) else 1
            for m, v in poly(c, memo).items():
                r[m] = r.get(m, 0) + sg * v
    elif k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        cs = t.children()
        fs = [poly(c, memo) for c in (cs if k == z3.Z3_OP_MUL else cs[:1])]
        if k == z3.Z3_OP_DIV:
            d = poly(cs[1], memo)
            if set(d) == {()}:
                fs.append({(): 1 / d[()]})
            else:
                fs.append({("1/" + _poly_name(d),): Fraction(1)})
        r = {(): Fraction(1)}
        for f in fs:
            q = {}
            for m, v in r.items():
                for m2, v2 in f.items():
                    key = tuple(sorted(m + m2))
                    q[key] = q.get(key, 0) + v * v2
            r = q
    elif t.num_args() and k == z3.Z3_OP_UNINTERPRETED:
        r = {(t.decl().name() + "(" + ",".join(
            _poly_name(poly(c, memo)) for c in t.children()) + ")",):
            Fraction(1)}
    else:
        r = {(z3.simplify(t, som=True).sexpr(),): Fraction(1)}
    r = {m: v for m, v in r.items() if v}
    memo[i] = (t, r)  # (keeps t alive, ids are reused otherwise)
    return r


def _poly_name(d):
    return "[" + "+".join(
        f"{d[m]}*{'*'.join(m)}" for m in sorted(d)) + "]"


def poly_key(t):
    """normal form of the claim "t <= 0": the monomials of t, scaled"""
    acc = poly(t)
    if not acc:
        return frozenset()
    lead = abs(acc[min(acc)])
    return frozenset((k, c / lead) for k, c in acc.items())


def le_forms(kind, a, b):
    """"<= 0"-forms of a claim"""
    d = poly_key(a - b)
    if kind == "le":
        return [d]
    return [d, frozenset((k, -c) for k, c in d)]


def row_forms(row):
    if row.extra is not None:
        return []
    if row.eq:
        return le_forms("eq", row.body, row.ub)
    out = []
    if row.lb is not None:
        out += le_forms("le", row.lb, row.body)
    if row.ub is not None:
        out += le_forms("le", row.body, row.ub)
    return out


def row_subst(row, sub):
    f = lambda x: z3.substitute(x, *sub) if z3.is_expr(x) else x
    return type(row)(row.name, f(row.body), f(row.lb), f(row.ub), row.eq,
                     row.vars, f(row.extra))


class Spec:
    """Collects the claims of one execution path."""

    def __init__(self, S, X):
        self.S = S
        self.X = X
        self.atoms = []
        self.labels = {}
        self.observed = None
        self.hints = []
        self.literal = False  # try to match claims with constraints first
        self.err = None
        self.err_types = ()
        self.err_maybe = None
        self.obj_expected = None
        self.witnesses = []

    def _label(self, label):
        n = self.labels.get(label, 0)
        self.labels[label] = n + 1
        return label if n == 0 else f"{label}#{n}"

    def _t(self, x):
        if isinstance(x, po.Var) or hasattr(x, "is_variable_type"):
            if hasattr(x, "is_expression_type") or True:
                return self.X.expr(x)
        return to_z3(x)

    def _g(self, g):
        if g is None:
            return None
        return _bool(g)

    def eq(self, label, a, b, sound=True, complete=True, guard=None,
           rounding=None):
        if rounding:
            a, b = near(self._t(a) - self._t(b), rounding), rv(0)
        self.atoms.append(
            Atom(
                self._label(label),
                "eq",
                self._t(a),
                self._t(b),
                sound,
                complete,
                self._g(guard),
            )
        )

    def le(self, label, a, b, sound=True, complete=True, guard=None):
        self.atoms.append(
            Atom(
                self._label(label),
                "le",
                self._t(a),
                self._t(b),
                sound,
                complete,
                self._g(guard),
            )
        )

    def ge(self, label, a, b, **kw):
        self.le(label, b, a, **kw)

    def prop(self, label, f, sound=True, complete=True, guard=None):
        self.atoms.append(
            Atom(
                self._label(label),
                "prop",
                _bool(f),
                None,
                sound,
                complete,
                self._g(guard),
            )
        )

    def observe(self, *vardatas):
        """Variables a user sees: every assignment to them that fulfils the
        complete-claims must be accepted by the model."""
        self.observed = self.observed or []
        for v in vardatas:
            if isinstance(v, (list, tuple)):
                self.observe(*v)
            elif hasattr(v, "values") and hasattr(v, "index_set"):
                if v.is_indexed():
                    self.observe(*list(v.values()))
                else:
                    self.observed.append(v)
            else:
                self.observed.append(v)

    def define(self, vardata, term):
        """hint: value of a non-observed variable, given the observed ones"""
        self.hints.append((vardata, self._t(term)))

    def objective(self, expected, label="objective value", rounding=None):
        self.obj_expected = (label, self._t(expected), rounding)


def near(t, eps):
    """polynomial with the monomials dropped whose coefficient is nothing but
    rounding of machine numbers"""
    t = z3.simplify(t, som=True)
    keep = []
    for m in t.children() if z3.is_add(t) else [t]:
        c = m
        if z3.is_mul(m):
            c = m.children()[0]
        if z3.is_rational_value(c) and abs(value_fraction(c)) < eps:
            continue
        keep.append(m)
    return z3.Sum(*keep) if keep else rv(0)


def _bool(f):
    if isinstance(f, SymBool):
        return f.b
    if isinstance(f, (bool,)) or f.__class__.__name__ in ("bool_", "bool"):
        return z3.BoolVal(bool(f))
    return f


class Scenario:
    """A family of programs against the library with symbolic inputs."""

    def __init__(
        self,
        name,
        build,
        spec=None,
        errors=None,
        bounds="",
        max_paths=300,
        tier="quick",
        model=None,
        witness=True,
    ):
        self.name = name
        self.build = build
        self.spec = spec
        self.errors = errors
        self.bounds = bounds
        self.max_paths = max_paths
        self.tier = tier
        self.witness = witness


class World:
    """what a scenario's build function returns"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Run:
    """outcome of one path: world, extraction, spec, exception"""

    def __init__(self):
        self.w = self.X = self.A = None
        self.exc = None
        self.where = None
        self.tb = None
        self.errspec = None


def run_scenario(scn, S):
    r = Run()
    if scn.errors is not None:
        r.errspec = scn.errors
    try:
        r.w = scn.build(S)
    except Exception as e:
        r.exc, r.where, r.tb = e, "build", traceback.format_exc()
        if scn.errors is not None:
            r.errspec = scn.errors(S)
        return r
    if scn.errors is not None:
        r.errspec = scn.errors(S)
    try:
        m = getattr(r.w, "m", None)
        if m is not None:
            r.X = Extracted(m)
        r.A = Spec(S, r.X)
        if scn.spec is not None:
            try:
                scn.spec(S, r.w, r.X, r.A)
            except NonFinite as e:
                # what is observed is inf or nan where claims need a number
                raise ArithmeticError(str(e)) from e
        if r.A.obj_expected is not None:
            label, t, eps = r.A.obj_expected
            o = r.X.objective()
            if eps:
                o, t = near(o - t, eps), rv(0)
            r.A.atoms.append(Atom(label, "eq", o, t, True, False, None))
    except Exception as e:
        r.exc, r.where, r.tb = e, "observation", traceback.format_exc()
    return r


# --------------------------------------------------------------------------
# function trace (evidence: functions encoded)
# --------------------------------------------------------------------------
class FunctionTrace:
    def __init__(self):
        self.names = set()

    def __enter__(self):
        mon = sys.monitoring
        self.tool = 4
        try:
            mon.use_tool_id(self.tool, "symsolph")
        except ValueError:
            self.tool = None
            return self
        mon.register_callback(
            self.tool, mon.events.PY_START, self._cb
        )
        mon.set_events(self.tool, mon.events.PY_START)
        return self

    def _cb(self, code, offset):
        fn = code.co_filename
        if fn.startswith(REPO_SRC):
            self.names.add(
                fn[len(REPO_SRC) + 1 :].removesuffix(".py").replace("/", ".")
                + ":"
                + code.co_qualname
            )
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        if self.tool is not None:
            mon = sys.monitoring
            mon.set_events(self.tool, 0)
            mon.register_callback(self.tool, mon.events.PY_START, None)
            mon.free_tool_id(self.tool)


# --------------------------------------------------------------------------
# solving
# --------------------------------------------------------------------------
def solve(assertions, timeout_ms, want_model=False):
    """portfolio: linear-first core, then the general solver"""
    t_a = min(timeout_ms, 2500)
    s = z3.SimpleSolver()
    s.set("timeout", int(t_a))
    s.add(*assertions)
    t0 = time.time()
    r = s.check()
    STATS.time += time.time() - t0
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if r == z3.sat:
        STATS.sat += 1
        return "sat", s.model()
    STATS.unknown += 1
    return E.check(*assertions, timeout_ms=timeout_ms)


_CONSTS = {}


def _consts(terms):
    """uninterpreted constants of terms by name (do not modify)"""
    if len(terms) == 1:
        t = terms[0]
        hit = _CONSTS.get(t.get_id())
        if hit is None or not hit[0].eq(t):
            if len(_CONSTS) > 30000:
                _CONSTS.clear()
            # (keeping the term keeps its id)
            hit = _CONSTS[t.get_id()] = (t, _find_consts(terms))
        return hit[1]
    return _find_consts(terms)


def _find_consts(terms):
    out = {}
    seen = set()
    stack = list(terms)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[e.decl().name()] = e
        stack.extend(e.children())
    return out


def _conjuncts(f):
    if z3.is_and(f):
        return [c for a in f.children() for c in _conjuncts(a)]
    return [f]


def _linear(t, x):
    """(coefficient, rest) of a term that is linear in x with a numeric
    coefficient; None otherwise"""
    c1 = z3.simplify(
        z3.substitute(t, (x, rv(1))) - z3.substitute(t, (x, rv(0))), som=True
    )
    if not z3.is_rational_value(c1):
        return None
    c2 = z3.simplify(
        z3.substitute(t, (x, rv(2))) - z3.substitute(t, (x, rv(1))), som=True
    )
    if not c2.eq(c1):
        return None
    return value_fraction(c1), z3.substitute(t, (x, rv(0)))


def _fourier_motzkin(body, xs, limit=400):
    """Exact elimination of real variables from a conjunction of weak linear
    inequalities; list of conjuncts or None if not applicable."""
    fs = _conjuncts(body)
    for x in xs:
        xn = x.decl().name()
        lower, upper, rest = [], [], []
        for f in fs:
            if xn not in _consts([f]):
                rest.append(f)
                continue
            if not (z3.is_le(f) or z3.is_ge(f) or z3.is_eq(f)):
                return None
            a, b = f.children()
            if not z3.is_arith(a):
                return None
            r = _linear(a - b, x)
            if r is None:
                return None
            c, k = r
            if c == 0:
                rest.append(f)
                continue
            bnd = -k / rv(c)
            if z3.is_eq(f):
                lower.append(bnd)
                upper.append(bnd)
            elif z3.is_le(f) == (c > 0):
                upper.append(bnd)
            else:
                lower.append(bnd)
        fs = rest + [lo <= up for lo in lower for up in upper]
        if len(fs) > limit:
            return None
    return fs


class Finding:
    def __init__(self, scenario, label, kind, values, detail, known=None):
        self.scenario = scenario
        self.label = label
        self.kind = kind
        self.values = values
        self.detail = detail
        self.replay = None


class Prover:
    def __init__(self, prop, tier, seed, budget_s, known=(), log=print):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.deadline = time.time() + budget_s
        self.known = list(known)
        self.rng = random.Random(seed)
        self.log = log
        self.findings = []
        self.inconclusive = []
        self.obligations = 0
        self.discharged = 0
        self.pinned_discharged = 0
        self.notes = []
        self.functions = set()
        self.samples = []
        self.scen_stats = []
        self.timeout = 10000 if tier == "quick" else 60000
        self.witnesses = 0
        self.spurious = []

    # ------------------------------------------------------------------
    def run(self, scenarios):
        todo = [
            s for s in scenarios if s.tier == "quick" or self.tier != "quick"
        ]
        for scn in todo:
            t0 = time.time()
            ob0, di0 = self.obligations, self.discharged
            try:
                self.scenario(scn)
            except (Unsupported, Budget) as e:
                self.inconclusive.append(
                    f"{scn.name}: {type(e).__name__}: {e}"
                )
            self.scen_stats.append(
                dict(
                    scenario=scn.name,
                    bounds=scn.bounds,
                    obligations=self.obligations - ob0,
                    discharged=self.discharged - di0,
                    seconds=round(time.time() - t0, 2),
                )
            )

    def scenario(self, scn):
        notes, over = [], []
        with FunctionTrace() as ft:
            outs, pinned = explore(
                lambda S: run_scenario(scn, S),
                max_paths=scn.max_paths,
                notes=notes,
                deadline=self.deadline,
                over=over,
            )
        for n in over:
            # the paths seen so far are decided all the same
            self.inconclusive.append(f"{scn.name}: Budget: {n}")
        self.functions |= ft.names
        for n in notes:
            self.notes.append(f"{scn.name}: {n}")
        reached = 0
        refuted_exc = False
        for out in outs:
            if time.time() > self.deadline:
                raise Budget("time budget used up")
            r = out.result if out.exc is None else None
            if r is None:  # exception outside build/spec
                raise out.exc
            ok = self.path(scn, out, r)
            if ok == "limitation":
                refuted_exc = True
            if ok == "reached":
                reached += 1
        if refuted_exc:
            # a proxy was rejected where a number is fine: fall back to
            # parameters fixed to concrete values, variables still symbolic
            self.notes.append(
                f"{scn.name}: some paths reject proxies; decided for pinned "
                "parameter values only"
            )
            self.pinned_scenario(scn, outs)
        elif not reached and scn.witness and not self.findings:
            self.inconclusive.append(
                f"{scn.name}: vacuous - no path satisfies its constraints"
            )

    def pinned_scenario(self, scn, outs):
        # all parameters pinned to a solver-chosen assignment of each path
        for out in outs:
            vals = self.nice_values(out)
            if vals is None:
                continue
            ctx = Context(values=vals)
            o2 = E.run_context(ctx, lambda S: run_scenario(scn, S))
            if o2.exc is not None:
                raise o2.exc
            self.path(scn, o2, o2.result, concrete=vals)

    def nice_values(self, out, extra=(), timeout=5000):
        terms = out.ctx.param_terms()
        cs = list(out.cond) + list(extra)
        box = [
            z3.And(t >= -50, t <= 50)
            for t in terms.values()
            if not z3.is_bool(t)
        ]
        for hard in (cs + box, cs):
            r, m = solve(hard, timeout)
            if r == "sat":
                return self.values_of(out, m)
        return None

    def values_of(self, out, m):
        vals = {}
        for n, t in out.ctx.param_terms().items():
            v = m.eval(t, model_completion=True)
            if z3.is_bool(t):
                vals[n] = z3.is_true(v)
            elif z3.is_int(t):
                vals[n] = v.as_long()
            else:
                vals[n] = float(value_fraction(v))
        for n, p in out.ctx.params.items():
            if n not in vals and not isinstance(p, SymReal):
                vals[n] = p
        return vals

    # ------------------------------------------------------------------
    def path(self, scn, out, r, concrete=None):
        cond = out.cond
        es = r.errspec
        if es is not None:
            must, types, may = es
            must, may = _bool(must), _bool(may)
        else:
            must, types, may = z3.BoolVal(False), (), z3.BoolVal(False)
        self.obligations += 1
        if r.exc is not None:
            label = f"{r.where}-raises-{type(r.exc).__name__}"
            allowed = z3.BoolVal(False)
            if r.where == "build" and types and isinstance(r.exc, types):
                allowed = z3.Or(must, may)
            st, m = solve(cond + [z3.Not(allowed)], self.timeout)
            if st == "unsat":
                self.discharged += 1
                return "reached"
            if st == "unknown":
                self.inconclusive.append(f"{scn.name}: {label}")
                return
            vals = (
                concrete
                or self.nice_values(out, [z3.Not(allowed)])
                or self.values_of(out, m)
            )
            if self.replay_exception(scn, vals, r):
                self.report(
                    scn,
                    label,
                    "exception",
                    vals,
                    f"{type(r.exc).__name__}: {r.exc}\n{r.tb}",
                )
                return "violated"
            if concrete is None:
                self.notes.append(
                    f"{scn.name}: {label} only with proxies: "
                    f"{str(r.exc)[:200]}"
                )
                return "limitation"
            return
        # no exception: must not be a case that has to be rejected
        if es is not None:
            st, m = solve(cond + [must], self.timeout)
            if st == "sat":
                vals = concrete or self.nice_values(
                    out, [must]
                ) or self.values_of(out, m)
                if self.replay_noexc(scn, vals):
                    self.report(
                        scn,
                        "invalid-input-accepted",
                        "accepted",
                        vals,
                        "input that must be rejected was accepted",
                    )
                    return "violated"
                self.spurious.append(f"{scn.name}: accepted")
            elif st == "unknown":
                self.inconclusive.append(f"{scn.name}: acceptance")
            else:
                self.discharged += 1
            cond = cond + [z3.Not(must), z3.Not(may)]
        else:
            self.discharged += 1
        reached = "reached"
        if r.X is not None:
            st, m = solve(cond + r.X.formula(), min(self.timeout, 8000))
            if st == "unsat":
                reached = "empty"
            elif st == "sat":
                self.witnesses += 1
                if len(self.samples) < 3:
                    self.samples.append(
                        dict(
                            scenario=scn.name,
                            path=[str(z3.simplify(c))[:120] for c in
                                  out.ctx.pc][:12],
                            rows=len(r.X.rows),
                            variables=len(r.X.vars),
                        )
                    )
            # unknown counts as reached; the witness is just not recorded
        self.soundness(scn, out, r, cond, concrete)
        if r.X is not None and r.A.observed is not None:
            self.completeness(scn, out, r, cond, concrete)
        return reached

    # ------------------------------------------------------------------
    def soundness(self, scn, out, r, cond, concrete):
        X, A = r.X, r.A
        atoms = [a for a in A.atoms if a.sound]
        rows = X.rows if X is not None else []
        tol = 1e-9 if concrete is not None else 0
        margin = Fraction(1, 10**5) if concrete is not None else 0
        pend = []
        known = ()
        if A.hints and X is not None and concrete is None:
            atoms, rows = self.use_definitions(X, A, atoms, rows)
            known = {k for row in rows for k in row_forms(row)}
        if A.literal and X is not None and concrete is None:
            known = {k for row in rows for k in row_forms(row)}
            known |= {row.extra.sexpr() for row in rows
                      if row.extra is not None}
        for a in atoms:
            if time.time() > self.deadline:
                raise Budget("time budget used up")
            self.obligations += 1
            if known and (
                a.a.sexpr() in known if a.kind == "prop" and z3.is_expr(a.a)
                else a.kind != "prop" and all(
                    k in known or not k for k in le_forms(a.kind, a.a, a.b))
            ):
                # literally one of the constraints of the model
                STATS.queries += 1
                STATS.unsat += 1
                self.discharged += 1
                continue
            if self.one_sound(cond, rows, a, tol, margin) == "unsat":
                self.discharged += 1
            else:
                pend.append(a)
        for a in pend:
            if self._skip(scn, a.label):
                continue
            if time.time() > self.deadline:
                raise Budget("time budget used up")
            self.hard_sound(scn, out, r, cond, rows, a, tol, margin, concrete)

    def use_definitions(self, X, A, atoms, rows):
        """replace auxiliary variables by their value, after it has been
        derived from one of the equations of the model"""
        rows = list(rows)
        done = []
        for v, t in A.hints:
            if id(v) not in X.consts:
                continue
            c = X.consts[id(v)]
            if not z3.is_real(c) or c.decl().name() in _consts([t]):
                continue
            name = c.decl().name()
            for row in rows:
                if not row.eq or row.extra is not None:
                    continue
                b = row.body - row.ub
                if name not in _consts([b]):
                    continue
                one = z3.substitute(b, (c, rv(1)))
                zero = z3.substitute(b, (c, rv(0)))
                if set(poly(one - zero)) != {()}:
                    continue
                if poly_key(z3.substitute(b, (c, t))):
                    continue
                # (rest + coef * c == 0 and rest + coef * t == 0)
                sub = [(c, t)]
                rows = [row_subst(r_, sub) for r_ in rows]
                done.append((c, t))
                break
        if not done:
            return atoms, rows
        out = []
        for a in atoms:
            f = lambda x: z3.substitute(x, *done) if z3.is_expr(x) else x
            out.append(Atom(a.label, a.kind, f(a.a), f(a.b), a.sound,
                            a.complete, f(a.guard)))
        return out, rows

    def one_sound(self, cond, rows, a, tol, margin):
        """quick attempt with the constraints that mention the atom's
        variables, and those variables only"""
        neg = a.neg(margin)
        s = z3.simplify(neg, som=True)
        if z3.is_false(s):
            STATS.queries += 1
            STATS.unsat += 1
            return "unsat"
        names = set(_consts([neg]))
        near, mid, eqs = [], [], []
        for row in rows:
            f = row.formula(tol)
            rn = getattr(row, "_names", None)
            if rn is None:
                rn = {n for n in _consts([f]) if "#" in n}
                try:
                    row._names = rn
                except AttributeError:
                    pass
            if rn and rn <= names:
                near.append(f)
            if rn & names:
                mid.append(f)
                if row.eq and row.extra is None and all(
                        "#" in n for n in _consts([f])):
                    eqs.append(f)
        # (integrality hardly follows from anything but equations of
        # variables with numbers as coefficients)
        whole = "IsInt" in neg.sexpr() or "is_int" in neg.sexpr()
        for sel, t in ((eqs if whole else near, 1000), (mid, 1500)):
            # (the simple solver does not end for integrality)
            sv = z3.Solver() if whole else z3.SimpleSolver()
            sv.set("timeout", t)
            sv.add(*cond, *sel, neg)
            t0 = time.time()
            st = sv.check()
            STATS.time += time.time() - t0
            STATS.queries += 1
            if st == z3.unsat:
                STATS.unsat += 1
                return "unsat"
            if st == z3.sat:
                STATS.sat += 1
            else:
                STATS.unknown += 1
        return "unknown"

    def hard_sound(
        self, scn, out, r, cond, rows, a, tol, margin, concrete
    ):
        neg = a.neg(margin)
        full = cond + [row.formula(tol) for row in rows]
        st, m = solve(full + [neg], self.timeout)
        if st == "unsat":
            self.discharged += 1
            return
        how = "symbolic"
        if st == "unknown":
            st, m, npin = self.pinned_query(out, full, neg)
            how = f"parameters pinned ({npin} instances)"
            if st == "unsat":
                self.pinned_discharged += 1
                self.notes.append(
                    f"{scn.name}: '{a.label}' decided for {npin} pinned "
                    "parameter instances only"
                )
                return
            if st == "unknown":
                self.inconclusive.append(f"{scn.name}: {a.label}")
                return
        # candidate counterexample; look for a well-conditioned one first
        cands = []
        if concrete is not None:
            cands.append(concrete)
        else:
            box = self._box(out, r)
            for mg in (Fraction(1, 100), Fraction(1, 10**4)):
                st2, m2 = solve(full + box + [a.neg(mg)], self.timeout)
                if st2 == "sat":
                    cands.append(self.values_of(out, m2))
                    break
            cands.append(self.values_of(out, m))
        for vals in cands:
            rep = self.replay_sound(scn, vals, a.label)
            if rep is not None:
                self.report(
                    scn, a.label, "model admits a violating solution"
                    if r.X is not None else "wrong value",
                    vals, rep,
                )
                return
        self.spurious.append(f"{scn.name}: {a.label} ({how})")

    def _box(self, out, r, lim=1000):
        box = []
        for n, t in out.ctx.param_terms().items():
            if not z3.is_bool(t):
                box.append(z3.And(t >= -lim, t <= lim))
        if r.X is not None:
            for c in r.X.consts.values():
                box.append(z3.And(c >= -100 * lim, c <= 100 * lim))
        return box

    def pinned_query(self, out, full, neg, n=3):
        """substitute solver/seed chosen parameter values (linear query)"""
        terms = {
            k: t
            for k, t in out.ctx.param_terms().items()
            if not z3.is_bool(t)
        }
        done = 0
        for k in range(n):
            fix = []
            extra = []
            for name, t in sorted(terms.items()):
                if z3.is_int(t):
                    continue
                c = Fraction(self.rng.randint(-6, 40), 8)
                extra.append((t, c))
            base = list(out.cond)
            # greedily accept random pins that are consistent
            vals = {}
            for t, c in extra:
                r, _ = E.check(*base, t == rv(c), timeout_ms=1000)
                if r == "sat":
                    base.append(t == rv(c))
            r, m = E.check(*base, timeout_ms=3000)
            if r != "sat":
                continue
            sub = []
            for name, t in terms.items():
                v = m.eval(t, model_completion=True)
                sub.append((t, v))
                fix.append(t == v)
            q = [
                z3.simplify(z3.substitute(f, *sub)) for f in full + [neg]
            ]
            st, m2 = solve(q + fix, self.timeout)
            if st == "sat":
                return "sat", m2, done
            if st == "unsat":
                done += 1
        if done:
            return "unsat", None, done
        return "unknown", None, 0

    # ------------------------------------------------------------------
    def completeness(self, scn, out, r, cond, concrete):
        X, A = r.X, r.A
        obs = {id(v) for v in A.observed}
        sub = []  # (z3 const, term)
        hinted = set()
        for v, t in A.hints:
            if id(v) in X.terms and id(v) not in obs:
                c = X.consts[id(v)]
                sub.append((c, z3.ToInt(t) if z3.is_int(c) else t))
                hinted.add(id(v))
        aux = [
            X.consts[id(v)]
            for v in X.vars
            if id(v) not in obs and id(v) not in hinted
        ]
        rows = [
            (row.name, row, row.formula(0, sub)) for row in X.rows
        ]
        decl = set(str(c.decl().name()) for c in X.consts.values())
        # eliminate auxiliary variables through equalities
        elim = True
        forms = []
        for name, row, f in rows:
            forms.append([name, row, f])
        bodies = {}
        for k, (name, row, f) in enumerate(forms):
            if row.eq and row.extra is None:
                b = row.body - row.ub
                if sub:
                    b = z3.substitute(b, *sub)
                bodies[k] = b
        remaining = list(aux)
        progress = True
        while progress and remaining:
            progress = False
            for x in list(remaining):
                if not z3.is_real(x):
                    continue
                xn = x.decl().name()
                for k, b in list(bodies.items()):
                    if xn not in _consts([b]):
                        continue
                    c1 = z3.simplify(
                        z3.substitute(b, (x, rv(1)))
                        - z3.substitute(b, (x, rv(0))),
                        som=True,
                    )
                    if set(_consts([c1])) & decl:
                        continue
                    if z3.is_rational_value(c1):
                        if value_fraction(c1) == 0:
                            continue
                    else:
                        st, _ = solve(cond + [c1 == 0], 1500)
                        if st != "unsat":
                            continue
                    c0 = z3.substitute(b, (x, rv(0)))
                    t = z3.simplify(-c0 / c1)
                    for j in list(bodies):
                        if j == k:
                            continue
                        bodies[j] = z3.substitute(bodies[j], (x, t))
                    for j in range(len(forms)):
                        forms[j][2] = z3.substitute(forms[j][2], (x, t))
                    del bodies[k]
                    forms[k][2] = z3.BoolVal(True)
                    remaining.remove(x)
                    progress = True
                    break
        spec = [a.pos() for a in A.atoms if a.complete]
        decl_rem = {x.decl().name() for x in remaining}
        plain, quant = [], []
        for name, row, f in forms:
            if z3.is_true(f):
                continue
            if set(_consts([f])) & decl_rem:
                quant.append((name, f))
            else:
                plain.append((name, f))
        if (A.hints or A.literal) and concrete is None:
            known = {
                k
                for a in A.atoms
                if a.complete and a.guard is None and a.kind != "prop"
                for k in le_forms(a.kind, a.a, a.b)
            }
            easy = set()
            if A.literal:
                extra = {a.a.sexpr() for a in A.atoms if a.complete
                         and a.guard is None and a.kind == "prop"}
                easy |= {name for name, row, f in forms
                         if row.extra is not None
                         and row.extra.sexpr() in extra}
            for name, row, f in forms:
                if row.extra is None and (sub or A.literal) and (
                        not z3.is_true(f)):
                    ks = row_forms(row_subst(row, sub) if sub else row)
                    if all(k in known or not k for k in ks):
                        easy.add(name)
            for name, f in list(plain):
                if name in easy:
                    # literally one of the claims
                    self.obligations += 1
                    self.discharged += 1
                    STATS.queries += 1
                    STATS.unsat += 1
            plain = [(n_, f) for n_, f in plain if n_ not in easy]
        tasks = [(name, z3.Not(f)) for name, f in plain]
        for names, body, xs in self._components(quant, remaining):
            bins = [
                x
                for x in xs
                if any(
                    v.is_binary() and X.consts[id(v)].eq(x) for v in X.vars
                )
            ]
            conts = [x for x in xs if not any(x.eq(b) for b in bins)]
            if len(bins) <= 6:
                alts = []
                for k in range(2 ** len(bins)):
                    alts.append(
                        z3.substitute(
                            body,
                            *[
                                (b, rv((k >> i) & 1))
                                for i, b in enumerate(bins)
                            ],
                        )
                        if bins
                        else body
                    )
                body = z3.Or(*alts) if len(alts) > 1 else alts[0]
                xs = conts
            if len(xs) and not bins and all(z3.is_real(x) for x in xs):
                fm = _fourier_motzkin(body, xs)
                if fm is not None:
                    tasks += [(f"aux:{names}", z3.Not(f)) for f in fm]
                    continue
            neg = z3.Not(body)
            if xs:
                neg = z3.ForAll(xs, neg)
            tasks.append((f"aux:{names}", neg))
        base = cond + spec
        for name, neg in tasks:
            if self._skip(scn, f"rejects:{_norm(name)}"):
                continue
            if time.time() > self.deadline:
                raise Budget("time budget used up")
            self.obligations += 1
            if concrete is not None:
                # coefficients are rounded floats: only replay via solver
                st, m = solve(base + [neg], self.timeout)
                if st == "unsat":
                    self.discharged += 1
                elif st == "sat":
                    rep = self.replay_complete(
                        scn, concrete, self.obs_values(r, A.observed, m)
                    )
                    if rep is not None:
                        self.report(
                            scn,
                            f"rejects:{_norm(name)}",
                            "model rejects an admissible solution",
                            concrete,
                            rep,
                            obs=self.obs_values(r, A.observed, m),
                        )
                    else:
                        self.discharged += 1
                else:
                    self.inconclusive.append(f"{scn.name}: rejects {name}")
                continue
            s = z3.simplify(neg, som=True)
            if z3.is_false(s):
                STATS.queries += 1
                STATS.unsat += 1
                self.discharged += 1
                continue
            # atoms over a subset of the variables first
            names = set(_consts([neg]))
            close = [
                f for f in spec if set(_consts([f])) & names
            ]
            st, m = solve(cond + close + [neg], 2000)
            if st == "unsat":
                self.discharged += 1
                continue
            st, m = solve(base + [neg], self.timeout)
            if st == "unsat":
                self.discharged += 1
                continue
            npin = 0
            if st == "unknown":
                st, m, npin = self.pinned_query(out, base, neg)
                if st == "unsat":
                    self.pinned_discharged += 1
                    self.notes.append(
                        f"{scn.name}: 'rejects {name}' decided for {npin} "
                        "pinned parameter instances only"
                    )
                    continue
            if st == "unknown":
                self.inconclusive.append(f"{scn.name}: rejects {name}")
                continue
            cands = []
            strict = []
            box = self._box(out, r)
            st2, m2 = solve(base + box + [neg], self.timeout)
            if st2 == "sat":
                cands.append(m2)
            cands.append(m)
            hit = False
            for mm in cands:
                vals = self.values_of(out, mm)
                ov = self.obs_values(r, A.observed, mm)
                rep = self.replay_complete(scn, vals, ov)
                if rep is not None:
                    self.report(
                        scn,
                        f"rejects:{_norm(name)}",
                        "model rejects an admissible solution",
                        vals,
                        rep,
                        obs=ov,
                    )
                    hit = True
                    break
            if not hit:
                self.spurious.append(f"{scn.name}: rejects {name}")

    def _components(self, quant, remaining):
        """group the constraints on auxiliary variables into independent
        parts: [(names, conjunction, variables)]"""
        by = {x.decl().name(): x for x in remaining}
        groups = []
        for name, f in quant:
            vs = set(_consts([f])) & set(by)
            merged = [(name, f)]
            rest = []
            for g in groups:
                if g[0] & vs:
                    vs |= g[0]
                    merged = g[1] + merged
                else:
                    rest.append(g)
            groups = rest + [(vs, merged)]
        return [
            (
                ",".join(n for n, _ in fs)[:80],
                z3.And(*[f for _, f in fs]),
                [by[v] for v in sorted(vs)],
            )
            for vs, fs in groups
        ]

    def obs_values(self, r, observed, m):
        return {
            v.name: float(
                value_fraction(m.eval(r.X.v(v), model_completion=True))
            )
            for v in observed
        }

    # ------------------------------------------------------------------
    # replays on the real code with machine numbers
    # ------------------------------------------------------------------
    def concrete(self, scn, vals):
        ctx = Context(values=vals)
        o = E.run_context(ctx, lambda S: run_scenario(scn, S))
        return ctx, o

    def _assumed(self, ctx):
        for b in ctx.assumptions:
            if not z3.is_true(z3.simplify(b)):
                return False
        return True

    def replay_exception(self, scn, vals, r):
        ctx, o = self.concrete(scn, vals)
        r2 = o.result
        if r2 is None or not self._assumed(ctx):
            return False
        return r2.exc is not None and (
            type(r2.exc) is type(r.exc) or r2.where == r.where
        )

    def replay_noexc(self, scn, vals):
        ctx, o = self.concrete(scn, vals)
        return (
            o.result is not None
            and o.result.exc is None
            and self._assumed(ctx)
        )

    def replay_sound(self, scn, vals, label):
        """A solution of the concrete model that violates the claim, checked
        with Pyomo's own evaluation of the constraints. Returns a report."""
        ctx, o = self.concrete(scn, vals)
        r = o.result
        if r is None or r.exc is not None or not self._assumed(ctx):
            return None
        atom = next((a for a in r.A.atoms if a.label == label), None)
        if atom is None:
            return None
        if r.X is None:
            for mg in (Fraction(1, 10**6),):
                st, _ = solve([atom.neg(mg)], self.timeout)
                if st == "sat":
                    return {
                        "observed": str(z3.simplify(atom.a)),
                        "expected": str(z3.simplify(atom.b))
                        if atom.b is not None
                        else "holds",
                    }
            return None
        # scale dependent margin
        for mg, tol in (
            (Fraction(1, 100), 1e-7),
            (Fraction(1, 10**4), 1e-8),
        ):
            st, m = solve(
                ctx.pc + r.X.formula(tol) + [atom.neg(mg)], self.timeout
            )
            if st == "sat":
                break
        else:
            return None
        sol = {}
        for v in r.X.vars:
            x = float(value_fraction(m.eval(r.X.v(v), model_completion=True)))
            if v.is_integer() or v.is_binary():
                x = round(x)
            v.set_value(x, skip_validation=True)
            sol[v.name] = x
        bad = []
        for c in r.w.m.component_data_objects(po.Constraint, active=True):
            b = po.value(c.body)
            if c.has_lb() and b < po.value(c.lower) - 1e-5 * (1 + abs(b)):
                bad.append(c.name)
            if c.has_ub() and b > po.value(c.upper) + 1e-5 * (1 + abs(b)):
                bad.append(c.name)
        if bad:
            return None
        return {
            "solution": sol,
            "claim": {
                "left": str(m.eval(atom.a, model_completion=True)),
                "right": str(m.eval(atom.b, model_completion=True))
                if atom.b is not None
                else None,
            },
        }

    def replay_complete(self, scn, vals, ov):
        """Fix the user visible variables of the concrete real model and let
        cbc decide whether any completion exists."""
        ctx, o = self.concrete(scn, vals)
        r = o.result
        if r is None or r.exc is not None or not self._assumed(ctx):
            return None
        # the admissible point must satisfy the claims (rounded)
        names = {v.name: v for v in r.X.vars}
        if any(n not in names for n in ov):
            return None
        sub = []
        for n, x in ov.items():
            c = r.X.consts[id(names[n])]
            sub.append(
                (c, z3.IntVal(int(round(x))))
                if z3.is_int(c)
                else (c, rv(x))
            )
        # (claims on auxiliary variables, too: they hold for some value)
        free = []
        aux = {
            str(c) for c in r.X.consts.values()
        } - {str(c) for c, _ in sub}
        for a in r.A.atoms:
            if not a.complete:
                continue
            neg = z3.substitute(a.neg(Fraction(1, 10**6)), *sub)
            if aux & set(_consts([neg])):
                free.append(z3.Not(neg))
                continue
            st, _ = solve([neg], 5000)
            if st == "sat":
                return None
        if free and solve(free, 5000)[0] == "unsat":
            return None
        # 1. exact: is there a completion of the (slightly relaxed) rows?
        st, _ = solve(
            [z3.substitute(f, *sub) for f in r.X.formula(1e-5)], self.timeout
        )
        if st != "unsat":
            return None
        # 2. the independent MILP solver agrees
        from pyomo.opt import SolverFactory

        m = r.w.m
        for n, x in ov.items():
            v = names[n]
            if v.fixed:
                if abs(po.value(v) - x) > 1e-5 * (1 + abs(x)):
                    return {"fixed": n, "value": po.value(v), "wanted": x}
                continue
            # boxes instead of fixing: bounds stay in the model
            lo, hi = v.bounds
            if (lo is not None and x < lo - 1e-6) or (
                hi is not None and x > hi + 1e-6
            ):
                return {"outside bounds": n, "bounds": [lo, hi], "wanted": x}
            v.fix(x, skip_validation=True)
        m.component("objective").deactivate() if m.component(
            "objective"
        ) is not None else None
        try:
            for ob in list(
                m.component_data_objects(po.Objective, active=True)
            ):
                ob.deactivate()
            m._replay_obj = po.Objective(expr=0)
            res = SolverFactory("cbc").solve(m, load_solutions=False)
            tc = str(res.solver.termination_condition)
        except Exception as e:  # e.g. trivially infeasible constant row
            tc = "infeasible" if "infeasible" in str(e).lower() or (
                "trivial" in str(e).lower()
            ) else f"error {e}"
        if "optimal" in tc:
            return None
        return {"fixed": ov, "cbc": tc}

    # ------------------------------------------------------------------
    def _skip(self, scn, label):
        """nothing more to learn: the claim is refuted already, or many are"""
        mine = [f for f in self.findings if f.scenario == scn.name]
        if any(f.label == label for f in mine):
            return True
        known = {k["label"] for k in self.known if k["scenario"] == scn.name}
        return len([f for f in mine if f.label not in known]) >= 4

    def report(self, scn, label, kind, vals, detail, obs=None):
        f = Finding(scn.name, label, kind, vals, detail)
        f.obs = obs
        self.findings.append(f)


def _norm(name):
    """row name without symbolic decoration"""
    return name


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)
