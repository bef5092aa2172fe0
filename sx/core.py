# -*- coding: utf-8 -*-
"""Path exploration: re-executes the real (instrumented) Python code once per
feasible path; branch feasibility and every assertion are decided by z3."""
import time

import z3


class PathAbort(BaseException):
    """steers the exploration; BaseException so `except Exception` of the code
    under test does not swallow it"""


class Infeasible(PathAbort):
    pass


class PathLimit(PathAbort):
    pass


class Nondeterminism(PathAbort):
    pass


class MissingInput(BaseException):
    pass


class Values(dict):
    def __missing__(self, k):
        raise MissingInput(k)


CUR = None            # the active Ctx (symbolic or concrete)


def cur():
    return CUR


def set_cur(ctx):
    global CUR
    CUR = ctx


class Stats(object):
    FIELDS = ("paths", "queries", "solver_s", "asserts", "unknown", "concretized",
              "infeasible", "limits", "nondet", "reach")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))


class Ctx(object):
    """One symbolic path."""
    symbolic = True
    MAX_DECISIONS = 4000
    MAX_ENUM = 400

    def __init__(self, prefix, stats, timeout_ms=20000):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.model = None
        self.inputs = {}          # name -> ("int"|"str"|"choice"|..., payload)
        self.order = []
        self.violations = []
        self.sym_hashed = False
        self.hard_limit = False
        self.notes = set()
        self.deadline = None
        self.meta = {}

    # ---------------------------------------------------------------- solver
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.sat:
            self._last_model = self.solver.model()
        return r

    def add(self, cond):
        self.solver.add(cond)
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def define(self, cond, names, values):
        """adds the definition of fresh variables; values(eval) computes them
        for the inputs of the model at hand, which spares the solver a search"""
        m = self.model
        self.solver.add(cond)
        if m is None:
            return
        self.model = None
        fix = []
        for n in m.decls():
            if n.arity() == 0:
                fix.append(n() == m[n])
        vals = values(lambda e: value_of(m.eval(e, model_completion=True)))
        if self._check(*(fix + [n == v for n, v in zip(names, vals)])) == z3.sat:
            self.model = self._last_model

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.stats.infeasible += 1
                raise Infeasible()
            if r != z3.sat:
                self.stats.unknown += 1
                raise PathLimit("solver unknown")
            self.model = self._last_model
        return self.model

    def branch(self, cond):
        """decide a symbolic condition; forks when both outcomes are feasible"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d is not True and d is not False:
                self.stats.nondet += 1
                raise Nondeterminism()
            self.trace.append(d)
            self.add(cond if d else z3.Not(cond))
            return d
        if len(self.trace) >= self.MAX_DECISIONS:
            self.stats.limits += 1
            raise PathLimit("decisions")
        if self.deadline is not None and time.time() > self.deadline:
            self.stats.limits += 1
            raise PathLimit("deadline")
        m = self._ensure_model()
        v = m.eval(cond, model_completion=True)
        first = z3.is_true(v)
        other = z3.Not(cond) if first else cond
        r = self._check(other)
        if r == z3.unknown:
            self.stats.unknown += 1
        if r != z3.unsat:
            self.pending.append(tuple(self.trace) + ((not first),))
        else:
            # forced: record so that replays stay aligned
            pass
        self.trace.append(first)
        self.solver.add(cond if first else z3.Not(cond))
        return first

    def choose(self, n, name="choice"):
        """n-way structural choice (no constraint)"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if type(d) is not tuple or d[0] != "c":
                self.stats.nondet += 1
                raise Nondeterminism()
            self.trace.append(d)
            return d[1]
        for i in range(n - 1, 0, -1):
            self.pending.append(tuple(self.trace) + (("c", i),))
        self.trace.append(("c", 0))
        return 0

    def concretize(self, expr, count=True):
        """enumerate the feasible values of an Int/Real/Bool expression"""
        expr = z3.simplify(expr)
        v = value_of(expr)
        if v is not None:
            return v
        excl = ()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if type(d) is not tuple or d[0] not in ("k", "x"):
                self.stats.nondet += 1
                raise Nondeterminism()
            if d[0] == "k":
                self.trace.append(d)
                self.add(expr == lit(d[1], expr))
                return d[1]
            excl = d[1]
        if count:
            self.stats.concretized += 1
        if len(excl) > self.MAX_ENUM:
            self.stats.limits += 1
            raise PathLimit("enumeration")
        for e in excl:
            self.add(expr != lit(e, expr))
        m = self._ensure_model()
        v = value_of(m.eval(expr, model_completion=True))
        if v is None:
            self.stats.limits += 1
            raise PathLimit("algebraic value")
        r = self._check(expr != lit(v, expr))
        if r != z3.unsat:
            self.pending.append(tuple(self.trace) + (("x", excl + (v,)),))
        self.trace.append(("k", v))
        self.add(expr == lit(v, expr))
        return v

    def assume(self, cond):
        c = as_z3bool(cond)
        if c is True:
            return
        if c is False:
            self.stats.infeasible += 1
            raise Infeasible()
        self.add(c)
        if self.pos >= len(self.prefix):
            self._ensure_model()

    # ---------------------------------------------------------------- asserts
    def check(self, cond, msg, **detail):
        self.stats.asserts += 1
        self.stats.reach += 1
        c = as_z3bool(cond)
        if c is True:
            return True
        if c is False:
            m = self._ensure_model()
            self.violations.append((msg, self.decode(m)))
            return False
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            self.add(c)
            return True
        if r == z3.unknown:
            self.stats.unknown += 1
            return True
        self.violations.append((msg, self.decode(self._last_model)))
        self.add(c)
        return False

    def fail(self, msg):
        return self.check(False, msg)

    def exclude(self, kf, cond):
        """leave a listed known finding's inputs out of this exploration"""
        from .proxies import SymBool
        if type(cond) is SymBool:
            self.assume(SymBool(z3.Not(cond.e)))
        elif cond:
            raise Infeasible()

    # ---------------------------------------------------------------- inputs
    def int(self, name, lo=None, hi=None):
        from .proxies import SymInt
        x = z3.Int(name)
        if lo is not None:
            self.add(x >= lo)
        if hi is not None:
            self.add(x <= hi)
        self.inputs[name] = ("int", x)
        return SymInt(x)

    def real(self, name, lo=None, hi=None, den=None):
        """a float input; with den: multiples of 1/den (exact binary fractions
        when den is a power of two)"""
        from .proxies import SymReal
        if den:
            n = z3.Int(name)
            if lo is not None:
                self.add(n >= lo * den)
            if hi is not None:
                self.add(n <= hi * den)
            self.inputs[name] = ("frac", (n, den))
            return SymReal(z3.ToReal(n) / den)
        x = z3.Real(name)
        if lo is not None:
            self.add(x >= lo)
        if hi is not None:
            self.add(x <= hi)
        self.inputs[name] = ("real", x)
        return SymReal(x)

    def bool(self, name):
        from .proxies import SymBool
        x = z3.Bool(name)
        self.inputs[name] = ("bool", x)
        return SymBool(x)

    def choice(self, name, options):
        i = self.choose(len(options), name)
        self.inputs[name] = ("choice", i)
        return options[i]

    def nullable(self, name, mk):
        if self.choice(name + "?null", (False, True)):
            return None
        return mk(name)

    def nint(self, name, lo=None, hi=None):
        if self.choice(name + "?null", (False, True)):
            return None
        return self.int(name, lo, hi)

    def str(self, name, maxlen, alphabet=None, minlen=0, lo=32, hi=126):
        from .proxies import mkstr
        n = minlen + self.choose(maxlen - minlen + 1, name + "?len")
        cs = []
        for i in range(n):
            c = z3.Int("%s[%d]" % (name, i))
            if alphabet is None:
                self.add(z3.And(c >= lo, c <= hi))
            else:
                codes = sorted(set(ord(a) for a in alphabet))
                if len(codes) == codes[-1] - codes[0] + 1:
                    self.add(z3.And(c >= codes[0], c <= codes[-1]))
                else:
                    self.add(z3.Or([c == a for a in codes]))
            cs.append(c)
        self.inputs[name] = ("str", cs)
        return mkstr(cs)

    def decode(self, model):
        out = {}
        for name, (kind, p) in self.inputs.items():
            if kind == "int":
                out[name] = value_of(model.eval(p, model_completion=True))
            elif kind == "real":
                v = value_of(model.eval(p, model_completion=True))
                out[name] = float(v)
            elif kind == "frac":
                out[name] = value_of(model.eval(p[0], model_completion=True))
            elif kind == "bool":
                out[name] = z3.is_true(model.eval(p, model_completion=True))
            elif kind == "choice":
                out[name] = p
            elif kind == "str":
                out[name] = "".join(chr(value_of(model.eval(c, model_completion=True))) for c in p)
        return out


def value_of(e):
    from fractions import Fraction
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def lit(v, like):
    from fractions import Fraction
    if v is True or v is False:
        return z3.BoolVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if z3.is_real(like):
        return z3.RealVal(v)
    return z3.IntVal(v)


def as_z3bool(c):
    from .proxies import SymBool
    if type(c) is SymBool:
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return e
    return bool(c)


class ConcreteCtx(object):
    """replays a harness on concrete inputs against the unmodified code"""
    symbolic = False

    def __init__(self, values):
        self.values = Values(values)
        self.violations = []
        self.asserts = 0
        self.meta = {}

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, msg, **detail):
        self.asserts += 1
        if not cond:
            self.violations.append(msg)
            return False
        return True

    def fail(self, msg):
        return self.check(False, msg)

    def exclude(self, kf, cond):
        if cond and self.values.get("__kf__") != kf:
            raise Infeasible()

    def int(self, name, lo=None, hi=None):
        return self.values[name]

    def real(self, name, lo=None, hi=None, den=None):
        v = self.values[name]
        return v / den if den else v

    def bool(self, name):
        return self.values[name]

    def choice(self, name, options):
        return options[self.values.get(name, 0)] if len(options) > 1 else options[0]

    def nullable(self, name, mk):
        if self.choice(name + "?null", (False, True)):
            return None
        return mk(name)

    def nint(self, name, lo=None, hi=None):
        if self.choice(name + "?null", (False, True)):
            return None
        return self.int(name, lo, hi)

    def str(self, name, maxlen, alphabet=None, minlen=0, lo=32, hi=126):
        return self.values[name]


def explore(fn, prefix, stats, max_paths, max_seconds, on_path=None, on_ctx=None):
    """explores the subtree below `prefix`; returns the unexplored prefixes"""
    stack = [tuple(prefix)]
    t0 = time.time()
    n = 0
    while stack:
        if n and (n >= max_paths or time.time() - t0 > max_seconds):
            break
        p = stack.pop()
        ctx = Ctx(p, stats)
        set_cur(ctx)
        try:
            if on_ctx is not None:
                on_ctx(ctx)
            fn(ctx)
            stats.paths += 1
        except Infeasible:
            pass
        except (PathLimit, Nondeterminism) as e:
            ctx.notes.add(type(e).__name__ + ":" + str(e))
        finally:
            set_cur(None)
        n += 1
        stack.extend(reversed(ctx.pending))
        if on_path is not None:
            on_path(ctx)
    return stack
