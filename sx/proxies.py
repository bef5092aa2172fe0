# -*- coding: utf-8 -*-
"""Symbolic stand-ins for int, bool, float (modelled as exact rationals) and
str (concrete length per path, symbolic code points)."""
import math
from fractions import Fraction

import z3

from . import core

NI = NotImplemented
HASH0 = 0x5eed


class Proxy(object):
    __slots__ = ()


def is_sym(x):
    return isinstance_raw(x)


def isinstance_raw(x):
    return issubclass(type(x), Proxy)


def deep_sym(x, depth=4):
    t = type(x)
    if issubclass(t, Proxy):
        return True
    if depth and t in (tuple, list, set, frozenset):
        for i in x:
            if deep_sym(i, depth - 1):
                return True
        return False
    if depth and issubclass(t, dict):
        for k, v in x.items():
            if deep_sym(k, depth - 1) or deep_sym(v, depth - 1):
                return True
    return False


# ------------------------------------------------------------------ numbers
def num_expr(x):
    """(z3 expr, is_real) for int/bool/float/SymInt/SymBool/SymReal, else None"""
    t = type(x)
    if t is SymInt:
        return x.e, False
    if t is SymReal:
        return x.e, True
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), False
    if t is int:
        return z3.IntVal(x), False
    if t is bool:
        return z3.IntVal(1 if x else 0), False
    if t is float:
        if x != x or x in (math.inf, -math.inf):
            return None
        return z3.RealVal(Fraction(x)), True
    if isinstance(x, int):
        return z3.IntVal(int(x)), False
    if isinstance(x, float):
        return num_expr(float(x))
    return None


def mkint(e):
    if type(e) is int:
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkreal(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    return SymReal(e)


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _real(e, isr):
    return e if isr else z3.ToReal(e)


def _special(o):
    return type(o) is float and (o != o or o in (math.inf, -math.inf))


def _cmp(op, a, b):
    if _special(b):
        if b != b:
            return op == "ne"
        if op in ("lt", "le"):
            return b > 0
        if op in ("gt", "ge"):
            return b < 0
        return op == "ne"
    x = num_expr(b)
    if x is None:
        return NI
    be, br = x
    ae, ar = num_expr(a)
    if ar != br:
        ae, be = _real(ae, ar), _real(be, br)
    if op == "eq":
        return mkbool(ae == be)
    if op == "ne":
        return mkbool(ae != be)
    if op == "lt":
        return mkbool(ae < be)
    if op == "le":
        return mkbool(ae <= be)
    if op == "gt":
        return mkbool(ae > be)
    return mkbool(ae >= be)


def truth(c):
    """fork on a python truth value"""
    return bool(c)


def _isr(x):
    return type(x) in (SymReal, float)


def floor_div(ae, be):
    """python floor division of z3 ints, divisor known non-zero on this path"""
    if z3.is_int_value(be):
        b = be.as_long()
        if b > 0:
            return ae / be
        return (-ae) / z3.IntVal(-b)
    if core.cur().branch(be > 0):
        return ae / be
    return (-ae) / (-be)


def _arith(op, a, b):
    """a op b with at least one proxy"""
    if _special(a) or _special(b):
        fa = a if type(a) is float else None
        fb = b if type(b) is float else None
        if (fa is not None and fa != fa) or (fb is not None and fb != fb):
            return math.nan
        if num_expr(a if fa is None else b) is None:
            return NI
        p = a if fa is None else b
        if op in ("add",):
            return fa if fa is not None else fb
        if op == "sub":
            return fa if fa is not None else -fb
        if op in ("mul", "div"):
            if op == "div" and fb is not None:
                return 0.0
            if op == "div" and truth(p == 0):
                raise ZeroDivisionError("float division by zero")
            if truth(p == 0):
                return math.nan
            s = 1.0 if truth(p > 0) else -1.0
            return s * (fa if fa is not None else fb)
        return NI
    xa, xb = num_expr(a), num_expr(b)
    if xa is None or xb is None:
        return NI
    (ae, ar), (be, br) = xa, xb
    if op in ("add", "sub", "mul"):
        if ar != br:
            ae, be = _real(ae, ar), _real(be, br)
        e = ae + be if op == "add" else ae - be if op == "sub" else ae * be
        return mkreal(e) if (ar or br) else mkint(e)
    if op == "div":
        if truth(mkbool(be == 0)):
            raise ZeroDivisionError("division by zero")
        return mkreal(_real(ae, ar) / _real(be, br))
    if op in ("fdiv", "mod"):
        if truth(mkbool(be == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if not ar and not br:
            q = floor_div(ae, be)
            if op == "fdiv":
                return mkint(q)
            if z3.is_int_value(be) and be.as_long() > 0:
                return mkint(ae % be)
            return mkint(ae - q * be)
        ae, be = _real(ae, ar), _real(be, br)
        q = z3.ToReal(z3.ToInt(ae / be))
        return mkreal(q) if op == "fdiv" else mkreal(ae - q * be)
    if op == "pow":
        if not br and z3.is_int_value(z3.simplify(be)):
            n = z3.simplify(be).as_long()
            if 0 <= n <= 8:
                r = z3.RealVal(1) if ar else z3.IntVal(1)
                for _ in range(n):
                    r = r * ae
                return mkreal(r) if ar else mkint(r)
            if -8 <= n < 0:
                if truth(mkbool(ae == 0)):
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                r = z3.RealVal(1)
                for _ in range(-n):
                    r = r * _real(ae, ar)
                return mkreal(z3.RealVal(1) / r)
        return conc(a) ** conc(b)
    return NI


BITW = 40


def _bit(op, a, b):
    if _isr(a) or _isr(b):
        return NI
    if type(a) in (SymBool, bool) and type(b) in (SymBool, bool):
        ae, be = bool_expr(a), bool_expr(b)
        if op == "and":
            return mkbool(z3.And(ae, be))
        if op == "or":
            return mkbool(z3.Or(ae, be))
        if op == "xor":
            return mkbool(z3.Xor(ae, be))
    xa, xb = num_expr(a), num_expr(b)
    if xa is None or xb is None:
        return NI
    ae, be = xa[0], xb[0]
    if op in ("lsh", "rsh"):
        if truth(mkbool(be < 0)):
            raise ValueError("negative shift count")
        n = core.cur().concretize(be)
        if op == "lsh":
            return mkint(ae * z3.IntVal(2 ** n))
        return mkint(ae / z3.IntVal(2 ** n))
    ctx = core.cur()
    W = BITW
    lim = 2 ** (W - 1)
    ok = mkbool(z3.And(ae >= -lim, ae < lim, be >= -lim, be < lim))
    if not truth(ok):
        return int(conc(a)) & int(conc(b)) if op == "and" else \
            int(conc(a)) | int(conc(b)) if op == "or" else int(conc(a)) ^ int(conc(b))
    x, y = z3.Int2BV(ae, W), z3.Int2BV(be, W)
    r = x & y if op == "and" else x | y if op == "or" else x ^ y
    return mkint(z3.BV2Int(r, is_signed=True))


def conc(x):
    """concretize one proxy (enumerates its feasible values by forking)"""
    t = type(x)
    if not issubclass(t, Proxy):
        return x
    ctx = core.cur()
    if t is SymInt:
        return ctx.concretize(x.e)
    if t is SymBool:
        return ctx.branch(x.e)
    if t is SymReal:
        v = ctx.concretize(x.e)
        return float(v)
    if t is SymStr:
        return "".join(c if type(c) is str else chr(ctx.concretize(c)) for c in x.chars())
    if t.__name__ == "SymBytes":
        return bytes(c if type(c) is int else ctx.concretize(c) for c in x.b)
    raise TypeError(t)


def conc_deep(x, depth=6):
    t = type(x)
    if issubclass(t, Proxy):
        return conc(x)
    if depth:
        if t in (list, tuple, set, frozenset):
            if deep_sym(x):
                return t(conc_deep(i, depth - 1) for i in x)
            return x
        if t is dict:
            if deep_sym(x):
                return {conc_deep(k, depth - 1): conc_deep(v, depth - 1) for k, v in x.items()}
    return x


def bool_expr(x):
    if type(x) is SymBool:
        return x.e
    return z3.BoolVal(bool(x))


class SymNum(Proxy):
    __slots__ = ()

    def __add__(self, o): return _arith("add", self, o)
    def __radd__(self, o): return _arith("add", o, self)
    def __sub__(self, o): return _arith("sub", self, o)
    def __rsub__(self, o): return _arith("sub", o, self)

    def __mul__(self, o):
        if type(o) in (str, list, tuple, SymStr):
            return o * conc(self) if type(o) is not SymStr else o.__mul__(self)
        return _arith("mul", self, o)

    def __rmul__(self, o):
        if type(o) in (str, list, tuple):
            return o * conc(self)
        return _arith("mul", o, self)

    def __truediv__(self, o): return _arith("div", self, o)
    def __rtruediv__(self, o): return _arith("div", o, self)
    def __floordiv__(self, o): return _arith("fdiv", self, o)
    def __rfloordiv__(self, o): return _arith("fdiv", o, self)
    def __mod__(self, o): return _arith("mod", self, o)

    def __rmod__(self, o):
        if type(o) is str:
            from .ops import str_percent
            return str_percent(o, self)
        return _arith("mod", o, self)

    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)
    def __pow__(self, o, m=None): return _arith("pow", self, o)
    def __rpow__(self, o): return _arith("pow", o, self)
    def __and__(self, o): return _bit("and", self, o)
    def __rand__(self, o): return _bit("and", o, self)
    def __or__(self, o): return _bit("or", self, o)
    def __ror__(self, o): return _bit("or", o, self)
    def __xor__(self, o): return _bit("xor", self, o)
    def __rxor__(self, o): return _bit("xor", o, self)
    def __lshift__(self, o): return _bit("lsh", self, o)
    def __rlshift__(self, o): return _bit("lsh", o, self)
    def __rshift__(self, o): return _bit("rsh", self, o)
    def __rrshift__(self, o): return _bit("rsh", o, self)
    def __eq__(self, o): return _cmp("eq", self, o)
    def __ne__(self, o): return _cmp("ne", self, o)
    def __lt__(self, o): return _cmp("lt", self, o)
    def __le__(self, o): return _cmp("le", self, o)
    def __gt__(self, o): return _cmp("gt", self, o)
    def __ge__(self, o): return _cmp("ge", self, o)

    def __hash__(self):
        c = core.cur()
        if c is not None:
            c.sym_hashed = True
        return HASH0

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return "<%s %s>" % (type(self).__name__, str(self.e)[:60].replace("\n", " "))
    __str__ = __repr__

    def __format__(self, spec):
        return format(conc(self), spec)

    def __float__(self): return float(conc(self))
    def __complex__(self): return complex(conc(self))
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def conjugate(self): return self

    def __reduce_ex__(self, p):
        raise TypeError("proxy pickled")


class SymInt(SymNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self): return int

    def __bool__(self): return core.cur().branch(self.e != 0)
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e < 0, -self.e, self.e))
    def __invert__(self): return mkint(-self.e - 1)
    def __int__(self): return core.cur().concretize(self.e)
    def __index__(self): return core.cur().concretize(self.e)
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    def __round__(self, n=None):
        if n is None:
            return self
        n = conc(n)
        if n >= 0:
            return self
        p = 10 ** (-n)
        return mkint(_round_half_even(z3.ToReal(self.e) / p) * p)

    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1
    def is_integer(self): return True
    def bit_length(self): return conc(self).bit_length()
    def bit_count(self): return conc(self).bit_count()
    def to_bytes(self, *a, **k): return conc(self).to_bytes(*a, **k)


class SymBool(SymNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self): return bool

    def __bool__(self): return core.cur().branch(self.e)
    def __int__(self): return 1 if core.cur().branch(self.e) else 0
    __index__ = __int__
    def _i(self): return mkint(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))
    def __neg__(self): return -self._i()
    def __pos__(self): return self._i()
    def __abs__(self): return self._i()
    def __invert__(self): return ~self._i()
    def __trunc__(self): return self._i()
    def __floor__(self): return self._i()
    def __ceil__(self): return self._i()
    def __round__(self, n=None): return self._i()

    def __eq__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(self.e == bool_expr(o))
        return _cmp("eq", self, o)

    def __ne__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(self.e != bool_expr(o))
        return _cmp("ne", self, o)

    __hash__ = SymNum.__hash__


def _round_half_even(e):
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


class SymReal(SymNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self): return float

    def __bool__(self): return core.cur().branch(self.e != 0)
    def __neg__(self): return mkreal(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkreal(z3.If(self.e < 0, -self.e, self.e))
    def trunc(self): return mkint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))
    def __int__(self): return int(conc(self))
    def __trunc__(self): return self.trunc()
    def __floor__(self): return mkint(z3.ToInt(self.e))
    def __ceil__(self): return mkint(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if n is None:
            return mkint(_round_half_even(self.e))
        n = conc(n)
        p = z3.RealVal(Fraction(10) ** n)
        return mkreal(z3.ToReal(_round_half_even(self.e * p)) / p)

    def is_integer(self): return mkbool(z3.ToReal(z3.ToInt(self.e)) == self.e)
    def as_integer_ratio(self): return conc(self).as_integer_ratio()
    def hex(self): return conc(self).hex()


# ------------------------------------------------------------------ strings
def code(c):
    return z3.IntVal(ord(c)) if type(c) is str else c


def mkchar(c):
    if type(c) is str:
        return c
    if type(c) is int:
        return chr(c)
    c = z3.simplify(c)
    if z3.is_int_value(c):
        return chr(c.as_long())
    return c


def mkstr(chars):
    cs = [mkchar(c) for c in chars]
    for c in cs:
        if type(c) is not str:
            return SymStr(cs)
    return "".join(cs)


def chars_of(s):
    if type(s) is SymStr:
        return s.chars()
    return list(s)


def str_eq(a, b):
    """SymBool/bool equality of two (maybe symbolic) strings"""
    x, y = chars_of(a), chars_of(b)
    if len(x) != len(y):
        return False
    conj = []
    for p, q in zip(x, y):
        if type(p) is str and type(q) is str:
            if p != q:
                return False
        else:
            conj.append(code(p) == code(q))
    if not conj:
        return True
    return mkbool(z3.And(conj))


def str_lt(a, b):
    x, y = chars_of(a), chars_of(b)
    r = z3.BoolVal(len(x) < len(y))
    for i in range(min(len(x), len(y)) - 1, -1, -1):
        p, q = code(x[i]), code(y[i])
        r = z3.Or(p < q, z3.And(p == q, r))
    return mkbool(r)


def ceq(c, ch):
    """char == concrete char, forking"""
    if type(c) is str:
        return c == ch
    return core.cur().branch(c == ord(ch))


def cin(c, chs):
    if type(c) is str:
        return c in chs
    codes = sorted(set(ord(x) for x in chs))
    return core.cur().branch(in_codes(c, codes))


def in_codes(c, codes):
    rs, i = [], 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        rs.append(c == codes[i] if i == j else z3.And(c >= codes[i], c <= codes[j]))
        i = j + 1
    return z3.Or(rs) if rs else z3.BoolVal(False)


LIMIT_CODE = 0x250     # predicates on characters are exact below this code


def _codes(pred):
    return [i for i in range(LIMIT_CODE) if pred(chr(i))]


_PRED = {}


def cpred(c, name):
    """character-class predicate, forking; beyond LIMIT_CODE concretizes"""
    f = getattr(str, name)
    if type(c) is str:
        return f(c)
    if name not in _PRED:
        _PRED[name] = _codes(lambda x: f(x))
    return core.cur().branch(in_codes(c, _PRED[name]))


_MAPS = {}


def cmap(c, name):
    """upper/lower of one char as a list of chars"""
    f = getattr(str, name)
    if type(c) is str:
        return list(f(c))
    if name not in _MAPS:
        groups = {}
        for i in range(LIMIT_CODE):
            o = f(chr(i))
            d = ord(o) - i if len(o) == 1 else ("m", i)
            groups.setdefault(d, []).append(i)
        _MAPS[name] = groups
    groups = _MAPS[name]
    ctx = core.cur()
    for d, codes in groups.items():
        if type(d) is tuple:
            if ctx.branch(in_codes(c, codes)):
                return list(f(chr(codes[0])))
    e = c
    for d, codes in groups.items():
        if type(d) is int and d:
            e = z3.If(in_codes(c, codes), c + d, e)
    return [mkchar(e)]


WS = [i for i in range(LIMIT_CODE) if chr(i).isspace()]
WS_STR = "".join(chr(i) for i in WS)


def norm_slice_index(i, n, default):
    """clamped concrete slice index out of a possibly symbolic one"""
    if i is None:
        return default
    if type(i) is SymInt:
        ctx = core.cur()
        e = i.e
        if ctx.branch(e >= n):
            return n
        if ctx.branch(e <= -n):
            return 0
        v = ctx.concretize(e, count=False)
        return v if v >= 0 else max(v + n, 0)
    i = i.__index__() if not isinstance(i, int) else int(i)
    if i < 0:
        return max(i + n, 0)
    return min(i, n)


def slice_positions(s, n):
    step = s.step
    if type(step) is SymInt:
        step = conc(step)
    if step is None or step == 1:
        a = norm_slice_index(s.start, n, 0)
        b = norm_slice_index(s.stop, n, n)
        return range(a, max(a, b))
    a, b = conc(s.start), conc(s.stop)
    return range(*slice(a, b, step).indices(n))


def index_position(i, n, what="string"):
    if type(i) in (SymInt, SymBool):
        ctx = core.cur()
        e = num_expr(i)[0]
        if not ctx.branch(z3.And(e >= -n, e < n)):
            raise IndexError(what + " index out of range")
        v = ctx.concretize(e, count=False)
    else:
        v = i.__index__()
    if v < 0:
        v += n
    if not 0 <= v < n:
        raise IndexError(what + " index out of range")
    return v


def _s(x):
    return type(x) is str or type(x) is SymStr or isinstance(x, str)


def _need_str(x):
    if not _s(x):
        raise TypeError("must be str, not %s" % type(x).__name__)


class SymStr(Proxy):
    __slots__ = ("_c", "_lazy")

    def __init__(self, chars=None, lazy=None):
        self._c = chars
        self._lazy = lazy

    @property
    def __class__(self): return str

    def chars(self):
        if self._c is None:
            self._c = [mkchar(c) for c in self._lazy()]
            self._lazy = None
        return self._c

    # -- core protocol
    def __len__(self): return len(self.chars())
    def __bool__(self): return len(self.chars()) > 0

    def __hash__(self):
        c = core.cur()
        if c is not None:
            c.sym_hashed = True
        return HASH0

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __repr__(self):
        if self._c is None:
            return "<SymStr lazy>"
        return "<SymStr %s>" % "".join(c if type(c) is str else "?" for c in self._c)
    __str__ = __repr__

    def __format__(self, spec): return format(conc(self), spec)

    def __iter__(self):
        return iter([mkstr([c]) for c in self.chars()])

    def __getitem__(self, i):
        cs = self.chars()
        if isinstance(i, slice):
            return mkstr([cs[j] for j in slice_positions(i, len(cs))])
        if not hasattr(i, "__index__"):
            raise TypeError("string indices must be integers, not '%s'" % type(i).__name__)
        return mkstr([cs[index_position(i, len(cs))]])

    def __contains__(self, o):
        _need_str(o)
        return self.find(o) >= 0

    def __eq__(self, o):
        if not _s(o):
            return NI
        return str_eq(self, o)

    def __ne__(self, o):
        if not _s(o):
            return NI
        r = str_eq(self, o)
        return (not r) if type(r) is bool else mkbool(z3.Not(r.e))

    def __lt__(self, o): return str_lt(self, o) if _s(o) else NI
    def __gt__(self, o): return str_lt(o, self) if _s(o) else NI
    def __le__(self, o): return _not(str_lt(o, self)) if _s(o) else NI
    def __ge__(self, o): return _not(str_lt(self, o)) if _s(o) else NI

    def __add__(self, o):
        if not _s(o):
            return NI
        return mkstr(self.chars() + chars_of(o))

    def __radd__(self, o):
        if not _s(o):
            return NI
        return mkstr(chars_of(o) + self.chars())

    def __mul__(self, n):
        if not isinstance(n, int):
            return NI
        if type(n) is SymInt:
            if truth(n <= 0):
                return ""
            n = conc(n)
        return mkstr(self.chars() * int(n))
    __rmul__ = __mul__

    def __mod__(self, o):
        from .ops import str_percent
        return str_percent(self, o)

    # -- predicates
    def _all(self, name):
        cs = self.chars()
        if not cs:
            return False
        for c in cs:
            if not cpred(c, name):
                return False
        return True

    def isdigit(self): return self._all("isdigit")
    def isalpha(self): return self._all("isalpha")
    def isalnum(self): return self._all("isalnum")
    def isspace(self): return self._all("isspace")
    def isnumeric(self): return self._all("isnumeric")
    def isdecimal(self): return self._all("isdecimal")
    def isprintable(self):
        return all(cpred(c, "isprintable") for c in self.chars())
    def isascii(self):
        return all(cpred(c, "isascii") for c in self.chars())
    def isidentifier(self): return conc(self).isidentifier()

    def isupper(self):
        seen = False
        for c in self.chars():
            if cpred(c, "isupper"):
                seen = True
            elif cpred(c, "islower"):
                return False
        return seen

    def islower(self):
        seen = False
        for c in self.chars():
            if cpred(c, "islower"):
                seen = True
            elif cpred(c, "isupper"):
                return False
        return seen

    def istitle(self): return conc(self).istitle()

    # -- transforms
    def _map(self, name):
        out = []
        for c in self.chars():
            out.extend(cmap(c, name))
        return mkstr(out)

    def upper(self): return self._map("upper")
    def lower(self): return self._map("lower")
    def casefold(self): return self._map("casefold")
    def swapcase(self): return self._map("swapcase")

    def capitalize(self):
        cs = self.chars()
        if not cs:
            return ""
        out = cmap(cs[0], "upper")
        for c in cs[1:]:
            out.extend(cmap(c, "lower"))
        return mkstr(out)

    def title(self):
        out, prev = [], False
        for c in self.chars():
            al = cpred(c, "isalpha")
            out.extend(cmap(c, "lower" if prev else "upper"))
            prev = al
        return mkstr(out)

    def _stripper(self, chs):
        if chs is None:
            return lambda c: cin(c, WS_STR)
        _need_str(chs)
        if type(chs) is SymStr:
            return lambda c: any(truth(mkbool(code(c) == code(x))) for x in chs.chars())
        return lambda c: cin(c, chs) if chs else False

    def lstrip(self, chs=None):
        t, cs, i = self._stripper(chs), self.chars(), 0
        while i < len(cs) and t(cs[i]):
            i += 1
        return mkstr(cs[i:])

    def rstrip(self, chs=None):
        t, cs = self._stripper(chs), self.chars()
        j = len(cs)
        while j > 0 and t(cs[j - 1]):
            j -= 1
        return mkstr(cs[:j])

    def strip(self, chs=None):
        t, cs, i = self._stripper(chs), self.chars(), 0
        while i < len(cs) and t(cs[i]):
            i += 1
        j = len(cs)
        while j > i and t(cs[j - 1]):
            j -= 1
        return mkstr(cs[i:j])

    # -- search
    def _at(self, i, sub):
        cs, ss = self.chars(), chars_of(sub)
        if i + len(ss) > len(cs):
            return False
        return truth(str_eq(mkstr(cs[i:i + len(ss)]), sub))

    def _bounds(self, start, end):
        n = len(self.chars())
        if type(start) is SymInt:
            # find() distinguishes start > len from start == len
            if core.cur().branch(start.e > n):
                return n + 1, n
        elif start is not None and start > n:
            return n + 1, n
        a = norm_slice_index(start, n, 0)
        b = norm_slice_index(end, n, n)
        return a, b

    def find(self, sub, start=None, end=None):
        _need_str(sub)
        a, b = self._bounds(start, end)
        m = len(chars_of(sub))
        for i in range(a, b - m + 1):
            if self._at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        _need_str(sub)
        a, b = self._bounds(start, end)
        m = len(chars_of(sub))
        for i in range(b - m, a - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        _need_str(sub)
        a, b = self._bounds(start, end)
        m = len(chars_of(sub))
        if m == 0:
            return max(b - a + 1, 0)
        n, i = 0, a
        while i <= b - m:
            if self._at(i, sub):
                n += 1
                i += m
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        s = self if start is None and end is None else self[slice(start, end)]
        if type(p) is tuple:
            return any(startswith(s, q) for q in p)
        _need_str(p)
        return startswith(s, p)

    def endswith(self, p, start=None, end=None):
        s = self if start is None and end is None else self[slice(start, end)]
        if type(p) is tuple:
            return any(endswith(s, q) for q in p)
        _need_str(p)
        return endswith(s, p)

    def removeprefix(self, p):
        return self[len(chars_of(p)):] if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(chars_of(p))
        return self[:len(self.chars()) - n] if n and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        _need_str(old)
        _need_str(new)
        cs, o, w = self.chars(), chars_of(old), chars_of(new)
        if type(count) is SymInt:
            count = -1 if truth(count < 0) else (
                len(cs) + 2 if truth(count > len(cs) + 1) else conc(count))
        out, i, k = [], 0, 0
        if not o:
            for j in range(len(cs) + 1):
                if count < 0 or k < count:
                    out.extend(w)
                    k += 1
                if j < len(cs):
                    out.append(cs[j])
            return mkstr(out)
        while i < len(cs):
            if (count < 0 or k < count) and self._at(i, old):
                out.extend(w)
                i += len(o)
                k += 1
            else:
                out.append(cs[i])
                i += 1
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = conc(maxsplit)
        cs = self.chars()
        if sep is None:
            out, curw, i = [], [], 0
            while i < len(cs):
                if cin(cs[i], WS_STR):
                    if curw:
                        out.append(mkstr(curw))
                        curw = []
                    i += 1
                    continue
                if not curw and 0 <= maxsplit <= len(out):
                    j = len(cs)
                    while j > i and cin(cs[j - 1], WS_STR):
                        j -= 1
                    out.append(mkstr(cs[i:j]))
                    return out
                curw.append(cs[i])
                i += 1
            if curw:
                out.append(mkstr(curw))
            return out
        _need_str(sep)
        ss = chars_of(sep)
        if not ss:
            raise ValueError("empty separator")
        out, start, i = [], 0, 0
        while i <= len(cs) - len(ss):
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(i, sep):
                out.append(mkstr(cs[start:i]))
                i += len(ss)
                start = i
            else:
                i += 1
        out.append(mkstr(cs[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = conc(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            r = mkstr(list(reversed(self.chars())))
            parts = SymStr(chars_of(r)).split(None, maxsplit)
            return [mkstr(list(reversed(chars_of(p)))) for p in reversed(parts)]
        cs, ss = self.chars(), chars_of(sep)
        out, end = [], len(cs)
        i = len(cs) - len(ss)
        while i >= 0 and len(out) < maxsplit:
            if self._at(i, sep):
                out.append(mkstr(cs[i + len(ss):end]))
                end = i
                i -= len(ss)
            else:
                i -= 1
        out.append(mkstr(cs[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        out, curl, i, cs = [], [], 0, self.chars()
        while i < len(cs):
            if cin(cs[i], "\n\r\x0b\x0c\x1c\x1d\x1e\x85"):
                e = [cs[i]]
                if ceq(cs[i], "\r") and i + 1 < len(cs) and ceq(cs[i + 1], "\n"):
                    e.append(cs[i + 1])
                out.append(mkstr(curl + (e if keepends else [])))
                i += len(e)
                curl = []
            else:
                curl.append(cs[i])
                i += 1
        if curl:
            out.append(mkstr(curl))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(chars_of(sep)):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(chars_of(sep)):])

    def join(self, it):
        return join(self, it)

    def ljust(self, w, fill=" "):
        w = conc(w)
        return mkstr(self.chars() + chars_of(fill) * max(w - len(self.chars()), 0))

    def rjust(self, w, fill=" "):
        w = conc(w)
        return mkstr(chars_of(fill) * max(w - len(self.chars()), 0) + self.chars())

    def center(self, w, fill=" "):
        w = conc(w)
        n = len(self.chars())
        if w <= n:
            return self
        left = (w - n) // 2 + ((w - n) & w & 1)
        f = chars_of(fill)
        return mkstr(f * left + self.chars() + f * (w - n - left))

    def zfill(self, w):
        w = conc(w)
        cs = self.chars()
        if len(cs) >= w:
            return self
        if cs and cin(cs[0], "+-"):
            return mkstr([cs[0]] + ["0"] * (w - len(cs)) + cs[1:])
        return mkstr(["0"] * (w - len(cs)) + cs)

    def encode(self, *a, **k):
        from .bytessym import encode
        return encode(self, *a, **k)
    def expandtabs(self, *a): return conc(self).expandtabs(*a)
    def format(self, *a, **k):
        from .ops import str_format
        return str_format(self, a, k)
    def format_map(self, m): return conc(self).format_map(m)

    def translate(self, table):
        out = []
        for c in self.chars():
            if type(c) is str:
                out.extend(list(c.translate(table)))
            else:
                done = False
                for k in list(table):
                    if ceq(c, chr(k)):
                        out.extend(list(chr(k).translate(table)))
                        done = True
                        break
                if not done:
                    out.append(c)
        return mkstr(out)

    def __reduce_ex__(self, p):
        raise TypeError("proxy pickled")


def _not(b):
    return (not b) if type(b) is bool else mkbool(z3.Not(b.e))


def startswith(s, p):
    a, b = chars_of(s), chars_of(p)
    if len(b) > len(a):
        return False
    return truth(str_eq(mkstr(a[:len(b)]), p))


def endswith(s, p):
    a, b = chars_of(s), chars_of(p)
    if len(b) > len(a):
        return False
    return truth(str_eq(mkstr(a[len(a) - len(b):]), p))


def join(sep, it):
    items = list(it)
    for i, x in enumerate(items):
        if not _s(x):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
    if type(sep) is not SymStr and not any(type(x) is SymStr for x in items):
        return str.join(sep, items)

    def lazy():
        out = []
        for i, x in enumerate(items):
            if i:
                out.extend(chars_of(sep))
            out.extend(chars_of(x))
        return out
    if any(type(x) is SymStr and x._c is None for x in items):
        return SymStr(lazy=lazy)
    return mkstr(lazy())


MAXDIGITS = 25


def int_to_str(x):
    """decimal representation of a symbolic int (forks on sign and length,
    only when the characters are looked at)"""
    if type(x) is SymBool:
        return "True" if truth(x) else "False"

    def lazy():
        ctx = core.cur()
        e = x.e
        out = []
        if ctx.branch(e < 0):
            out.append("-")
            e = -e
        n = 1
        while n < MAXDIGITS and not ctx.branch(e < 10 ** n):
            n += 1
        if n >= MAXDIGITS:
            return list(str(ctx.concretize(x.e)))
        for k in range(n - 1, -1, -1):
            out.append(((e / (10 ** k)) % 10) + 48 if k else (e % 10) + 48)
        return out
    return SymStr(lazy=lazy)


def str_to_int(s, base=10):
    cs = list(s.strip().chars()) if type(s.strip()) is SymStr else None
    if cs is None:
        return int(s.strip(), base) if base != 10 else int(s.strip())
    err = ValueError("invalid literal for int() with base %d" % base)
    if base != 10:
        return int(conc(s), base)
    neg, i = False, 0
    if cs and cin(cs[0], "+-"):
        neg = ceq(cs[0], "-")
        i = 1
    if i >= len(cs):
        raise err
    v = z3.IntVal(0)
    prev_digit = False
    for j in range(i, len(cs)):
        c = cs[j]
        if cin(c, "0123456789"):
            v = v * 10 + (code(c) - 48)
            prev_digit = True
        elif ceq(c, "_") and prev_digit and j + 1 < len(cs):
            prev_digit = False
        else:
            if type(c) is not str and not core.cur().branch(c < 128):
                return int(conc(s))
            raise err
    if not prev_digit:
        raise err
    return mkint(-v if neg else v)


def str_to_float(s):
    st = s.strip()
    if type(st) is not SymStr:
        return float(st)
    cs = st.chars()
    err = ValueError("could not convert string to float: %r" % "?")
    i, neg = 0, False
    if cs and cin(cs[0], "+-"):
        neg = ceq(cs[0], "-")
        i = 1
    rest = mkstr(cs[i:])
    low = rest.lower() if len(chars_of(rest)) in (3, 8) else ""
    if low != "" and truth(str_eq(low, "nan")):
        return math.nan
    if low != "" and (truth(str_eq(low, "inf")) or truth(str_eq(low, "infinity"))):
        return -math.inf if neg else math.inf
    v, nd, scale = z3.RealVal(0), 0, None
    j, prevd = i, False
    while j < len(cs):
        c = cs[j]
        if cin(c, "0123456789"):
            d = z3.ToReal(code(c) - 48)
            if scale is None:
                v = v * 10 + d
            else:
                scale += 1
                v = v + d / z3.RealVal(10 ** scale)
            nd += 1
            prevd = True
        elif scale is None and ceq(c, "."):
            scale = 0
            prevd = False
        elif prevd and ceq(c, "_") and j + 1 < len(cs) and cin(cs[j + 1], "0123456789"):
            prevd = False
        elif nd and cin(c, "eE"):
            ex = mkstr(cs[j + 1:])
            if not len(chars_of(ex)):
                raise err
            if type(ex) is not SymStr:
                try:
                    ev = int(ex)
                except ValueError:
                    raise err
            else:
                try:
                    if cin(ex.chars()[0], WS_STR):
                        raise err
                    ev = conc(str_to_int(ex))
                except ValueError:
                    raise err
            if abs(ev) > 400:
                return float(conc(s))
            v = v * z3.RealVal(Fraction(10) ** ev)
            break
        else:
            if type(c) is not str and not core.cur().branch(c < 128):
                return float(conc(s))
            raise err
        j += 1
    if not nd:
        raise err
    return mkreal(-v if neg else v)
