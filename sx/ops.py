# -*- coding: utf-8 -*-
"""Run-time support called by the instrumented code (name __sx__)."""
import builtins
import functools
import itertools
import json
import math
import operator
import os
import re
import types
from fractions import Fraction

import z3

from . import core
from .proxies import (Proxy, SymInt, SymBool, SymReal, SymStr, conc, conc_deep, deep_sym,
                      mkint, mkreal, mkbool, mkstr, chars_of, int_to_str, str_to_int,
                      str_to_float, join, truth, num_expr, index_position, slice_positions,
                      bool_expr, floor_div, mkchar, code, cin, str_eq)

NUMS = (SymInt, SymBool, SymReal)


def issym(x):
    return issubclass(type(x), Proxy)


# ------------------------------------------------------------------ dict/set
def symkey(k):
    t = type(k)
    if issubclass(t, Proxy):
        return True
    if t is tuple or t is frozenset:
        for i in k:
            if symkey(i):
                return True
    return False


def _symdict(d, k):
    """must the lookup of k in d go through a symbolic scan?"""
    if symkey(k):
        return True
    c = core.CUR
    if c is None or not c.symbolic or not c.sym_hashed:
        return False
    isd = isinstance(d, dict)
    try:
        # keys are pairwise different on this path: a native hit is the only hit
        if dict.__contains__(d, k) if isd else k in d:
            return False
    except TypeError:
        return True
    for x in dict.keys(d) if isd else d:
        t = type(x)
        if t is not str and symkey(x):
            return True
    return False


def find_key(d, k):
    """(True, actual key) or (False, None); forks on equality"""
    hash_check(k)
    for x in list(dict.keys(d) if isinstance(d, dict) else d):
        if x is k or eq_truth(x, k):
            return True, x
    return False, None


def hash_check(k):
    if not issym(k):
        hash(k)


def eq_truth(a, b):
    r = a == b
    return r if r is True or r is False else truth(r)


def getitem(o, k):
    t = type(o)
    if t is dict:
        if _symdict(o, k):
            ok, x = find_key(o, k)
            if not ok:
                raise KeyError(k)
            return o[x]
        return o[k]
    if t in (list, tuple, str):
        if issym(k):
            if not isinstance(k, int):
                return o[k]
            return o[index_position(k, len(o), t.__name__)]
        if type(k) is slice and (issym(k.start) or issym(k.stop) or issym(k.step)):
            if t is str:
                return "".join(o[i] for i in slice_positions(k, len(o)))
            return t(o[i] for i in slice_positions(k, len(o)))
        return o[k]
    if isinstance(o, dict) and t.__getitem__ is dict.__getitem__ and _symdict(o, k):
        ok, x = find_key(o, k)
        if not ok:
            if hasattr(t, "__missing__"):
                return o.__missing__(k)
            raise KeyError(k)
        return dict.__getitem__(o, x)
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict) and type(o).__setitem__ is dict.__setitem__ and _symdict(o, k):
        ok, x = find_key(o, k)
        o[x if ok else k] = v
        return
    if type(o) is list and issym(k) and isinstance(k, int):
        o[index_position(k, len(o), "list assignment")] = v
        return
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and _symdict(o, k):
        ok, x = find_key(o, k)
        if not ok:
            raise KeyError(k)
        del o[x]
        return
    if type(o) is list and issym(k) and isinstance(k, int):
        del o[index_position(k, len(o), "list assignment")]
        return
    del o[k]


AUG = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
       "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "Pow": operator.ipow,
       "BitAnd": operator.iand, "BitOr": operator.ior, "BitXor": operator.ixor,
       "LShift": operator.ilshift, "RShift": operator.irshift, "MatMult": operator.imatmul}


def augitem(o, k, op, v):
    cur = getitem(o, k)
    if op == "Mod":
        r = mod(cur, v)
    else:
        r = AUG[op](cur, v)
    setitem(o, k, r)


def mkdict(*pairs):
    d = {}
    for p in pairs:
        if len(p) == 1:
            for k, v in p[0].items():
                setitem(d, k, v)
        else:
            setitem(d, p[0], p[1])
    return d


def dictcomp(gen):
    d = {}
    for k, v in gen:
        setitem(d, k, v)
    return d


def mkset(it):
    items = list(it)
    if not any(symkey(i) for i in items):
        return set(items)
    s = set()
    for i in items:
        set_add(s, i)
    return s


def set_add(s, x):
    if _symdict(s, x):
        if find_key(s, x)[0]:
            return
    s.add(x)


def contains(x, c):
    t = type(c)
    if isinstance(c, dict) and t.__contains__ is dict.__contains__:
        if _symdict(c, x):
            return find_key(c, x)[0]
        return x in c
    if t in (set, frozenset):
        if _symdict(c, x):
            return find_key(c, x)[0]
        return x in c
    if t is str:
        if type(x) is SymStr:
            return SymStr(list(c)).find(x) >= 0
        return x in c
    if t is range and issym(x) and c.step == 1:
        if type(x) in (SymInt, SymBool):
            return truth(mkbool(z3.And(num_expr(x)[0] >= c.start, num_expr(x)[0] < c.stop)))
    if t in (types.MappingProxyType, type({}.keys())) and (issym(x) or deep_sym(list(c))):
        return find_key(list(c), x)[0]
    return x in c


def not_in(x, c):
    return not contains(x, c)


def is_(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymBool or tb is SymBool:
        if (ta is SymBool or ta is bool) and (tb is SymBool or tb is bool):
            return truth(a == b)
        return False
    if ta is SymInt and tb in (int, SymInt) or tb is SymInt and ta is int:
        return truth(a == b)
    return False


def is_not(a, b):
    return not is_(a, b)


# ------------------------------------------------------------------ formatting
FMT_RE = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)", re.S)


FUNCTION = type(lambda: 0)


def to_str(x):
    t = type(x)
    if not issubclass(t, Proxy):
        if type(t.__str__) is FUNCTION:
            return t.__str__(x)           # (may be symbolic)
        if deep_sym(x):
            return container_str(x, False)
        return str(x)
    if t is SymStr:
        return x
    if t is SymReal:
        return real_to_str(x)
    return int_to_str(x)


def real_to_str(x):
    """repr of a float: exact when the value is an integer or has a short
    decimal expansion; otherwise enumerated"""
    ctx = core.cur()
    if ctx.branch(z3.ToReal(z3.ToInt(x.e)) == x.e):
        i = mkint(z3.ToInt(x.e))
        if type(i) is int:
            return str(float(i))
        if truth(mkbool(z3.And(i.e < 10 ** 15, i.e > -10 ** 15))):
            return join("", [int_to_str(i), ".0"])
    return str(float(ctx.concretize(x.e)))


def to_repr(x):
    t = type(x)
    if not issubclass(t, Proxy):
        if deep_sym(x):
            return container_str(x, True)
        return repr(x)
    if t is SymStr:
        return repr(conc(x))
    return to_str(x)


def container_str(x, _):
    t = type(x)
    if t is list:
        return join("", ["[", join(", ", [to_repr(i) for i in x]), "]"])
    if t is tuple:
        return join("", ["(", join(", ", [to_repr(i) for i in x]), ",)" if len(x) == 1 else ")"])
    if t is dict:
        return join("", ["{", join(", ", [join(": ", [to_repr(k), to_repr(v)]) for k, v in x.items()]), "}"])
    return str(conc_deep(x))


def fmt_int(x, flags, width, spec="d"):
    """%[0-][width]d of a symbolic int"""
    t = type(x)
    if t is SymReal:
        x = x.trunc()
    if t is SymBool:
        x = x._i()
    if type(x) is int:
        return ("%" + flags + (str(width) if width else "") + spec) % x
    w = int(width) if width else 0
    if w and "0" in flags and "-" not in flags and "+" not in flags and " " not in flags:
        ctx = core.cur()
        if w <= 20 and truth(mkbool(z3.And(x.e >= 0, x.e < 10 ** w))):
            return mkstr([((x.e / (10 ** k)) % 10) + 48 for k in range(w - 1, -1, -1)])
        s = int_to_str(x)
        return SymStr(chars_of(s)).zfill(w)
    s = int_to_str(x)
    if "+" in flags and truth(x >= 0):
        s = "+" + s
    if w:
        s = SymStr(chars_of(s)).ljust(w) if "-" in flags else SymStr(chars_of(s)).rjust(w)
    return s


def str_percent(f, args):
    if type(f) is SymStr:
        f = conc(f)
    if not deep_sym(args):
        if not any(type(type(v).__str__) is FUNCTION for v in (args if type(args) is tuple else (args,))):
            return f % args
    out, pos, ai = [], 0, 0
    mapping = args if isinstance(args, dict) else None
    seq = args if type(args) is tuple else (args,)
    for m in FMT_RE.finditer(f):
        out.append(f[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, cv = m.groups()
        if cv == "%":
            out.append("%")
            continue
        if width == "*":
            width = str(conc(seq[ai])); ai += 1
        if prec == "*":
            prec = str(conc(seq[ai])); ai += 1
        if key is not None:
            v = mapping[key]
        else:
            if ai >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[ai]; ai += 1
        if cv == "s" and type(type(v).__str__) is FUNCTION:
            v = to_str(v)
        if not deep_sym(v):
            spec = "%" + flags + (width or "") + ("." + prec if prec else "") + cv
            out.append(spec % ((v,) if type(v) is tuple else v))
            continue
        if cv in "di" and type(v) in NUMS:
            out.append(fmt_int(v, flags, width))
        elif cv == "s":
            s = to_str(v)
            if prec:
                s = s[:int(prec)]
            if width:
                s = SymStr(chars_of(s))
                s = s.ljust(int(width)) if "-" in flags else s.rjust(int(width))
            out.append(s)
        elif cv == "r":
            out.append(to_repr(v))
        elif cv in "di":
            raise TypeError("%d format: a real number is required, not str")
        else:
            spec = "%" + flags + (width or "") + ("." + prec if prec else "") + cv
            out.append(spec % conc_deep(v))
    out.append(f[pos:])
    if mapping is None and ai < len(seq):
        raise TypeError("not all arguments converted during string formatting")
    return join("", out)


def int_to_base(v, base, alpha):
    """digits of a symbolic int (forks on sign and length)"""
    def lazy():
        ctx = core.cur()
        e, out, n = v.e, [], 1
        if ctx.branch(e < 0):
            out.append("-")
            e = -e
        while n < 40 and not ctx.branch(e < base ** n):
            n += 1
        if n >= 40:
            return list(format_base(ctx.concretize(v.e), base, alpha))
        for k in range(n - 1, -1, -1):
            d = (e / (base ** k)) % base
            out.append(z3.If(d < 10, d + 48, d + alpha) if base > 10 else d + 48)
        return out
    return SymStr(lazy=lazy)


def format_base(n, base, alpha):
    return format(n, {2: "b", 8: "o"}.get(base, "X" if alpha == 55 else "x"))


def f_hex(n):
    return _prefixed(n, "0x", 16, hex)


def f_bin(n):
    return _prefixed(n, "0b", 2, bin)


def f_oct(n):
    return _prefixed(n, "0o", 8, oct)


def _prefixed(n, prefix, base, f):
    if type(n) is not SymInt:
        return f(conc(n))
    cs = chars_of(int_to_base(n, base, 87))
    return mkstr(cs[:1] + list(prefix) + cs[1:]) if cs[0] == "-" else mkstr(list(prefix) + cs)


def format_value(v, spec=""):
    if issym(spec):
        spec = conc(spec)
    if not deep_sym(v):
        if type(type(v).__str__) is FUNCTION and type(v).__format__ is object.__format__:
            v = to_str(v)
        if not issym(v):
            return format(v, spec)
    if spec == "":
        return to_str(v)
    m = re.match(r"^([<>^=]?)([+ -]?)(0?)(\d*)(,?)(d?)$", spec)
    if m and type(v) in (SymInt,) and not m.group(5) and m.group(1) in ("", ">", "<"):
        fl = (m.group(3) or "") + ("+" if m.group(2) == "+" else "") + ("-" if m.group(1) == "<" else "")
        return fmt_int(v, fl, m.group(4))
    if spec in ("x", "X", "o", "b") and type(v) is SymInt:
        return int_to_base(v, {"o": 8, "b": 2}.get(spec, 16), 55 if spec == "X" else 87)
    m = re.match(r"^([<>^]?)(\d*)s?$", spec)
    if m and type(v) is SymStr:
        w = int(m.group(2) or 0)
        return v.rjust(w) if m.group(1) == ">" else v.center(w) if m.group(1) == "^" else v.ljust(w)
    return format(conc_deep(v), spec)


def str_format(f, a, k):
    f = conc(f)
    if not deep_sym(a) and not deep_sym(k):
        return f.format(*a, **k)
    import string
    out, auto = [], 0
    for litt, field, spec, conv in string.Formatter().parse(f):
        out.append(litt)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        v, _ = string.Formatter().get_field(field, a, k)
        if conv == "s":
            v = to_str(v)
        elif conv == "r":
            v = to_repr(v)
        out.append(format_value(v, spec))
    return join("", out)


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 115:
                v = to_str(v)
            elif conv == 114:
                v = to_repr(v)
            out.append(format_value(v, spec))
        else:
            out.append(p)
    return join("", out)


def mod(a, b):
    if type(a) is str or type(a) is SymStr:
        if type(a) is str and not deep_sym(b):
            return a % b
        return str_percent(a, b)
    return a % b


# ------------------------------------------------------------------ classes
def c_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymInt:
            return x
        if t is SymBool:
            return x._i()
        if t is SymReal:
            return x.trunc()
        if t is SymStr:
            return str_to_int(x)
    elif a and type(a[0]) is SymStr:
        base = conc(a[1]) if len(a) > 1 else conc(k["base"])
        return str_to_int(a[0], base)
    return int(*conc_deep(a), **k)


def c_float(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if t is SymReal:
            return x
        if t is SymInt:
            return SymReal(z3.ToReal(x.e))
        if t is SymBool:
            return mkreal(z3.ToReal(x._i().e))
        if t is SymStr:
            return str_to_float(x)
    return float(*a)


def c_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if issym(x) or type(x) in (list, tuple, dict) or type(type(x).__str__) is FUNCTION:
            return to_str(x)
        return str(x)
    return str(*conc_deep(a), **k)


def c_bool(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if t is SymBool:
            return x
        if t in (SymInt, SymReal):
            return mkbool(x.e != 0)
        return bool(x)
    return bool(*a)


def c_dict(*a, **k):
    if not a:
        return dict(**k)
    x = a[0]
    if isinstance(x, dict) or hasattr(x, "keys"):
        d = {}
        if isinstance(x, dict) and not (core.CUR is not None and core.CUR.symbolic and core.CUR.sym_hashed):
            return dict(*a, **k)
        for key in x.keys():
            dict.__setitem__(d, key, x[key])
        for key, v in k.items():
            setitem(d, key, v)
        return d
    d = {}
    for p in x:
        key, v = p
        setitem(d, key, v)
    d.update(k)
    return d


def c_set(*a):
    return mkset(a[0]) if a else set()


def c_frozenset(*a):
    return frozenset(mkset(a[0])) if a else frozenset()


def c_type(*a, **k):
    if len(a) == 1 and issym(a[0]):
        return a[0].__class__
    return type(*a, **k)


def c_range(*a):
    return range(*[conc(x) for x in a])


def c_list(*a):
    return list(*a)


def c_bytes(*a, **k):
    return bytes(*conc_deep(a), **k)


def wrapf(f):
    if f is None or isinstance(f, (types.FunctionType, types.MethodType)):
        return f
    return lambda *a, **k: call(f, *a, **k)


def c_map(f, *its):
    return map(wrapf(f), *its)


def c_filter(f, it):
    return filter(wrapf(f), it)


def c_complex(*a, **k):
    return complex(*conc_deep(a), **k)


CLASS_H = {int: c_int, float: c_float, str: c_str, bool: c_bool, dict: c_dict, set: c_set,
           frozenset: c_frozenset, type: c_type, range: c_range, map: c_map, filter: c_filter,
           bytes: c_bytes, bytearray: c_bytes, complex: c_complex}
CLASS_OK = {list, tuple, enumerate, zip, reversed, slice, property, staticmethod, classmethod,
            itertools.chain, functools.partial, object, itertools.count, itertools.repeat,
            itertools.islice, itertools.groupby, itertools.product}


# ------------------------------------------------------------------ functions
def f_sorted(it, key=None, reverse=False):
    return sorted(it, key=wrapf(key), reverse=truth(reverse) if issym(reverse) else reverse)


def _minmax(fn):
    def f(*a, **k):
        if "key" in k:
            k = dict(k, key=wrapf(k["key"]))
        return fn(*a, **k)
    return f


def f_repr(x):
    return to_repr(x)


def f_round(x, n=None):
    if n is None:
        return round(x)
    return round(x, conc(n))


def f_pow(a, b, m=None):
    if m is None:
        return a ** b
    return pow(conc(a), conc(b), conc(m))


def f_divmod(a, b):
    return divmod(a, b)


def f_ord(c):
    if type(c) is SymStr:
        cs = c.chars()
        if len(cs) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(cs))
        return mkint(code(cs[0]))
    return ord(c)


def f_chr(i):
    if type(i) is SymInt:
        if not truth(mkbool(z3.And(i.e >= 0, i.e <= 0x10ffff))):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([i.e])
    return chr(i)


def f_index(x):
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x._i()
    if type(x) in (SymReal, SymStr):
        raise TypeError("'%s' object cannot be interpreted as an integer" % x.__class__.__name__)
    return operator.index(x)


def f_floor(x):
    return x.__floor__() if issym(x) and type(x) is not SymStr else math.floor(x)


def f_ceil(x):
    return x.__ceil__() if issym(x) and type(x) is not SymStr else math.ceil(x)


def f_trunc(x):
    return x.__trunc__() if issym(x) and type(x) is not SymStr else math.trunc(x)


def f_fabs(x):
    return c_float(abs(x)) if issym(x) else math.fabs(x)


def f_isnan(x):
    return False if type(x) in NUMS else math.isnan(x)


def f_isfinite(x):
    return True if type(x) in NUMS else math.isfinite(x)


def f_mpow(a, b):
    return c_float(c_float(a) ** b) if issym(a) and not issym(b) else math.pow(conc(a), conc(b))


def f_fmod(a, b):
    if issym(a) or issym(b):
        if truth(b == 0):
            raise ValueError("math domain error")
        q = c_float(a) / c_float(b)
        q = c_int(q) if issym(q) else int(q)
        return c_float(a) - c_float(b) * q
    return math.fmod(a, b)


def f_modf(x):
    if issym(x):
        i = c_int(x)
        return (c_float(x) - i, c_float(i))
    return math.modf(x)


def f_print(*a, **k):
    return None


def f_setattr(o, n, v):
    return setattr(o, conc(n), v)


def f_getattr(o, n, *d):
    return getattr(o, conc(n), *d)


def f_hasattr(o, n):
    return hasattr(o, conc(n))


def f_format(v, spec=""):
    return format_value(v, spec)


def f_reduce(f, *a):
    return functools.reduce(wrapf(f), *a)


def _op(name):
    fn = getattr(operator, name)
    return fn


def f_contains(c, x):
    return contains(x, c)


def f_path_split(p):
    if type(p) is not SymStr:
        return os.path.split(p)
    i = p.rfind("/") + 1
    head, tail = p[:i], p[i:]
    if len(head) and not truth(head == "/" * len(head)):
        head = head.rstrip("/")
    return head, tail


def f_path_splitext(p):
    if type(p) is not SymStr:
        return os.path.splitext(p)
    sep, dot = p.rfind("/"), p.rfind(".")
    if dot > sep:
        i = sep + 1
        while i < dot:
            if truth(p[i] != "."):
                return p[:dot], p[dot:]
            i += 1
    return p, p[:0]


# functions of the standard library written in Python
PY_H = {os.path.split: f_path_split, os.path.splitext: f_path_splitext}


FN_H = {
    sorted: f_sorted, min: _minmax(min), max: _minmax(max), repr: f_repr, round: f_round, pow: f_pow,
    ord: f_ord, chr: f_chr, operator.index: f_index, math.floor: f_floor, math.ceil: f_ceil,
    math.trunc: f_trunc, math.fabs: f_fabs, math.isnan: f_isnan, math.isinf: f_isnan,
    math.isfinite: f_isfinite, math.pow: f_mpow, math.fmod: f_fmod, math.modf: f_modf,
    print: f_print, format: f_format, hex: f_hex, bin: f_bin, oct: f_oct, functools.reduce: f_reduce,
    operator.contains: f_contains, operator.mod: mod, operator.getitem: getitem,
    operator.setitem: setitem, operator.is_: is_, operator.is_not: is_not,
    setattr: f_setattr, getattr: f_getattr, hasattr: f_hasattr,
}
FN_OK = {len, isinstance, issubclass, abs, sum, any, all, iter, next, callable, hash, id, divmod,
         operator.add, operator.sub, operator.mul, operator.truediv, operator.floordiv, operator.neg,
         operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge, operator.not_,
         operator.and_, operator.or_, operator.xor, operator.truth, operator.abs, operator.pos,
         operator.invert, operator.lshift, operator.rshift, operator.pow, vars, dir, delattr}


# ------------------------------------------------------------------ dict/set/str methods
def dm_get(d, k, default=None):
    if _symdict(d, k):
        ok, x = find_key(d, k)
        return dict.__getitem__(d, x) if ok else default
    return d.get(k, default)


def dm_pop(d, k, *default):
    if _symdict(d, k):
        ok, x = find_key(d, k)
        if ok:
            return dict.pop(d, x)
        if default:
            return default[0]
        raise KeyError(k)
    return d.pop(k, *default)


def dm_setdefault(d, k, default=None):
    if _symdict(d, k):
        ok, x = find_key(d, k)
        if ok:
            return dict.__getitem__(d, x)
    return d.setdefault(k, default)


def dm_update(d, *a, **k):
    if a and core.CUR is not None and core.CUR.symbolic and core.CUR.sym_hashed:
        x = a[0]
        it = [(q, x[q]) for q in x.keys()] if hasattr(x, "keys") else list(x)
        for q, v in it:
            setitem(d, q, v)
        d.update(k)
        return None
    return d.update(*a, **k)


def dm_contains(d, k):
    if _symdict(d, k):
        return find_key(d, k)[0]
    return dict.__contains__(d, k) if isinstance(d, dict) else k in d


def dm_getitem(d, k):
    """dict.__getitem__ itself (a subclass may override [])"""
    if _symdict(d, k):
        ok, x = find_key(d, k)
        if ok:
            return dict.__getitem__(d, x)
        if hasattr(type(d), "__missing__"):
            return d.__missing__(k)
        raise KeyError(k)
    return dict.__getitem__(d, k)


def dm_setitem(d, k, v):
    if _symdict(d, k):
        ok, x = find_key(d, k)
        dict.__setitem__(d, x if ok else k, v)
        return
    dict.__setitem__(d, k, v)


def dm_delitem(d, k):
    if _symdict(d, k):
        ok, x = find_key(d, k)
        if not ok:
            raise KeyError(k)
        dict.__delitem__(d, x)
        return
    dict.__delitem__(d, k)


DICT_M = {"get": dm_get, "pop": dm_pop, "setdefault": dm_setdefault, "update": dm_update,
          "__contains__": dm_contains, "__getitem__": dm_getitem, "__setitem__": dm_setitem,
          "__delitem__": dm_delitem}


def sm_remove(s, x):
    if _symdict(s, x):
        ok, y = find_key(s, x)
        if not ok:
            raise KeyError(x)
        s.remove(y)
        return
    s.remove(x)


def sm_discard(s, x):
    if _symdict(s, x):
        ok, y = find_key(s, x)
        if ok:
            s.discard(y)
        return
    s.discard(x)


def sm_update(s, *its):
    for it in its:
        for x in list(it):
            set_add(s, x)


def sm_union(s, *its):
    r = set(s)
    sm_update(r, *its)
    return r


def sm_intersection(s, *its):
    r = set(s)
    for it in its:
        it = mkset(it)
        r = set(x for x in r if contains(x, it))
    return r


def sm_difference(s, *its):
    r = set(s)
    for it in its:
        it = mkset(it)
        r = set(x for x in r if not contains(x, it))
    return r


def sm_issubset(s, o):
    o = mkset(o)
    return all(contains(x, o) for x in s)


def sm_issuperset(s, o):
    return all(contains(x, s) for x in o)


SET_M = {"add": set_add, "remove": sm_remove, "discard": sm_discard, "update": sm_update,
         "union": sm_union, "intersection": sm_intersection, "difference": sm_difference,
         "issubset": sm_issubset, "issuperset": sm_issuperset, "__contains__": dm_contains}


def str_method(s, name, a, k):
    if name == "join":
        return join(s, a[0])
    if name == "format":
        return str_format(s, a, k)
    if name in ("encode", "format_map", "maketrans"):
        return getattr(s, name)(*conc_deep(a), **k)
    return getattr(SymStr(list(s)), name)(*a, **k)


# ------------------------------------------------------------------ dispatch
BUILTIN_T = (types.BuiltinFunctionType,)
FT, MT, BT = types.FunctionType, types.MethodType, types.BuiltinFunctionType
CM = type(re.compile('').match)        # C methods that know their defining class
MD, WD, MW = types.MethodDescriptorType, types.WrapperDescriptorType, types.MethodWrapperType
SKIP_CONC = set()
UNKNOWN_CALLS = {}
FUNC_STUBS = {}


def _args_sym(a, k):
    for x in a:
        if issubclass(type(x), Proxy):
            return True
    for x in k.values():
        if issubclass(type(x), Proxy):
            return True
    return False


def _args_deep(a, k):
    for x in a:
        if deep_sym(x):
            return True
    for x in k.values():
        if deep_sym(x):
            return True
    return False


def _note(f):
    n = getattr(f, "__qualname__", None) or repr(f)
    n = "%s.%s" % (getattr(f, "__module__", ""), n)
    UNKNOWN_CALLS[n] = UNKNOWN_CALLS.get(n, 0) + 1


def kwargs(d):
    """the names of keyword arguments are concrete"""
    for x in d:
        if type(x) is SymStr:
            return {conc(x): d[x] for x in d}
    return d


def call(f, /, *a, **k):
    t = type(f)
    if t is FT or t is MT:
        if t is FT:
            if f in FUNC_STUBS:
                return FUNC_STUBS[f](f, *a, **k)
            if f in PY_H:
                return PY_H[f](*a, **k)
        return f(*a, **k)
    if t is BT or t is CM:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            h = FN_H.get(f)
            if h is not None:
                return h(*a, **k)
            if f in FN_OK:
                return f(*a, **k)
            if _args_deep(a, k):
                return unknown(f, a, k)
            return f(*a, **k)
        ts = type(s)
        if ts is dict or isinstance(s, dict):
            h = DICT_M.get(f.__name__)
            if h is not None and a:
                return h(s, *a, **k)
            return f(*a, **k)
        if ts is list:
            return f(*a, **k)
        if ts is set or ts is frozenset:
            h = SET_M.get(f.__name__)
            if h is not None and a:
                return h(s, *a, **k)
            return f(*a, **k)
        if ts is str:
            if f.__name__ == "join":
                return join(s, a[0])
            if _args_deep(a, k):
                return str_method(s, f.__name__, a, k)
            return f(*a, **k)
        if ts is re.Pattern:
            if _args_sym(a, k):
                from . import resym
                return resym.pattern_method(s, f.__name__, a, k)
            if f.__name__ in ("sub", "subn") and a and callable(a[0]):
                return sub_callable(s, f.__name__, *a, **k)
            return f(*a, **k)
        if ts is tuple:
            return f(*a, **k)
        if ts is type:      # classmethods of C types, e.g. dict.fromkeys
            if f.__name__ == "fromkeys" and a:
                d = {}
                for x in a[0]:
                    setitem(d, x, a[1] if len(a) > 1 else None)
                return d
            if _args_deep(a, k):
                return unknown(f, a, k)
            return f(*a, **k)
        if _args_sym(a, k) and ts.__module__ not in ("collections", "_io", "_thread", "queue", "_queue"):
            return unknown(f, a, k)
        return f(*a, **k)
    if t is type or isinstance(f, type):
        h = CLASS_H.get(f)
        if h is not None:
            return h(*a, **k)
        if f in CLASS_OK or f.__flags__ & (1 << 9):       # heap type: python class
            if f.__module__ in C_HEAP and _args_deep(a, k):
                return unknown(f, a, k)
            return f(*a, **k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        if _args_deep(a, k):
            return unknown(f, a, k)
        return f(*a, **k)
    if t is MD:
        # unbound C method: str.upper(x), dict.get(d, k)
        if a and type(a[0]) is SymStr:
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and type(a[0]) in (str, dict, set, frozenset):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        if a and issym(a[0]):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        return f(*a, **k)
    if t is MW and a and isinstance(f.__self__, dict):
        h = DICT_M.get(f.__name__)
        if h is not None:
            return h(f.__self__, *a, **k)
        return f(*a, **k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **dict(f.keywords, **k))
    return f(*a, **k)


def sub_callable(p, name, repl, string, count=0):
    """a pattern's sub or subn on concrete text by a function whose result may be symbolic"""
    out, pos, n = [], 0, 0
    for m in p.finditer(string):
        if count and n >= count:
            break
        out.append(string[pos:m.start()])
        out.append(call(repl, m))
        pos = m.end()
        n += 1
    out.append(string[pos:])
    r = join("" if isinstance(string, str) else b"", out)
    return (r, n) if name == "subn" else r


C_HEAP = {"decimal", "_decimal", "array", "uuid"}


def unknown(f, a, k):
    """a C function we do not model: enumerate its symbolic arguments"""
    h = EXTRA.get(f)
    if h is not None:
        return h(*a, **k)
    _note(f)
    return f(*conc_deep(a), **conc_deep(dict(k)))


EXTRA = {}


def _register_re():
    from . import resym
    for name in ("match", "search", "fullmatch", "sub", "subn", "findall", "finditer", "split"):
        fn = getattr(re, name)

        def h(f, *a, _name=name, **k):
            if _args_sym(a, k):
                return resym.module_fn(_name, a, k)
            if _name in ("sub", "subn") and len(a) >= 3 and callable(a[1]) and isinstance(a[2], str):
                return sub_callable(re.compile(a[0], k.pop("flags", a[4] if len(a) > 4 else 0)), _name, *a[1:4], **k)
            return f(*a, **k)
        FUNC_STUBS[fn] = h

    def esc(f, p):
        return resym.escape(p) if type(p) is SymStr else f(p)
    FUNC_STUBS[re.escape] = esc

    def comp(f, p, *a, **k):
        if type(p) is SymStr:
            return resym.compile(p, *a, **k)
        return f(p, *a, **k)
    FUNC_STUBS[re.compile] = comp


def _register_json():
    from . import jsonsym

    def dumps(f, o, **k):
        if deep_sym(o):
            return jsonsym.dumps(o, **k)
        return f(o, **k)

    def loads(f, s, **k):
        if type(s) is SymStr:
            return jsonsym.loads(s, **k)
        return f(s, **k)
    FUNC_STUBS[json.dumps] = dumps
    FUNC_STUBS[json.loads] = loads


def init():
    _register_re()
    _register_json()
    from . import bytessym
    bytessym.register()
    from . import timesym
    timesym.register()
