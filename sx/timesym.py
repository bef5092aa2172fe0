# -*- coding: utf-8 -*-
"""time.struct_time and time.strftime (C locale) over symbolic fields"""
import calendar
import time

import z3

from . import core, ops
from .proxies import SymStr, chars_of, conc, conc_deep, deep_sym, mkint, mkstr, num_expr

DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def struct_time(seq, *a):
    if not deep_sym(seq):
        return time.struct_time(seq, *a)
    return time.struct_time(tuple(seq), *a)


def _e(x):
    return num_expr(x)[0]


def pad(x, n):
    e = _e(x)
    return [((e / (10 ** k)) % 10) + 48 if k else (e % 10) + 48 for k in range(n - 1, -1, -1)]


def choose(x, names, base=0):
    """forks on the value"""
    e, ctx = _e(x), core.cur()
    for i, n in enumerate(names[:-1]):
        if ctx.branch(z3.simplify(e == i + base)):
            return list(n)
    return list(names[-1])


def strftime(fmt, t=None):
    if t is None or not (deep_sym(tuple(t)) or deep_sym(fmt)):
        return time.strftime(conc(fmt)) if t is None else time.strftime(fmt, t)
    f, out, i = chars_of(fmt), [], 0
    y, m, d, H, M, S, w, j = [_e(x) for x in tuple(t)[:8]]

    def one(c):
        if c == "Y":
            if core.cur().branch(z3.simplify(z3.And(y >= 1000, y <= 9999))):
                return pad(mkint(y), 4)
            return list(str(core.cur().concretize(y)))
        if c in "mdHMS":
            return pad(mkint({"m": m, "d": d, "H": H, "M": M, "S": S}[c]), 2)
        if c == "y":
            return pad(mkint(y % 100), 2)
        if c == "C":
            return pad(mkint(y / 100), 2)
        if c == "j":
            return pad(mkint(j), 3)
        if c == "I":
            return pad(mkint(z3.If(H % 12 == 0, 12, H % 12)), 2)
        if c == "p":
            return list("AM" if core.cur().branch(H < 12) else "PM")
        if c == "e":
            return [z3.If(d < 10, 32, d / 10 + 48), d % 10 + 48]
        if c in "aA":
            n = choose(mkint(w), DAYS)
            return n[:3] if c == "a" else n
        if c in "bhB":
            n = choose(mkint(m), MONTHS, 1)
            return n if c == "B" else n[:3]
        if c == "w":
            return [(w + 1) % 7 + 48]
        if c == "u":
            return [w + 49]
        if c == "U":
            return pad(mkint((j - 1 + 7 - (w + 1) % 7) / 7), 2)
        if c == "W":
            return pad(mkint((j - 1 + 7 - w) / 7), 2)
        if c in "VG":
            # ISO week: the week of the Thursday of this week
            th = j - 1 - w + 3
            leap = lambda v: z3.And(v % 4 == 0, z3.Or(v % 100 != 0, v % 400 == 0))
            ylen = lambda v: z3.If(leap(v), 366, 365)
            yy = z3.If(th < 0, y - 1, z3.If(th >= ylen(y), y + 1, y))
            dd = z3.If(th < 0, th + ylen(y - 1), z3.If(th >= ylen(y), th - ylen(y), th))
            return pad(mkint(yy), 4) if c == "G" else pad(mkint(dd / 7 + 1), 2)
        if c == "T":
            return one("H") + [":"] + one("M") + [":"] + one("S")
        if c == "R":
            return one("H") + [":"] + one("M")
        if c in "Fx" and c == "F":
            return one("Y") + ["-"] + one("m") + ["-"] + one("d")
        if c == "D":
            return one("m") + ["/"] + one("d") + ["/"] + one("y")
        if c == "%":
            return ["%"]
        if c == "n":
            return ["\n"]
        if c == "t":
            return ["\t"]
        return None
    while i < len(f):
        if type(f[i]) is str and f[i] == "%" and i + 1 < len(f) and type(f[i + 1]) is str:
            r = one(f[i + 1])
            if r is None:
                ops._note(time.strftime)
                return time.strftime(conc(fmt), time.struct_time(conc_deep(tuple(t))))
            out += r
            i += 2
        else:
            out.append(f[i])
            i += 1
    return mkstr(out)


def gmtime(*a):
    if not a or not deep_sym(a[0]):
        return time.gmtime(*a)
    import sys
    m = sys.modules["datetime"]
    e, real = num_expr(a[0])
    if real:
        e = z3.ToInt(e)
    e = z3.simplify(e)
    d = e / 86400
    r = e % 86400
    if not core.cur().branch(z3.And(d >= -719162, d <= 2932896)):
        ops._note(time.gmtime)
        return time.gmtime(core.cur().concretize(e))
    o = mkint(z3.simplify(d + 719163))
    y, mo, dd = m._ord2ymd(o)
    wd = mkint((d + 3) % 7)
    yd = mkint(_e(o) - _e(m._ymd2ord(y, 1, 1)) + 1)
    return (y, mo, dd, mkint(r / 3600), mkint(r / 60 % 60), mkint(r % 60), wd, yd, 0)


def timegm(t):
    if not deep_sym(tuple(t)):
        return calendar.timegm(t)
    import sys
    m = sys.modules["datetime"]
    y, mo, d, h, i, s = tuple(t)[:6]
    return mkint((_e(m._ymd2ord(y, mo, 1)) - 719163 + _e(d) - 1) * 86400 + _e(h) * 3600 + _e(i) * 60 + _e(s))


def register():
    ops.FUNC_STUBS[calendar.timegm] = lambda f, t: timegm(t)
    ops.FN_H[time.strftime] = strftime
    ops.FN_H[time.gmtime] = gmtime
    ops.CLASS_H[time.struct_time] = struct_time
