# -*- coding: utf-8 -*-
"""Calendar arithmetic of the standard library over symbolic fields: the day
number of a date in closed form, and the date of a day number as the one valid
date which has that day number."""
import z3

from . import core
from .proxies import mkint, num_expr


def _e(x):
    return z3.IntVal(x) if type(x) is int else (x if isinstance(x, z3.ExprRef) else num_expr(x)[0])


def _sym(*a):
    return any(type(x) not in (int, bool) for x in a)


def zdays(y, m, d):
    """days since 0000-03-01"""
    j = z3.If(m <= 2, 1, 0)
    y = y - j
    mp = m - 3 + 12 * j
    return 365 * y + y / 4 - y / 100 + y / 400 + (153 * mp + 2) / 5 + d - 1


def zlen(y, m):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return z3.If(m == 2, z3.If(leap, 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


class IsoCalendarDate(tuple):
    """as the standard library's, outside the instrumented code"""
    def __new__(cls, year, week, weekday):
        return tuple.__new__(cls, (year, week, weekday))

    year = property(lambda self: self[0])
    week = property(lambda self: self[1])
    weekday = property(lambda self: self[2])


def patch(m):
    m._IsoCalendarDate = IsoCalendarDate
    ymd2ord, ord2ymd, dim0 = m._ymd2ord, m._ord2ymd, m._days_in_month

    def _days_in_month(y, mo):
        if not _sym(y, mo):
            return dim0(y, mo)
        y, mo = _e(y), _e(mo)
        return mkint(zlen(z3.IntVal(y) if type(y) is int else y, z3.IntVal(mo) if type(mo) is int else mo))

    def _ymd2ord(y, mo, d):
        if not _sym(y, mo, d):
            return ymd2ord(y, mo, d)
        y, mo, d = [z3.IntVal(x) if type(x) is int else _e(x) for x in (y, mo, d)]
        if core.cur() is not None:
            for k, v in core.cur().meta.get("ord2ymd", ()):
                if not _sym(*v):
                    continue
                if all(type(a) is not int and a.e.eq(b) for a, b in zip(v, (y, mo, d))):
                    return mkint(k)         # the date of a day number
        return mkint(zdays(y, mo, d) - 305)

    def _ord2ymd(n):
        if not _sym(n):
            return ord2ymd(n)
        e = z3.simplify(_e(n))
        ctx = core.cur()
        if not ctx.branch(z3.And(e >= 1, e <= 3652059)):
            return ord2ymd(n)
        memo = ctx.meta.setdefault("ord2ymd", [])
        for k, v in memo:
            if k.eq(e):
                return v
        i = len(memo)
        y, mo, d = z3.Int("y!%d" % i), z3.Int("mo!%d" % i), z3.Int("d!%d" % i)
        yy = y - z3.If(mo <= 2, 1, 0)
        ctx.define(z3.And(y >= 1, y <= 9999, mo >= 1, mo <= 12, d >= 1, d <= zlen(y, mo), zdays(y, mo, d) - 305 == e,
                          # implied bounds of the year
                          146097 * yy <= 400 * (e + 305) + 800, 146097 * (yy + 1) >= 400 * (e + 305) - 800),
                   (y, mo, d), lambda ev: ord2ymd(ev(e)))
        r = (mkint(y), mkint(mo), mkint(d))
        memo.append((e, r))
        return r
    before0 = m._days_before_month

    def _days_before_month(y, mo):
        if not _sym(y, mo):
            return before0(y, mo)
        y, mo = [z3.IntVal(x) if type(x) is int else _e(x) for x in (y, mo)]
        return mkint(zdays(y, mo, z3.IntVal(1)) - zdays(y, z3.IntVal(1), z3.IntVal(1)))
    m._days_in_month, m._ymd2ord, m._ord2ymd, m._days_before_month = _days_in_month, _ymd2ord, _ord2ymd, _days_before_month
    add0 = m.datetime.__add__

    def _add(self, other):
        """datetime + timedelta in whole days and seconds of the day"""
        if not isinstance(other, m.timedelta) or not _sym(
                self._year, self._month, self._day, self._hour, self._minute, self._second, self._microsecond,
                other._days, other._seconds, other._microseconds):
            return add0(self, other)
        ctx = core.cur()
        memo = ctx.meta.setdefault("sod", [])
        key = [_e(x) for x in (self._year, self._month, self._day, self._hour, self._minute, self._second)]
        for base, t, v in memo:
            if all(a.eq(b) for a, b in zip(v, key)):
                break               # a sum of days and seconds added up before
        else:
            base, t = _e(m._ymd2ord(self._year, self._month, self._day)), 3600 * key[3] + 60 * key[4] + key[5]
        us = z3.simplify(_e(self._microsecond) + _e(other._microseconds))
        t = z3.simplify(t + _e(other._seconds) + us / 1000000)
        us = mkint(us % 1000000)
        base = z3.simplify(base + _e(other._days))
        o = z3.simplify(base + t / 86400)
        if not ctx.branch(z3.And(o >= 1, o <= 3652059)):
            raise OverflowError("result out of range")
        sod = t % 86400
        h, i, s = z3.simplify(sod / 3600), z3.simplify(sod / 60 % 60), z3.simplify(sod % 60)
        y, mo, d = m._ord2ymd(mkint(o))
        memo.append((base, t, [_e(x) for x in (y, mo, d, h, i, s)]))
        r = object.__new__(type(self))
        r._year, r._month, r._day, r._hour, r._minute, r._second, r._microsecond = y, mo, d, mkint(h), mkint(i), mkint(s), us
        r._tzinfo, r._fold, r._hashcode = self._tzinfo, 0, -1
        return r
    m.datetime.__add__ = m.datetime.__radd__ = _add
