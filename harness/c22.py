# -*- coding: utf-8 -*-
"""dates and times."""
import datetime
from .lib import *
from .lib import _sym


def b2(a, b):
    return conj([a, b])


def days(y, m, d):
    """days of the proleptic Gregorian calendar since 0000-03-01"""
    j = ite(m <= 2, 1, 0)
    y = y - j
    mp = m - 3 + 12 * j
    return 365 * y + y // 4 - y // 100 + y // 400 + (153 * mp + 2) // 5 + d - 1


def leap(y):
    return disj([conj([y % 4 == 0, y % 100 != 0]), y % 400 == 0])


def mlen(y, m):
    return ite(m == 2, ite(leap(y), 29, 28), ite(disj([m == 4, m == 6, m == 9, m == 11]), 30, 31))


def wd(y, m, d):
    """0 = Monday"""
    return (days(y, m, d) + 2) % 7


def yday(y, m, d):
    return days(y, m, d) - days(y, 1, 1) + 1


def DT(ctx, name, lo=1999, hi=2101, date=False, us=False):
    y, m, d = ctx.int(name + "y", lo, hi), ctx.int(name + "m", 1, 12), ctx.int(name + "d", 1, 31)
    ctx.assume(d <= mlen(y, m))
    if date:
        return datetime.date(y, m, d), (y, m, d, 0, 0, 0, 0)
    h, i, s = ctx.int(name + "h", 0, 23), ctx.int(name + "i", 0, 59), ctx.int(name + "s", 0, 59)
    u = ctx.int(name + "u", 0, 999999) if us else 0
    return datetime.datetime(y, m, d, h, i, s, u), (y, m, d, h, i, s, u)


def parts(v):
    if isinstance(v, datetime.datetime):
        return (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
    if isinstance(v, datetime.date):
        return (v.year, v.month, v.day)
    if isinstance(v, datetime.time):
        return (v.hour, v.minute, v.second, v.microsecond)
    return v


def secs(p):
    return p[3] * 3600 + p[4] * 60 + p[5]


def week0(y, m, d):
    """week of the year, weeks start on Sunday, week 1 holds the first Sunday"""
    return (yday(y, m, d) + 6 - (wd(y, m, d) + 1) % 7) // 7


def p2(n):
    return chr(48 + n // 10) + chr(48 + n % 10)


def p4(n):
    return p2(n // 100) + p2(n % 100)


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    A = hs.append
    LO, HI = (1890, 2410) if T else (1999, 2101)
    BD = "datetimes of the years %d to %d" % (LO, HI)

    def E(name, sql, f, bounds=None, date=False, us=False, extra=None, chk=None, null=True, lo=LO, hi=HI):
        """f(parts, *extras) -> expected value / parts"""
        def fn(ctx):
            if null and ctx.choice("nul", (0, 1)):
                r, exp = {"id": 1, "a": None}, None
                out = run("select %s as x from t" % sql, {"t": [dict(r, **(dict((k, mk(ctx)) for k, mk in extra.items()) if extra else {}))]})
                ctx.check(same(out, [{"x": None}]), sql + " of NULL")
                return
            v, p = DT(ctx, "a", lo, hi, date, us)
            r = {"id": 1, "a": v}
            ex = []
            if extra:
                for k, mk in extra.items():
                    r[k] = mk(ctx)
                    ex.append(r[k])
            out = run("select %s as x from t" % sql, {"t": [r]})
            ctx.meta["out"] = out
            x = parts(out[0]["x"])
            if chk is not None:
                ctx.check(chk(x, p, *ex), sql)
            else:
                e = f(p, *ex)
                ctx.check(same(list(x) if isinstance(x, tuple) else x, list(e) if isinstance(e, tuple) else e), sql)
        A(H(name, fn, bounds or BD + (", dates" if date else "")))

    for dt in (False, True):
        n = "_d" if dt else ""
        E("year" + n, "year(a)", lambda p: p[0], date=dt)
        E("month" + n, "month(a)", lambda p: p[1], date=dt)
        E("dayofmonth" + n, "dayofmonth(a)", lambda p: p[2], date=dt)
        E("weekday" + n, "weekday(a)", lambda p: wd(*p[:3]), date=dt)
        E("dayofweek" + n, "dayofweek(a)", lambda p: (wd(*p[:3]) + 1) % 7 + 1, date=dt)
        E("dayofyear" + n, "dayofyear(a)", lambda p: yday(*p[:3]), date=dt)
        E("date" + n, "date(a)", lambda p: p[:3], date=dt)
        E("datetime" + n, "datetime(a)", lambda p: p, date=dt)
        E("time" + n, "time(a)", lambda p: p[3:], date=dt)
        E("week" + n, "week(a)", lambda p: week0(*p[:3]), date=dt)
        E("week1" + n, "week(a, 1)", lambda p: wk1(*p[:3]), date=dt)
        E("yearweek" + n, "yearweek(a)", lambda p: yw0(*p[:3]), date=dt)
        E("yearweek1" + n, "yearweek(a, 1)", lambda p: yw1(*p[:3]), date=dt)
        E("monthname" + n, "monthname(a)", lambda p: MN[int(p[1]) - 1], date=dt)
        E("dayname" + n, "dayname(a)", lambda p: DN[int(wd(*p[:3]))], date=dt)
        E("unix" + n, "unix_timestamp(a)", lambda p: (days(*p[:3]) - E0) * 86400 + secs(p), date=dt, null=False)
        E("fmt" + n, "date_format(a, '%Y-%m-%d')", lambda p: p4(p[0]) + "-" + p2(p[1]) + "-" + p2(p[2]), date=dt)
        E("fmt_yj" + n, "date_format(a, '%d/%m/%y %j')", lambda p: p2(p[2]) + "/" + p2(p[1]) + "/" + p2(p[0] % 100) + " " + p3(yday(*p[:3])), date=dt)
    E("fmt_hms", "date_format(a, '%H %S %p')", lambda p: p2(p[3]) + " " + p2(p[5]) + (" AM" if p[3] < 12 else " PM"))
    E("fmt_us", "date_format(a, '%H.%f')", lambda p: p2(p[3]) + "." + p2(p[6] // 10000) + p2(p[6] // 100 % 100) + p2(p[6] % 100), us=True)
    E("fmt_ab", "date_format(a, '%a %b')", lambda p: DN[int(wd(*p[:3]))][:3] + " " + MN[int(p[1]) - 1][:3])
    E("tfmt", "time_format(a, '%H:%S')", lambda p: p2(p[3]) + ":" + p2(p[5]))
    E("tts", "time_to_sec(a)", lambda p: secs(p))
    E("tts_time", "time_to_sec(time(a))", lambda p: secs(p))

    # intervals: the result is the only date with the right day number and time
    def after(p, k):
        """the datetime has moved by k seconds"""
        def chk(x):
            t = secs(p) + k
            dk = t // 86400
            r = t - 86400 * dk
            return conj([len(x) == 7, x[3] == r // 3600, x[4] == r // 60 % 60, x[5] == r % 60, days(*x[:3]) - days(*p[:3]) == dk, x[6] == p[6], valid(x)])
        return chk

    def dafter(p, k):
        return lambda x: conj([len(x) == 3, days(*x[:3]) - days(*p[:3]) == k, valid(x)])
    US = {"SECOND": 1, "MINUTE": 60, "HOUR": 3600, "DAY": 86400, "WEEK": 7 * 86400}
    for u, k in US.items():
        for n in (1, 45) if not T else (1, 2, 13, 45, 800):
            E("add_%s_%d" % (u, n), "a + interval %d %s" % (n, u), None, chk=lambda x, p, n=n, k=k: after(p, n * k)(x))
            E("sub_%s_%d" % (u, n), "a - interval %d %s" % (n, u), None, chk=lambda x, p, n=n, k=k: after(p, -n * k)(x))
        E("neg_%s" % u, "a + interval -3 %s" % u, None, chk=lambda x, p, k=k: after(p, -3 * k)(x))
    E("add_us", "a + interval 700000 microsecond", None, us=True,
      chk=lambda x, p: conj([((days(*x[:3]) - days(*p[:3])) * 86400 + secs(x) - secs(p)) * 1000000 + x[6] - p[6] == 700000, valid(x)]))
    for u, k in (("MONTH", 1), ("QUARTER", 3), ("YEAR", 12)):
        for n in (1, 5, 13):
            for sg, op in ((1, "+"), (-1, "-")):
                E("add%s_%s_%d" % ("" if sg > 0 else "m", u, n), "a %s interval %d %s" % (op, n, u), lambda p, m=sg * n * k: addm(p, m), null=n == 1)
        E("neg_%s" % u, "a + interval -2 %s" % u, lambda p, m=-2 * k: addm(p, m), null=False)
        E("addd_%s" % u, "a + interval 1 %s" % u, lambda p, m=k: addm(p, m)[:3], date=True)
        E("subd_%s" % u, "a - interval 11 %s" % u, lambda p, m=-11 * k: addm(p, m)[:3], date=True)
    for f, sg in (("date_add", 1), ("adddate", 1), ("dateadd", 1), ("date_sub", -1), ("subdate", -1), ("datesub", -1)):
        E(f + "_day", f + "(a, interval 10 day)", None, chk=lambda x, p, sg=sg: after(p, sg * 864000)(x))
        E(f + "_hour", f + "(a, interval 30 hour)", None, chk=lambda x, p, sg=sg: after(p, sg * 108000)(x))
        E(f + "_month", f + "(a, interval 10 month)", lambda p, sg=sg: addm(p, 10 * sg))
        E(f + "_n", f + "(a, 40)", None, chk=lambda x, p, sg=sg: after(p, sg * 40 * 86400)(x)) if "_" not in f else None
        E(f + "_d", f + "(a, interval 10 day)", None, date=True, chk=lambda x, p, sg=sg: dafter(p, sg * 10)(x))
        E(f + "_dh", f + "(a, interval 30 minute)", None, date=True, chk=lambda x, p, sg=sg: after(p, sg * 1800)(x))
    N = {"n": lambda ctx: ctx.int("n", -400, 400)}
    E("adddate_col", "adddate(a, n)", None, extra=N, chk=lambda x, p, n: after(p, n * 86400)(x))
    E("subdate_col", "subdate(a, n)", None, extra=N, date=True, chk=lambda x, p, n: dafter(p, 0 - n)(x))
    E("addtime_col", "addtime(a, n)", None, extra=N, chk=lambda x, p, n: after(p, n)(x))
    E("subtime_col", "subtime(a, n)", None, extra=N, chk=lambda x, p, n: after(p, 0 - n)(x))
    for tx, k in (("1:02:03", 3723), ("0:59:59", 3599), ("23:00:01", 82801), ("1 1:02:03", 90123), ("2 10:00:00", 208800)):
        E("addtime_" + tx, "addtime(a, '%s')" % tx, None, chk=lambda x, p, k=k: after(p, k)(x), null=False)
        E("subtime_" + tx, "subtime(a, '%s')" % tx, None, chk=lambda x, p, k=k: after(p, -k)(x), null=False)
    # clock times with any digits in one place
    def tx(name, sql, pat, n, sg):
        def fn(ctx):
            y, m, d, h, i, sec = ctx.choice("date", ((2100, 2, 28, 23, 50, 7), (2024, 1, 1, 0, 0, 0)))
            v, p = datetime.datetime(y, m, d, h, i, sec), (y, m, d, h, i, sec, 0)
            x = ctx.str("t", n, "0123456789", minlen=n)
            ds = [x if q == "?" else q for q in pat]
            nums = [num(q) for q in ds]
            t = ds[-3] + ":" + ds[-2] + ":" + ds[-1]
            k = nums[-3] * 3600 + nums[-2] * 60 + nums[-1]
            if len(ds) > 3:
                t, k = ds[0] + " " + t, k + 86400 * nums[0]
            out = run("select %s as x from t" % sql, {"t": [{"id": 1, "a": v, "s": t}]})
            ctx.meta["out"] = out
            ctx.check(after(p, sg * k)(parts(out[0]["x"])), sql)
        A(H(name, fn, "two datetimes, clock times %s with any %d digits" % (pat, n)))
    for pat in (("?", "05", "09"), ("12", "?", "00"), ("00", "00", "?"), ("?", "01", "02", "03"), ("1", "?", "59", "59"), ("10", "00", "?", "00"), ("0", "0", "0", "?")):
        for n in (1, 2, 3) if T else (1, 2):
            nm = "_".join(pat) + "x%d" % n
            tx("addtext_" + nm, "addtime(a, s)", pat, n, 1)
            tx("subtext_" + nm, "subtime(a, s)", pat, n, -1)
    E("chain", "a + interval 1 month - interval 1 day", None, chk=lambda x, p: after(addm(p, 1), -86400)(x))

    def pair(name, sql, f, d1=False, d2=False):
        def fn(ctx):
            v, p = DT(ctx, "a", 2019, 2021, d1)
            w, q = DT(ctx, "b", 2020, 2020, d2)
            out = run("select %s as x from t" % sql, {"t": [{"id": 1, "a": v, "b": w}]})
            ctx.meta["out"] = out
            ctx.check(same(out, [{"x": f(p, q)}]), sql)
        A(H(name, fn, "two datetimes of 2019 to 2021"))
    key = lambda p: (days(*p[:3]) * 86400 + secs(p))
    pair("datediff", "datediff(a, b)", lambda p, q: days(*p[:3]) - days(*q[:3]))
    pair("datediff_d", "datediff(a, b)", lambda p, q: days(*p[:3]) - days(*q[:3]), True, False)
    pair("datediff_dd", "datediff(a, b)", lambda p, q: days(*p[:3]) - days(*q[:3]), True, True)
    pair("lt", "a < b", lambda p, q: tf(key(p) < key(q)))
    pair("ge", "a >= b", lambda p, q: tf(key(p) >= key(q)))
    pair("eq", "a = b", lambda p, q: tf(key(p) == key(q)))
    pair("lt_d", "a < b", lambda p, q: tf(key(p) < key(q)), True, True)
    pair("greatest", "datediff(greatest(a, b), b)", lambda p, q: ite(key(p) > key(q), days(*p[:3]) - days(*q[:3]), 0))

    def ints(name, sql, f, lo, hi):
        def fn(ctx):
            n = ctx.nint("n", lo, hi)
            out = run("select %s as x from t" % sql, {"t": [{"id": 1, "n": n}]})
            ctx.meta["out"] = out
            x = parts(out[0]["x"])
            ctx.check((x is None) if n is None else f(x, n), sql)
        A(H(name, fn, "ints in [%d, %d], NULL" % (lo, hi)))
    ints("from_unixtime", "from_unixtime(n)", lambda x, n: conj([len(x) == 7, (days(*x[:3]) - E0) * 86400 + secs(x) == n, valid(x)]), 0, 4102444800)
    def st(x, n):
        m = n if n >= 0 else 0 - n
        h = m // 3600
        hh = p2(h) if h < 100 else chr(48 + h // 100) + p2(h % 100)
        return same(x, ("-" if n < 0 else "") + hh + ":" + p2(m // 60 % 60) + ":" + p2(m % 60))
    ints("sec_to_time", "sec_to_time(n)", st, -400000, 3000000)
    return hs


E0 = 719468          # 1970-01-01
MN = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
DN = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]


def p3(n):
    return chr(48 + n // 100) + p2(n % 100)


def num(s):
    n = 0
    for c in s:
        n = n * 10 + (ord(c) - 48)
    return n


def valid(x):
    return conj([x[1] >= 1, x[1] <= 12, x[2] >= 1, x[2] <= mlen(x[0], x[1])] + ([x[3] >= 0, x[3] < 24, x[4] >= 0, x[4] < 60, x[5] >= 0, x[5] < 60] if len(x) > 3 else []))


def addm(p, k):
    m = p[0] * 12 + p[1] - 1 + k
    y, m = m // 12, m % 12 + 1
    l = mlen(y, m)
    return (y, m, ite(p[2] > l, l, p[2])) + tuple(p[3:])


def iso(y, m, d):
    """(year, week) of the Thursday of the week"""
    t = days(y, m, d) - wd(y, m, d) + 3
    yy = ite(t < days(y, 1, 1), y - 1, ite(t >= days(y + 1, 1, 1), y + 1, y))
    return yy, (t - days(yy, 1, 1)) // 7 + 1


def wk1(y, m, d):
    yy, w = iso(y, m, d)
    return ite(yy < y, 0, ite(yy > y, 53, w))


def yw1(y, m, d):
    yy, w = iso(y, m, d)
    return yy * 100 + w


def yw0(y, m, d):
    w = week0(y, m, d)
    return ite(w == 0, (y - 1) * 100 + week0(y - 1, 12, 31), y * 100 + w)
