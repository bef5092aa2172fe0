# -*- coding: utf-8 -*-
"""names in backticks."""
from .lib import *
from .lib import _sym


def harnesses(tier):
    hs = []
    T = tier == "thorough"
    k = 1 if T else 0

    def name(ctx, n, alphabet, pre="", post=""):
        return pre + ctx.str("s", n, alphabet=alphabet, minlen=1) + post

    NAMES = [("a", "", "'\"\\ -#/*;,()n", 2 + k), ("b", "x", "'\"\\ -#/*;,()n", 2 + k), ("c", "", "@:=+%{}<>!&^~a", 2), ("d", "", "\u00e9\u4e2d A1_a", 2), ("e", "or", "der", 3), ("f", "nul", "lL", 1), ("g", "1", "a1 ", 2)]
    USES = [("select `%s` as x from t", lambda n, v: [{"x": v}]),
            ("select `%s` from t", lambda n, v: [{n: v}]),
            ("select a as `%s` from t", lambda n, v: [{n: 5}]),
            ("select d.`%s` as x from t d", lambda n, v: [{"x": v}]),
            ("select a as x from t where `%s` > 3", lambda n, v: [{"x": 5}] if is_true(v > 3) else []),
            ("select `%s` + 1 as x from t", lambda n, v: [{"x": v + 1}]),
            ("select max(`%s`) as x from t group by `%s`", lambda n, v: [{"x": v}]),
            ("select a as x from t order by `%s`", lambda n, v: [{"x": 5}]),
            ("select x.`%s` as x from t x join t y on x.`%s` = y.`%s`", lambda n, v: [{"x": v}]),
            ("select `%s` as x from (select `%s` from t) d", lambda n, v: [{"x": v}]),
            ("with d as (select `%s` from t) select `%s` as x from d", lambda n, v: [{"x": v}]),
            ]
    for tag, pre, alphabet, n in NAMES:
        for i, (sql, exp) in enumerate(USES):
            def fn(ctx, sql=sql, exp=exp, pre=pre, alphabet=alphabet, n=n):
                s = name(ctx, n, alphabet, pre)
                v = ctx.int("v")
                ctx.assume(conj([neg(same(s, z)) for z in ("a", "x", "*")]))
                with Engine() as e:
                    e.load("t", [{"a": 5, s: v}])
                    out = e.rows(sql.replace("%s", s) if not _sym(s) else sym_fill(sql, s))
                ctx.meta["out"] = out
                ctx.check(same(out, exp(s, v)), "the rows")
            hs.append(H("%s %d" % (tag, i), fn, "%s for names %r + 1 to %d characters of %r" % (sql, pre, n, alphabet)))
    # names of tables, their aliases, common table expressions and targets
    ODD = [("", "'\"\\ -#*,()n", 2), ("x", "'\"\\ -#*,;()n", 2), ("x", "@=+%{}!^~1", 2), ("", "\u00e9\u4e2dA1_", 2), ("or", "der", 3), ("selec", "t ", 1)]
    TABLES = [("select x.a as x from `%s` x", True), ("select a as x from `%s` where a > 3", True),
              ("select `%s`.a as x from t `%s` where `%s`.a = 5", False), ("select y.a as x from t y join t `%s` on y.a = `%s`.a where `%s`.a > 1", False),
              ("with `%s` as (select a from t) select a as x from `%s`", False), ("select `%s`.a as x from (select a from t) `%s`", False),
              ("select x.a as x from t x join `%s` y on x.a = y.a", True), ("select a as x from t where a in (select a from `%s`)", True),
              ("select a as x from `%s` union all select a as x from t where a = 0", True), ("select sum(a) as x from `%s` group by a", True)]
    for i, (pre, alphabet, n) in enumerate(ODD):
        for j, (sql, load) in enumerate(TABLES):
            def fn(ctx, sql=sql, load=load, pre=pre, alphabet=alphabet, n=n):
                s = name(ctx, n, alphabet, pre)
                ctx.assume(conj([neg(same(s, z)) for z in ("a", "x", "y", "t", "*", "--", "_")]))
                v = ctx.int("v")
                ctx.assume(v > 5) if "where" not in sql else ctx.assume(v == 5)
                with Engine() as e:
                    e.load("t", [{"a": v}])
                    if load:
                        e.load(s, [{"a": v}])
                    out = e.rows(sym_fill(sql, s))
                ctx.meta["out"] = out
                ctx.check(same(out, [{"x": v}]), "the rows")
            hs.append(H("table %d %d" % (i, j), fn, "%s for names %r + 1 to %d characters of %r" % (sql, pre, n, alphabet)))

        def target(ctx, pre=pre, alphabet=alphabet, n=n):
            s = name(ctx, n, alphabet, pre)
            ctx.assume(conj([neg(same(s, z)) for z in ("a", "x", "t", "*", "--", "_", "_")]))
            v = ctx.int("v")
            with Engine() as e:
                e.load("t", [{"a": v}])
                e.execute(sym_fill("insert into `%s` select a as x from t", s))
                p = e.get(s)
                e.execute(sym_fill("insert into `%s` (x) values (7)", s))
                q = e.get(s)
                e.execute(sym_fill("delete from `%s` where x = 7", s))
                r = e.pop(s)
            ctx.meta["out"] = [p, q, r]
            ctx.check(same(q, [{"x": v}, {"x": 7}]), "inserted")
            ctx.check(same(r, [] if is_true(v == 7) else [{"x": v}]), "deleted")
        hs.append(H("target %d" % i, target, "INSERT and DELETE for names %r + 1 to %d characters of %r" % (pre, n, alphabet)))

        def columns(ctx, pre=pre, alphabet=alphabet, n=n):
            s = name(ctx, n, alphabet, pre)
            ctx.assume(conj([neg(same(s, z)) for z in ("a", "k", "x", "t", "y z", "__", "*")]))
            v = ctx.int("v")
            with Engine() as e:
                e.load("t", [{"a": v}])
                e.execute(sym_fill("insert into r (a, `%s`, `y z`) values (1, 2, 3)", s))
                p = e.pop("r")
                e.execute(sym_fill("insert into r (`%s`, `y z`) select a, 3 as b from t", s))
                q = e.pop("r")
                e.load("u", [{"k": 5, s: 1}])
                e.execute(sym_fill("insert into `u<UI>` (k, `%s`) select a, 2 as b from t", s))
                u = e.pop("u")
                e.load("u", [{s: v, "y z": 1}])
                e.execute(sym_fill("delete from u where `%s` > 3", s))
                d = e.pop("u")
            ctx.meta["out"] = [p, q, u, d]
            ctx.check(same(p, [{"a": 1, s: 2, "y z": 3}]), "inserted values")
            ctx.check(same(q, [{s: v, "y z": 3}]), "inserted rows")
            ctx.check(same(u, [{"k": 5, s: 2}] if is_true(v == 5) else [{"k": 5, s: 1}, {"k": v, s: 2}]), "updated rows")
            ctx.check(same(d, [] if is_true(v > 3) else [{s: v, "y z": 1}]), "deleted rows")
        hs.append(H("columns %d" % i, columns, "INSERT with a column list, update and DELETE for names %r + 1 to %d characters of %r" % (pre, n, alphabet)))

    # two names that differ in their odd characters only
    PAIRS = ["select `%s` as x, `%t` as y from t", "select x as x, y as y from (select `%s` as x, `%t` as y from t) d",
             "select max(`%s`) as x, min(`%t`) as y from t", "select p.`%s` as x, q.`%t` as y from t p join t q on p.a = q.a",
             "select `%s` as x, `%t` as y from t where `%s` = `%s` order by `%t`"]
    for j, sql in enumerate(PAIRS):
        def fn(ctx, sql=sql):
            s, t = [ctx.str(z, 2, alphabet=" '\"-n", minlen=1) for z in "st"]
            ctx.assume(neg(same(s, t)))
            v, w = ctx.int("v"), ctx.int("w")
            with Engine() as e:
                e.load("t", [{"a": 5, s: v, t: w}])
                out = e.rows(sym_fill(sym_fill(sql, s), t, "%t"))
            ctx.meta["out"] = out
            ctx.check(same(out, [{"x": v, "y": w}]), "the rows")
        hs.append(H("pair %d" % j, fn, "%s for two different names of 1 to 2 characters of ' \" - n and space" % sql))
    return hs


def sym_fill(sql, s, mark="%s"):
    parts = sql.split(mark) if not _sym(sql) else split_mark(sql, mark)
    out = parts[0]
    for p in parts[1:]:
        out = out + s + p
    return out


def split_mark(sql, mark):
    """(the statement holds a symbolic name already)"""
    out, cur, i = [], "", 0
    while i < len(sql):
        if not _sym(sql[i]) and not _sym(sql[i:i + 2]) and sql[i:i + 2] == mark:
            out.append(cur)
            cur = ""
            i += 2
        else:
            cur = cur + sql[i]
            i += 1
    return out + [cur]
