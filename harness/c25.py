# -*- coding: utf-8 -*-
"""literals and conversions."""
from .lib import *
from .lib import _sym

ESC = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", "'": "'", '"': '"', "b": "\b"}


def decode(text, quote):
    """the value of the text between two quotes; None if the literal ends earlier or not, or for other escapes than those of ESC"""
    out, i, n = "", 0, len(text)
    while i < n:
        c = text[i]
        if is_true(c == "\\"):
            if i + 1 == n:
                return None
            d = text[i + 1]
            for k, v in ESC.items():
                if is_true(d == k):
                    out = out + v
                    break
            else:
                return None           # other escapes are not claimed
            i += 2
            continue
        if is_true(c == quote):
            if i + 1 == n or not is_true(text[i + 1] == quote):
                return None
            out = out + quote
            i += 2
            continue
        out = out + c
        i += 1
    return out


def lits(q):
    """characters that matter within the quotes q"""
    return {"'": "'\"\\n`", '"': "\"'\\n`"}[q]


def harnesses(tier):
    hs = []
    T = tier == "thorough"

    def literal(ctx, q, n, alphabet, pre="", post="", minlen=0):
        s = ctx.str("s", n, alphabet=alphabet, minlen=minlen)
        text = pre + s + post
        exp = decode(text, q)
        ctx.assume(exp is not None)
        return q + text + q, exp

    def value(name, q, n, alphabet, pre="", post="", sql="select %s as x from t"):
        def fn(ctx):
            text, exp = literal(ctx, q, n, alphabet, pre, post)
            with Engine() as e:
                e.load("t", [{"a": 1}])
                out = e.rows(sql % text)
            ctx.meta["out"] = out
            ctx.check(same(out, [{"x": exp}]), "the literal's value")
        hs.append(H(name, fn, "%r + up to %d characters of %r + %r in %s" % (q + pre, n, alphabet or "printable ASCII", post + q, sql)))
    k = 1 if T else 0
    for q in "'\"":
        value("characters in %s" % q, q, 4 + k, lits(q))
        value("printable in %s" % q, q, 2 + k, None)
        value("ends of %s" % q, q, 3 + k, lits(q), "\\n", "x")
        value("escapes in %s" % q, q, 3 + k, "\\ntr'\"b")
        value("not ASCII in %s" % q, q, 3, "\u00e9\u4e2d\\n'")
        value("punctuation in %s" % q, q, 2 + k, "-#/*;,()[]{}@:=<>|$%.&", "-", "*")
        value("comments in %s" % q, q, 3, "-#/*;'\n ")

    # where a literal may stand: (statement, value of x)
    PLACES = ["select concat(%s, 'b') as x from t", "select case when a = 1 then %s end as x from t", "select x from (select %s as x from t) d",
              "with d as (select %s as x from t) select x from d", "select if(a = 1, %s, 'n') as x from t", "select coalesce(null, %s) as x from t",
              "select %s as x from t union all select 'u' as x from t", "select lag(a, 1, %s) over (order by a) as x from t",
              "select max(%s) as x from t", "select %s as x, count(*) as c from t group by x", "select %s as x from t -- it's\n",
              "select /* \" */ %s as x from t # `", "select 'a''b' as y, %s as x from t", 'select "a\\"b" as y, %s as x from t where a <> \'\\\'\'',
              "select y.a as z, %s as x from t y join t w on y.a = w.a"]
    for i, sql in enumerate(PLACES):
        def fn(ctx, sql=sql):
            q = ctx.choice("quote", ("'", '"'))
            text, exp = literal(ctx, q, 3, lits("'"))
            with Engine() as e:
                e.load("t", [{"a": 1}])
                out = e.rows(sql % text)
            ctx.meta["out"] = out
            ctx.check(same(out[0]["x"], exp + "b" if "concat" in sql else exp), "the literal's value")
        hs.append(H("place %d" % i, fn, "up to 3 characters of %r in %s" % (lits("'"), sql)))

    # compared with a column
    CONDS = ["b = %s", "%s = b", "b in ('zz', %s)", "b <> %s", "b = %s or a = 9", "not b = %s", "concat(b, '') = %s", "b >= %s and b <= %s",
             "b between %s and %s", "case b when %s then 1 else 0 end = 1"]
    for i, cond in enumerate(CONDS):
        def fn(ctx, cond=cond):
            q = ctx.choice("quote", ("'", '"'))
            text, exp = literal(ctx, q, 2, lits("'"))
            b = ctx.str("b", 2, alphabet="'\"\\n\n`")
            with Engine() as e:
                e.load("t", [{"a": 1, "b": b}])
                out = e.rows("select a from t where " + cond.replace("%s", text))
            ctx.meta["out"] = out
            eq = same(b, exp)
            if "<>" in cond or "not " in cond:
                eq = neg(eq)
            ctx.check(same(len(out), ite(eq, 1, 0)), "the rows selected")
        hs.append(H("where %s" % cond, fn, "up to 2 characters of %r against a column of up to 2 characters" % lits("'")))

    # stored, deleted and assigned
    def statement(name, sql, then, exp_fn, tables, n=3, alphabet=None):
        def fn(ctx):
            q = ctx.choice("quote", ("'", '"'))
            text, exp = literal(ctx, q, n, alphabet or lits("'"))
            with Engine() as e:
                for t, rows in tables(ctx).items():
                    e.load(t, rows)
                e.execute(sql % text)
                out = then(e)
            ctx.meta["out"] = out
            ctx.check(same(out, exp_fn(exp, ctx)), "what the statement stored")
        hs.append(H(name, fn, "up to %d characters of %r in %s" % (n, alphabet or lits("'"), sql)))
    one = lambda ctx: {"t": [{"a": 1}]}
    statement("values", "insert into `r` (x, y) values (%s, 2)", lambda e: e.pop("r"), lambda v, c: [{"x": v, "y": 2}], one)
    statement("second row of values", "insert into `r` (x) values ('it''s'), (%s)", lambda e: e.pop("r"), lambda v, c: [{"x": "it's"}, {"x": v}], one)
    statement("select into", "select %s into @v from t", lambda e: e.e.get_variable("v"), lambda v, c: v, one)
    statement("set", "set @v = %s", lambda e: e.e.get_variable("v"), lambda v, c: v, one, alphabet="'\"`;n", n=3)
    statement("two statements", "insert into `r` select %s as x from t; insert into `r2` select 'b;' as x from t", lambda e: [e.pop("r"), e.pop("r2")],
              lambda v, c: [[{"x": v}], [{"x": "b;"}]], one, alphabet="'\"\\;n")
    statement("delete", "delete from t where b = %s", lambda e: e.get("t"),
              lambda v, c: [r for r in [{"b": "n"}, {"b": "'"}, {"b": "\\"}] if not is_true(r["b"] == v)], lambda ctx: {"t": [{"b": "n"}, {"b": "'"}, {"b": "\\"}]}, n=2)

    # ---- numbers
    def number(name, fmt, n, alphabet, val, minlen=1, ok=None):
        def fn(ctx):
            s = ctx.str("s", n, alphabet=alphabet, minlen=minlen)
            a = ctx.int("a", -20, 20)
            if ok:
                ctx.assume(ok(s))
            exp = val(s)
            with Engine() as e:
                e.load("t", [{"a": a}])
                out = e.rows("select %s as x, a + %s as y, a < %s as z from t" % ((fmt % s,) * 3))
                kept = e.rows("select a as x from t where a > %s" % (fmt % s))
            ctx.meta["out"] = out
            ctx.check(same(out, [{"x": exp, "y": exp + a, "z": ite(a < exp, 1, 0)}]), "the number")
            ctx.check(same(len(kept), ite(a > exp, 1, 0)), "the rows selected")
        hs.append(H(name, fn, "%s with up to %d of %s" % (fmt, n, alphabet)))
    DIGITS = "0123456789"
    number("int", "%s", 3 + k, DIGITS, int)
    number("negative", "-%s", 3 + k, DIGITS, lambda s: -int(s))
    number("plus", "+%s", 2, DIGITS, int)
    number("parenthesis", "-(-(%s))", 2, DIGITS, int)
    number("hexadecimal", "0x%s", 2 + k, DIGITS + "abcdefABCDEF", lambda s: int(s, 16))
    number("hexadecimal text", "x'%s'", 2, DIGITS + "abcdefABCDEF", lambda s: int(s, 16))
    number("binary", "0b%s", 4 + k, "01", lambda s: int(s, 2))
    number("binary text", "b'%s'", 4 + k, "01", lambda s: int(s, 2))
    number("fraction", "%s.25", 3, DIGITS, lambda s: int(s) + 0.25)
    number("negative fraction", "-%s.5", 3, DIGITS, lambda s: -(int(s) + 0.5))
    number("no integer part", ".%s", 1 + k, "05", lambda s: float("0." + s))
    number("exponent", "%se2", 2, DIGITS, lambda s: int(s) * 100.0)
    number("negative exponent", "%s00e-2", 2, DIGITS, lambda s: int(s) * 1.0)

    # ---- conversions
    def cast(name, types, src, exp_fn, ok=None):
        def fn(ctx):
            v = src(ctx)
            ty = ctx.choice("type", tuple(types))
            form = ctx.choice("form", ("cast(%s as %s)", "convert(%s, %s)", "CAST(concat(%s) AS %s)" if isinstance(v, str) else "CAST(%s + 0 AS %s)"))
            if ok:
                ctx.assume(ok(v))
            with Engine() as e:
                e.load("t", [{"id": 1, "b": v}])
                out = e.rows("select %s as x, id from t" % (form % ("b", ty)))
            ctx.meta["out"] = out
            exp = exp_fn(v)
            ctx.check(same(out, [{"x": exp, "id": 1}]), "the converted value")
            ctx.check(isinstance(out[0]["x"], str) == isinstance(exp, str), "its type")
        hs.append(H("cast " + name, fn, "CAST and CONVERT to %s" % ", ".join(types)))
    INTS = ["int", "bigint", "tinyint", "integer"]
    TEXTS = ["char", "varchar(10)", "text"]
    FLOATS = ["double", "float"]
    cast("int as int", INTS, lambda c: c.int("b"), lambda v: v)
    cast("int as text", TEXTS, lambda c: c.int("b", -1000, 1000), str)
    cast("int as fraction", FLOATS, lambda c: c.int("b"), lambda v: v)
    cast("int as boolean", ["boolean"], lambda c: c.int("b"), lambda v: neg(same(v, 0)))
    cast("digits as int", INTS, lambda c: c.str("b", 3, alphabet=DIGITS, minlen=1), int)
    cast("negative digits as int", INTS, lambda c: "-" + c.str("b", 2, alphabet=DIGITS, minlen=1), int)
    cast("letters as int", INTS, lambda c: c.str("b", 3, alphabet="abcxyz -"), lambda v: 0)
    cast("letters as fraction", FLOATS, lambda c: c.str("b", 2, alphabet="abcxyz -"), lambda v: 0)
    cast("digits as fraction", FLOATS, lambda c: c.str("b", 2, alphabet=DIGITS, minlen=1) + ".5", lambda v: int(v[:-2]) + 0.5)
    cast("text as text", TEXTS, lambda c: c.str("b", 3, alphabet="a1' \\%"), lambda v: v)

    def where_cast(ctx):
        v, n = ctx.str("b", 2, alphabet=DIGITS, minlen=1), ctx.int("n", 0, 100)
        with Engine() as e:
            e.load("t", [{"id": 1, "b": v, "n": n}])
            a = e.rows("select id from t where cast(b as int) > 42")
            b = e.rows("select id from t where cast(b as int) > n")
            c = e.rows("select id from t where convert(n, char) = b")
        ctx.meta["out"] = [a, b, c]
        ctx.check(same(len(a), ite(int(v) > 42, 1, 0)) , "converted and compared with a constant")
        ctx.check(same(len(b), ite(int(v) > n, 1, 0)), "converted and compared with a column")
        ctx.check(same(len(c), ite(same(str(n), v), 1, 0)), "a number converted to text")
    hs.append(H("cast in conditions", where_cast, "texts of up to 2 digits, numbers 0..100"))

    def order_cast(ctx):
        vs = [ctx.str("b%d" % i, 2, alphabet="0129", minlen=1) for i in range(2)]
        with Engine() as e:
            e.load("t", [{"id": i, "b": v} for i, v in enumerate(vs)])
            a = e.rows("select id, cast(b as int) as x from t order by x")
            m = e.rows("select max(cast(b as int)) as x, sum(convert(b, int)) as y from t")
            g = e.rows("select cast(b as int) as x, count(*) as c from t group by x")
            d = [e.rows("select id, %s as x from t order by %s desc" % (f, f)) for f in ("cast(b as int)", "convert_int(b)")]
            d.append(e.rows("select id, cast(b as int) as b from t order by b desc"))
            d.append(e.rows("select id, `b[int]` from t order by b desc"))
        ctx.meta["out"] = [a, m, g]
        x, y = int(vs[0]), int(vs[1])
        ctx.check(same([r["id"] for r in a], [0, 1] if is_true(x <= y) else [1, 0]), "ordered by the numbers")
        for q in d:
            ctx.check(same([r["id"] for r in q], [0, 1] if is_true(x >= y) else [1, 0]), "ordered by the numbers, descending")
        ctx.check(same(m, [{"x": ite(x >= y, x, y), "y": x + y}]), "aggregates of the numbers")
        ctx.check(same(g, [{"x": x, "c": 2}] if is_true(x == y) else [{"x": x, "c": 1}, {"x": y, "c": 1}]), "groups of the numbers")
    hs.append(H("cast in order, groups and aggregates", order_cast, "two texts of up to 2 digits of 0129"))

    # dates
    from .c22 import DT

    def dates(ctx):
        import datetime
        v, p = DT(ctx, "c", 2019, 2022)
        with Engine() as e:
            e.load("t", [{"c": v}])
            out = e.rows("select cast(c as date) as x, convert(c, date) as y, cast(c as datetime) as z, cast(c as time) as w, cast(c as char) as s from t")
        r = out[0]
        ctx.check(conj([same([r[c].year, r[c].month, r[c].day], list(p[:3])) for c in "xyz"]), "the day")
        ctx.check(conj([same([r[c].hour, r[c].minute, r[c].second], list(p[3:6])) for c in "zw"]), "the time of day")
        ctx.check(not isinstance(r["x"], datetime.datetime) and not isinstance(r["y"], datetime.datetime) and isinstance(r["z"], datetime.datetime)
                  and isinstance(r["w"], datetime.time), "the types")
        ctx.check(same(r["s"], "%04d-%02d-%02d %02d:%02d:%02d" % p[:6]), "a time as text")
    hs.append(H("cast as dates", dates, "datetimes of the years 2019 to 2022"))

    # dates compared with texts: by their texts
    OPS = {"=": lambda a, b: same(a, b), "<>": lambda a, b: neg(same(a, b)), "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
    FLIP = {"=": "=", "<>": "<>", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
    for i, op in enumerate(OPS):
        def dated(ctx, op=op):
            v, p = DT(ctx, "c", 2019, 2021)
            day, sec = (p[0] * 100 + p[1]) * 100 + p[2], (p[3] * 100 + p[4]) * 100 + p[5]
            qs = [("cast(c as date) %s '2020-02-29'", OPS[op](day, 20200229)),
                  ("cast(c as datetime) %s '2020-02-29 12:30:00'", OPS[op](day * 1000000 + sec, 20200229123000)),
                  ("cast(c as datetime) %s '2020-02-29'", OPS[op](day * 1000000 + sec, 20200229000000)),
                  ("cast(c as date) %s '2020-02-29 12:30:00'", OPS[op](day * 1000000, 20200229123000)),
                  ("cast(c as time) %s '12:30:00'", OPS[op](sec, 123000)),
                  ("cast(c as char) %s '2020-02-29 12:30:00'", OPS[op](day * 1000000 + sec, 20200229123000))]
            with Engine() as e:
                e.load("t", [{"id": 1, "c": v}])
                for q, exp in qs:
                    a = e.rows("select id from t where " + q % op)
                    b = e.rows("select case when %s then 1 else 0 end as x from t" % (q % op))
                    l, r = q.split(" %s ")
                    d = e.rows("select %s %s %s as x from t" % (r, FLIP[op], l))
                    ctx.check(same(len(a), ite(exp, 1, 0)), "the rows selected by " + q % op)
                    ctx.check(same(b, [{"x": ite(exp, 1, 0)}]), "the value of " + q % op)
                    ctx.check(same(d, [{"x": ite(exp, 1, 0)}]), "the value of %s with its sides exchanged" % (q % op))
        hs.append(H("dates %s text" % op, dated, "datetimes of the years 2019 to 2021, cast to date, datetime, time and char"))

    def date_sets(ctx):
        v, p = DT(ctx, "c", 2019, 2021)
        day = (p[0] * 100 + p[1]) * 100 + p[2]
        with Engine() as e:
            e.load("t", [{"id": 1, "c": v}])
            a = e.rows("select id from t where cast(c as date) in ('2020-02-29', '2021-01-01')")
            b = e.rows("select id from t where cast(c as date) between '2020-02-29' and '2021-01-01'")
            c = e.rows("select id from t where cast(c as date) = cast(c as datetime)")
        ctx.check(same(len(a), ite(disj([day == 20200229, day == 20210101]), 1, 0)), "IN")
        ctx.check(same(len(b), ite(conj([day >= 20200229, day <= 20210101]), 1, 0)), "BETWEEN")
        ctx.check(same(len(c), ite(conj([p[3] == 0, p[4] == 0, p[5] == 0]), 1, 0)), "a date and a datetime")
    hs.append(H("dates in sets of texts", date_sets, "datetimes of the years 2019 to 2021"))
    return hs
