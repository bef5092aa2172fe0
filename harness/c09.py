# -*- coding: utf-8 -*-
"""GROUP BY and aggregates."""
from .lib import *
from . import gen

AGG = {
    "count(*)": lambda rs: len(rs),
    "count(b)": lambda rs: len(notnull(rs, "b")),
    "count(1)": lambda rs: len(rs),
    "sum(b)": lambda rs: total(notnull(rs, "b")),
    "min(b)": lambda rs: minof(notnull(rs, "b")),
    "max(b)": lambda rs: maxof(notnull(rs, "b")),
    "avg(b)": lambda rs: avgof(notnull(rs, "b")),
    "sum(b + 1)": lambda rs: total([x + 1 for x in notnull(rs, "b")]),
    "sum(if(b > 2, 1, 0))": lambda rs: total([1 if is_true(cmp3(">", r["b"], 2)) else 0 for r in rs]),
    "count(distinct b)": lambda rs: len(distinct(notnull(rs, "b"))),
    "sum(b) * 2 + count(*)": lambda rs: total(notnull(rs, "b")) * 2 + len(rs),
    "max(b) - min(b)": lambda rs: nn(lambda x, y: x - y, maxof(notnull(rs, "b")), minof(notnull(rs, "b"))),
    "sum(b) / count(*)": lambda rs: total(notnull(rs, "b")) / len(rs),
}


def grouped(name, aggs, n, nullcols="b", cols="a", keysql="a", keyf=lambda r: (r["a"],), where="", keep=None, kname=("k",), **kw):
    def fn(ctx):
        rows = table(ctx, n, nullcols, cols, **kw)
        sel = ", ".join(["%s as %s" % (k, nm) for k, nm in zip(keysql.split(";"), kname)] +
                        ["%s as v%d" % (a, i) for i, a in enumerate(aggs)])
        out = run("select %s from t%s group by %s" % (sel, where, keysql.replace(";", ", ")), {"t": rows})
        ctx.meta["out"] = out
        rs = [r for r in rows if keep is None or bool(keep(r))]
        exp = []
        for k, g in group(rs, keyf):
            d = dict(zip(kname, k))
            d.update(("v%d" % i, AGG[a](g)) for i, a in enumerate(aggs))
            exp.append(d)
        ctx.check(same(out, exp), "groups of %s by %s%s" % (",".join(aggs), keysql, where))
    return H(name, fn, "%d rows; nullable int columns %s, int columns %s" % (n, nullcols or "-", cols or "-"))


def whole(name, aggs, n, **kw):
    def fn(ctx):
        rows = table(ctx, n, "b", "", **kw)
        out = run("select %s from t" % ", ".join("%s as v%d" % (a, i) for i, a in enumerate(aggs)), {"t": rows})
        ctx.meta["out"] = out
        ctx.check(same(out, [{"v%d" % i: AGG[a](rows) for i, a in enumerate(aggs)}]), "aggregates of the whole table")
    return H(name, fn, "%d rows, nullable ints" % n)


def harnesses(tier):
    T = tier == "thorough"
    n = 4 if T else 3
    hs = []
    for i, a in enumerate(AGG):
        hs.append(grouped("g%02d %s" % (i, a), [a], n))
        hs.append(whole("w%02d %s" % (i, a), [a], n))
        hs.append(grouped("nullkey%02d %s" % (i, a), [a], 2, "ab", ""))
    hs.append(grouped("many", ["count(*)", "sum(b)", "min(b)", "max(b)", "avg(b)", "count(b)"], n))
    hs.append(whole("wmany", ["count(*)", "sum(b)", "min(b)", "max(b)", "avg(b)", "count(b)", "count(distinct b)"], n))
    hs.append(grouped("nullkey", ["count(*)", "sum(b)"], 3, "a", "b"))
    hs.append(grouped("two", ["count(*)", "sum(b)"], 3, "", "abc", "a;c", lambda r: (r["a"], r["c"]), kname=("k", "l")))
    hs.append(grouped("twonull", ["count(*)"], 3, "ac", "", "a;c", lambda r: (r["a"], r["c"]), kname=("k", "l")))
    hs.append(grouped("expr", ["count(*)", "sum(b)"], 3, "", "ab", "a + 1", lambda r: (r["a"] + 1,)))
    hs.append(grouped("mod", ["count(*)", "sum(b)"], 3, "", "ab", "a % 2", lambda r: (r["a"] % 2,), lo=0))
    hs.append(grouped("where", ["count(*)", "sum(b)"], 3, "", "ab", where=" where b > 3", keep=lambda r: r["b"] > 3))
    hs.append(grouped("where2", ["count(*)", "max(b)"], 3, "", "ab", where=" where a + b > 3", keep=lambda r: r["a"] + r["b"] > 3))

    def alias(ctx):
        rows = table(ctx, 3, "", "ab")
        out = run("select a as k, sum(b) as s from t group by k", {"t": rows})
        ctx.check(same(out, [{"k": k[0], "s": total([r["b"] for r in g])} for k, g in group(rows, lambda r: (r["a"],))]), "group by alias")
    hs.append(H("alias", alias, "3 rows, ints"))

    def nokey(ctx):
        rows = table(ctx, 3, "a", "b")
        out = run("select sum(b) as s, count(*) as c from t group by a", {"t": rows})
        ctx.check(same(out, [{"s": total([r["b"] for r in g]), "c": len(g)} for k, g in group(rows, lambda r: (r["a"],))]), "key not selected")
    hs.append(H("key_not_selected", nokey, "3 rows"))

    def onlykey(ctx):
        rows = table(ctx, 3, "a", "b")
        out = run("select a from t group by a", {"t": rows})
        ctx.check(same(out, [{"a": k[0]} for k, g in group(rows, lambda r: (r["a"],))]), "one row per key")
    hs.append(H("only_key", onlykey, "3 rows"))

    def strkey(ctx):
        rows = [{"id": i, "s": ctx.str("s%d" % i, 1), "b": ctx.int("b%d" % i)} for i in range(3)]
        out = run("select s, count(*) as c, sum(b) as v from t group by s", {"t": rows})
        ctx.check(same(out, [{"s": k[0], "c": len(g), "v": total([r["b"] for r in g])} for k, g in group(rows, lambda r: (r["s"],))]), "string keys")
    hs.append(H("string_key", strkey, "3 rows, keys up to 1 character"))

    def strminmax(ctx):
        rows = [{"id": i, "a": 1, "s": ctx.nullable("s%d" % i, lambda nm: ctx.str(nm, 1))} for i in range(2)]
        out = run("select min(s) as mn, max(s) as mx, count(s) as c from t group by a", {"t": rows})
        vs = notnull(rows, "s")
        mn = mx = None
        for v in vs:
            mn = v if mn is None or v < mn else mn
            mx = v if mx is None or v > mx else mx
        ctx.check(same(out, [{"mn": mn, "mx": mx, "c": len(vs)}]), "min/max of strings")
    hs.append(H("string_minmax", strminmax, "2 rows, strings up to 1 character or NULL"))

    def real(ctx):
        rows = [{"id": i, "a": ctx.int("a%d" % i, 0, 1), "x": ctx.nullable("x%d" % i, lambda nm: ctx.real(nm, -1000, 1000, 4))} for i in range(3)]
        out = run("select a, sum(x) as s, avg(x) as v, min(x) as mn, max(x) as mx from t group by a", {"t": rows})
        ctx.check(same(out, [{"a": k[0], "s": total(notnull(g, "x")), "v": avgof(notnull(g, "x")), "mn": minof(notnull(g, "x")), "mx": maxof(notnull(g, "x"))}
                             for k, g in group(rows, lambda r: (r["a"],))]), "fractional values")
    hs.append(H("real", real, "3 rows, quarters within +-1000 or NULL"))
    # composed queries: keys, conditions, expressions over aggregates and keys
    for seed in range(500 if T else 120):
        sql, ref = gen.aggquery(seed, seed % 2)

        def comp(ctx, sql=sql, ref=ref, seed=seed):
            rows = table(ctx, 2, "b" if seed % 2 else "", "ac" if seed % 2 else "abc")
            out = run(sql.format(t="t"), {"t": rows})
            ctx.meta["out"] = out
            ctx.check(same(out, ref(rows)), sql.format(t="t"))
        hs.append(H("comp%03d" % seed, comp, "2 rows, any ints%s" % (", b may be NULL" if seed % 2 else "")))
    return hs
