# -*- coding: utf-8 -*-
"""HAVING filters groups, DISTINCT removes exact duplicates."""
from .lib import *
from . import gen


def agg(rows):
    out = []
    for (k,), g in group(rows, lambda r: (r["a"],)):
        bs = notnull(g, "b")
        out.append({"a": k, "c": len(g), "s": total(bs), "m": maxof(bs), "n": minof(bs)})
    return out


def having(name, cond, pred, n=3, nullcols="", cols="ab", extra="", post=None, sel="a, count(*) as c, sum(b) as s, max(b) as m, min(b) as n",
           keys=("a", "c", "s", "m", "n")):
    def fn(ctx):
        rows = table(ctx, n, nullcols, cols)
        out = run("select %s from t%s group by a having %s" % (sel, extra, cond), {"t": rows})
        ctx.meta["out"] = out
        src = rows if post is None else [r for r in rows if bool(post(r))]
        exp = pick([g for g in agg(src) if is_true(pred(g))], *keys)
        ctx.check(same(out, exp), "groups kept by HAVING %s" % cond)
    return H(name, fn, "%d rows; ints%s" % (n, ", NULLs in " + nullcols if nullcols else ""))


def dist(name, sel, f, n=3, nullcols="", cols="ab", where="", keep=None, **kw):
    def fn(ctx):
        rows = table(ctx, n, nullcols, cols, **kw)
        out = run("select distinct %s from t%s" % (sel, where), {"t": rows})
        ctx.meta["out"] = out
        rs = [r for r in rows if keep is None or bool(keep(r))]
        exp = []
        for k, g in group(rs, lambda r: tuple(f(r).values())):
            exp.append(f(g[0]))
        ctx.check(same(out, exp), "SELECT DISTINCT %s" % sel)
    return H(name, fn, "%d rows" % n)


def harnesses(tier):
    T = tier == "thorough"
    n = 4 if T else 3
    hs = []
    A = hs.append
    for op in ("=", "!=", "<", "<=", ">", ">="):
        A(having("sum" + op, "s %s 5" % op, lambda g, op=op: cmp3(op, g["s"], 5), n))
        A(having("count" + op, "c %s 2" % op, lambda g, op=op: cmp3(op, g["c"], 2), n))
        A(having("key" + op, "a %s 5" % op, lambda g, op=op: cmp3(op, g["a"], 5), n))
        A(having("max_null" + op, "m %s 5" % op, lambda g, op=op: cmp3(op, g["m"], 5), 2, "b", "a"))
    A(having("and", "s > 5 and c >= 2", lambda g: and3(g["s"] > 5, g["c"] >= 2), n))
    A(having("or", "s > 5 or c >= 2", lambda g: or3(g["s"] > 5, g["c"] >= 2), n))
    A(having("mix", "a = 1 or s > 5 and c = 1", lambda g: or3(g["a"] == 1, and3(g["s"] > 5, g["c"] == 1)), n))
    A(having("mixp", "(a = 1 or s > 5) and c = 1", lambda g: and3(or3(g["a"] == 1, g["s"] > 5), g["c"] == 1), n))
    A(having("not", "not s > 5", lambda g: not3(g["s"] > 5), n))
    A(having("in", "s in (1, 5, 7)", lambda g: in3(g["s"], [1, 5, 7]), n))
    A(having("null", "m is null", lambda g: g["m"] is None, 2, "b", "a"))
    A(having("notnull", "m is not null", lambda g: g["m"] is not None, 2, "b", "a"))
    A(having("nullkey", "c > 1", lambda g: g["c"] > 1, 3, "a", "b"))
    A(having("minmax", "n > 0 and m < 9", lambda g: and3(g["n"] > 0, g["m"] < 9), n))
    A(having("where", "s > 5", lambda g: g["s"] > 5, n, "", "ab", " where b > 1", lambda r: r["b"] > 1))
    A(having("calc", "s > c * 4", lambda g: g["s"] > g["c"] * 4, n))
    A(having("two_cols", "m > s", lambda g: g["m"] > g["s"], n))

    # compositions of conditions over the columns of the result
    from .shapes import atoms, compose, colp
    at = [p for p in atoms("s", "c", colp("s"), colp("c"), (2, 1, 3, -1)) if " between " not in p.sql] + \
        [p for p in atoms("m", "a", colp("m"), colp("a"), (2, 1, 3, -1))[:4]]
    for k, (name, p) in enumerate(compose(at, 1 if T else 0)):
        if k % (1 if T else 3) == 0:
            A(having("h " + name, p.sql, p.f, 2, "", "ab"))

    # DISTINCT over up to four columns and expressions, NULLs in any of them
    cs = [("a", lambda r: r["a"]), ("b", lambda r: r["b"]), ("a + b as x", lambda r: nn(lambda p, q: p + q, r["a"], r["b"])), ("ifnull(b, 0) as y", lambda r: 0 if r["b"] is None else r["b"]),
          ("c as z", lambda r: r["c"])]
    import itertools
    for m in (1, 2, 3):
        for k, combo in enumerate(itertools.permutations(range(5), m)):
            if m == 3 and k % (1 if T else 3):
                continue
            names = [cs[i][0].split(" ")[-1] for i in combo]
            A(dist("dn " + ",".join(names), ", ".join(cs[i][0] for i in combo), lambda r, combo=combo, names=names: dict((q, cs[i][1](r)) for q, i in zip(names, combo)),
                   2, "ab" if m < 3 or k % 2 else "c", "c" if m < 3 or k % 2 else "ab", lo=0, hi=2))

    def plain(ctx):
        rows = table(ctx, 3, "", "ab")
        out = run("select id, a, b + 1 as c from t having c > 5", {"t": rows})
        ctx.check(same(out, [{"id": r["id"], "a": r["a"], "c": r["b"] + 1} for r in rows if r["b"] + 1 > 5]), "HAVING without GROUP BY filters rows by their computed columns")
    A(H("plain", plain, "3 rows"))

    A(dist("d1", "a", lambda r: {"a": r["a"]}, n, "", "a"))
    A(dist("d1null", "a", lambda r: {"a": r["a"]}, n, "a", ""))
    A(dist("d2", "a, b", lambda r: {"a": r["a"], "b": r["b"]}, 3))
    A(dist("d2null", "a, b", lambda r: {"a": r["a"], "b": r["b"]}, 3 if T else 2, "ab", ""))
    A(dist("d3", "a, b, c", lambda r: {"a": r["a"], "b": r["b"], "c": r["c"]}, 3 if T else 2, "", "abc"))
    A(dist("dexpr", "a + b as x", lambda r: {"x": r["a"] + r["b"]}, 3))
    A(dist("dif", "if(a > 3, 1, 0) as x", lambda r: {"x": ite(r["a"] > 3, 1, 0)}, 3, "", "a"))
    A(dist("dconst", "a, 1 as k", lambda r: {"a": r["a"], "k": 1}, 3, "", "a"))
    A(dist("dwhere", "a", lambda r: {"a": r["a"]}, n, "", "ab", " where b > 3", lambda r: r["b"] > 3))
    A(dist("dwhere2", "a", lambda r: {"a": r["a"]}, n, "", "ab", " where a + b > 3", lambda r: r["a"] + r["b"] > 3))

    def dstr(ctx):
        rows = [{"id": i, "s": ctx.nullable("s%d" % i, lambda m: ctx.str(m, 1))} for i in range(3)]
        out = run("select distinct s from t", {"t": rows})
        ctx.check(same(out, [{"s": k[0]} for k, g in group(rows, lambda r: (r["s"],))]), "distinct strings")
    A(H("dstr", dstr, "3 strings up to 1 character or NULL"))

    def dmix(ctx):
        # values of different types are different values
        v = [ctx.choice("v%d" % i, (0, 1, "0", "1", "", None)) for i in range(2)]
        rows = [{"id": i, "s": x} for i, x in enumerate(v)]
        out = run("select distinct s from t", {"t": rows})
        ctx.check(same(out, [{"s": v[0]}] if type(v[0]) is type(v[1]) and v[0] == v[1] else [{"s": v[0]}, {"s": v[1]}]), "distinct values of different types")
    A(H("dmix", dmix, "two values out of 0,1,'0','1','',NULL"))

    def dlimit(ctx):
        rows = table(ctx, 3, "", "a")
        k = ctx.choice("k", (0, 1, 2, 3))
        out = run("select distinct a from t limit %d" % k, {"t": rows})
        ctx.check(same(out, [{"a": q[0]} for q, g in group(rows, lambda r: (r["a"],))][:k]), "LIMIT counts distinct rows")
    A(H("dlimit", dlimit, "3 rows, LIMIT 0..3"))

    def dorder(ctx):
        rows = table(ctx, 3, "", "a")
        out = run("select distinct a from t order by a desc", {"t": rows})
        ctx.check(same(out, order_rows([{"a": q[0]} for q, g in group(rows, lambda r: (r["a"],))], ("a", True))), "DISTINCT with ORDER BY")
    A(H("dorder", dorder, "3 rows"))

    def cdist(ctx):
        rows = table(ctx, n, "b", "a")
        out = run("select a, count(distinct b) as d, count(*) as c from t group by a", {"t": rows})
        exp = [{"a": k[0], "d": len(distinct(notnull(g, "b"))), "c": len(g)} for k, g in group(rows, lambda r: (r["a"],))]
        ctx.check(same(out, exp), "COUNT(DISTINCT) next to COUNT(*)")
    A(H("cdist", cdist, "%d rows" % n))

    def cdist2(ctx):
        rows = table(ctx, 3, "", "abc")
        out = run("select a, count(distinct b) as d, count(distinct c) as e from t group by a", {"t": rows})
        exp = [{"a": k[0], "d": len(distinct([r["b"] for r in g])), "e": len(distinct([r["c"] for r in g]))} for k, g in group(rows, lambda r: (r["a"],))]
        ctx.check(same(out, exp), "two COUNT(DISTINCT)")
    A(H("cdist2", cdist2, "3 rows"))

    def ghaving(ctx):
        rows = table(ctx, 3, "", "ab")
        out = run("select a, count(distinct b) as d from t group by a having d > 1", {"t": rows})
        exp = [{"a": k[0], "d": len(distinct([r["b"] for r in g]))} for k, g in group(rows, lambda r: (r["a"],))]
        ctx.check(same(out, [e for e in exp if e["d"] > 1]), "HAVING on COUNT(DISTINCT)")
    A(H("cdist_having", ghaving, "3 rows"))
    # composed queries
    for seed in range(2000, 2400 if T else 2060):
        sql, ref = gen.fullquery(seed, seed % 2, 1)

        def comp(ctx, sql=sql, ref=ref, seed=seed):
            rows = table(ctx, 2, "b" if seed % 2 else "", "ac" if seed % 2 else "abc")
            out = run(sql.format(t="t"), {"t": rows})
            ctx.meta["out"] = out
            ctx.check(same(out, ref(rows)), sql.format(t="t"))
        hs.append(H("comp%d" % seed, comp, "2 rows, any ints%s" % (", b may be NULL" if seed % 2 else "")))
    return hs
