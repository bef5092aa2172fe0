# -*- coding: utf-8 -*-
"""ORDER BY sorts, LIMIT/OFFSET cut."""
from .lib import *
from . import gen


def order(name, sql, cols, keys, n=3, nullcols="", icols="ab", cut=None, where=None, fn_rows=None, **kw):
    """cols: list of (alias, f)"""
    def fn(ctx):
        rows = fn_rows(ctx) if fn_rows else table(ctx, n, nullcols, icols, **kw)
        out = run(sql, {"t": rows})
        ctx.meta["out"] = out
        rs = [r for r in rows if where is None or is_true(where(r))]
        exp = [dict((c, f(r)) for c, f in cols) for r in order_rows(rs, *keys)]
        if cut:
            exp = exp[cut[0]:cut[1]]
        ctx.check(same(out, exp), sql)
    return H(name, fn, "%d rows; ints%s" % (n, ", NULLs in " + nullcols if nullcols else ""))


c = lambda k: (k, lambda r: r[k])


def harnesses(tier):
    T = tier == "thorough"
    n = 4 if T else 3
    hs = []
    A = hs.append
    for d, D in (("", False), (" asc", False), (" desc", True)):
        A(order("sel" + d, "select id, a from t order by a" + d, [c("id"), c("a")], [("a", D)], n, "", "a"))
        A(order("null" + d, "select id, a from t order by a" + d, [c("id"), c("a")], [("a", D)], n, "a", ""))
        A(order("unsel" + d, "select id from t order by a" + d, [c("id")], [("a", D)], n, "", "a"))
        A(order("star" + d, "select * from t order by a" + d, [c("id"), c("a"), c("b")], [("a", D)], n))
        A(order("calc" + d, "select id, a + b as x from t order by x" + d, [c("id"), ("x", lambda r: r["a"] + r["b"])], [(lambda r: r["a"] + r["b"], D)], n))
        A(order("alias" + d, "select id, a as x from t order by x" + d, [c("id"), ("x", lambda r: r["a"])], [("a", D)], n, "", "a"))
        A(order("tbl" + d, "select x.id from t x order by x.a" + d, [c("id")], [("a", D)], n, "", "a"))
        A(order("lim1" + d, "select id, a from t order by a%s limit 1" % d, [c("id"), c("a")], [("a", D)], n, "", "a", (0, 1)))
        A(order("limoff" + d, "select id, a from t order by a%s limit 1 offset 1" % d, [c("id"), c("a")], [("a", D)], n, "", "a", (1, 2)))
        A(order("lim_unsel" + d, "select id from t order by a%s limit 2" % d, [c("id")], [("a", D)], n, "", "a", (0, 2)))
        A(order("where" + d, "select id, a from t where b > 3 order by a%s" % d, [c("id"), c("a")], [("a", D)], n, "", "ab", None, lambda r: r["b"] > 3))
        A(order("where2" + d, "select id, a from t where a + b > 3 order by a%s limit 2" % d, [c("id"), c("a")], [("a", D)], n, "", "ab", (0, 2), lambda r: r["a"] + r["b"] > 3))
        for e, E in ((" asc", False), (" desc", True)):
            A(order("two" + d + e, "select id, a, b from t order by a%s, b%s" % (d, e), [c("id"), c("a"), c("b")], [("a", D), ("b", E)], 3))
            A(order("two_lim" + d + e, "select id from t order by a%s, b%s limit 1" % (d, e), [c("id")], [("a", D), ("b", E)], 3, "", "ab", (0, 1)))
            A(order("two_null" + d + e, "select id, a, b from t order by a%s, b%s" % (d, e), [c("id"), c("a"), c("b")], [("a", D), ("b", E)], 2, "ab", ""))
            A(order("two_mix" + d + e, "select id, a + b as x from t order by x%s, id%s" % (d, e), [c("id"), ("x", lambda r: r["a"] + r["b"])],
                    [(lambda r: r["a"] + r["b"], D), ("id", E)], 3))
    st = lambda ctx: [{"id": i, "s": ctx.nullable("s%d" % i, lambda m: ctx.str(m, 1))} for i in range(3)]
    A(order("str", "select id, s from t order by s", [c("id"), c("s")], [("s", False)], fn_rows=st))
    A(order("strd", "select id, s from t order by s desc", [c("id"), c("s")], [("s", True)], fn_rows=st))
    A(order("three", "select id from t order by a, b desc, c", [c("id")], [("a", False), ("b", True), ("c", False)], 3, "", "abc", lo=0, hi=1))

    # LIMIT and OFFSET with constants from a grid: a slice of the ordered rows
    for k in (0, 1, 2, 3, 5):
        for o in (0, 1, 2, 4):
            A(order("grid%d_%d" % (k, o), "select id, a from t order by a limit %d offset %d" % (k, o), [c("id"), c("a")], [("a", False)], 3, "", "a", (o, o + k)))
            A(order("gridp%d_%d" % (k, o), "select id, a from t limit %d, %d" % (o, k), [c("id"), c("a")], [], 3, "", "a", (o, o + k)))
            A(order("gridw%d_%d" % (k, o), "select id, a from t where a > 2 limit %d offset %d" % (k, o), [c("id"), c("a")], [], 3, "", "a", (o, o + k), lambda r: r["a"] > 2))
            A(order("gridx%d_%d" % (k, o), "select id, a from t where a + b > 2 limit %d offset %d" % (k, o), [c("id"), c("a")], [], 3, "", "ab", (o, o + k), lambda r: r["a"] + r["b"] > 2))

    # every ordering by two to three (four) keys of every kind and direction
    import itertools
    kinds = {"a": ("a", lambda r: r["a"]), "y": ("b", lambda r: r["b"]), "x": ("a + c", lambda r: r["a"] + r["c"]), "c": ("c", lambda r: r["c"]),
             "id": ("id", lambda r: r["id"])}
    sel = "select id, a, b as y, a + c as x, c from t"
    cols = [c("id"), c("a"), ("y", lambda r: r["b"]), ("x", lambda r: r["a"] + r["c"]), c("c")]
    kk = 0
    for m in (2, 3) + ((4,) if T else ()):
        for combo in itertools.permutations(["a", "y", "x", "c", "id"] if T else ["a", "y", "x", "c"], m):
            for dirs in itertools.product((False, True), repeat=m):
                kk += 1
                if not T and m == 3 and kk % 4 != 1:
                    continue
                if T and m == 4 and kk % 7:
                    continue
                o = ", ".join(k + (" desc" if d else "") for k, d in zip(combo, dirs))
                keys = [(kinds[k][1], d) for k, d in zip(combo, dirs)]
                lim = [None, (0, 1), (0, 2), (1, 2)][kk % 4 if T else (kk // 4) % 4]
                A(order("o " + o + str(lim or ""), sel + " order by " + o + ("" if not lim else " limit %d offset %d" % (lim[1] - lim[0], lim[0])), cols, keys,
                        3 if T else 2, "", "abc", lim, lo=0, hi=1))
    for combo in itertools.permutations(["a", "b", "c"], 3):
        for dirs in itertools.product((False, True), repeat=3):
            kk += 1
            if not T and kk % 3:
                continue
            o = ", ".join(k + (" desc" if d else "") for k, d in zip(combo, dirs))
            keys = [(k, d) for k, d in zip(combo, dirs)]
            A(order("u " + o, "select id from t order by " + o, [c("id")], keys, 3 if T else 2, "", "abc", lo=0, hi=1))
            A(order("s " + o, "select * from t order by " + o + " limit 2", [c("id"), c("a"), c("b"), c("c")], keys, 3, "", "abc", (0, 2), lo=0, hi=1))
            A(order("m " + o, "select id, a + 1 as a, b, c from t z order by " + o, [c("id"), ("a", lambda r: r["a"] + 1), c("b"), c("c")], keys, 3 if T else 2, "", "abc", lo=0, hi=1))

    def grouped(name, sql, keys, cut=None):
        def fn(ctx):
            rows = table(ctx, n, "", "ab")
            out = run(sql, {"t": rows})
            exp = [{"a": k[0], "s": total([r["b"] for r in g]), "c": len(g)} for k, g in group(rows, lambda r: (r["a"],))]
            exp = order_rows(exp, *keys)
            if cut:
                exp = exp[cut[0]:cut[1]]
            ctx.check(same(out, exp), sql)
        A(H(name, fn, "%d rows" % n))
    S = "select a, sum(b) as s, count(*) as c from t group by a"
    grouped("g_key", S + " order by a", [("a", False)])
    grouped("g_keyd", S + " order by a desc limit 1", [("a", True)], (0, 1))
    grouped("g_sum", S + " order by s desc", [("s", True)])
    grouped("g_sum2", S + " order by s, a desc limit 2", [("s", False), ("a", True)], (0, 2))
    grouped("g_expr", S + " order by sum(b) desc, a", [("s", True), ("a", False)])
    grouped("g_cnt", S + " order by c desc, a limit 1 offset 1", [("c", True), ("a", False)], (1, 2))
    grouped("g_lim", S + " limit 1", [], (0, 1))

    # the name of a column given to another value: the value of the select list counts
    A(order("shadow", "select 7 - a as a, id from t order by a", [("a", lambda r: 7 - r["a"]), c("id")], [(lambda r: 7 - r["a"], False)], n, "", "a"))
    A(order("shadow2", "select b as a, a as b, id from t order by a desc, b", [("a", lambda r: r["b"]), ("b", lambda r: r["a"]), c("id")], [("b", True), ("a", False)], 3))
    A(order("shadow3", "select id, -a as a from t order by a limit 1", [c("id"), ("a", lambda r: -r["a"])], [(lambda r: -r["a"], False)], n, "", "a", (0, 1)))
    A(order("shadow4", "select x.id, -x.a as a from t x order by x.a limit 2", [c("id"), ("a", lambda r: -r["a"])], [("a", False)], n, "", "a", (0, 2)))
    A(order("shadow5", "select distinct id, 3 - b as b from t order by b desc, id", [c("id"), ("b", lambda r: 3 - r["b"])], [(lambda r: 3 - r["b"], True), ("id", False)], 3, "", "b"))
    A(order("shadow6", "select -a as a, count(*) over () as n from t order by a", [("a", lambda r: -r["a"]), ("n", lambda r: 3)], [(lambda r: -r["a"], False)], 3, "", "a"))

    def gshadow(ctx):
        rows = table(ctx, n, "", "ab")
        out = run("select -a as a, sum(b) as s from t group by a order by a", {"t": rows})
        ctx.check(same(out, order_rows([{"a": -k[0], "s": total([r["b"] for r in g])} for k, g in group(rows, lambda r: (r["a"],))], ("a", False))), "sorted by the selected value")
    A(H("gshadow", gshadow, "%d rows" % n))

    def gkey(ctx):
        rows = table(ctx, 3, "", "a")
        out = run("select a from t group by a limit 2", {"t": rows})
        ctx.check(same(out, [{"a": k[0]} for k, g in group(rows, lambda r: (r["a"],))][:2]), "LIMIT counts groups")
    A(H("gkey_limit", gkey, "3 rows"))

    def joined(name, sql, f):
        def fn(ctx):
            rows = table(ctx, 2, "", "a")
            us = [{"id": 1, "k": 1, "w": ctx.int("w0")}, {"id": 2, "k": 1, "w": ctx.int("w1")}, {"id": 3, "k": 2, "w": ctx.int("w2")}]
            out = run(sql, {"t": rows, "u": us})
            pairs = []
            for r in rows:
                m = [u for u in us if bool(u["k"] == r["a"])]
                pairs += [{"id": r["id"], "w": u["w"]} for u in m] or [{"id": r["id"], "w": None}]
            ctx.check(same(out, f(pairs)), sql)
        A(H(name, fn, "2 x 3 rows"))
    J = "select x.id, y.w from t x left join u y on x.a = y.k"
    joined("j_lim", J + " limit 2", lambda p: p[:2])
    joined("j_limoff", J + " limit 1 offset 1", lambda p: p[1:2])
    joined("j_order", J + " order by y.w desc, x.id", lambda p: order_rows(p, ("w", True), ("id", False)))
    joined("j_order_lim", J + " order by y.w, x.id limit 2", lambda p: order_rows(p, ("w", False), ("id", False))[:2])
    # composed queries
    for seed in range(3000, 3500 if T else 3080):
        sql, ref = gen.fullquery(seed, seed % 2, None)

        def comp(ctx, sql=sql, ref=ref, seed=seed):
            rows = table(ctx, 2, "b" if seed % 2 else "", "ac" if seed % 2 else "abc")
            out = run(sql.format(t="t"), {"t": rows})
            ctx.meta["out"] = out
            ctx.check(same(out, ref(rows)), sql.format(t="t"))
        hs.append(H("comp%d" % seed, comp, "2 rows, any ints%s" % (", b may be NULL" if seed % 2 else "")))
    return hs
