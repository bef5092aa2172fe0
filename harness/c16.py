# -*- coding: utf-8 -*-
"""INSERT and its update types."""
from .lib import *


def keq(r, s, pk):
    return bool(same(r[pk], s[pk]))


def apply(mode, o, rows, pk="id", scope=None):
    """the rows of the target after inserting rows (in order)"""
    if mode == "I":
        return o + rows
    inside = [r for r in o if mode in ("U", "UI") or scope is None or is_true(scope(r))]
    if mode == "DI":
        return [r for r in o if not any(r is x for x in inside)] + rows
    new, ups = [], []
    for s in rows:
        m = [r for r in inside if pk in r and keq(r, s, pk)]
        ups.append((m, s))
        if not m:
            new.append(s)
    res = []
    for r in o:
        n, hit = dict(r), False
        for m, s in ups:
            if any(r is x for x in m):
                n.update(s)
                hit = True
        if mode == "UDI" and any(r is x for x in inside) and not hit:
            continue
        res.append(n)
    return res + (new if mode in ("UI", "UDI") else [])


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    MODES = ("I", "U", "UI", "UDI", "DI")

    def data(ctx, nt, no, nulls="", pk="id", lo=None, hi=None):
        o = [dict(id=ctx.int("oid%d" % i, lo, hi), a=ctx.int("oa%d" % i), c=10 + i) for i in range(no)]
        t = [dict(id=ctx.int("id%d" % i, lo, hi), a=ctx.nint("a%d" % i) if "a" in nulls else ctx.int("a%d" % i), b=ctx.int("b%d" % i)) for i in range(nt)]
        for rows, k in ((o, pk), (t, "id")):                      # keys are unique in a table
            for i in range(len(rows) if k in ("id", "a") else 0):
                for j in range(i):
                    ctx.assume(rows[i][k] != rows[j][k])
        return t, o

    def Q(sql, ref, modes=MODES, pk="id", scope=None, nt=2, no=2, nulls="", uniq=True, pre="", **kw):
        """insert into o<mode> <sql>; ref(t) -> inserted rows"""
        for mode in modes:
            def fn(ctx, mode=mode):
                t, o = data(ctx, nt, no, nulls, pk)
                rows = ref(t)
                if uniq:
                    for i in range(len(rows)):
                        for j in range(i):
                            ctx.assume(neg(same(rows[i][pk], rows[j][pk])))
                with Engine() as e:
                    e.load("t", t)
                    if no:
                        e.load("o", o)
                    e.execute(pre + ("insert into %s %s" % ("o" if mode == "-" else "`o<%s>`" % mode, sql)))
                    out = e.pop("o")
                    src = e.get("t")
                ctx.meta["out"] = out
                m = kw.get("mode", mode)
                ctx.check(same(out, apply("I" if m == "-" else m, o, rows, pk, scope)), "contents after the insert")
                ctx.check(same(src, t), "the source is unchanged")
            hs.append(H(pre + mode + " " + sql[:140] + ("|%d,%d" % (nt, no) if (nt, no) != (2, 2) else ""), fn, "%d new and %d existing rows, any int keys and values" % (nt, no)))

    W = lambda t, f: [r for r in t if is_true(f(r))]
    P = lambda rows, names, *cols: [dict(zip(names.split(), [c(r) if callable(c) else r[c] for c in cols])) for r in rows]
    big = ("U", "UI", "UDI", "DI")
    Q("select id, a from t", lambda t: P(t, "id a", "id", "a"), ("-",) + MODES, nulls="a")
    Q("select id, a from t", lambda t: P(t, "id a", "id", "a"), no=0)
    Q("select id, a from t", lambda t: P(t, "id a", "id", "a"), big, nt=1, no=3 if T else 2)
    if T:
        Q("select id, a from t", lambda t: P(t, "id a", "id", "a"), big, nt=3, no=2)
    Q("select * from t", lambda t: t, ("I", "DI"))
    Q("select id, a + b as a from t", lambda t: P(t, "id a", "id", lambda r: r["a"] + r["b"]))
    Q("select id, a, 5 as c from t", lambda t: P(t, "id a c", "id", "a", lambda r: 5))
    Q("select id, b as a from t", lambda t: P(t, "id a", "id", "b"))
    Q("select 5 as c, id, a from t", lambda t: P(t, "c id a", lambda r: 5, "id", "a"))
    Q("select 3 + 4 as id, a from t where b > 3", lambda t: P(W(t, lambda r: r["b"] > 3), "id a", lambda r: 7, "a"), ("I", "U", "UI"), nt=1)
    Q("select abs(-4) as id, a from t", lambda t: P(t, "id a", lambda r: 4, "a"), ("I", "U", "UI"), nt=1)
    Q("select y.id + 1 as id, x.a from t x join t y on x.a = y.id", lambda t: [{"id": r["id"] + 1, "a": x["a"]} for x in t for r in t if is_true(x["a"] == r["id"])], ("U",))
    Q("select b as a, id from t", lambda t: P(t, "a id", "b", "id"), ("I", "U", "UI", "UDI"), pk="a")
    # the rows of the table replaced by DI and UDI are those that satisfy the conditions of the SELECT
    for cond, f in (("id > 3", lambda r: r["id"] > 3), ("id >= 3 and id < 9", lambda r: and3(r["id"] >= 3, r["id"] < 9)), ("id = 3", lambda r: r["id"] == 3),
                    ("id in (3, 5)", lambda r: in3(r["id"], [3, 5])), ("id != 3", lambda r: r["id"] != 3), ("a > 3", lambda r: r["a"] > 3), ("id > 3 and a <= 7", lambda r: and3(r["id"] > 3, r["a"] <= 7))):
        Q("select id, a from t where " + cond, lambda t, f=f: P(W(t, f), "id a", "id", "a"), scope=f)
    Q("select id, b as a from t where b > 3", lambda t: P(W(t, lambda r: r["b"] > 3), "id a", "id", "b"), scope=lambda r: r["a"] > 3)
    Q("select id, a from t where a + b > 3", lambda t: P(W(t, lambda r: r["a"] + r["b"] > 3), "id a", "id", "a"), ("I", "U", "UI"))
    Q("select id, a from t where a > 3 or b > 3", lambda t: P(W(t, lambda r: or3(r["a"] > 3, r["b"] > 3)), "id a", "id", "a"), ("I", "U", "UI"))
    Q("select id, a from t order by a desc", lambda t: P(order_rows(t, ("a", True)), "id a", "id", "a"))
    Q("select id, a from t order by a limit 1", lambda t: P(order_rows(t, ("a", False))[:1], "id a", "id", "a"), ("I", "U", "UI"))
    Q("select a, max(b) as b from t group by a", lambda t: [{"a": k[0], "b": maxof([r["b"] for r in g])} for k, g in group(t, lambda r: (r["a"],))], pk="a")
    Q("select id, a, row_number() over (order by a) as c from t", lambda t: [dict(id=r["id"], a=r["a"], c=1 + len([x for j, x in enumerate(t) if (is_true(x["a"] < r["a"]) or (j < i and is_true(x["a"] == r["a"])))])) for i, r in enumerate(t)], ("I", "UI"))
    Q("select x.id, y.b as a from t x join t y on x.a = y.id", lambda t: [{"id": r["id"], "a": ([z["b"] for z in t if is_true(z["id"] == r["a"])] or [None])[0]} for r in t])
    Q("select d.id, d.a from (select id, a + 1 as a from t where b > 3) d", lambda t: P(W(t, lambda r: r["b"] > 3), "id a", "id", lambda r: r["a"] + 1))
    Q("with d as (select id, a from t where b > 3) select id, a from d", lambda t: P(W(t, lambda r: r["b"] > 3), "id a", "id", "a"))
    Q("select id, a from t union all select b as id, a from t", lambda t: P(t, "id a", "id", "a") + P(t, "id a", "b", "a"))
    Q("select id, a from t where a > 3 union select b, a from t where a <= 3", lambda t: P(W(t, lambda r: r["a"] > 3), "id a", "id", "a") + P(W(t, lambda r: r["a"] <= 3), "id a", "b", "a"))
    # column lists
    Q("(id, a) select id, a from t", lambda t: P(t, "id a", "id", "a"))
    Q("(id, a) select id, b from t", lambda t: P(t, "id a", "id", "b"), ("-", "U", "UI"))
    Q("(a, id) select id, b from t", lambda t: P(t, "a id", "id", "b"), ("-", "I"))
    Q("(id, a) select b, a + 1 from t where a > 3", lambda t: P(W(t, lambda r: r["a"] > 3), "id a", "b", lambda r: r["a"] + 1), ("-", "U", "UI"))
    Q("(b, a) select a, sum(b) from t group by a", lambda t: [{"b": k[0], "a": total([r["b"] for r in g])} for k, g in group(t, lambda r: (r["a"],))], ("-",), pk="b")
    Q("(id, c) select id, a from t union all select b, id from t", lambda t: P(t, "id c", "id", "a") + P(t, "id c", "b", "id"), ("-", "UI"))
    Q("(id, c) select id, a from t order by a desc limit 1", lambda t: P(order_rows(t, ("a", True))[:1], "id c", "id", "a"), ("-", "UI"))
    Q("(id, c) with d as (select id, a from t where b > 3) select id, a from d", lambda t: P(W(t, lambda r: r["b"] > 3), "id c", "id", "a"), ("-", "UI"))

    # the update type of the session applies where the table names none
    for v, m in (("INSERT", "I"), ("UPDATE", "U"), ("UPDATE_INSERT", "UI"), ("UPDATE_DELETE_INSERT", "UDI"), ("DELETE_INSERT", "DI"), ("update_insert", "UI"), ("UI", "UI")):
        Q("select id, a from t where id > 3", lambda t: P(W(t, lambda r: r["id"] > 3), "id a", "id", "a"), ("-",), pre="set @use_output_type='%s'; " % v, mode=m, scope=lambda r: r["id"] > 3)
    Q("select id, a from t", lambda t: P(t, "id a", "id", "a"), ("U",), pre="set @use_output_type='DELETE_INSERT'; ")

    # VALUES with any values
    KINDS = ("int", "null", "text", "bool", "float")

    def V(ctx, name, kinds):
        k = ctx.choice(name + "kind", kinds)
        return {"int": lambda: ctx.int(name), "null": lambda: None, "text": lambda: ctx.str(name, 2), "bool": lambda: ctx.bool(name), "float": lambda: ctx.choice(name, (1.5, -0.25, 1e20))}[k]()

    def vfn(ctx, mode=None, lit=False):
        o = [dict(id=ctx.int("oid0"), a=ctx.int("oa0"), c=7)]
        vs = [(ctx.int("k0"), V(ctx, "v0", KINDS)), (ctx.int("k1"), V(ctx, "v1", KINDS))]
        ctx.assume(vs[0][0] != vs[1][0])
        with Engine() as e:
            e.load("o", o)
            for i, (k, v) in enumerate(vs):
                e.e.set_variable("k%d" % i, k)
                e.e.set_variable("v%d" % i, v)
            e.execute("insert into %s (id, a) values (@k0, @v0), (@k1, @v1)" % ("`o<%s>`" % mode if mode else "o"))
            out = e.pop("o")
        ctx.meta["out"] = out
        exp = apply(mode or "I", o, [{"id": k, "a": v} for k, v in vs])
        ctx.check(same(out, exp), "the values are stored as given")
        for r, x in zip(out, exp):
            ctx.check((r.get("a") is None) == (x.get("a") is None) and isinstance(r.get("a"), str) == isinstance(x.get("a"), str), "type")
    for mode in (None,) + MODES:
        hs.append(H("values %s" % mode, lambda ctx, mode=mode: vfn(ctx, mode), "two rows of variables: any int, NULL, any text of 2 characters, booleans, floats"))

    LITS = (("1", 1), ("-2", -2), ("1.5", 1.5), ("-2.5", -2.5), ("null", None), ("'a'", "a"), ("'7'", "7"), ("true", True), ("false", False), ("''", ""), ("0", 0), ("1e3", 1000.0), ("0x1F", 31), ("'é'", "é"))

    def lfn(ctx):
        x, y = ctx.choice("x", LITS), ctx.choice("y", LITS)
        k = ctx.int("k")
        with Engine() as e:
            e.e.set_variable("k", k)
            e.execute("insert into o (k, a, id) values (@k, %s, 1), (2, %s, @k)" % (x[0], y[0]))
            out = e.pop("o")
        ctx.meta["out"] = out
        exp = [{"k": k, "a": x[1], "id": 1}, {"k": 2, "a": y[1], "id": k}]
        ctx.check(same(out, exp), "literals are stored as written")
        for r, e_ in zip(out, exp):
            ctx.check(type(r["a"]) is type(e_["a"]), "type")
    hs.append(H("values of literals", lfn, "every pair of %d literals" % len(LITS)))

    # sequences of statements on one table
    def seq(ctx, steps, nt=2):
        t, o = data(ctx, nt, 1, lo=1, hi=99)
        cur = list(o)
        with Engine() as e:
            e.load("t", t)
            e.load("o", o)
            for mode, sql, f, scope in steps:
                e.execute("insert into `o<%s>` %s" % (mode, sql))
                cur = apply(mode, cur, f(t), "id", scope)
            out = e.pop("o")
        ctx.meta["out"] = out
        ctx.check(same(out, cur), "contents after the statements")
    A = ("select id, a from t", lambda t: P(t, "id a", "id", "a"), None)
    B = ("select id, b as a from t where id > 3", lambda t: P(W(t, lambda r: r["id"] > 3), "id a", "id", "b"), lambda r: r["id"] > 3)
    C = ("select id + 100 as id, a from t", lambda t: P(t, "id a", lambda r: r["id"] + 100, "a"), None)
    for m in big:
        for steps in ([("UI",) + A, (m,) + B], [("DI",) + A, (m,) + B], [("DI",) + B, (m,) + A], [("UI",) + A, ("I",) + C, (m,) + B]):
            hs.append(H("sequence %s" % " ".join("%s:%s" % x[:2] for x in steps), lambda ctx, steps=steps: seq(ctx, steps), "2 new rows, 1 existing row"))
    return hs
