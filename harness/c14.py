# -*- coding: utf-8 -*-
"""LEFT, INNER, RIGHT and comma joins."""
from .lib import *


def g(env, path):
    a, c = path.split(".")
    r = env.get(a)
    return None if r is None else r[c]


def lv(f):
    """lift over the environment: names x.a ..."""
    return f


def matches(cond, env):
    return bool(tr(cond(env)))


def left(envs, alias, rows, cond, inner=False):
    out = []
    for e in envs:
        m = [dict(e, **{alias: r}) for r in rows]
        m = [x for x in m if matches(cond, x)]
        if m:
            out += m
        elif not inner:
            out.append(dict(e, **{alias: None}))
    return out


def inner(envs, alias, rows, cond):
    return left(envs, alias, rows, cond, True)


def eq(p, q):
    return lambda e: cmp3("=", g(e, p), g(e, q))


def both(*fs):
    return lambda e: and3(*[f(e) for f in fs])


def either(*fs):
    return lambda e: or3(*[f(e) for f in fs])


def c(op, p, v):
    return lambda e: cmp3(op, g(e, p) if isinstance(p, str) else p(e), v if not callable(v) else v(e))


def add(p, k):
    return lambda e: nn(lambda v: v + k, g(e, p))


def tables(ctx, nt, nu, nv=0, tnull="", unull="", tcols="ab", ucols="kw", lo=None, hi=None):
    mk = lambda p, n, cols, null: [dict([("id", i)] + [(k, (ctx.nint if k in null else ctx.int)("%s%s%d" % (p, k, i), lo, hi)) for k in cols]) for i in range(n)]
    d = {"t": mk("t", nt, tcols, tnull), "u": mk("u", nu, ucols, unull)}
    if nv:
        d["v"] = mk("v", nv, "kz", "")
    return d


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    A = hs.append

    def J(name, sql, ref, sel, where=None, nt=2, nu=2, nv=0, tnull="", unull="", post=None, kf=None, **kw):
        """ref(tables) -> envs; sel: list of (alias, path or f)"""
        def fn(ctx):
            tb = tables(ctx, nt, nu, nv, tnull, unull, **kw)
            if kf:
                kf(ctx, tb)
            out = run(sql, tb)
            ctx.meta["out"] = out
            envs = ref(tb)
            if where:
                envs = [e for e in envs if matches(where, e)]
            rows = [dict((k, g(e, f) if isinstance(f, str) else f(e)) for k, f in sel) for e in envs]
            if post:
                rows = post(rows)
            ctx.check(same(out, rows), sql)
        A(H(name, fn, "%d x %d%s rows of ints%s" % (nt, nu, " x %d" % nv if nv else "", ", NULLs in " + tnull + unull if tnull + unull else "")))

    X = lambda tb: [{"x": r} for r in tb["t"]]
    Y = lambda tb: [{"y": r} for r in tb["u"]]
    N = 3 if T else 2
    S = [("id", "x.id"), ("w", "y.w")]
    S2 = [("id", "x.id"), ("b", "x.b"), ("yid", "y.id"), ("w", "y.w")]
    K = eq("x.a", "y.k")

    def on(name, cond_sql, cond, kinds=("left", "inner", "right"), **kw):
        for kind in kinds:
            sql = "select x.id, x.b, y.id as yid, y.w from t x %s join u y on %s" % (kind, cond_sql)
            if kind == "right":
                ref = lambda tb: left(Y(tb), "x", tb["t"], cond)
            else:
                ref = lambda tb, kind=kind: left(X(tb), "y", tb["u"], cond, kind == "inner")
            J("%s_%s" % (kind, name), sql, ref, S2, **kw)

    ALL = ("left", "inner", "right")
    on("key", "x.a = y.k", K, nt=N, nu=N)
    on("key_rev", "y.k = x.a", K)
    on("key_null_l", "x.a = y.k", K, tnull="a")
    on("key_null_r", "x.a = y.k", K, unull="k")
    on("val_null", "x.a = y.k", K, tnull="b", unull="w", kinds=("left", "right"))
    on("key3", "x.a = y.k", K, ("left",), nt=2, nu=3)
    on("expr", "x.a + 1 = y.k", lambda e: cmp3("=", nn(lambda v: v + 1, g(e, "x.a")), g(e, "y.k")), ("left", "inner"))
    on("expr_rev", "y.k = x.a * 2 + x.b", lambda e: cmp3("=", nn(lambda v, w: v * 2 + w, g(e, "x.a"), g(e, "x.b")), g(e, "y.k")), ("left", "inner"))
    on("two", "x.a = y.k and x.b = y.w", both(K, eq("x.b", "y.w")))
    on("two_rev", "y.w = x.b and x.a = y.k", both(K, eq("x.b", "y.w")))
    on("two_expr", "x.a = y.k and y.w = x.b + 7", both(K, c("=", "y.w", add("x.b", 7))), ("left", "inner"))
    for op in ("=", "!=", "<", "<=", ">", ">="):
        on("rconst" + op, "x.a = y.k and y.w %s 10" % op, both(K, c(op, "y.w", 10)), ALL if op in ("=", ">") else ("left",))
        on("lconst" + op, "x.a = y.k and x.b %s 10" % op, both(K, c(op, "x.b", 10)), ALL if op in ("=", ">") else ("left",))
        on("cmp" + op, "x.a = y.k and y.w %s x.b + 7" % op, both(K, c(op, "y.w", add("x.b", 7))), ("left",))
        on("cmpr" + op, "x.a = y.k and x.b %s y.w" % op, both(K, lambda e, op=op: cmp3(op, g(e, "x.b"), g(e, "y.w"))), ("left", "right") if op == "<" else ("left",))
    on("range", "x.a = y.k and y.w > 3 and y.w < 9", both(K, c(">", "y.w", 3), c("<", "y.w", 9)), ALL)
    on("same_op", "x.a = y.k and y.w > 3 and y.w > 9", both(K, c(">", "y.w", 3), c(">", "y.w", 9)), ("left",))
    on("same_op2", "x.a = y.k and y.w != 3 and y.w != 9 and y.w != 5", both(K, c("!=", "y.w", 3), c("!=", "y.w", 9), c("!=", "y.w", 5)), ("left",))
    on("in", "x.a = y.k and y.w in (3, 5)", both(K, lambda e: in3(g(e, "y.w"), [3, 5])), ("left", "inner"))
    on("in_l", "x.a = y.k and x.b in (3, 5)", both(K, lambda e: in3(g(e, "x.b"), [3, 5])), ("left",))
    for i, (cs, f) in enumerate([("y.w in (x.b)", lambda e: cmp3("=", g(e, "y.w"), g(e, "x.b"))), ("y.w in (x.b, 3)", lambda e: in3(g(e, "y.w"), [g(e, "x.b"), 3])),
                                 ("y.w in (abs(-3))", lambda e: cmp3("=", g(e, "y.w"), 3)), ("y.w in (x.b + 1, 3)", lambda e: in3(g(e, "y.w"), [nn(lambda v: v + 1, g(e, "x.b")), 3])),
                                 ("x.b in (y.w, y.k)", lambda e: in3(g(e, "x.b"), [g(e, "y.w"), g(e, "y.k")])), ("3 in (y.w, x.b)", lambda e: in3(3, [g(e, "y.w"), g(e, "x.b")])),
                                 ("y.w not in (x.b, 3)", lambda e: not3(in3(g(e, "y.w"), [g(e, "x.b"), 3]))), ("y.w not in (3, 5)", lambda e: not3(in3(g(e, "y.w"), [3, 5]))),
                                 ("y.w + 1 in (x.b, 4)", lambda e: in3(nn(lambda v: v + 1, g(e, "y.w")), [g(e, "x.b"), 4]))]):
        on("in_cols%d" % i, "x.a = y.k and " + cs, both(K, f), ("left", "inner", "right"))
    on("between", "x.a = y.k and y.w between 3 and 9", both(K, c(">=", "y.w", 3), c("<=", "y.w", 9)), ("left",))
    on("or", "x.a = y.k and (y.w > 10 or x.b = 3)", both(K, either(c(">", "y.w", 10), c("=", "x.b", 3))), ("left",))
    on("not", "x.a = y.k and not y.w = 10", both(K, lambda e: not3(cmp3("=", g(e, "y.w"), 10))), ("left",))
    on("isnull", "x.a = y.k and y.w is null", both(K, lambda e: g(e, "y.w") is None), ("left",), unull="w")
    on("notnull", "x.a = y.k and y.w is not null", both(K, lambda e: g(e, "y.w") is not None), ("left",), unull="w")

    # every composition of further ON conditions (pushed down to the joined table, evaluated on the pair, on either side)
    from .shapes import atoms as _atoms, compose, AND, OR, NOT, P
    gp = lambda p: (lambda e: g(e, p))
    at = [P("y.w > 3", c(">", "y.w", 3)), P("y.w != 5", c("!=", "y.w", 5)), P("y.z in (1, 2)", lambda e: in3(g(e, "y.z"), [1, 2])),
          P("x.b < 4", c("<", "x.b", 4)), P("y.w > x.b", lambda e: cmp3(">", g(e, "y.w"), g(e, "x.b"))),
          P("y.z = x.b + 1", lambda e: cmp3("=", g(e, "y.z"), nn(lambda v: v + 1, g(e, "x.b")))),
          P("y.w between 2 and 6", both(c(">=", "y.w", 2), c("<=", "y.w", 6))),
          P("x.b in (1, 4)", lambda e: in3(g(e, "x.b"), [1, 4])), P("y.z <= 1", c("<=", "y.z", 1)), P("4 >= y.w", lambda e: cmp3(">=", 4, g(e, "y.w"))),
          P("x.b != y.z", lambda e: cmp3("!=", g(e, "x.b"), g(e, "y.z")))]
    n = len(at)
    combos = [(nm, p) for nm, p in compose(at, 1 if T else 0)]
    for i in range(n):                              # conjunctions of 3 to 5 conditions
        for m in (3, 4, 5):
            combos.append(("conj%d_%d" % (m, i), AND(*[at[(i + j * (1 + m % 2)) % n] for j in range(m)])))
    pair = [P("y.w > x.b", at[4].f), at[5], P("y.w < x.b + 9", lambda e: cmp3("<", g(e, "y.w"), nn(lambda v: v + 9, g(e, "x.b")))),
            P("x.b <= y.z", lambda e: cmp3("<=", g(e, "x.b"), g(e, "y.z"))), P("y.z + y.w >= x.b", lambda e: cmp3(">=", nn(lambda u, w: u + w, g(e, "y.z"), g(e, "y.w")), g(e, "x.b"))),
            P("y.z != x.a + x.b", lambda e: cmp3("!=", g(e, "y.z"), nn(lambda u, w: u + w, g(e, "x.a"), g(e, "x.b")))),
            P("x.b + y.w > 3", lambda e: cmp3(">", nn(lambda u, w: u + w, g(e, "y.w"), g(e, "x.b")), 3))]
    for i in range(len(pair)):                      # conjunctions that only the joined pair can decide
        for m in (3, 4, 5):
            combos.append(("conjp%d_%d" % (m, i), AND(*[pair[(i + j * (1 + m % 2)) % len(pair)] for j in range(m)])))
    for k, (nm, p) in enumerate(combos):
        kind = ("left", "inner", "right")[k % 3] if p.kind != "x" else "left"
        if k % 2 and not T and not nm.startswith("conj"):
            continue
        cond_sql = ["x.a = y.k and %s", "%s and x.a = y.k"][k % 2 if p.kind != "or" else 0] % p.par() if p.kind != "and" else "x.a = y.k and " + p.sql
        cond = both(K, p.f)
        on("cmp_" + nm, cond_sql, cond, (kind,), nt=1, nu=1 if kind != "right" else 1, ucols="kwz")

    # WHERE after the join
    def wh(name, kind, where_sql, where, **kw):
        sql = "select x.id, x.b, y.id as yid, y.w from t x %s join u y on x.a = y.k where %s" % (kind, where_sql)
        ref = (lambda tb: left(Y(tb), "x", tb["t"], K)) if kind == "right" else (lambda tb: left(X(tb), "y", tb["u"], K, kind == "inner"))
        J("where_%s_%s" % (kind, name), sql, ref, S2, where, **kw)
    for kind in ("left", "inner", "right"):
        wh("l", kind, "x.b > 3", c(">", "x.b", 3))
        wh("r", kind, "y.w > 3", c(">", "y.w", 3))
        wh("lr", kind, "y.w > 3 and x.b < 5", both(c(">", "y.w", 3), c("<", "x.b", 5)))
        wh("or", kind, "y.w > 3 or x.b < 5", either(c(">", "y.w", 3), c("<", "x.b", 5)))
        wh("cmp", kind, "y.w > x.b", lambda e: cmp3(">", g(e, "y.w"), g(e, "x.b")))
        wh("sum", kind, "y.w + x.b = 9", lambda e: cmp3("=", nn(lambda p, q: p + q, g(e, "y.w"), g(e, "x.b")), 9))
        wh("isnull", kind, "y.w is null", lambda e: g(e, "y.w") is None)
        wh("isnull_l", kind, "x.b is null", lambda e: g(e, "x.b") is None)
        wh("notnull", kind, "y.id is not null and x.id is not null", lambda e: g(e, "y.id") is not None and g(e, "x.id") is not None)
        wh("in", kind, "y.w in (3, 5)", lambda e: in3(g(e, "y.w"), [3, 5]))
        wh("btw", kind, "y.w between 3 and 5", both(c(">=", "y.w", 3), c("<=", "y.w", 5)))

    wat = [P("x.b > 3", c(">", "x.b", 3)), P("y.w = 5", c("=", "y.w", 5)), P("y.w < 7", c("<", "y.w", 7)), P("x.b != 4", c("!=", "x.b", 4)),
           P("y.w in (2, 5)", lambda e: in3(g(e, "y.w"), [2, 5])), P("y.id is null", lambda e: g(e, "y.id") is None), P("y.w >= x.b", lambda e: cmp3(">=", g(e, "y.w"), g(e, "x.b"))),
           P("x.b in (1, 4)", lambda e: in3(g(e, "x.b"), [1, 4])), P("y.id is not null", lambda e: g(e, "y.id") is not None),
           P("3 <= x.b", c(">=", "x.b", 3)), P("ifnull(y.w, 6) > 5", lambda e: cmp3(">", 6 if g(e, "y.w") is None else g(e, "y.w"), 5))]
    for k, (nm, p) in enumerate(compose(wat, 1 if T else 0)):
        if k % 2 and not T:
            continue
        wh("cmp_" + nm, ("left", "inner", "right")[k % 3], p.sql, p.f, nt=1, nu=1)

    # calculated columns over both sides
    def calc(name, e_sql, f, kind="left", **kw):
        sql = "select x.id, %s as v from t x %s join u y on x.a = y.k" % (e_sql, kind)
        J("calc_" + name, sql, lambda tb: left(X(tb), "y", tb["u"], K, kind == "inner"), [("id", "x.id"), ("v", f)], **kw)
    calc("sum", "x.b + y.w", lambda e: nn(lambda p, q: p + q, g(e, "x.b"), g(e, "y.w")))
    calc("ifnull", "ifnull(y.w, x.b)", lambda e: g(e, "x.b") if g(e, "y.w") is None else g(e, "y.w"))
    calc("if", "if(y.w > x.b, 1, 0)", lambda e: tf(bool(tr(cmp3(">", g(e, "y.w"), g(e, "x.b"))))))
    calc("case", "case when y.id is null then 0 - 1 else y.w end", lambda e: -1 if g(e, "y.id") is None else g(e, "y.w"))
    calc("neg", "0 - y.w", lambda e: nn(lambda p: 0 - p, g(e, "y.w")), "inner")

    # aggregates over joins
    def agg(name, sql, f, envf, **kw):
        def fn(ctx):
            tb = tables(ctx, 2, 2, **kw)
            out = run(sql, tb)
            ctx.meta["out"] = out
            ctx.check(same(out, f(envf(tb))), sql)
        A(H("agg_" + name, fn, "2 x 2 rows"))
    LJ = lambda tb: left(X(tb), "y", tb["u"], K)
    IJ = lambda tb: inner(X(tb), "y", tb["u"], K)

    def grp(key, **aggs):
        def f(envs):
            return [dict([(key[0], k[0])] + [(n, a(gr)) for n, a in aggs.items()]) for k, gr in group(envs, lambda e: (g(e, key[1]),))]
        return f
    nw = lambda e: notnull(e, lambda z: g(z, "y.w"))
    agg("cnt", "select x.id, count(*) as c, sum(y.w) as s from t x left join u y on x.a = y.k group by x.id",
        grp(("id", "x.id"), c=len, s=lambda e: total(nw(e))), LJ)
    agg("cntw", "select x.id, count(y.w) as c from t x left join u y on x.a = y.k group by x.id", grp(("id", "x.id"), c=lambda e: len(nw(e))), LJ)
    agg("right", "select y.w, sum(x.b) as s from t x inner join u y on x.a = y.k group by y.w",
        grp(("w", "y.w"), s=lambda e: total(notnull(e, lambda z: g(z, "x.b")))), IJ)
    agg("mix", "select x.b, max(x.a + y.w) as m from t x inner join u y on x.a = y.k group by x.b",
        grp(("b", "x.b"), m=lambda e: maxof([g(z, "x.a") + g(z, "y.w") for z in e])), IJ)
    agg("having", "select x.id, count(y.w) as c from t x inner join u y on x.a = y.k group by x.id having c > 1",
        lambda envs: [r for r in grp(("id", "x.id"), c=len)(envs) if r["c"] > 1], IJ)

    def tot(ctx):
        tb = tables(ctx, 2, 2)
        out = run("select sum(x.b * 2 + y.w) as s, count(y.id) as c from t x inner join u y on x.a = y.k", tb)
        es = IJ(tb)
        ctx.check(same(out, [{"s": total([g(e, "x.b") * 2 + g(e, "y.w") for e in es]), "c": len(es)}] if es else []), "total over a join")
    A(H("agg_total", tot, "2 x 2 rows"))

    # chains
    C3 = [("id", "x.id"), ("w", "y.w"), ("z", "c.z")]
    CK = eq("c.k", "y.w")

    def chain(name, sql, ref, sel=C3, **kw):
        J("chain_" + name, "select x.id, y.w, c.z from t x " + sql, ref, sel, nv=2, **kw)
    if T:
        kw = dict(nt=2, nu=2)
    else:
        kw = dict(nt=1, nu=2)
    chain("ll", "left join u y on x.a = y.k left join v c on c.k = y.w", lambda tb: left(left(X(tb), "y", tb["u"], K), "c", tb["v"], CK), **kw)
    chain("ii", "inner join u y on x.a = y.k inner join v c on c.k = y.w", lambda tb: inner(inner(X(tb), "y", tb["u"], K), "c", tb["v"], CK), **kw)
    chain("li", "left join u y on x.a = y.k inner join v c on c.k = y.w", lambda tb: inner(left(X(tb), "y", tb["u"], K), "c", tb["v"], CK), **kw)
    chain("il", "inner join u y on x.a = y.k left join v c on c.k = y.w", lambda tb: left(inner(X(tb), "y", tb["u"], K), "c", tb["v"], CK), **kw)
    chain("rr", "right join u y on x.a = y.k right join v c on c.k = y.w",
          lambda tb: left(left([{"c": r} for r in tb["v"]], "y", tb["u"], CK), "x", tb["t"], K), **dict(kw))
    chain("where", "left join u y on x.a = y.k left join v c on c.k = y.w where c.z > 3 or x.b = 1",
          lambda tb: left(left(X(tb), "y", tb["u"], K), "c", tb["v"], CK), where=either(c(">", "c.z", 3), c("=", "x.b", 1)), **kw)
    chain("on", "left join u y on x.a = y.k and y.w > 3 left join v c on c.k = y.w and c.z < 5",
          lambda tb: left(left(X(tb), "y", tb["u"], both(K, c(">", "y.w", 3))), "c", tb["v"], both(CK, c("<", "c.z", 5))), **kw)

    # siblings: both joined to the first table, one match each
    def sib(name, kinds):
        def fn(ctx):
            tb = tables(ctx, 2, 1, 1)
            sql = "select x.id, y.w, c.z from t x %s join u y on y.k = x.a %s join v c on c.k = x.b" % kinds
            out = run(sql, tb)
            ctx.meta["out"] = out
            envs = left(left(X(tb), "y", tb["u"], K, kinds[0] == "inner"), "c", tb["v"], eq("c.k", "x.b"), kinds[1] == "inner")
            ctx.check(same(out, [dict((k, g(e, f)) for k, f in C3) for e in envs]), sql)
        A(H("sib_" + name, fn, "2 x 1 x 1 rows"))
    for i in ("left", "inner"):
        for j in ("left", "inner"):
            sib(i + j, (i, j))

    # comma join: a filtered cross product
    def comma(name, where_sql, where, **kw):
        J("comma_" + name, "select x.id, x.b, y.id as yid, y.w from t x, u y where " + where_sql,
          lambda tb: [{"x": r, "y": s} for r in tb["t"] for s in tb["u"]], S2, where, **kw)
    comma("key", "x.a = y.k", K)
    comma("key_rev", "y.k = x.a", K)
    comma("key_c", "x.a = y.k and y.w > 10", both(K, c(">", "y.w", 10)))
    comma("key_l", "x.a = y.k and x.b > 10", both(K, c(">", "x.b", 10)))
    comma("two", "x.a = y.k and x.b = y.w", both(K, eq("x.b", "y.w")))
    comma("cmp", "x.a = y.k and x.b < y.w", both(K, lambda e: cmp3("<", g(e, "x.b"), g(e, "y.w"))))
    comma("or", "x.a = y.k and (y.w = 10 or x.b = 5)", both(K, either(c("=", "y.w", 10), c("=", "x.b", 5))))
    J("cross", "select x.id, y.w from t x cross join u y", lambda tb: [{"x": r, "y": s} for r in tb["t"] for s in tb["u"]], S)
    J("comma3", "select x.id, y.w, c.z from t x, u y, v c where x.a = y.k and c.k = y.w",
      lambda tb: inner(inner(X(tb), "y", tb["u"], K), "c", tb["v"], CK), C3, nt=1, nu=2, nv=2)

    # self join, join with a subquery, order and limit
    def self_(ctx):
        tb = {"t": table(ctx, 3, "", "ab")}
        sql = "select x.id, y.id as yid from t x left join t y on y.a = x.b"
        out = run(sql, tb)
        envs = left(X(tb), "y", tb["t"], eq("y.a", "x.b"))
        ctx.check(same(out, [{"id": g(e, "x.id"), "yid": g(e, "y.id")} for e in envs]), sql)
    A(H("self", self_, "3 rows"))

    def sub(kind):
        def fn(ctx):
            tb = tables(ctx, 2, 2)
            sql = "select x.id, z.s from t x %s join (select k, sum(w) as s from u group by k) z on z.k = x.a" % kind
            out = run(sql, tb)
            zs = [{"k": k[0], "s": total([r["w"] for r in gr])} for k, gr in group(tb["u"], lambda r: (r["k"],))]
            envs = left(X(tb), "z", zs, eq("z.k", "x.a"), kind == "inner")
            ctx.check(same(out, [{"id": g(e, "x.id"), "s": g(e, "z.s")} for e in envs]), sql)
        A(H("sub_" + kind, fn, "2 x 2 rows"))
    sub("left")
    sub("inner")

    def subp(ctx):
        tb = tables(ctx, 2, 2)
        sql = "select z.id, y.w from (select id, a + 1 as a1 from t where b > 3) z left join u y on z.a1 = y.k"
        out = run(sql, tb)
        zs = [{"id": r["id"], "a1": r["a"] + 1} for r in tb["t"] if bool(r["b"] > 3)]
        envs = left([{"z": r} for r in zs], "y", tb["u"], eq("z.a1", "y.k"))
        ctx.check(same(out, [{"id": g(e, "z.id"), "w": g(e, "y.w")} for e in envs]), sql)
    A(H("sub_primary", subp, "2 x 2 rows"))

    def ordered(ctx):
        tb = tables(ctx, 2, 2)
        sql = "select x.id, y.w from t x left join u y on x.a = y.k order by y.w desc, x.id limit 2"
        out = run(sql, tb)
        rows = [{"id": g(e, "x.id"), "w": g(e, "y.w")} for e in LJ(tb)]
        ctx.check(same(out, order_rows(rows, ("w", True), ("id", False))[:2]), sql)
    A(H("ordered", ordered, "2 x 2 rows"))

    def strs(ctx):
        t = [{"id": i, "s": ctx.str("ts%d" % i, 1)} for i in range(2)]
        u = [{"id": i, "s": ctx.str("us%d" % i, 1), "w": ctx.int("w%d" % i)} for i in range(2)]
        tb = {"t": t, "u": u}
        sql = "select x.id, y.w from t x left join u y on x.s = y.s"
        out = run(sql, tb)
        envs = left(X(tb), "y", u, eq("x.s", "y.s"))
        ctx.check(same(out, [{"id": g(e, "x.id"), "w": g(e, "y.w")} for e in envs]), sql)
    A(H("strkey", strs, "2 x 2 rows, string keys"))

    # NULL never equals NULL
    def kf_null(ctx, tb):
        if any(r["a"] is None for r in tb["t"]) and any(r["k"] is None for r in tb["u"]):
            ctx.exclude("KF1", True)
    on("key_null_both", "x.a = y.k", K, ("left",), tnull="a", unull="k", kf=kf_null)

    # a joined table that the select list does not mention
    def kf_unref(ctx, tb):
        for r in tb["t"]:
            n = [bool(r["a"] == q["k"]) for q in tb["u"]]
            if n.count(True) > 1:
                ctx.exclude("KF2", True)
    J("unref", "select x.id from t x left join u y on x.a = y.k", LJ, [("id", "x.id")], kf=kf_unref)
    J("unref_inner", "select x.id from t x inner join u y on x.a = y.k", IJ, [("id", "x.id")], kf=kf_unref)
    return hs
