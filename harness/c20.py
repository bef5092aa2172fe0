# -*- coding: utf-8 -*-
"""window functions."""
import itertools
import re

from .lib import *


def peers(p, keys):
    """ranks along a sorted partition: list of (row, first index of its peers, number of distinct values before)"""
    out, first, dense = [], 0, 0
    for i, r in enumerate(p):
        if i:
            f = lambda k, q: k[0](q) if callable(k[0]) else q[k[0]]
            if not bool(conj([nulleq(f(k, r), f(k, p[i - 1])) for k in keys])):
                first, dense = i, dense + 1
        out.append((first, dense))
    return out


V = "v"
CTX = [None]
nz = lambda vs: notnull(vs, V)
FUNCS = {
    "row_number()": lambda p, i, ks: i + 1,
    "rank()": lambda p, i, ks: peers(p[:i + 1], ks)[i][0] + 1,
    "dense_rank()": lambda p, i, ks: peers(p[:i + 1], ks)[i][1] + 1,
    "lag(v)": lambda p, i, ks: p[i - 1][V] if i >= 1 else None,
    "lag(v, 2)": lambda p, i, ks: p[i - 2][V] if i >= 2 else None,
    "lag(v, 1, -7)": lambda p, i, ks: p[i - 1][V] if i >= 1 else -7,
    "lag(v, 0)": lambda p, i, ks: p[i][V],
    "lead(v)": lambda p, i, ks: p[i + 1][V] if i + 1 < len(p) else None,
    "lead(v, 2)": lambda p, i, ks: p[i + 2][V] if i + 2 < len(p) else None,
    "lead(v, 2, v)": lambda p, i, ks: p[i + 2][V] if i + 2 < len(p) else p[i][V],
    "lead(v + id)": lambda p, i, ks: nn(lambda x: x + p[i + 1]["id"], p[i + 1][V]) if i + 1 < len(p) else None,
    "first_value(v)": lambda p, i, ks: p[0][V],
    "last_value(v)": lambda p, i, ks: p[-1][V],
    "nth_value(v, 1)": lambda p, i, ks: p[0][V],
    "nth_value(v, 2)": lambda p, i, ks: p[1][V] if len(p) > 1 else None,
    "nth_value(v, 3)": lambda p, i, ks: p[2][V] if len(p) > 2 else None,
    "ntile(1)": lambda p, i, ks: 1,
    "ntile(2)": lambda p, i, ks: ntile(len(p), 2, i),
    "ntile(3)": lambda p, i, ks: ntile(len(p), 3, i),
    "ntile(4)": lambda p, i, ks: ntile(len(p), 4, i),
}
AGG = {     # of the rows of the frame
    "count(*)": lambda f: len(f),
    "count(v)": lambda f: len(nz(f)),
    "sum(v)": lambda f: total(nz(f)),
    "avg(v)": lambda f: avgof(nz(f)),
    "min(v)": lambda f: minof(nz(f)),
    "max(v)": lambda f: maxof(nz(f)),
    "sum(v + id)": lambda f: total([r[V] + r["id"] for r in f if r[V] is not None]),
    "count(distinct v)": lambda f: len(distinct(nz(f))),
}


def ntile(n, k, i):
    """the first n mod k buckets hold one row more"""
    q, r = n // k, n % k
    return i // (q + 1) + 1 if i < r * (q + 1) else r + (i - r * (q + 1)) // q + 1


g = lambda k: (lambda r: r[k])
PART = {"": lambda r: (), "partition by a": lambda r: (r["a"],), "partition by a, c": lambda r: (r["a"], r["c"]),
        "partition by a + c": lambda r: (r["a"] + r["c"],)}
ORD = {"": [], "order by b": [("b", False)], "order by b desc": [("b", True)], "order by b, c": [("b", False), ("c", False)],
       "order by b desc, c desc": [("b", True), ("c", True)], "order by b, c desc": [("b", False), ("c", True)],
       "order by b desc, c": [("b", True), ("c", False)], "order by b + c": [(lambda r: r["b"] + r["c"], False)],
       "order by id desc": [("id", True)]}


def over(part, order):
    return "over (%s)" % " ".join(x for x in (part, order) if x)


def values(f, part, order, rows):
    """id -> value of the window function"""
    out = {}
    pf, ks = PART[part], ORD[order]
    for _, p in group(rows, pf):
        p = order_rows(p, *ks)
        known(f, p, ks)
        for i, r in enumerate(p):
            if f in FUNCS:
                out[r["id"]] = FUNCS[f](p, i, ks)
            else:
                out[r["id"]] = AGG[f](p[:i + 1] if order else p)
    return out


def known(f, p, ks):
    """the listed findings: ranks of tied rows, and ntile over a partition that does not divide evenly"""
    if f in ("rank()", "dense_rank()"):
        n, first = 0, None
        for i, (a, d) in enumerate(peers(p, ks)):
            n += a != 0
            CTX[0].exclude("KF3", (a if f == "rank()" else d) != n)
    elif f[:5] == "ntile":
        k = int(f[6:-1])
        CTX[0].exclude("KF4", any(int(i / (len(p) / k)) + 1 != ntile(len(p), k, i) for i in range(len(p))))


def need(part, order):
    return "".join(sorted(set(re.findall(r"\b[abc]\b", part + " " + order))))


def win(name, fs, part, order, n, nul="", lo=0, hi=1, vnull=False, vlo=None, vhi=None):
    """window functions over the same window, one result column each"""
    fs = [fs] if type(fs) is str else fs
    uses = any("v" in f.replace("value", "").replace("avg(", "") for f in fs) or "avg(v)" in fs

    def fn(ctx):
        CTX[0] = ctx
        cols = need(part, order)
        rows = table(ctx, n, "".join(x for x in cols if x in nul), "".join(x for x in cols if x not in nul), lo, hi)
        for i, r in enumerate(rows):
            for x in "abc":
                r.setdefault(x, 0)
            r[V] = (ctx.nint if vnull else ctx.int)("v%d" % i, vlo, vhi) if uses else 0
        out = run("select id, %s from t" % ", ".join("%s %s as x%d" % (f, over(part, order), i) for i, f in enumerate(fs)), {"t": rows})
        ctx.meta["out"] = out
        e = [values(f, part, order, rows) for f in fs]
        ctx.check(same(out, [dict([("id", r["id"])] + [("x%d" % i, x[r["id"]]) for i, x in enumerate(e)]) for r in rows]), name)
    return H(name, fn, "%d rows; keys in [%s,%s]%s, values any int%s" % (n, lo, hi, " or NULL" if nul else "", " or NULL" if vnull else ""))


def harnesses(tier):
    T = tier == "thorough"
    n = 4 if T else 3
    hs = []
    A = hs.append
    ROWNUM = "row_number()"
    fs = list(FUNCS)
    groups = [fs[i::4] for i in range(4)] + [list(AGG)[i::2] for i in range(2)]
    ok = lambda f, order: order or f == ROWNUM or f in AGG
    k = 0
    for part in PART:
        for order in ORD:
            two = "," in part or "," in order or "+" in order
            for i, g in enumerate(groups):
                g = [f for f in g if ok(f, order)]
                if g and (T or not two or (i + k // 28) % 3 == 0):
                    A(win("all%d %s" % (i, over(part, order)), g, part, order, 3 if two else n))
            for f in list(FUNCS) + list(AGG):
                k += 1
                if ok(f, order) and (T or k % 11 == 0):
                    A(win("%s %s" % (f, over(part, order)), f, part, order, 3 if two else n))
    A(win("ties rank()", "rank()", "", "order by b", 3))
    A(win("ties dense_rank()", "dense_rank()", "", "order by b", 3))
    A(win("uneven ntile(4)", ["ntile(4)", "count(*)"], "partition by a", "order by id desc", 3))
    # NULL keys, NULL values, wide keys
    for i, g in enumerate(groups):
        for part, order, nul, hi in (("partition by a", "order by id desc", "a", 2), ("", "order by b", "b", 2), ("", "order by b desc", "b", 2),
                                     ("", "order by b, c desc", "bc", 1), ("partition by a", "", "a", 2)):
            h = [f for f in g if ok(f, order)]
            if h:
                A(win("null%d %s" % (i, over(part, order)), h, part, order, 2 if i > 3 and nul == 'bc' and not T else 3, nul, hi=hi))
        for part, order in (("partition by a", "order by id desc"), ("", "order by b"), ("", "")):
            h = [f for f in g if ok(f, order) and "v" in f.replace("value", "")]
            if h:
                A(win("nullv%d %s" % (i, over(part, order)), h, part, order, 3, vnull=True))
        for part, order in (("", "order by b"), ("", "order by b desc"), ("partition by a", "order by id desc")):
            A(win("wide%d %s" % (i, over(part, order)), g, part, order, n, lo=None, hi=None))

    # the share of the partition at or before a row
    def dist(name, exp):
        def fn(ctx):
            n = ctx.choice("n", (0, 1, 2))
            rows = table(ctx, n, "", "b", 0, 3)
            ctx.exclude("KF5", n > (name == "percent_rank()"))
            out = run("select id, %s over (order by b) as x from t" % name, {"t": rows})
            p = order_rows(rows, ("b", False))
            e = dict((r["id"], x) for r, x in zip(p, exp(p)))
            ctx.check(same(out, [{"id": r["id"], "x": e[r["id"]]} for r in rows]), name)
        A(H(name, fn, "up to 2 rows, listed finding excluded"))
    dist("percent_rank()", lambda p: [a / (len(p) - 1) if a else 0 for a, _ in peers(p, [("b", False)])])
    dist("cume_dist()", lambda p: [(1.0 if i or len(p) == 1 or p[0]["b"] == p[1]["b"] else 0.5) for i in range(len(p))])

    # in queries
    def Q(name, sql, exp, cols="abcv", n=3, lo=0, hi=2, multiset=False):
        def fn(ctx):
            CTX[0] = ctx
            rows = table(ctx, n, "", cols, lo, hi)
            out = run(sql, {"t": rows})
            ctx.meta["out"] = out
            ctx.check((same_multiset if multiset else same)(out, exp(rows)), sql)
        A(H(name, fn, "%d rows, ints in [%s,%s]" % (n, lo, hi)))

    def vals(f, part, order, rows):
        e = values(f, part, order, rows)
        return lambda r: e[r["id"]]
    pa, ob, obd, oid = "partition by a", "order by b", "order by b desc", "order by id desc"
    pairs = [("row_number()", "", ob), ("sum(v)", pa, ""), ("lag(v)", pa, oid), ("rank()", "", obd), ("count(*)", "", ""), ("max(v)", pa, ob), ("ntile(2)", "", oid)]
    for k, (x, y) in enumerate(itertools.permutations(pairs, 2)):
        if k % 2 and not T:
            continue

        def exp(rows, x=x, y=y):
            e, f = vals(*x, rows), vals(*y, rows)
            return [{"id": r["id"], "x": e(r), "y": f(r)} for r in rows]
        Q("two %s / %s" % (x[0] + x[1] + x[2], y[0] + y[1] + y[2]), "select id, %s %s as x, %s %s as y from t" % (x[0], over(*x[1:]), y[0], over(*y[1:])), exp, "abv")
    for k, (x, y) in enumerate(itertools.permutations([p for p in pairs if p[0] != "lag(v)"], 2)):
        for j, (op, o) in enumerate((("+", lambda a, b: a + b), ("-", lambda a, b: a - b))):
            if (k + j) % 4 and not T:
                continue

            def exp(rows, x=x, y=y, o=o):
                e, f = vals(*x, rows), vals(*y, rows)
                return [{"id": r["id"], "x": o(e(r), f(r))} for r in rows]
            Q("calc %s %s %s" % (x[0] + x[1] + x[2], op, y[0] + y[1] + y[2]), "select id, %s %s %s %s %s as x from t" % (x[0], over(*x[1:]), op, y[0], over(*y[1:])), exp, "abv", hi=1)
    # the same function over different windows
    wins = [("", ""), (pa, ""), ("", ob), (pa, oid), ("partition by a + c", "")]
    for k, (v, w) in enumerate(itertools.permutations(wins, 2)):
        for j, f in enumerate(("sum(v)", "count(*)", "max(v)", "row_number()")):
            if ((k + j) % 4 and not T) or (f == "row_number()" and (not v[1] or not w[1])):
                continue

            def exp(rows, f=f, v=v, w=w):
                e, g = vals(f, *v, rows), vals(f, *w, rows)
                return [{"id": r["id"], "x": e(r) - g(r), "y": g(r)} for r in rows]
            Q("same %s %s %s" % (f, over(*v), over(*w)), "select id, %s %s - %s %s as x, %s %s as y from t" % (f, over(*v), f, over(*w), f, over(*w)), exp, "abcv", hi=1)
    for x in pairs:
        w = x[0] + " " + over(*x[1:])
        if x[0] != "lag(v)":
            Q("plus " + w, "select id, v * 2 + %s as x from t" % w, lambda rows, x=x: [{"id": r["id"], "x": r["v"] * 2 + vals(*x, rows)(r)} for r in rows], "abv")
            Q("case " + w, "select id, case when %s > 1 then a else b end as x from t" % w,
              lambda rows, x=x: [{"id": r["id"], "x": r["a"] if bool(vals(*x, rows)(r) > 1) else r["b"]} for r in rows], "abv")
        Q("where " + w, "select id, %s as x from t where v > 0" % w,
          lambda rows, x=x: (lambda rs: [{"id": r["id"], "x": vals(*x, rs)(r)} for r in rs])([r for r in rows if bool(r["v"] > 0)]), "abv")
        Q("where2 " + w, "select id, %s as x from t where v + a > 1" % w,
          lambda rows, x=x: (lambda rs: [{"id": r["id"], "x": vals(*x, rs)(r)} for r in rs])([r for r in rows if bool(r["v"] + r["a"] > 1)]), "abv")
        if x[0] != "lag(v)":
            Q("sub " + w, "select id, x from (select id, %s as x from t) s where x > 1" % w,
              lambda rows, x=x: [{"id": r["id"], "x": vals(*x, rows)(r)} for r in rows if bool(vals(*x, rows)(r) > 1)], "abv")
            Q("ord " + w, "select id, %s as x from t order by x desc, id" % w,
              lambda rows, x=x: [{"id": r["id"], "x": vals(*x, rows)(r)} for r in order_rows(rows, (vals(*x, rows), True), ("id", False))], "abv")
        if x[2] in ("", oid):
            Q("lim " + w, "select id, %s as x from t order by v limit 2" % w, lambda rows, x=x: [{"id": r["id"], "x": vals(*x, rows)(r)} for r in order_rows(rows, ("v", False))[:2]], "abv")
        if x[1] or x[2]:
            Q("named " + w, "select id, %s over w as x from t window w as (%s)" % (x[0], " ".join(q for q in x[1:] if q)),
              lambda rows, x=x: [{"id": r["id"], "x": vals(*x, rows)(r)} for r in rows], "abv")
    return hs
