# -*- coding: utf-8 -*-
"""Subqueries, derived tables and common table expressions."""
from .lib import *


def harnesses(tier):
    T = tier == "thorough"
    hs = []

    def Q(sql, ref, tn="", un="", nt=3 if T else 2, nu=2, keys=(0, 2), order=True, batch=False):
        """ref(t rows, u rows) -> rows; tn/un: columns that may be NULL"""
        def fn(ctx):
            t = [dict(id=i + 1, a=(ctx.nint if "a" in tn else ctx.int)("a%d" % i), b=(ctx.nint if "b" in tn else ctx.int)("b%d" % i)) for i in range(nt)]
            u = [dict(id=i + 1, k=(ctx.nint if "k" in un else ctx.int)("k%d" % i), w=(ctx.nint if "w" in un else ctx.int)("w%d" % i)) for i in range(nu)]
            out = run(sql, {"t": t, "u": u})
            ctx.meta["out"] = out
            ctx.check(same(out, ref(t, u)), sql)
        hs.append(H(sql[:150] + ("|" + tn + un if tn + un else ""), fn, "%d and %d rows of any ints%s" % (nt, nu, ", NULLs" if tn + un else "")))

    ids = lambda rows: [{"id": r["id"]} for r in rows]
    ks = lambda u, f=None, c="k": [r[c] for r in u if (f is None or is_true(f(r))) and r[c] is not None]
    agg = lambda f, vs: f(vs) if vs else None
    mx = lambda vs: maxof([v for v in vs if v is not None])
    mn = lambda vs: minof([v for v in vs if v is not None])

    def F(cond, p, tn="", un=""):
        """where <cond>; p(row, t, u) three-valued"""
        Q("select id from t where " + cond, lambda t, u: ids(r for r in t if is_true(p(r, t, u))), tn, un)

    w7 = lambda r: r["w"] > 7
    # NULLs among the values of an IN subquery are skipped (the loader, a dependency, drops them)
    for un in ("", "k"):
        F("a in (select k from u)", lambda r, t, u: in3(r["a"], ks(u)), "", un)
        F("a not in (select k from u)", lambda r, t, u: not3(in3(r["a"], ks(u))), "", un)
        F("a in (select k from u where w > 7)", lambda r, t, u: in3(r["a"], ks(u, w7)), "", un)
        F("a not in (select k from u where w > 7)", lambda r, t, u: not3(in3(r["a"], ks(u, w7))), "", un)
    F("a + 1 in (select k from u where w > 7)", lambda r, t, u: in3(r["a"] + 1, ks(u, w7)))
    F("a in (select k + 1 from u where w > 7)", lambda r, t, u: in3(r["a"], [k + 1 for k in ks(u, w7)]))
    F("a in (select k from u where w + k > 7)", lambda r, t, u: in3(r["a"], ks(u, lambda x: x["w"] + x["k"] > 7)))
    F("not (a in (select k from u where w > 7))", lambda r, t, u: not3(in3(r["a"], ks(u, w7))))
    F("a in (select k from u where w > 7) and b > 1", lambda r, t, u: and3(in3(r["a"], ks(u, w7)), r["b"] > 1))
    F("a in (select k from u where w > 7) or b > 1", lambda r, t, u: or3(in3(r["a"], ks(u, w7)), r["b"] > 1))
    F("b > 1 and a not in (select k from u)", lambda r, t, u: and3(r["b"] > 1, not3(in3(r["a"], ks(u)))))
    F("a in (select k from u) and b in (select w from u)", lambda r, t, u: and3(in3(r["a"], ks(u)), in3(r["b"], ks(u, None, "w"))))
    F("a in (select k from u) or b not in (select w from u)", lambda r, t, u: or3(in3(r["a"], ks(u)), not3(in3(r["b"], ks(u, None, "w")))))
    F("a in (select distinct k from u)", lambda r, t, u: in3(r["a"], ks(u)))
    F("a in (select k from u order by w desc limit 1)", lambda r, t, u: in3(r["a"], ks(order_rows(u, ("w", True))[:1])))
    F("a in (select max(k) as k from u group by w)", lambda r, t, u: in3(r["a"], [maxof([x["k"] for x in g]) for _, g in group(u, lambda x: (x["w"],))]))
    F("a in (select k from u where k in (select b from t where a > 1))", lambda r, t, u: in3(r["a"], [k for k in ks(u) if is_true(in3(k, [x["b"] for x in t if is_true(x["a"] > 1)]))]))
    F("a in (select k from u union all select w from u)", lambda r, t, u: in3(r["a"], ks(u) + ks(u, None, "w")))
    for op in ("=", "!=", "<", "<=", ">", ">="):
        F("a %s (select max(k) from u)" % op, lambda r, t, u, op=op: cmp3(op, r["a"], mx(ks(u))))
    F("(select min(k) from u) < a", lambda r, t, u: cmp3("<", mn(ks(u)), r["a"]))
    F("a + 0 > (select min(k) from u where w > 7)", lambda r, t, u: cmp3(">", r["a"], mn(ks(u, w7))))
    F("not (a > (select min(k) from u where w > 7))", lambda r, t, u: not3(cmp3(">", r["a"], mn(ks(u, w7)))))
    F("a > (select min(k) from u where w > 7) or b > 1", lambda r, t, u: or3(cmp3(">", r["a"], mn(ks(u, w7))), r["b"] > 1))
    F("a + b > (select sum(k) from u)", lambda r, t, u: cmp3(">", r["a"] + r["b"], total(ks(u))))
    F("a > (select min(k) from u) + 1", lambda r, t, u: cmp3(">", r["a"], mn(ks(u)) + 1))
    F("a between (select min(k) from u) and (select max(k) from u)", lambda r, t, u: and3(cmp3(">=", r["a"], mn(ks(u))), cmp3("<=", r["a"], mx(ks(u)))))
    F("a = (select count(*) from u where w > 7)", lambda r, t, u: cmp3("=", r["a"], len(ks(u, w7)) or None))
    F("exists (select id from u where w > 7)", lambda r, t, u: len(ks(u, w7)) > 0)
    F("not exists (select id from u where w > 7)", lambda r, t, u: len(ks(u, w7)) == 0)
    F("exists (select id from u where w > 7) and a > 1", lambda r, t, u: and3(len(ks(u, w7)) > 0, r["a"] > 1))
    F("exists (select id from u where w > 7) or a > 1", lambda r, t, u: or3(len(ks(u, w7)) > 0, r["a"] > 1))

    # correlated
    def G(cond, p, tn="", un=""):
        Q("select x.id from t x where " + cond, lambda t, u: ids(r for r in t if is_true(p(r, t, u))), tn, un)
    m_ = lambda r, u, f=None: [z for z in u if is_true(cmp3("=", z["k"], r["a"])) and (f is None or is_true(f(z, r)))]
    for un in ("", "k"):
        G("exists (select z.id from u z where z.k = x.a)", lambda r, t, u: len(m_(r, u)) > 0, "", un)
        G("not exists (select z.id from u z where z.k = x.a)", lambda r, t, u: len(m_(r, u)) == 0, "", un)
    G("exists (select z.id from u z where z.k = x.a and z.w > 7)", lambda r, t, u: len(m_(r, u, lambda z, r: z["w"] > 7)) > 0)
    G("not exists (select z.id from u z where z.k = x.a and z.w > 7) and x.b > 1", lambda r, t, u: len(m_(r, u, lambda z, r: z["w"] > 7)) == 0 and r["b"] > 1)
    m2 = lambda r, u, f=None: [z for z in u if is_true(and3(cmp3("=", z["k"], r["a"]), cmp3("=", z["w"], r["b"]))) and (f is None or is_true(f(z, r)))]
    for un in ("", "k"):
        G("exists (select z.id from u z where z.k = x.a and z.w = x.b)", lambda r, t, u: len(m2(r, u)) > 0, "", un)
    G("not exists (select z.id from u z where z.k = x.a and z.w = x.b)", lambda r, t, u: len(m2(r, u)) == 0)
    G("exists (select z.id from u z where z.k = x.a and z.w = x.b and z.id > 1)", lambda r, t, u: len(m2(r, u, lambda z, r: z["id"] > 1)) > 0)
    G("exists (select z.id from u z where z.k = x.a and x.b > 3)", lambda r, t, u: len(m_(r, u, lambda z, r: r["b"] > 3)) > 0)
    G("not exists (select z.id from u z where z.k = x.a and x.b > 3)", lambda r, t, u: len(m_(r, u, lambda z, r: r["b"] > 3)) == 0)
    G("exists (select z.id from u z where z.k = x.a and z.w = x.b and x.b > 3)", lambda r, t, u: len(m2(r, u, lambda z, r: r["b"] > 3)) > 0)
    G("exists (select z.id from u z where z.k = x.a and z.w > x.b)", lambda r, t, u: len(m_(r, u, lambda z, r: z["w"] > r["b"])) > 0)
    G("exists (select z.id from u z where z.k + 1 = x.a)", lambda r, t, u: len([z for z in u if bool(z["k"] + 1 == r["a"])]) > 0)
    G("exists (select z.id from u z where z.k = x.a + 1)", lambda r, t, u: len([z for z in u if bool(z["k"] == r["a"] + 1)]) > 0)
    for c1, c2, f in (("z.w > x.b", "z.w < x.b + 5", lambda z, r: and3(z["w"] > r["b"], z["w"] < r["b"] + 5)), ("z.w < x.b + 5", "z.w > x.b", lambda z, r: and3(z["w"] > r["b"], z["w"] < r["b"] + 5))):
        G("exists (select z.id from u z where z.k = x.a and %s and %s)" % (c1, c2), lambda r, t, u, f=f: len(m_(r, u, f)) > 0)
    G("exists (select z.id from u z where z.k = x.a and z.w != x.b and z.w >= x.id and z.w <= x.id + 9)", lambda r, t, u: len(
        m_(r, u, lambda z, r: and3(and3(z["w"] != r["b"], z["w"] >= r["id"]), z["w"] <= r["id"] + 9))) > 0)
    G("x.b + 0 > (select sum(z.w) from u z where z.k = x.a)", lambda r, t, u: cmp3(">", r["b"], agg(total, [z["w"] for z in m_(r, u)])))
    G("x.b in (select z.w from u z where z.k = x.a)", lambda r, t, u: in3(r["b"], [z["w"] for z in m_(r, u)]))
    G("x.b not in (select z.w from u z where z.k = x.a)", lambda r, t, u: not3(in3(r["b"], [z["w"] for z in m_(r, u)])))

    def S(expr, f, tn="", un="", al=False):
        """a subquery in the select list; f(row, t, u)"""
        Q("select x.id, %s as v from t x" % expr if al else "select id, %s as v from t" % expr, lambda t, u: [{"id": r["id"], "v": f(r, t, u)} for r in t], tn, un)
    S("(select max(w) from u)", lambda r, t, u: mx(ks(u, None, "w")))
    S("(select sum(w) from u where k > 3)", lambda r, t, u: agg(total, ks(u, lambda x: x["k"] > 3, "w")))
    S("(select count(*) from u)", lambda r, t, u: len(u))
    S("(select count(*) + sum(w) from u)", lambda r, t, u: len(u) + total(ks(u, None, "w")))
    S("(select w from u where id = 2)", lambda r, t, u: u[1]["w"])
    S("(select w from u where id = 9)", lambda r, t, u: None)
    S("(select w from u order by k limit 1)", lambda r, t, u: order_rows(u, ("k", False))[0]["w"])
    S("a + (select min(w) from u)", lambda r, t, u: r["a"] + mn(ks(u, None, "w")))
    S("a + (select w from u where id = 9)", lambda r, t, u: None)
    S("(select w from u where id = 9) is null", lambda r, t, u: 1)
    S("abs((select min(w) from u where k > 3))", lambda r, t, u: nn(lambda x: ite(x < 0, 0 - x, x), mn(ks(u, lambda x: x["k"] > 3, "w"))))
    S("a * (select count(*) from u where k > 3)", lambda r, t, u: (lambda n: r["a"] * n if n else None)(len(ks(u, lambda x: x["k"] > 3))))
    S("(select min(k) from u) between a and b", lambda r, t, u: tf(and3(cmp3(">=", mn(ks(u)), r["a"]), cmp3("<=", mn(ks(u)), r["b"]))))
    S("ifnull((select w from u where id = 9), a)", lambda r, t, u: r["a"])
    S("a in (select k from u)", lambda r, t, u: tf(in3(r["a"], ks(u))))
    S("a not in (select k from u)", lambda r, t, u: tf(not3(in3(r["a"], ks(u)))))
    S("a = (select min(k) from u)", lambda r, t, u: tf(cmp3("=", r["a"], mn(ks(u)))))
    S("a > (select min(k) from u) and b > 1", lambda r, t, u: tf(and3(cmp3(">", r["a"], mn(ks(u))), r["b"] > 1)))
    S("case when a in (select k from u where w > 7) then b else 0 end", lambda r, t, u: r["b"] if is_true(in3(r["a"], ks(u, w7))) else 0)
    S("if(a > (select min(k) from u), 1, b)", lambda r, t, u: 1 if is_true(r["a"] > mn(ks(u))) else r["b"])
    S("exists (select id from u where w > 7)", lambda r, t, u: 1 if ks(u, w7) else 0)
    S("not exists (select id from u where w > 7)", lambda r, t, u: 0 if ks(u, w7) else 1)
    S("(select a from t where id = 2)", lambda r, t, u: t[1]["a"])
    S("(select sum(z.w) from u z where z.k = x.a)", lambda r, t, u: agg(total, [z["w"] for z in m_(r, u)]), al=True)
    S("(select max(z.w) from u z where z.k = x.a)", lambda r, t, u: agg(mx, [z["w"] for z in m_(r, u)]), al=True)
    S("ifnull((select count(*) from u z where z.k = x.a), 0)", lambda r, t, u: len(m_(r, u)), al=True)
    S("x.b + (select max(z.w) from u z where z.k = x.a)", lambda r, t, u: nn(lambda p, q: p + q, r["b"], agg(mx, [z["w"] for z in m_(r, u)])), al=True)
    S("(select min(z.w) from u z where z.k = x.a and z.w > 7)", lambda r, t, u: agg(mn, [z["w"] for z in m_(r, u, lambda z, r: z["w"] > 7)]), al=True)
    S("(select max(z.b) from t z where z.a = x.a)", lambda r, t, u: mx([z["b"] for z in t if bool(z["a"] == r["a"])]), al=True)

    # with aggregation and HAVING
    Q("select a, sum(b) as s from t where a in (select k from u) group by a", lambda t, u: [{"a": k[0], "s": total([x["b"] for x in g])} for k, g in
                                                                                            group([r for r in t if is_true(in3(r["a"], ks(u)))], lambda r: (r["a"],))])
    Q("select a, sum(b) as s from t group by a having s > (select min(k) from u)", lambda t, u: [
        o for o in [{"a": k[0], "s": total([x["b"] for x in g])} for k, g in group(t, lambda r: (r["a"],))] if is_true(o["s"] > mn(ks(u)))])
    Q("select a, sum(b) as s from t group by a having a in (select k from u)", lambda t, u: [
        {"a": k[0], "s": total([x["b"] for x in g])} for k, g in group(t, lambda r: (r["a"],)) if is_true(in3(k[0], ks(u)))])
    Q("select count(*) as c from t where a not in (select k from u)", lambda t, u: (lambda n: [{"c": n}] if n else [])(len([r for r in t if is_true(not3(in3(r["a"], ks(u))))])))
    Q("select id from t where a in (select k from u) order by b desc limit 1", lambda t, u: ids(order_rows([r for r in t if is_true(in3(r["a"], ks(u)))], ("b", True))[:1]))

    # derived tables
    gs = lambda t, c="b": [{"a": k[0], "s": total([x[c] for x in g])} for k, g in group(t, lambda r: (r["a"],))]
    b1 = lambda t: [r for r in t if is_true(r["b"] > 1)]
    n = 3
    D = lambda sql, f, **k: Q(sql, lambda t, u: f(t), nu=1, nt=n, **k)
    D("select d.a, d.s from (select a, sum(b) as s from t group by a) d", gs)
    D("select a, s from (select a, sum(b) as s from t group by a) d where s > 3", lambda t: [r for r in gs(t) if is_true(r["s"] > 3)])
    D("select d.a, d.s from (select a, sum(b) as s from t group by a) d where d.s > 3 and d.a > 0", lambda t: [r for r in gs(t) if is_true(r["s"] > 3) and is_true(r["a"] > 0)])
    D("select max(d.s) as m, count(*) as c from (select a, sum(b) as s from t group by a) d", lambda t: (lambda g: [{"m": mx([x["s"] for x in g]), "c": len(g)}])(gs(t)))
    D("select d.s, count(*) as c from (select a, sum(b) as s from t group by a) d group by d.s", lambda t: [{"s": k[0], "c": len(g)} for k, g in group(gs(t), lambda r: (r["s"],))])
    D("select d.id from (select id, a, b from t where b > 1) d where d.a > 1", lambda t: ids(r for r in b1(t) if is_true(r["a"] > 1)))
    D("select * from (select id, a from t where b > 1) d where a > 1", lambda t: [pick([r], "id", "a")[0] for r in b1(t) if is_true(r["a"] > 1)])
    D("select d.id from (select id, b from t order by b desc limit 2) d", lambda t: ids(order_rows(t, ("b", True))[:2]))
    D("select d.id from (select id, b from t order by b limit 2) d where d.b > 1", lambda t: ids(b1(order_rows(t, ("b", False))[:2])))
    D("select e.x from (select d.a + 1 as x from (select a from t where b > 1) d) e where e.x > 2", lambda t: [{"x": r["a"] + 1} for r in b1(t) if is_true(r["a"] + 1 > 2)])
    D("select d.x * 2 as y from (select id, a + b as x from t) d where d.x > 3 order by d.id desc", lambda t: [{"y": (r["a"] + r["b"]) * 2} for r in reversed(t) if is_true(r["a"] + r["b"] > 3)])
    D("select d.a from (select distinct a from t) d", lambda t: [{"a": v} for v in distinct([r["a"] for r in t])])
    D("select d.id, d.r from (select id, row_number() over (partition by a order by id) as r from t) d where d.r = 1", lambda t: [
        {"id": r["id"], "r": 1} for i, r in enumerate(t) if not any(bool(q["a"] == r["a"]) for q in t[:i])])
    D("select d.a, d.s from (select a, sum(b) as s from t where b > 1 group by a having s > 5) d order by d.s desc", lambda t: order_rows([r for r in gs(b1(t)) if is_true(r["s"] > 5)], ("s", True)))
    D("select x.id, y.s from t x join (select a, sum(b) as s from t group by a) y on x.a = y.a", lambda t: [{"id": r["id"], "s": total([q["b"] for q in t if bool(q["a"] == r["a"])])} for r in t])
    D("select d.v from (select a as v from t union all select b as v from t) d where d.v > 3", lambda t: [{"v": v} for v in [r["a"] for r in t] + [r["b"] for r in t] if is_true(v > 3)], )

    # common table expressions
    D("with c as (select a, sum(b) as s from t group by a) select a, s from c where s > 3", lambda t: [r for r in gs(t) if is_true(r["s"] > 3)])
    D("with c as (select a, b from t where b > 1), d as (select a, sum(b) as s from c group by a) select a, s from d", lambda t: gs(b1(t)))
    D("with c as (select a from t where b > 1) select id from t where a in (select a from c)", lambda t: ids(r for r in t if is_true(in3(r["a"], [q["a"] for q in b1(t)]))))
    D("with c as (select id, a from t where b > 1), d as (select id, a from t where b <= 1) select id from c union all select id from d",
      lambda t: ids(b1(t)) + ids(r for r in t if not bool(r["b"] > 1)))
    D("with c as (select a, b from t) select x.a, y.b from c x left join c y on x.a = y.b", lambda t: [
        {"a": r["a"], "b": v} for r in t for v in ([q["b"] for q in t if bool(q["b"] == r["a"])] or [None])])
    D("with c as (select a, sum(b) as s from t group by a) select max(s) as m, (select count(*) from c) as n from c", lambda t: (lambda g: [{"m": mx([x["s"] for x in g]), "n": len(g)}])(gs(t)))
    D("with c as (select a + 1 as x from t), d as (select x * 2 as y from c), e as (select y from d where y > 4) select sum(y) as s, count(*) as n from e",
      lambda t: (lambda v: [{"s": total(v), "n": len(v)}] if v else [])([(r["a"] + 1) * 2 for r in t if is_true((r["a"] + 1) * 2 > 4)]))
    return hs
