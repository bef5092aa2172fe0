# -*- coding: utf-8 -*-
"""UNION and UNION ALL."""
from .lib import *


def harnesses(tier):
    T = tier == "thorough"
    hs = []

    def Q(sql, ref, tn="", un="", nt=3 if T else 2, nu=2):
        def fn(ctx):
            t = [dict(id=i + 1, a=(ctx.nint if "a" in tn else ctx.int)("a%d" % i), b=(ctx.nint if "b" in tn else ctx.int)("b%d" % i)) for i in range(nt)]
            u = [dict(id=i + 1, k=(ctx.nint if "k" in un else ctx.int)("k%d" % i), w=(ctx.nint if "w" in un else ctx.int)("w%d" % i)) for i in range(nu)]
            out = run(sql, {"t": t, "u": u})
            ctx.meta["out"] = out
            ctx.check(same(out, ref(t, u)), sql)
        hs.append(H(sql[:150] + ("|" + tn + un if tn + un else ""), fn, "%d and %d rows of any ints%s" % (nt, nu, ", NULLs" if tn + un else "")))

    def N(names, *parts):
        """rows of the parts (tuples) with the columns names"""
        names = names.split()
        return [dict(zip(names, p)) for part in parts for p in part]

    def D(rows):
        out = []
        for r in rows:
            if not any(bool(all_([eq_null(r[c], o[c]) for c in r])) for o in out):
                out.append(r)
        return out

    def eq_null(a, b):
        return (a is None and b is None) if a is None or b is None else a == b

    def all_(vs):
        for v in vs:
            if not bool(v):
                return False
        return True

    P = lambda rows, *cols: [tuple(c(r) if callable(c) else r[c] for c in cols) for r in rows]
    W = lambda rows, f: [r for r in rows if is_true(f(r))]
    O = order_rows

    # UNION ALL keeps every row, the parts in their order; columns are paired by position, named by the first
    Q("select id, a from t union all select id, k from u", lambda t, u: N("id a", P(t, "id", "a"), P(u, "id", "k")), "a", "k")
    Q("select a as v from t union all select k as v from u", lambda t, u: N("v", P(t, "a"), P(u, "k")))
    Q("select a, b from t union all select w, k from u", lambda t, u: N("a b", P(t, "a", "b"), P(u, "w", "k")))
    Q("select a, b from t union all select k as b, w as a from u", lambda t, u: N("a b", P(t, "a", "b"), P(u, "k", "w")))
    Q("select b, a from t union all select k, w from u", lambda t, u: N("b a", P(t, "b", "a"), P(u, "k", "w")), "a", "w")
    Q("select a as z, b as y from t union all select k as x, w as y from u", lambda t, u: N("z y", P(t, "a", "b"), P(u, "k", "w")))
    Q("select a as x, b as y from t union all select b as y, a as x from t", lambda t, u: N("x y", P(t, "a", "b"), P(t, "b", "a")))
    Q("select id, a + b as c from t union all select id, k * w from u", lambda t, u: N("id c", P(t, "id", lambda r: r["a"] + r["b"]), P(u, "id", lambda r: r["k"] * r["w"])))
    Q("select id, a, b from t union all select w, id, k from u", lambda t, u: N("id a b", P(t, "id", "a", "b"), P(u, "w", "id", "k")))
    Q("select a, 5 as n from t union all select 6, k from u", lambda t, u: N("a n", P(t, "a", lambda r: 5), P(u, lambda r: 6, "k")))
    Q("select a, 'x' as n from t union all select k, 'y' as n from u", lambda t, u: N("a n", P(t, "a", lambda r: "x"), P(u, "k", lambda r: "y")))
    Q("select a, null as n from t union all select k, w from u", lambda t, u: N("a n", P(t, "a", lambda r: None), P(u, "k", "w")))
    Q("select abs(a) as m, if(b > 1, a, b) as n from t union all select k, w from u", lambda t, u: N("m n", P(t, lambda r: ite(r["a"] < 0, 0 - r["a"], r["a"]), lambda r: r["a"] if is_true(r["b"] > 1) else r["b"]), P(u, "k", "w")))
    Q("select * from t union all select * from t", lambda t, u: t + t)
    Q("select a from t where a > 1 union all select k from u where w < 7", lambda t, u: N("a", P(W(t, lambda r: r["a"] > 1), "a"), P(W(u, lambda r: r["w"] < 7), "k")))
    Q("select a from t where a > 1 and b in (1, 2) union all select b from t where not (a > 1)", lambda t, u: N(
        "a", P(W(t, lambda r: and3(r["a"] > 1, in3(r["b"], [1, 2]))), "a"), P(W(t, lambda r: not3(r["a"] > 1)), "b")))
    Q("select a from t union all select k from u union all select b from t", lambda t, u: N("a", P(t, "a"), P(u, "k"), P(t, "b")))
    Q("select a, b from t union all select k, w from u union all select b, a from t union all select w, k from u", lambda t, u: N(
        "a b", P(t, "a", "b"), P(u, "k", "w"), P(t, "b", "a"), P(u, "w", "k")))
    Q("select a from t union all select 7 union all select k from u", lambda t, u: N("a", P(t, "a"), [(7,)], P(u, "k")))

    # UNION
    for tn, un in (("", ""), ("a", "k")):
        Q("select a from t union select k from u", lambda t, u: D(N("a", P(t, "a"), P(u, "k"))), tn, un)
    Q("select a, b from t union select k, w from u", lambda t, u: D(N("a b", P(t, "a", "b"), P(u, "k", "w"))))
    Q("select a, b from t union select b, a from t", lambda t, u: D(N("a b", P(t, "a", "b"), P(t, "b", "a"))))
    Q("select a from t union distinct select b from t", lambda t, u: D(N("a", P(t, "a"), P(t, "b"))))
    Q("select a from t union select a from t union all select k from u", lambda t, u: D(N("a", P(t, "a"))) + N("a", P(u, "k")))
    Q("select a from t union all select a from t union select k from u", lambda t, u: D(N("a", P(t, "a"), P(t, "a"), P(u, "k"))))
    Q("select a from t union all (select k from u union select w from u)", lambda t, u: N("a", P(t, "a")) + D(N("a", P(u, "k"), P(u, "w"))))
    Q("(select a from t union select 7) union all select k from u", lambda t, u: D(N("a", P(t, "a"), [(7,)])) + N("a", P(u, "k")))
    Q("select a from t union (select k from u union all select w from u)", lambda t, u: D(N("a", P(t, "a"), P(u, "k"), P(u, "w"))), nt=2)
    Q("select a + 1 as c from t union select k from u where w > 7", lambda t, u: D(N("c", P(t, lambda r: r["a"] + 1), P(W(u, lambda r: r["w"] > 7), "k"))))
    Q("select a from t where a > 1 union select k from u where w > 5 union select 100", lambda t, u: D(N("a", P(W(t, lambda r: r["a"] > 1), "a"), P(W(u, lambda r: r["w"] > 5), "k"), [(100,)])), nt=2)
    Q("select distinct a from t union all select distinct k from u", lambda t, u: D(N("a", P(t, "a"))) + D(N("a", P(u, "k"))))

    # ORDER BY and LIMIT of the whole and of a part
    key = lambda c, d=False: (c, d)
    A = lambda t, u: N("id a", P(t, "id", "a"), P(u, "id", "k"))
    Q("select id, a from t union all select id, k from u order by a", lambda t, u: O(A(t, u), key("a")))
    Q("select id, a from t union all select id, k from u order by a desc", lambda t, u: O(A(t, u), key("a", True)))
    Q("select id, a from t union all select id, k from u order by id, a desc", lambda t, u: O(A(t, u), key("id"), key("a", True)))
    for lim, lo, hi in (("limit 1", 0, 1), ("limit 3", 0, 3), ("limit 1, 2", 1, 3), ("limit 2 offset 2", 2, 4)):
        Q("select id, a from t union all select id, k from u " + lim, lambda t, u, lo=lo, hi=hi: A(t, u)[lo:hi])
        Q("select id, a from t union all select id, k from u order by a desc " + lim, lambda t, u, lo=lo, hi=hi: O(A(t, u), key("a", True))[lo:hi], nt=2)
    Q("select a from t union select k from u order by a limit 2", lambda t, u: O(D(N("a", P(t, "a"), P(u, "k"))), key("a"))[:2], nt=2)
    Q("select a from t union all select k from u union all select b from t order by a desc limit 2", lambda t, u: O(N("a", P(t, "a"), P(u, "k"), P(t, "b")), key("a", True))[:2], nt=1)
    Q("(select id, a from t order by a limit 1) union all select id, k from u", lambda t, u: N("id a", P(O(t, key("a"))[:1], "id", "a"), P(u, "id", "k")))
    Q("select id, a from t union all (select id, k from u order by w desc limit 1)", lambda t, u: N("id a", P(t, "id", "a"), P(O(u, key("w", True))[:1], "id", "k")))
    Q("(select id, a from t order by a limit 1) union all (select id, k from u order by w limit 1)", lambda t, u: N("id a", P(O(t, key("a"))[:1], "id", "a"), P(O(u, key("w"))[:1], "id", "k")))
    Q("select id from t limit 1 union all select id from u", lambda t, u: N("id", P(t[:1], "id"), P(u, "id")))

    # aggregates, joins and subqueries around and inside
    Q("select a, sum(b) as s from t group by a union all select k, count(*) from u group by k", lambda t, u: N(
        "a s", [(k[0], total([x["b"] for x in g])) for k, g in group(t, lambda r: (r["a"],))], [(k[0], len(g)) for k, g in group(u, lambda r: (r["k"],))]))
    Q("select max(a) as m from t union all select min(k) from u", lambda t, u: N("m", [(maxof([r["a"] for r in t]),)], [(minof([r["k"] for r in u]),)]))
    Q("select count(*) as c from t union all select count(*) from u", lambda t, u: N("c", [(len(t),)], [(len(u),)]))
    Q("select count(*) as c from t union select count(*) from u", lambda t, u: D(N("c", [(len(t),)], [(len(u),)])))
    Q("select x.id, y.w from t x join u y on x.a = y.k union all select id, b from t", lambda t, u: None or N(
        "id w", [(r["id"], z["w"] if z else None) for r in t for z in (W(u, lambda z: cmp3("=", z["k"], r["a"])) or [None])], P(t, "id", "b")))
    V = lambda t, u: P(t, "a") + P(u, "k")
    Q("select x.v from (select a as v from t union all select k from u) x where x.v > 1", lambda t, u: N("v", [r for r in V(t, u) if is_true(r[0] > 1)]))
    Q("select x.v, count(*) as c from (select a as v from t union all select k from u) x group by x.v", lambda t, u: N("v c", [(k[0], len(g)) for k, g in group(V(t, u), lambda r: r)]))
    Q("select sum(x.v) as s, count(*) as c from (select a as v from t union all select k from u) x", lambda t, u: N("s c", [(total([r[0] for r in V(t, u)]), len(t) + len(u))]))
    Q("select count(*) as c from (select a as v from t union select k from u) x", lambda t, u: N("c", [(len(D(N("v", V(t, u)))),)]))
    Q("select x.v + 1 as z from (select a as v from t union select k from u) x order by z", lambda t, u: O(N("z", [(r["v"] + 1,) for r in D(N("v", V(t, u)))]), key("z")), nt=2)
    Q("with c as (select a as v from t union all select k from u) select v from c order by v desc", lambda t, u: O(N("v", V(t, u)), key("v", True)), nt=2)
    Q("with c as (select a from t union select k from u) select count(*) as n, max(a) as m from c", lambda t, u: N("n m", [(len(D(N("v", V(t, u)))), maxof([r[0] for r in V(t, u)]))]))
    Q("select id from t where a in (select k from u union select w from u)", lambda t, u: N("id", P(W(t, lambda r: in3(r["a"], [z["k"] for z in u] + [z["w"] for z in u])), "id")))
    Q("select id from t where a not in (select k from u where w > 7 union all select 3)", lambda t, u: N("id", P(W(t, lambda r: not3(in3(r["a"], [z["k"] for z in W(u, lambda z: z["w"] > 7)] + [3]))), "id")))
    return hs


