# -*- coding: utf-8 -*-
"""Reading a source in batches gives the same result as reading it at once."""
from .lib import *
from . import gen

QS = [
    ("count", "select count(*) as c from mdb.t", "", "b"),
    ("sum", "select sum(b) as s, count(b) as c from mdb.t", "b", ""),
    ("avg", "select avg(b) as v from mdb.t", "b", ""),
    ("minmax", "select min(b) as mn, max(b) as mx from mdb.t", "b", ""),
    ("distinct_count", "select count(distinct b) as c from mdb.t", "b", ""),
    ("expr", "select sum(b) * 2 + count(*) as x, max(b) - min(b) as y from mdb.t", "b", ""),
    ("g_sum", "select a, count(*) as c, sum(b) as s from mdb.t group by a", "", "ab"),
    ("g_avg", "select a, avg(b) as v from mdb.t group by a", "", "ab"),
    ("g_minmax", "select a, min(b) as mn, max(b) as mx from mdb.t group by a", "", "ab"),
    ("g_dc", "select a, count(distinct b) as c, sum(b) as s from mdb.t group by a", "", "ab"),
    ("g_null", "select a, count(b) as c, sum(b) as s from mdb.t group by a", "ab", ""),
    ("g_two", "select a, b, count(*) as c from mdb.t group by a, b", "", "ab"),
    ("g_where", "select a, sum(b) as s from mdb.t where b > 2 group by a", "", "ab"),
    ("g_where2", "select a, sum(b) as s from mdb.t where a + b > 2 group by a", "", "ab"),
    ("g_having", "select a, sum(b) as s from mdb.t group by a having s > 3", "", "ab"),
    ("g_order", "select a, sum(b) as s from mdb.t group by a order by a desc", "", "ab"),
    ("g_limit", "select a, sum(b) as s from mdb.t group by a limit 1", "", "ab"),
    ("g_order_limit", "select a, count(*) as c from mdb.t group by a order by c desc, a limit 1", "", "ab"),
    ("g_expr", "select a, sum(b) / count(*) as v from mdb.t group by a", "", "ab"),
    ("g_concat", "select a, group_concat(b) as g from mdb.t group by a", "", "ab"),
    ("concat", "select group_concat(b) as g from mdb.t", "b", ""),
    ("g_array", "select a, group_array(b) as g from mdb.t group by a", "", "ab"),
    ("g_bit", "select a, group_bit_or(b) as o, group_bit_and(b) as n, group_bit_xor(b) as x from mdb.t group by a", "", "ab"),
    ("g_key", "select a from mdb.t group by a", "a", "b"),
    ("distinct", "select distinct a, b from mdb.t", "", "ab"),
    ("distinct1", "select distinct a from mdb.t where b > 2", "", "ab"),
    ("distinct_limit", "select distinct a from mdb.t limit 2", "", "ab"),
    ("filter", "select id, a from mdb.t where a > 2", "", "ab"),
    ("filter2", "select id, a from mdb.t where a + b > 2", "", "ab"),
    ("star", "select * from mdb.t where b > 1", "", "ab"),
    ("limit", "select id, a from mdb.t limit 2", "", "ab"),
    ("limit_where", "select id, a from mdb.t where a > 2 limit 1", "", "ab"),
    ("limit_where2", "select id, a from mdb.t where a + b > 2 limit 1", "", "ab"),
    ("limit_offset", "select id, a from mdb.t limit 1 offset 1", "", "ab"),
    ("order", "select id, a from mdb.t order by a", "", "ab"),
    ("order_calc", "select id, a + b as c from mdb.t order by c desc, id", "", "ab"),
    ("order_limit", "select id, a from mdb.t order by a desc, id limit 2", "", "ab"),
    ("window", "select id, row_number() over (partition by a order by id) as rn, sum(b) over (partition by a) as s from mdb.t", "", "ab"),
    ("join", "select x.id, y.w from mdb.t x left join u y on x.a = y.k", "", "ab"),
    ("join_group", "select y.w, count(*) as c, sum(x.b) as s from mdb.t x left join u y on x.a = y.k group by y.w", "", "ab"),
    ("subquery", "select id from mdb.t where a in (select a from mdb.t where b > 3)", "", "ab"),
    ("derived", "select z.a, count(*) as c from (select a, b from mdb.t where b > 1) z group by z.a", "", "ab"),
    ("derived_group", "select max(z.s) as m from (select a, sum(b) as s from mdb.t group by a) z", "", "ab"),
    ("union", "select a, sum(b) as s from mdb.t group by a union all select id as a, b as s from mdb.t where b > 3", "", "ab"),
]
BIG = ("sum", "g_sum", "g_avg", "g_limit", "g_having", "g_dc", "distinct_count", "distinct1", "limit_where")
SMALL = dict(g_bit=(0, 3), g_concat=(0, 1), concat=(0, 1), g_dc=(0, 9), g_minmax=(-9, 9))


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for nm, sql, nc, cc in QS:
        for n, b in ((3, 1), (3, 2)) + (((4, 2),) if nm in BIG else ()) + (((4, 1), (4, 3), (3, 3), (3, 5), (5, 2)) if T else ()):
            def fn(ctx, sql=sql, nc=nc, cc=cc, n=n, b=b, nm=nm):
                lo, hi = SMALL.get(nm, (None, None))
                rows = table(ctx, n, nc, cc, lo, hi)
                mem = {"u": [{"id": 1, "k": 1, "w": 10}, {"id": 2, "k": 2, "w": 10}, {"id": 3, "k": 2, "w": 20}]} if "join" in nm else None
                ref = run_batched(sql, {"t": rows}, 0, mem)
                out = run_batched(sql, {"t": rows}, b, mem)
                ctx.meta["out"] = out
                ctx.meta["ref"] = ref
                ctx.check(same(out, ref), "batches of %d: %s" % (b, sql))
            hs.append(H("%s n%d b%d" % (nm, n, b), fn, "%d rows read %d at a time; any ints%s" % (n, b, " within %s" % (SMALL[nm],) if nm in SMALL else "")))

    # composed queries against the reference of the unbatched meaning
    for seed in range(1000, 1300 if T else 1060):
        sql, ref = gen.aggquery(seed, seed % 2)

        def comp(ctx, sql=sql, ref=ref, seed=seed):
            n, b = (3, 1 + seed // 2 % 2) if T else (2 + seed // 4 % 2, 1 + seed // 2 % 2)
            rows = table(ctx, n, "b" if seed % 2 else "", "ac" if seed % 2 else "abc")
            out = run_batched(sql.format(t="mdb.t"), {"t": rows}, b)
            ctx.meta["out"] = out
            ctx.check(same(out, ref(rows)), "batches of %d: %s" % (b, sql.format(t="mdb.t")))
        hs.append(H("comp%d" % seed, comp, "2 or 3 rows read 1 or 2 at a time, any ints%s" % (", b may be NULL" if seed % 2 else "")))

    # JSON aggregates: values compared as parsed JSON
    def js(ctx):
        import json
        rows = [{"id": i, "a": ctx.int("a%d" % i, 0, 1), "b": ctx.int("b%d" % i, 0, 2)} for i in range(3)]
        q = "select a, json_arrayagg(b) as g, json_objectagg(id, b) as o from mdb.t group by a"
        r, o = run_batched(q, {"t": rows}, 0), run_batched(q, {"t": rows}, 2)
        p = lambda x: [dict(z, g=json.loads(z["g"]), o=json.loads(z["o"])) for z in x]
        ctx.check(same(p(r), p(o)), "JSON aggregates in batches")
    hs.append(H("json", js, "3 rows read 2 at a time, small ints"))
    return hs
