# -*- coding: utf-8 -*-
"""statements leave nothing behind but what they store."""
from .lib import *

# %s is replaced by boom(column) or the column
SHAPES = [
    "select id, %(a)s as x from t", "select id, %(a)s as x from t where b > 3", "select id from t where %(a)s > 3", "select id from t where %(a)s + b > 3 order by b desc limit 1",
    "select distinct %(a)s as x from t", "select b, sum(%(a)s) as x from t group by b", "select sum(%(a)s) as x from t", "select count(distinct a) as x, max(%(b)s) as y from t",
    "select b, count(distinct %(a)s) as x, avg(a) as z from t group by b", "select b, count(%(a)s) as n from t group by b having n > 0 or b > 3", "select max(a) + min(%(b)s) as x, avg(b) as y from t",
    "select id, row_number() over (partition by b order by %(a)s) as n from t", "select id, sum(%(a)s) over (partition by b) as n, rank() over (order by a) as m from t", "select id, lag(a) over (order by id) + %(b)s as x from t",
    "select x, id from (select %(a)s as x, id from t) d order by id desc", "select x, count(*) as n from (select b as x, %(a)s as y from t) d group by x", "select x + 1 as y from (select x from (select %(a)s as x from t where b > 3) e) d",
    "select id from t where a in (select %(w)s from u)", "select id from t where a not in (select w from u where %(k)s > 3)", "select id from t where exists (select k from u where %(w)s > 3)", "select id, (select max(%(w)s) from u) as m from t",
    "select id, a + (select count(*) from u) as m from t where b < (select max(%(w)s) from u)", "select id from t where a > (select min(x) from (select %(w)s as x from u) d)",
    "select x.id, y.w from t x join u y on x.a = y.k", "select x.id, %(yw)s as w from t x left join u y on x.id = y.k", "select x.id, y.w from t x left join (select k, %(w)s as w from u) y on x.id = y.k", "select x.id, y.n from t x left join (select k, count(*) as n, max(%(w)s) as m from u group by k) y on x.id = y.k",
    "select x.id, y.id as j from t x join t y on x.a = y.b where x.id < 5", "select x.b, sum(y.w) as s from t x join u y on x.id = y.k group by x.b",
    "select %(a)s as x from t union all select k from u", "select a as x from t union select %(k)s from u", "select x from (select a as x from t union all select %(k)s from u) d order by x limit 2", "select id from t where a in (select k from u union select %(b)s from t)",
    "select a as x from t union all (select %(w)s from u order by w limit 1)", "select max(%(a)s) as x from t union all select count(*) from u union select 5",
    "with d as (select %(a)s as x from t) select x from d", "with d as (select a as x from t), e as (select %(xx)s + 1 as x from d) select x from e", "with d as (select a as x from t union all select %(k)s from u) select x, count(*) as n from d group by x",
    "with d as (select a as x, id as i from t) select p.x, q.x as y from d p join d q on p.i = q.i", "with d(y) as (select %(a)s from t) select max(y) as m from d", "with d as (select a as x from t) select x from d where x in (select %(x)s from d)",
    "select case when a > 3 then %(a)s else %(b)s end as x from t", "select if(%(a)s > 3, 1, 0) as x, concat(a, '-') as y from t where a between 0 and 9 or b is null", "select 1 as x", "select group_concat(%(a)s) as x from t",
]


def harnesses(tier):
    hs = []
    T = tier == "thorough"

    def sql(s, fault):
        cols = {"a": "a", "b": "b", "w": "w", "k": "k", "x": "x", "yw": "y.w", "xx": "x"}
        return s % {c: "boom(%s)" % v if fault else v for c, v in cols.items()}

    def load(ctx, e, n=2):
        t = table(ctx, n, "", "ab", 0, 9)
        u = [{"k": ctx.int("k%d" % i, 0, 9), "w": ctx.int("w%d" % i, 0, 9)} for i in range(2)]
        e.load("t", t)
        e.load("u", u)
        for d in "dexy":
            e.load(d, [{"x": 100, "k": 101, "w": 102, "i": 103}])

    def state(e):
        return dict((k, [dict(r) for r in v]) for k, v in e.collections().items() if v)

    def twice(s, print_=False, pre="", into="insert into `r_out` "):
        def fn(ctx):
            with Engine() as e:
                load(ctx, e)
                before = state(e)
                names = set(e.e.executor.env_variables)
                out = []
                for i in range(2):
                    if print_:
                        out.append(e.printed(pre + sql(s, False)))
                    else:
                        e.execute(pre + into + sql(s, False))
                        out.append(e.pop("r_out"))
                after = state(e)
                names = sorted(set(e.e.executor.env_variables) - names)
            ctx.meta["out"] = out
            ctx.check(same(after, before), "tables")
            ctx.check(same(out[0], out[1]), "the same again")
            ctx.check(names == (["@batch"] if "@batch" in pre else []), "variables")
        hs.append(H("%s%s%s" % ("print " if print_ else "", pre, s), fn, "2 and 2 rows of 0..9"))

    def into(s):
        def fn(ctx):
            with Engine() as e:
                load(ctx, e)
                before = state(e)
                out = []
                for i in range(2):
                    e.execute(s)
                    out.append(e.e.get_variable("v"))
                after = state(e)
                names = sorted(k for k in e.e.executor.env_variables if k not in ("@v",))
            ctx.check(same(after, before), "tables")
            ctx.check(same(out[0], out[1]), "the same again")
            ctx.check(names == [], "variables")
        hs.append(H(s, fn, "2 and 2 rows of 0..9"))

    def fault(s, pre=""):
        """the statement is interrupted while it reads some row; afterwards all is as before and it runs as on a new engine"""
        def fn(ctx):
            at = ctx.int("at", 0, 9)
            skip = ctx.choice("skip", (0, 1, 2) if T else (0, 1))
            left = [skip]

            def boom(x):
                if x is not None and x == at:
                    left[0] -= 1
                    if left[0] < 0:
                        raise KeyboardInterrupt()
                return x
            with Engine() as e:
                load(ctx, e)
                e.e.use("boom", boom)
                before = state(e)
                try:
                    e.execute(pre + "insert into `r_out` " + sql(s, True))
                    hit = False
                except KeyboardInterrupt:
                    hit = True
                done = e.pop("r_out")
                after = state(e)
                left[0] = 10 ** 6
                e.execute(pre + "insert into `r_out` " + sql(s, True))
                out = e.pop("r_out")
                with Engine() as f:
                    for n in "tudexy":
                        f.load(n, before["--." + n])
                    f.execute(pre + "insert into `r_out` " + sql(s, False))
                    exp = f.pop("r_out")
            ctx.meta["out"] = out
            ctx.check(same(after, before), "tables after the interruption")
            ctx.check(same(out, exp), "the statement afterwards")
            ctx.check(hit or same(done, exp), "the statement that was not interrupted")
        hs.append(H("interrupted %s%s" % (pre, s), fn, "2 and 2 rows of 0..9, interrupted at any value, its first or second row"))

    for i, s in enumerate(SHAPES):
        twice(s)
        if i % 3 == 0 or T:
            twice(s, True)
        if "union" not in s and (i % 3 == 1 or T):
            twice(s, pre="set @batch=1; ")
        if "%(" in s:
            fault(s)
            if T and "union" not in s:
                fault(s, "set @batch=1; ")
    for s in ("select max(a) into @v from t", "select a, b into @v from t", "with d as (select a as x from t) select max(x) into @v from d", "select max(x) into @v from (select a as x from t union all select k from u) d",
              "set @v=(select max(x) from (select a as x from t) d)", "select a into @v from t where id in (select k from u) order by b limit 1"):
        into(s)

    # statements of one script
    def script(i, j):
        s, r = SHAPES[i], SHAPES[j]

        def fn(ctx):
            with Engine() as e:
                load(ctx, e, 2 if T else 1)
                before = state(e)
                e.execute("insert into `o1` %s; insert into `o2` %s; insert into `o3` %s" % (sql(s, False), sql(r, False), sql(s, False)))
                out = [e.pop("o%d" % k) for k in (1, 2, 3)]
                after = state(e)
                e.execute("insert into `o2` " + sql(r, False))
                second = e.pop("o2")
            ctx.check(same(after, before), "tables")
            ctx.check(same(out[0], out[2]) & same(out[1], second), "the same again")
        hs.append(H("script %s; %s" % (s, r), fn, "%d and 2 rows of 0..9" % (2 if T else 1)))
    nested = [i for i, s in enumerate(SHAPES) if s.count("select") > 1]
    for k, i in enumerate(nested):
        for d in ((5, 9, 11) if T else (7,)):
            script(i, nested[(k + d) % len(nested)])

    # SELECT INTO from a source that is read in batches
    def into_fault(s, batch):
        def fn(ctx):
            at = ctx.int("at", 0, 9)

            def boom(x):
                if x is not None and x == at:
                    raise KeyboardInterrupt()
                return x
            with Engine({"databases": [{"name": "mdb", "driver": "memory"}]}) as e:
                load(ctx, e)
                e.e.use("boom", boom)
                db = e.e.get_database("mdb")
                db.ensure_memory_databases()
                db.memory_databases["mdb.t"] = [dict(r) for r in e.collections()["--.t"]] + [{"id": 2, "a": ctx.int("a2", 0, 9), "b": 7}]
                before = state(e)
                hit = True
                try:
                    e.execute("set @batch=%d; " % batch + s)
                    hit = False
                except KeyboardInterrupt:
                    pass
                after = state(e)
                a = [r["a"] for r in db.memory_databases["mdb.t"] if "b < 8" not in s or bool(r["b"] < 8)]
            ctx.check(same(after, before), "tables")
            ctx.check(hit == bool(disj([x == at for x in a])), "the interruption")
        hs.append(H("interrupted batches of %d %s" % (batch, s), fn, "3 rows of 0..9, interrupted at any value"))
    for s in ("select boom(a) as x into @v from mdb.t", "select id, boom(a) as x into @v from mdb.t", "select boom(a) as x into @v from mdb.t where b < 8",
              "select x.id, boom(x.a) as a into @v from mdb.t x left join u y on x.id = y.k", "select max(boom(a)) into @v from mdb.t", "select boom(a) + (select max(w) from u) as x into @v from mdb.t"):
        for batch in (1, 2):
            into_fault(s, batch)

    # what a DELETE or an updating INSERT leaves
    def other(s, keep):
        def fn(ctx):
            with Engine() as e:
                load(ctx, e)
                e.load("o", [{"id": 0, "a": 5}, {"id": 7, "a": 6}])
                before = state(e)
                e.execute(s)
                after = state(e)
                names = sorted(k for k in e.e.executor.env_variables)
            ctx.check(same(dict((k, v) for k, v in after.items() if k not in keep), dict((k, v) for k, v in before.items() if k not in keep)), "the other tables")
            ctx.check(names == [], "variables")
        hs.append(H(s, fn, "2 and 2 rows of 0..9"))
    other("delete from o", ("--.o",))
    other("delete from t where a > 3", ("--.t",))
    other("delete from t where a in (select k from u)", ("--.t",))
    other("delete from t where a > (select max(x) from (select w as x from u) d)", ("--.t",))
    for m in ("I", "UI", "U", "UDI", "DI"):
        other("insert into `o<%s>` select id, a from t" % m, ("--.o",))
        other("insert into `o<%s>` select id, max(a) as a from t group by id" % m, ("--.o",))
        other("insert into `o<%s>` with d as (select id, a from t) select id, a from d" % m, ("--.o",))
        other("insert into `o<%s>` select x.id, y.w as a from t x left join (select k, w from u) y on x.a = y.k" % m, ("--.o",))
        other("insert into `o<%s>` select id, a from t union select k, w from u" % m, ("--.o",))
    return hs
