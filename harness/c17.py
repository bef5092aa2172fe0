# -*- coding: utf-8 -*-
"""DELETE."""
from .lib import *


def harnesses(tier):
    T = tier == "thorough"
    hs = []

    def D(cond, p, accepted=True, n=3 if T else 2, text=False, vars=(), pre="", tab="o", from_=None):
        def fn(ctx):
            o = [dict(id=ctx.int("id%d" % i), a=ctx.int("a%d" % i), s=ctx.str("s%d" % i, 2) if text else "x", c=None if i else 5) for i in range(n)]
            u = [dict(k=ctx.int("k%d" % i), w=ctx.int("w%d" % i)) for i in range(2)]
            vs = dict((v, ctx.int(v)) for v in vars)
            with Engine() as e:
                e.load("o", o)
                e.load("u", u)
                for v in vs:
                    e.e.set_variable(v, vs[v])
                sql = "%sdelete from %s%s" % (pre, from_ or "o", (" where " + cond) if cond else "")
                ok = True
                try:
                    e.execute(sql)
                except Exception as x:
                    if type(x).__name__ not in ("SyncanySqlCompileException", "ParseError"):
                        raise
                    ok = False
                out, uo = e.get("o"), e.get("u")
            ctx.meta["out"] = out
            if accepted:
                ctx.check(ok, "the statement is accepted")
            keep = [r for r in o if not is_true(p(r, u, vs))] if ok else o
            ctx.check(same(out or [], keep), "the rows that remain")
            ctx.check(same(uo, u), "other tables are unchanged")
        hs.append(H("delete " + pre + (cond or "all"), fn, "%d rows, any ints%s" % (n, ", any texts of up to 2 characters" if text else "")))

    OPS = {"=": "=", "!=": "!=", "<>": "!=", "<": "<", "<=": "<=", ">": ">", ">=": ">="}
    FL = {"=": "=", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
    D("", lambda r, u, v: True)
    for op in OPS:
        o = OPS[op]
        D("id %s 3" % op, lambda r, u, v, o=o: cmp3(o, r["id"], 3))
        D("id %s -3" % op, lambda r, u, v, o=o: cmp3(o, r["id"], -3))
        D("a %s @v" % op, lambda r, u, v, o=o: cmp3(o, r["a"], v["v"]), vars=("v",))
        D("3 %s a" % op, lambda r, u, v, o=o: cmp3(FL[o], r["a"], 3))
        D("id %s (select max(k) from u)" % op, lambda r, u, v, o=o: cmp3(o, r["id"], maxof([x["k"] for x in u])))
        for o2 in ("=", "<", ">=", "!="):
            D("id %s 3 and a %s 5" % (op, o2), lambda r, u, v, o=o, o2=o2: and3(cmp3(o, r["id"], 3), cmp3(o2, r["a"], 5)))
    D("id in (1, 3)", lambda r, u, v: in3(r["id"], [1, 3]))
    D("id in (@v, @w)", lambda r, u, v: in3(r["id"], [v["v"], v["w"]]), False, vars=("v", "w"))
    D("id in (3)", lambda r, u, v: in3(r["id"], [3]))
    D("id in (select k from u)", lambda r, u, v: in3(r["id"], [x["k"] for x in u]))
    D("id in (select k from u where w > 3)", lambda r, u, v: in3(r["id"], [x["k"] for x in u if is_true(x["w"] > 3)]))
    D("a = 2 and id in (select k from u where w > 3)", lambda r, u, v: and3(r["a"] == 2, in3(r["id"], [x["k"] for x in u if is_true(x["w"] > 3)])))
    D("(id > 1)", lambda r, u, v: r["id"] > 1)
    D("(id > 1) and (id < 4)", lambda r, u, v: and3(r["id"] > 1, r["id"] < 4))
    D("id > 1 and (a > 2 and id <= 9)", lambda r, u, v: and3(r["id"] > 1, r["a"] > 2, r["id"] <= 9))
    D("id >= 1 and id <= 9 and a != 3 and a > 0", lambda r, u, v: and3(r["id"] >= 1, r["id"] <= 9, r["a"] != 3, r["a"] > 0))
    D("id = 2 and a = 2", lambda r, u, v: and3(r["id"] == 2, r["a"] == 2))
    for op in ("=", "!=", "<", ">="):
        D("s %s 'b'" % op, lambda r, u, v, op=op: cmp3(op, r["s"], "b"), text=True, n=2)
    D("s in ('a', 'bc')", lambda r, u, v: in3(r["s"], ["a", "bc"]), text=True, n=2)
    D("x.id > 2 and x.a < 3", lambda r, u, v: and3(r["id"] > 2, r["a"] < 3), from_="o x")
    # statements that may be refused: then nothing is deleted
    M = lambda c, p, **k: D(c, p, False, **k)
    M("id not in (1, 3)", lambda r, u, v: not3(in3(r["id"], [1, 3])))
    M("id between 2 and 5", lambda r, u, v: and3(r["id"] >= 2, r["id"] <= 5))
    M("id = 1 or id = 3", lambda r, u, v: or3(r["id"] == 1, r["id"] == 3))
    M("id = 1 or a = 3", lambda r, u, v: or3(r["id"] == 1, r["a"] == 3))
    M("id > 1 and (a > 2 or id <= 9)", lambda r, u, v: and3(r["id"] > 1, or3(r["a"] > 2, r["id"] <= 9)))
    M("(a > 2 or id <= 9) and id > 1", lambda r, u, v: and3(r["id"] > 1, or3(r["a"] > 2, r["id"] <= 9)))
    M("not id = 2", lambda r, u, v: r["id"] != 2)
    M("not (id > 2 and a > 2)", lambda r, u, v: not3(and3(r["id"] > 2, r["a"] > 2)))
    M("a > 1 and not id = 2", lambda r, u, v: and3(r["a"] > 1, r["id"] != 2))
    M("a + 1 > 2", lambda r, u, v: r["a"] + 1 > 2)
    M("id > 2 and a + 1 > 2", lambda r, u, v: and3(r["id"] > 2, r["a"] + 1 > 2))
    M("a + 1 > 2 and id > 2", lambda r, u, v: and3(r["id"] > 2, r["a"] + 1 > 2))
    atoms = [("a + id > 2", lambda r: r["a"] + r["id"] > 2), ("a > id", lambda r: r["a"] > r["id"]), ("id not in (1, 3)", lambda r: not3(in3(r["id"], [1, 3]))), ("not a = 2", lambda r: r["a"] != 2),
             ("(a = 1 or id = 1)", lambda r: or3(r["a"] == 1, r["id"] == 1)), ("abs(a) > 2", lambda r: or3(r["a"] > 2, r["a"] < -2)), ("id < 5", lambda r: r["id"] < 5), ("a in (2, 4)", lambda r: in3(r["a"], [2, 4])),
             ("a between 2 and 4", lambda r: and3(r["a"] >= 2, r["a"] <= 4)), ("case when a > 2 then id else 0 end", lambda r: is_true(r["a"] > 2) and is_true(r["id"] != 0))]
    for i, (s1, f1) in enumerate(atoms):
        for j, (s2, f2) in enumerate(atoms):
            if i == j or (not T and (i + j) % 2 and i < 6 and j < 6 and i > j):
                continue
            M("%s and %s" % (s1, s2), lambda r, u, v, f1=f1, f2=f2: and3(f1(r), f2(r)))
            if i < j:
                M("%s or %s" % (s1, s2), lambda r, u, v, f1=f1, f2=f2: or3(f1(r), f2(r)))
    M("a + id > 2 and not a = 2 and id < 5", lambda r, u, v: and3(r["a"] + r["id"] > 2, r["a"] != 2, r["id"] < 5))
    M("id < 5 and (a + id > 2 and not a = 2)", lambda r, u, v: and3(r["a"] + r["id"] > 2, r["a"] != 2, r["id"] < 5))
    M("a = id", lambda r, u, v: r["a"] == r["id"])
    M("a > id and id > 2", lambda r, u, v: and3(r["a"] > r["id"], r["id"] > 2))
    M("c is null", lambda r, u, v: r["c"] is None)
    M("id > 2 and c is null", lambda r, u, v: and3(r["id"] > 2, r["c"] is None))
    M("c is not null", lambda r, u, v: r["c"] is not None)
    M("id > 1 and id > 3", lambda r, u, v: r["id"] > 3)
    M("id > 3 and id > 1", lambda r, u, v: r["id"] > 3)
    M("id < 1 and id < 3", lambda r, u, v: r["id"] < 1)
    M("id >= 3 and id > 1 and id >= 1", lambda r, u, v: r["id"] >= 3)
    M("id <= 1 and a > 2 and id <= 3", lambda r, u, v: and3(r["id"] <= 1, r["a"] > 2))
    M("id = 1 and id = 2", lambda r, u, v: False)
    M("id != 1 and id != 2", lambda r, u, v: and3(r["id"] != 1, r["id"] != 2))
    M("id in (1, 2) and id in (2, 3)", lambda r, u, v: r["id"] == 2)
    M("id = 2 and id in (1, 3)", lambda r, u, v: False)
    M("id in (1, 3) and id = 2", lambda r, u, v: False)
    M("id = 1 and id > 3", lambda r, u, v: False)
    M("id > 3 and id = 1", lambda r, u, v: False)
    M("id in (1, 5) and id > 3", lambda r, u, v: r["id"] == 5)
    M("id != 5 and id > 3", lambda r, u, v: and3(r["id"] != 5, r["id"] > 3))
    M("id > 3 and id in (select k from u) and id != @v", lambda r, u, v: and3(r["id"] > 3, in3(r["id"], [x["k"] for x in u]), r["id"] != v["v"]), vars=("v",))
    M("1 = 1", lambda r, u, v: True)
    M("1 = 0", lambda r, u, v: False)
    M("true", lambda r, u, v: True)
    M("id % 2 = 0", lambda r, u, v: r["id"] % 2 == 0)
    M("abs(id) > 2", lambda r, u, v: or3(r["id"] > 2, r["id"] < -2))
    M("exists (select k from u where w > 3)", lambda r, u, v: any(is_true(x["w"] > 3) for x in u))
    M("id > 2 and exists (select k from u where w > 3)", lambda r, u, v: and3(r["id"] > 2, any(is_true(x["w"] > 3) for x in u)))
    M("case when id > 2 then 1 else 0 end", lambda r, u, v: r["id"] > 2)
    M("if(id > 2, 1, 0) = 1", lambda r, u, v: r["id"] > 2)
    M("id > 2 limit 1", lambda r, u, v: r["id"] > 2)
    M("s like 'a%'", lambda r, u, v: r["s"][:1] in ("a", "A"), text=True, n=2)

    # settings of the session do not limit a deletion; it takes part in a sequence of statements
    for pre in ("set @limit=1; ", "set @batch=1; ", "set @use_output_type='UPDATE'; "):
        D("a > 3", lambda r, u, v: r["a"] > 3, pre=pre)

    def seq(ctx):
        o = [dict(id=ctx.int("id%d" % i), a=ctx.int("a%d" % i)) for i in range(2)]
        t = [dict(id=ctx.int("tid%d" % i), a=ctx.int("ta%d" % i)) for i in range(2)]
        with Engine() as e:
            e.load("o", o)
            e.load("t", t)
            e.execute("insert into o select id, a from t where a > 2; delete from o where a >= 5; insert into o select id, a from t where a = 7; insert into r select count(*) as n, max(id) as m from o")
            out, r = e.get("o"), e.get("r")
        exp = [x for x in o + [x for x in t if is_true(x["a"] > 2)] if not is_true(x["a"] >= 5)] + [x for x in t if is_true(x["a"] == 7)]
        ctx.check(same(out or [], exp), "contents")
        ctx.check(same(r or [], [{"n": len(exp), "m": maxof([x["id"] for x in exp])}] if exp else []), "what a SELECT sees afterwards")
    hs.append(H("insert, delete, insert, select", seq, "2 and 2 rows"))

    def twice(ctx):
        o = [dict(id=ctx.int("id%d" % i), a=ctx.int("a%d" % i)) for i in range(3)]
        with Engine() as e:
            e.load("o", o)
            e.execute("delete from o where a > 5")
            e.execute("delete from o where id = 2")
            out = e.get("o")
        ctx.check(same(out or [], [x for x in o if not is_true(or3(x["a"] > 5, x["id"] == 2))]), "contents")
    hs.append(H("two deletions", twice, "3 rows"))
    return hs
