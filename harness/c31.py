# -*- coding: utf-8 -*-
"""a statement without INSERT prints the rows; every harness of the listed properties, run in print mode."""
import importlib
import os
from . import lib
from .lib import *

SOURCES = ("c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c18", "c20", "c21", "c22", "c24")


def printing(fn):
    def f(ctx):
        lib.PRINT[0] = True
        try:
            return fn(ctx)
        finally:
            lib.PRINT[0] = False
    return f


def harnesses(tier):
    hs = []
    T = tier == "thorough"
    step = int(os.environ.get("SX_STEP", "3" if T else "29"))
    only = os.environ.get("SX_SRC")
    for m in SOURCES:
        if only and m != only:
            continue
        for i, h in enumerate(importlib.import_module("harness." + m).harnesses("quick")):
            if i % step == 0 and (T or m not in ("c22", "c24", "c20") or i % (2 * step) == 0):
                hs.append(dict(h, name=m + " " + h["name"], fn=printing(h["fn"])))

    # columns in the order of the select list; several statements of a script each print their own rows, in order
    def cols(sql, names, f, n=2):
        def fn(ctx):
            t = table(ctx, n, "a", "b")
            u = [{"k": ctx.int("k%d" % i), "w": ctx.int("w%d" % i)} for i in range(2)]
            with Engine() as e:
                e.load("t", t)
                e.load("u", u)
                out = e.printed(sql)
                left = sorted(k for k, v in e.collections().items() if v)
            ctx.meta["out"] = out
            exp = f(t, u)
            ctx.check(conj([list(r) == names for r in out]), "columns")
            ctx.check(same(out, exp), "rows")
            ctx.check(left == ["--.t", "--.u"], "nothing is stored")
        hs.append(H("columns: " + sql, fn, "%d and 2 rows of ints or NULL" % n))
    cols("select b, a, id from t", ["b", "a", "id"], lambda t, u: pick(t, "b", "a", "id"))
    cols("select id as z, b + 1 as y, a as x from t", ["z", "y", "x"], lambda t, u: [{"z": r["id"], "y": r["b"] + 1, "x": r["a"]} for r in t])
    cols("select b, id from t where b > 3 order by id desc", ["b", "id"], lambda t, u: pick([r for r in reversed(t) if is_true(r["b"] > 3)], "b", "id"))
    cols("select count(*) as n, b from t group by b", ["n", "b"], lambda t, u: [{"n": len(g), "b": k[0]} for k, g in group(t, lambda r: [r["b"]])])
    cols("select b, max(a) as m from t group by b", ["b", "m"], lambda t, u: [{"b": k[0], "m": maxof(notnull(g, "a"))} for k, g in group(t, lambda r: [r["b"]])])
    cols("select distinct b from t", ["b"], lambda t, u: [{"b": v} for v in distinct([r["b"] for r in t])])
    cols("select y.w, x.id from t x join u y on x.b = y.k", ["w", "id"], lambda t, u: [{"w": w, "id": r["id"]} for r in t for w in ([s["w"] for s in u if is_true(s["k"] == r["b"])] or [None])])
    cols("select id, b from t union all select w, k from u", ["id", "b"], lambda t, u: pick(t, "id", "b") + [{"id": r["w"], "b": r["k"]} for r in u])
    cols("select b from t union select k from u", ["b"], lambda t, u: [{"b": v} for v in distinct([r["b"] for r in t] + [r["k"] for r in u])])
    cols("with d as (select b as x, id from t) select x from d where x > 3", ["x"], lambda t, u: [{"x": r["b"]} for r in t if is_true(r["b"] > 3)])
    cols("select x from (select b + 1 as x from t) d order by x limit 1", ["x"], lambda t, u: order_rows([{"x": r["b"] + 1} for r in t], ("x", False))[:1])
    cols("select id, row_number() over (order by b) as n from t", ["id", "n"], lambda t, u: [{"id": r["id"], "n": [q["id"] for q in order_rows(t, ("b", False))].index(r["id"]) + 1} for r in t])

    def script(ctx):
        t = table(ctx, 2, "", "ab")
        with Engine() as e:
            e.load("t", t)
            out = e.printed("select id, a from t; set @v=7; select b + @v as y from t where a > 3; insert into o select 1 as z; select max(a) as m from t; select z from o")
            o = e.get("o")
        exp = pick(t, "id", "a") + [{"y": r["b"] + 7} for r in t if is_true(r["a"] > 3)] + [{"m": maxof([r["a"] for r in t])}, {"z": 1}]
        ctx.check(same(out, exp), "the statements' rows, in order")
        ctx.check(same(o, [{"z": 1}]), "an INSERT prints nothing")
    hs.append(H("script", script, "2 rows"))
    return hs
