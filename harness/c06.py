# -*- coding: utf-8 -*-
"""WHERE keeps exactly the rows whose predicate is TRUE."""
from .lib import *
from .shapes import atoms, compose, colp

ASSUMPTIONS = ["columns compared with a constant by <, <=, != are non-NULL (the in-memory driver, a dependency, coerces NULL there)"]


def tbl(ctx, n, cols, null=True):
    return [dict([("id", i)] + [(c, ctx.nint("%s%d" % (c, i)) if null else ctx.int("%s%d" % (c, i))) for c in cols])
            for i in range(n)]


def where(name, sql, pred, n=2, cols="ab", null=True, src="t", rows=None):
    def fn(ctx):
        rs = rows(ctx) if rows else tbl(ctx, n, cols, null)
        out = run("select id from %s where %s" % (src, sql), {"t": rs})
        ctx.meta["out"] = out
        exp = [{"id": r["id"]} for r in rs if is_true(pred(r))]
        ctx.check(same(out, exp), "rows kept by WHERE %s" % sql)
    return H(name, fn, "%d rows; %s: any int%s" % (n, ",".join(cols), " or NULL" if null else ""))


def b(x):
    """AND/OR operands: NULL counts as not true"""
    return False if x is None else x


def strows(n, maxlen=2, null=False):
    def mk(ctx):
        rs = []
        for i in range(n):
            if null:
                v = ctx.nullable("s%d" % i, lambda nm: ctx.str(nm, maxlen))
            else:
                v = ctx.str("s%d" % i, maxlen)
            rs.append({"id": i, "s": v})
        return rs
    return mk


def harnesses(tier):
    hs = []
    T = tier == "thorough"
    for op in ("=", "!=", "<>", "<", "<=", ">", ">="):
        safe = op in ("=", ">", ">=")
        flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        k = 4 if T else 3
        hs.append(where("col_const" + op, "a %s 5" % op, lambda r, op=op: cmp3(op, r["a"], 5), k, "a", safe))
        hs.append(where("const_col" + op, "5 %s a" % op, lambda r, op=op: cmp3(op, 5, r["a"]), k, "a", flip in ("=", ">", ">=")))
        hs.append(where("col_neg" + op, "a %s -3" % op, lambda r, op=op: cmp3(op, r["a"], -3), 2, "a", False))
        hs.append(where("col_col" + op, "a %s b" % op, lambda r, op=op: cmp3(op, r["a"], r["b"]), 3 if T else 2))
        hs.append(where("expr" + op, "a + b %s 5" % op,
                        lambda r, op=op: cmp3(op, None if r["a"] is None or r["b"] is None else r["a"] + r["b"], 5)))
        hs.append(where("expr_r" + op, "a %s b * 2" % op,
                        lambda r, op=op: cmp3(op, r["a"], None if r["b"] is None else r["b"] * 2)))
        hs.append(where("not" + op, "not (a %s 5)" % op, lambda r, op=op: not3(cmp3(op, r["a"], 5)), 3, "a"))
        hs.append(where("alias" + op, "x.a %s 5" % op, lambda r, op=op: cmp3(op, r["a"], 5), 2, "a", False, "t x"))
        hs.append(where("and_c" + op, "a %s 5 and b = 1" % op, lambda r, op=op: and3(cmp3(op, r["a"], 5), cmp3("=", r["b"], 1)), 2, "ab", False))
        hs.append(where("or_c" + op, "a %s 5 or b = 1" % op, lambda r, op=op: or3(cmp3(op, r["a"], 5), cmp3("=", r["b"], 1)), 2, "ab"))
    hs.append(where("isnull", "a is null", lambda r: r["a"] is None))
    hs.append(where("isnotnull", "a is not null", lambda r: r["a"] is not None))
    hs.append(where("isnull_and", "a is null and b > 2", lambda r: r["a"] is None and b(cmp3(">", r["b"], 2))))
    hs.append(where("in", "a in (1,5,7)", lambda r: in3(r["a"], [1, 5, 7])))
    hs.append(where("in_expr", "a in (b, b+1, 7)", lambda r: in3(r["a"], [r["b"], None if r["b"] is None else r["b"] + 1, 7])))
    hs.append(where("notin", "a not in (1,5,7)", lambda r: not3(in3(r["a"], [1, 5, 7]))))
    hs.append(where("between", "a between 2 and 8", lambda r: and3(cmp3(">=", r["a"], 2), cmp3("<=", r["a"], 8))))
    hs.append(where("between_col", "a between b and 8", lambda r: and3(cmp3(">=", r["a"], r["b"]), cmp3("<=", r["a"], 8))))
    hs.append(where("notbetween", "a not between 2 and 8", lambda r: not3(and3(cmp3(">=", r["a"], 2), cmp3("<=", r["a"], 8)))))
    hs.append(where("and", "a > 1 and b < 3", lambda r: and3(cmp3(">", r["a"], 1), cmp3("<", r["b"], 3)), 2, "ab", False))
    hs.append(where("and_null", "a > 1 and a < b", lambda r: and3(cmp3(">", r["a"], 1), cmp3("<", r["a"], r["b"]))))
    hs.append(where("range", "a > 1 and a < 9", lambda r: and3(cmp3(">", r["a"], 1), cmp3("<", r["a"], 9)), 3, "a", False))
    hs.append(where("range2", "a > 1 and a > 3 and a <= 9 and a != 5", lambda r: conj([r["a"] > 3, r["a"] <= 9, r["a"] != 5]), 3, "a", False))
    hs.append(where("range3", "a != 5 and a != 6 and a != 7", lambda r: conj([r["a"] != 5, r["a"] != 6, r["a"] != 7]), 3, "a", False))
    hs.append(where("ins", "a in (1,2,3) and a in (2,3,4)", lambda r: disj([r["a"] == 2, r["a"] == 3]), 3, "a", False))
    hs.append(where("eqs", "a = 1 and a = 2", lambda r: False, 2, "a"))
    hs.append(where("or", "a > 1 or b < 3", lambda r: or3(cmp3(">", r["a"], 1), cmp3("<", r["b"], 3))))
    hs.append(where("or3", "a = 1 or a = 2 or b = 3", lambda r: or3(cmp3("=", r["a"], 1), cmp3("=", r["a"], 2), cmp3("=", r["b"], 3))))
    hs.append(where("notand", "not (a > 1 and b < 3)", lambda r: not3(and3(cmp3(">", r["a"], 1), cmp3("<", r["b"], 3)))))
    hs.append(where("notor", "not (a > 1 or b < 3)", lambda r: not3(or3(cmp3(">", r["a"], 1), cmp3("<", r["b"], 3)))))
    hs.append(where("mix", "(a > 1 or b < 3) and a != b", lambda r: and3(or3(cmp3(">", r["a"], 1), cmp3("<", r["b"], 3)), cmp3("!=", r["a"], r["b"]))))
    hs.append(where("mix2", "a = 1 or b = 2 and a < 9", lambda r: or3(cmp3("=", r["a"], 1), and3(cmp3("=", r["b"], 2), cmp3("<", r["a"], 9)))))
    hs.append(where("mix3", "(a = 1 or b = 2) and a < 9", lambda r: and3(or3(cmp3("=", r["a"], 1), cmp3("=", r["b"], 2)), cmp3("<", r["a"], 9)), 2, "ab", False))
    hs.append(where("mix4", "a > 1 and (b = 2 or c = 3) and c < 7", lambda r: conj([r["a"] > 1, disj([r["b"] == 2, r["c"] == 3]), r["c"] < 7]), 2, "abc", False))
    hs.append(where("mix5", "a > 1 and b < 3 or c = 4", lambda r: disj([conj([r["a"] > 1, r["b"] < 3]), r["c"] == 4]), 2, "abc", False))
    hs.append(where("true", "1 = 1 and a > 3", lambda r: cmp3(">", r["a"], 3), 2, "a", False))
    hs.append(where("func", "abs(a) > 3", lambda r: None if r["a"] is None else disj([r["a"] > 3, r["a"] < -3]), 2, "a"))
    hs.append(where("if", "if(a > 3, b, a) = 2", lambda r: cmp3("=", r["b"] if is_true(cmp3(">", r["a"], 3)) else r["a"], 2), 2, "ab"))
    hs.append(where("ifnull", "ifnull(a, 0) = 0", lambda r: r["a"] is None or r["a"] == 0, 2, "a"))
    hs.append(where("case", "case when a > 3 then 1 else 0 end = 1", lambda r: cmp3(">", r["a"], 3), 2, "a"))
    for op in ("=", "!=", "<", ">="):
        hs.append(where("str" + op, "s %s 'b'" % op, lambda r, op=op: cmp3(op, r["s"], "b"), 2, "s", False, "t", strows(2)))
    hs.append(where("str_in", "s in ('a','bc','')", lambda r: in3(r["s"], ["a", "bc", ""]), 2, "s", False, "t", strows(2)))
    hs.append(where("str_eq_null", "s = 'ab'", lambda r: cmp3("=", r["s"], "ab"), 2, "s", True, "t", strows(2, 2, True)))
    hs.append(where("str_or", "s = 'ab' or s = 'c'", lambda r: in3(r["s"], ["ab", "c"]), 2, "s", True, "t", strows(2, 2, True)))

    # every composition of the atomic predicates
    for name, p in compose(atoms("a", "b", colp("a"), colp("b")), 1 if T else 0):
        hs.append(where("cmp_" + name, p.sql, p.f, 1, "ab", p.null))

    # projection and filter are independent: the selected expressions see the kept rows
    def proj(ctx):
        rs = tbl(ctx, 2, "ab", False)
        out = run("select id, a + b as c, a as d from t where b > 2", {"t": rs})
        ctx.check(same(out, [{"id": r["id"], "c": r["a"] + r["b"], "d": r["a"]} for r in rs if r["b"] > 2]), "projected rows")
    hs.append(H("projection", proj, "2 rows, any ints"))

    def star(ctx):
        rs = tbl(ctx, 3, "ab")
        out = run("select * from t where b > 2", {"t": rs})
        ctx.check(same(out, [r for r in rs if is_true(cmp3(">", r["b"], 2))]), "select * keeps whole rows in order")
    hs.append(H("star", star, "3 rows, any ints or NULL"))
    return hs
