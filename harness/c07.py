# -*- coding: utf-8 -*-
"""Scalar logic: comparisons, IN, IS NULL, NOT, AND/OR, IF, IFNULL, COALESCE, CASE."""
from .lib import *

OPS = ("=", "!=", "<>", "<", "<=", ">", ">=")


def harnesses(tier):
    hs = []
    A = hs.append
    for op in OPS:
        A(scalar("col_col" + op, "a %s b" % op, lambda r, op=op: tf(cmp3(op, r["a"], r["b"]))))
        A(scalar("const_col" + op, "5 %s a" % op, lambda r, op=op: tf(cmp3(op, 5, r["a"])), "a"))
        A(scalar("col_const" + op, "a %s 5" % op, lambda r, op=op: tf(cmp3(op, r["a"], 5)), "a"))
        A(scalar("null" + op, "a %s null" % op, lambda r: None, "a"))
        A(scalar("not" + op, "not (a %s b)" % op, lambda r, op=op: tf(not3(cmp3(op, r["a"], r["b"])))))
        A(scalar("if" + op, "if(a %s b, a, 7)" % op, lambda r, op=op: r["a"] if is_true(cmp3(op, r["a"], r["b"])) else 7))
        A(scalar("case" + op, "case when a %s b then 1 else 2 end" % op, lambda r, op=op: 1 if is_true(cmp3(op, r["a"], r["b"])) else 2))

        def sc(ctx, op=op):
            s, t = ctx.nullable("s", lambda n: ctx.str(n, 2)), ctx.nullable("u", lambda n: ctx.str(n, 2))
            out = run("select s %s u as x from t" % op, {"t": [{"id": 1, "s": s, "u": t}]})
            ctx.check(same(out, [{"x": tf(cmp3(op, s, t))}]), "string comparison " + op)
        A(H("str" + op, sc, "two strings up to 2 printable characters, or NULL"))

        def rc(ctx, op=op):
            a, b = ctx.int("a", -10**6, 10**6), ctx.real("b", -10**6, 10**6, den=4)
            out = run("select a %s b as x, b %s a as y from t" % (op, op), {"t": [{"id": 1, "a": a, "b": b}]})
            ctx.check(same(out, [{"x": tf(cmp3(op, a, b)), "y": tf(cmp3(op, b, a))}]), "int/float comparison " + op)
        A(H("num" + op, rc, "ints and quarters within +-10^6"))
    tt = lambda n, sql, val, cols="ab": A(scalar(n, "if(%s, 1, 0)" % sql, lambda r: 1 if val(r) else 0, cols))
    tt("and", "a and b", lambda r: bool(tr(r["a"])) and bool(tr(r["b"])))
    for o in ("and", "or"):
        f = and3 if o == "and" else or3
        A(scalar("val3" + o, "a %s b %s c" % (o, o), lambda r, f=f: tf(f(r["a"], r["b"], r["c"])), "abc"))
        A(scalar("val2" + o, "a %s b" % o, lambda r, f=f: tf(f(r["a"], r["b"]))))
        A(scalar("nval2" + o, "not (a %s b)" % o, lambda r, f=f: tf(not3(f(r["a"], r["b"])))))
    tt("or", "a or b", lambda r: bool(tr(r["a"])) or bool(tr(r["b"])))
    tt("and3", "a and b and c", lambda r: bool(tr(r["a"])) and bool(tr(r["b"])) and bool(tr(r["c"])), "abc")
    tt("or3", "a or b or c", lambda r: bool(tr(r["a"])) or bool(tr(r["b"])) or bool(tr(r["c"])), "abc")
    tt("prec1", "a or b and c", lambda r: bool(tr(r["a"])) or (bool(tr(r["b"])) and bool(tr(r["c"]))), "abc")
    tt("prec2", "a and b or c", lambda r: (bool(tr(r["a"])) and bool(tr(r["b"]))) or bool(tr(r["c"])), "abc")
    tt("prec3", "(a or b) and c", lambda r: (bool(tr(r["a"])) or bool(tr(r["b"]))) and bool(tr(r["c"])), "abc")
    tt("andc", "a > 1 and b < 3", lambda r: tr(and3(tr(cmp3(">", r["a"], 1)), tr(cmp3("<", r["b"], 3)))))
    tt("orc", "a > 1 or b < 3", lambda r: tr(or3(tr(cmp3(">", r["a"], 1)), tr(cmp3("<", r["b"], 3)))))
    tt("between", "a between 2 and b", lambda r: tr(and3(cmp3(">=", r["a"], 2), cmp3("<=", r["a"], r["b"]))))
    tt("between3", "a between b and c", lambda r: tr(and3(cmp3(">=", r["a"], r["b"]), cmp3("<=", r["a"], r["c"]))), "abc")
    A(scalar("andv", "a > 1 and b < 3", lambda r: tf(and3(r["a"] > 1, r["b"] < 3)), null=False))
    A(scalar("orv", "a > 1 or b < 3", lambda r: tf(or3(r["a"] > 1, r["b"] < 3)), null=False))
    A(scalar("betweenv", "a between 2 and b", lambda r: tf(and3(cmp3(">=", r["a"], 2), cmp3("<=", r["a"], r["b"])))))
    A(scalar("notbetweenv", "a not between 2 and b", lambda r: tf(not3(and3(cmp3(">=", r["a"], 2), cmp3("<=", r["a"], r["b"]))))))
    A(scalar("not", "not a", lambda r: tf(not3(r["a"])), "a"))
    A(scalar("notnot", "not (not a)", lambda r: tf(not3(not3(r["a"]))), "a"))
    A(scalar("notand", "not (a > 1 and b < 3)", lambda r: tf(not3(and3(cmp3(">", r["a"], 1), cmp3("<", r["b"], 3))))))
    A(scalar("notor", "not (a > 1 or b < 3)", lambda r: tf(not3(or3(cmp3(">", r["a"], 1), cmp3("<", r["b"], 3))))))
    A(scalar("isnull", "a is null", lambda r: tf(r["a"] is None), "a"))
    A(scalar("isnotnull", "a is not null", lambda r: tf(r["a"] is not None), "a"))
    A(scalar("isnullf", "is_null(a)", lambda r: tf(r["a"] is None), "a"))
    A(scalar("isnull_e", "(a + b) is null", lambda r: tf(r["a"] is None or r["b"] is None)))
    A(scalar("in", "a in (1,5,b)", lambda r: tf(in3(r["a"], [1, 5, r["b"]]))))
    A(scalar("inc", "a in (1,5)", lambda r: tf(in3(r["a"], [1, 5])), "a"))
    A(scalar("innull", "a in (1,null)", lambda r: tf(in3(r["a"], [1, None])), "a"))
    A(scalar("notin", "a not in (1,5)", lambda r: tf(not3(in3(r["a"], [1, 5]))), "a"))
    A(scalar("notin2", "a not in (1,b)", lambda r: tf(not3(in3(r["a"], [1, r["b"]])))))
    A(scalar("if", "if(a > 5, b, 7)", lambda r: r["b"] if is_true(cmp3(">", r["a"], 5)) else 7))
    A(scalar("ifn", "if(a, b, c)", lambda r: r["b"] if bool(tr(r["a"])) else r["c"], "abc"))
    A(scalar("ifif", "if(a > 5, if(b > 5, 1, 2), if(b > 5, 3, 4))",
             lambda r: (1 if is_true(cmp3(">", r["b"], 5)) else 2) if is_true(cmp3(">", r["a"], 5)) else (3 if is_true(cmp3(">", r["b"], 5)) else 4)))
    A(scalar("ifnull", "ifnull(a, b)", lambda r: r["b"] if r["a"] is None else r["a"]))
    A(scalar("ifnullc", "ifnull(a, 9) + 1", lambda r: (9 if r["a"] is None else r["a"]) + 1, "a"))
    A(scalar("coalesce2", "coalesce(a, b)", lambda r: r["a"] if r["a"] is not None else r["b"]))
    A(scalar("coalesce", "coalesce(a, b, 9)", lambda r: r["a"] if r["a"] is not None else r["b"] if r["b"] is not None else 9))
    A(scalar("coalesce4", "coalesce(a, b, c, 9)", lambda r: r["a"] if r["a"] is not None else r["b"] if r["b"] is not None else r["c"] if r["c"] is not None else 9, "abc"))
    A(scalar("coalesce5", "coalesce(a, b, c, d, 9)", lambda r: next((r[k] for k in "abcd" if r[k] is not None), 9), "abcd"))
    A(scalar("case", "case when a > 5 then b when a < 2 then 3 else 4 end",
             lambda r: r["b"] if is_true(cmp3(">", r["a"], 5)) else 3 if is_true(cmp3("<", r["a"], 2)) else 4))
    A(scalar("case_order", "case when a > 5 then 1 when a > 3 then 2 when a > 1 then 3 else 4 end",
             lambda r: 1 if is_true(cmp3(">", r["a"], 5)) else 2 if is_true(cmp3(">", r["a"], 3)) else 3 if is_true(cmp3(">", r["a"], 1)) else 4, "a"))
    A(scalar("casenoelse", "case when a > 5 then b end", lambda r: r["b"] if is_true(cmp3(">", r["a"], 5)) else None))
    A(scalar("casev", "case a when 1 then b when 2 then 20 else 30 end",
             lambda r: r["b"] if is_true(cmp3("=", r["a"], 1)) else 20 if is_true(cmp3("=", r["a"], 2)) else 30))
    A(scalar("casevnoelse", "case a when 1 then b when -2 then 20 end",
             lambda r: r["b"] if is_true(cmp3("=", r["a"], 1)) else 20 if is_true(cmp3("=", r["a"], -2)) else None))
    A(scalar("casecol", "case a when b then 1 when b + 1 then 2 else 3 end",
             lambda r: 1 if is_true(cmp3("=", r["a"], r["b"])) else 2 if is_true(cmp3("=", r["a"], nn(lambda x: x + 1, r["b"]))) else 3))
    A(scalar("casecase", "case when a > 5 then case when b > 5 then 1 else 2 end else 3 end",
             lambda r: (1 if is_true(cmp3(">", r["b"], 5)) else 2) if is_true(cmp3(">", r["a"], 5)) else 3))
    A(scalar("case_and", "case when a > 1 and b > 1 then 1 when a > 1 or b > 1 then 2 else 3 end",
             lambda r: 1 if is_true(cmp3(">", r["a"], 1)) and is_true(cmp3(">", r["b"], 1)) else 2 if is_true(cmp3(">", r["a"], 1)) or is_true(cmp3(">", r["b"], 1)) else 3))

    compositions(A, tier == "thorough")

    def cs(ctx):
        s = ctx.nullable("s", lambda n: ctx.str(n, 2))
        out = run("select case s when 'a' then 1 when 'bc' then 2 when '' then 3 else 4 end as x from t", {"t": [{"id": 1, "s": s}]})
        e = 4
        if s is not None:
            e = 1 if s == "a" else 2 if s == "bc" else 3 if s == "" else 4
        ctx.check(same(out, [{"x": e}]), "CASE over a string")
    A(H("case_str", cs, "string up to 2 characters or NULL"))

    def co(ctx):
        s = ctx.nullable("s", lambda n: ctx.str(n, 2))
        out = run("select ifnull(s, 'zz') as x, coalesce(s, 'q') as y, if(s is null, 1, 0) as z from t", {"t": [{"id": 1, "s": s}]})
        ctx.check(same(out, [{"x": "zz" if s is None else s, "y": "q" if s is None else s, "z": 1 if s is None else 0}]), "IFNULL over a string")
    A(H("ifnull_str", co, "string up to 2 characters or NULL"))
    return hs


def compositions(A, T):
    from .shapes import atoms, compose, colp, NOT, P
    import itertools
    at = atoms("a", "b", colp("a"), colp("b"))
    # every IN list of up to three elements: constants, NULL, columns and expressions in every position
    els = [("5", lambda r: 5), ("null", lambda r: None), ("b", lambda r: r["b"]), ("c + 1", lambda r: nn(lambda x: x + 1, r["c"])), ("-1", lambda r: -1)]
    for n in (1, 2, 3):
        for combo in itertools.permutations(range(len(els)), n):
            if n == 3 and not T and (combo[0] * 5 + combo[1] * 3 + combo[2]) % 3:
                continue
            sql = ", ".join(els[i][0] for i in combo)
            f = lambda r, combo=combo: in3(r["a"], [els[i][1](r) for i in combo])
            A(scalar("inl (%s)" % sql, "a in (%s)" % sql, lambda r, f=f: tf(f(r)), "abc"))
            if n < 3 or T:
                A(scalar("ninl (%s)" % sql, "a not in (%s)" % sql, lambda r, f=f: tf(not3(f(r))), "abc"))
                A(scalar("einl (%s)" % sql, "a + 1 in (%s)" % sql, lambda r, combo=combo: tf(in3(nn(lambda x: x + 1, r["a"]), [els[i][1](r) for i in combo])), "abc"))
    # values of single predicates and their negations
    for i, p in enumerate(at):
        if p.kind or "coalesce" in p.sql or "if(" in p.sql:
            pass
        A(scalar("v%d" % i, p.par(), lambda r, p=p: tf(p.f(r))))
        A(scalar("nv%d" % i, "not (%s)" % p.sql, lambda r, p=p: tf(not3(p.f(r)))))
        A(scalar("ifv%d" % i, "if(%s, b, 7)" % p.sql, lambda r, p=p: r["b"] if is_true(p.f(r)) else 7))
        A(scalar("cv%d" % i, "case when %s then b else a end" % p.sql, lambda r, p=p: r["b"] if is_true(p.f(r)) else r["a"]))
    # compositions: three-valued values, and truth deciding IF and CASE WHEN
    for k, (name, p) in enumerate(compose(at, 1 if T else 0)):
        if k % 2 and not T:
            A(scalar("if " + name, "if(%s, 1, 2)" % p.sql, lambda r, p=p: 1 if is_true(p.f(r)) else 2))
        else:
            A(scalar("val " + name, p.par(), lambda r, p=p: tf(p.f(r))))
    # CASE: 1-3 branches, searched and simple, with and without ELSE
    bs = [("a > 5", at_(lambda r: cmp3(">", r["a"], 5))), ("b is null", at_(lambda r: r["b"] is None)), ("a < b", at_(lambda r: cmp3("<", r["a"], r["b"]))),
          ("a in (1, b)", at_(lambda r: in3(r["a"], [1, r["b"]])))]
    rs = [("b", lambda r: r["b"]), ("null", lambda r: None), ("a + 1", lambda r: nn(lambda x: x + 1, r["a"])), ("20", lambda r: 20)]
    for n in (1, 2, 3):
        for k, combo in enumerate(itertools.permutations(range(4), n)):
            for els_ in (None, 0, 3):
                if n == 3 and not T and k % 3 != (els_ or 0) % 3:
                    continue
                res = [rs[(i + k) % 4] for i in range(n)]
                sql = "case " + " ".join("when %s then %s" % (bs[c][0], res[i][0]) for i, c in enumerate(combo)) + (
                    "" if els_ is None else " else " + rs[els_][0]) + " end"

                def ref(r, combo=combo, res=res, els_=els_):
                    for i, c in enumerate(combo):
                        if is_true(bs[c][1](r)):
                            return res[i][1](r)
                    return None if els_ is None else rs[els_][1](r)
                A(scalar("case %s" % sql, sql, ref))
    A(scalar("casedup", "case a when 1 then 10 when 2 then b when 1 then 30 when 2 then 40 end",
             lambda r: None if r["a"] is None else 10 if bool(r["a"] == 1) else r["b"] if bool(r["a"] == 2) else None))
    cs_ = [("1", lambda r: 1), ("b", lambda r: r["b"]), ("null", lambda r: None), ("-2", lambda r: -2)]
    for n in (1, 2, 3):
        for k, combo in enumerate(itertools.permutations(range(4), n)):
            els_ = (None, 0, 3)[k % 3]
            res = [rs[(i * 3 + k) % 4] for i in range(n)]
            sql = "case a " + " ".join("when %s then %s" % (cs_[c][0], res[i][0]) for i, c in enumerate(combo)) + (
                "" if els_ is None else " else " + rs[els_][0]) + " end"

            def ref(r, combo=combo, res=res, els_=els_):
                for i, c in enumerate(combo):
                    if is_true(cmp3("=", r["a"], cs_[c][1](r))):
                        return res[i][1](r)
                return None if els_ is None else rs[els_][1](r)
            A(scalar("casev %s" % sql, sql, ref))
    # COALESCE / IFNULL nesting
    vs = [("a", lambda r: r["a"]), ("b", lambda r: r["b"]), ("c", lambda r: r["c"]), ("null", lambda r: None), ("9", lambda r: 9), ("0", lambda r: 0),
          ("b + c", lambda r: nn(lambda x, y: x + y, r["b"], r["c"]))]
    first = lambda xs: next((x for x in xs if x is not None), None)
    for i, j in itertools.permutations(range(len(vs)), 2):
        if vs[i][0] in "90":
            continue
        A(scalar("ifnull(%s, %s)" % (vs[i][0], vs[j][0]), "ifnull(%s, %s)" % (vs[i][0], vs[j][0]), lambda r, i=i, j=j: first([vs[i][1](r), vs[j][1](r)]), "abc"))
    for k, combo in enumerate(itertools.permutations(range(len(vs)), 3)):
        if k % (1 if T else 5):
            continue
        sql = ", ".join(vs[i][0] for i in combo)
        A(scalar("coalesce(%s)" % sql, "coalesce(%s)" % sql, lambda r, combo=combo: first([vs[i][1](r) for i in combo]), "abc"))


def at_(f):
    return f
