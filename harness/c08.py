# -*- coding: utf-8 -*-
"""Arithmetic, bitwise and number functions."""
from fractions import Fraction
from .lib import *

M = 10 ** 6


def rrow(ctx, lo=-M, hi=M, den=4, cols="xy"):
    return dict((c, ctx.nullable(c, lambda n: ctx.real(n, lo, hi, den))) for c in cols)


def tmod(a, b):
    """remainder with the sign of the dividend"""
    q = abs(a) % abs(b)
    return ite(a < 0, -q, q)


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    A = hs.append
    B = dict(lo=-2 ** 40, hi=2 ** 40)
    A(scalar("add", "a + b", lambda r: nn(lambda a, b: a + b, r["a"], r["b"])))
    A(scalar("sub", "a - b", lambda r: nn(lambda a, b: a - b, r["a"], r["b"])))
    A(scalar("mul", "a * b", lambda r: nn(lambda a, b: a * b, r["a"], r["b"])))
    A(scalar("mul3", "a * 3", lambda r: nn(lambda a: a * 3, r["a"]), "a"))
    A(scalar("neg", "-a", lambda r: nn(lambda a: -a, r["a"]), "a"))
    A(scalar("div", "a / b", lambda r: None if r["a"] is None or r["b"] is None or bool(r["b"] == 0) else r["a"] / r["b"], **B))
    A(scalar("div4", "a / 4", lambda r: nn(lambda a: a / 4, r["a"]), "a", **B))
    A(scalar("div0", "a / 0", lambda r: None, "a"))
    A(scalar("mod3", "a % 3", lambda r: nn(lambda a: tmod(a, 3), r["a"]), "a"))
    A(scalar("mod", "a % b", lambda r: None if r["a"] is None or r["b"] is None or bool(r["b"] == 0) else tmod(r["a"], r["b"]), lo=-30, hi=30))
    A(scalar("mod0", "a % 0", lambda r: None, "a"))
    A(scalar("prec", "a + b * 2 - 1", lambda r: nn(lambda a, b: a + b * 2 - 1, r["a"], r["b"])))
    A(scalar("prec2", "a - b - c", lambda r: nn(lambda a, b, c: a - b - c, r["a"], r["b"], r["c"]), "abc"))
    A(scalar("prec3", "a - (b - c)", lambda r: nn(lambda a, b, c: a - (b - c), r["a"], r["b"], r["c"]), "abc"))
    A(scalar("prec4", "a - b + c", lambda r: nn(lambda a, b, c: a - b + c, r["a"], r["b"], r["c"]), "abc"))
    A(scalar("prec5", "2 * a + 3 * b", lambda r: nn(lambda a, b: 2 * a + 3 * b, r["a"], r["b"])))
    A(scalar("paren", "(a + b) * 2 - (1 - a)", lambda r: nn(lambda a, b: (a + b) * 2 - (1 - a), r["a"], r["b"])))
    A(scalar("negprec", "-a + b", lambda r: nn(lambda a, b: -a + b, r["a"], r["b"])))
    A(scalar("bool", "(a > b) + (a < b) + (a = b)", lambda r: nn(lambda a, b: ite(True, 1, 1), r["a"], r["b"])))
    A(scalar("cmpprec", "a + 1 > b * 2", lambda r: tf(nn(lambda a, b: a + 1 > b * 2, r["a"], r["b"]))))
    W = dict(lo=-100, hi=100)
    A(scalar("bitand", "a & b", lambda r: nn(lambda a, b: a & b, r["a"], r["b"]), **W))
    A(scalar("bitor", "a | b", lambda r: nn(lambda a, b: a | b, r["a"], r["b"]), **W))
    A(scalar("bitxor", "a ^ b", lambda r: nn(lambda a, b: a ^ b, r["a"], r["b"]), **W))
    A(scalar("bitnot", "~a", lambda r: nn(lambda a: -a - 1, r["a"]), "a"))
    A(scalar("shl", "a << b", lambda r: nn(lambda a, b: a * 2 ** b, r["a"], r["b"]), lo=0, hi=6))
    A(scalar("shr", "a >> b", lambda r: nn(lambda a, b: a // (2 ** b), r["a"], r["b"]), lo=0, hi=6))
    for f, g in (("bitwiseand", lambda a, b: a & b), ("bitwiseor", lambda a, b: a | b), ("bitwisexor", lambda a, b: a ^ b)):
        A(scalar("fn_" + f, "%s(a, b)" % f, lambda r, g=g: nn(g, r["a"], r["b"]), **W))
    A(scalar("abs", "abs(a)", lambda r: nn(lambda a: ite(a < 0, -a, a), r["a"]), "a"))
    A(scalar("sign", "sign(a)", lambda r: nn(lambda a: ite(a < 0, -1, ite(a > 0, 1, 0)), r["a"]), "a"))
    A(scalar("greatest", "greatest(a, b)", lambda r: ite(r["a"] > r["b"], r["a"], r["b"]), null=False))
    A(scalar("greatest3", "greatest(a, b, c)", lambda r: mx([r["a"], r["b"], r["c"]]), "abc", null=False))
    A(scalar("least", "least(a, b)", lambda r: ite(r["a"] < r["b"], r["a"], r["b"]), null=False))
    A(scalar("least3", "least(a, b, c)", lambda r: mn([r["a"], r["b"], r["c"]]), "abc", null=False))
    A(scalar("greatest_null", "greatest(a, b)", lambda r: nn(lambda a, b: ite(a > b, a, b), r["a"], r["b"])))
    A(scalar("least_null", "least(a, b, 4)", lambda r: nn(lambda a, b: mn([a, b, 4]), r["a"], r["b"])))
    A(scalar("pow2", "pow(a, 2)", lambda r: nn(lambda a: a * a, r["a"]), "a", lo=-1000, hi=1000))
    A(scalar("power3", "power(a, 3)", lambda r: nn(lambda a: a * a * a, r["a"]), "a", lo=-1000, hi=1000))

    def real(name, sql, val, cols="x", **k):
        def fn(ctx):
            r = rrow(ctx, cols=cols, **k)
            out = run("select %s as v from t" % sql, {"t": [dict(r, id=1)]})
            ctx.meta["out"] = out
            ctx.check(same(out, [{"v": val(r)}]), "value of %s" % sql)
        A(H(name, fn, "quarters within +-10^6, or NULL"))
    real("radd", "x + y", lambda r: nn(lambda x, y: x + y, r["x"], r["y"]), "xy")
    real("rsub", "x - y", lambda r: nn(lambda x, y: x - y, r["x"], r["y"]), "xy")
    real("rmul", "x * y", lambda r: nn(lambda x, y: x * y, r["x"], r["y"]), "xy")
    real("rdiv", "x / 2", lambda r: nn(lambda x: x / 2, r["x"]))
    real("rabs", "abs(x)", lambda r: nn(lambda x: ite(x < 0, -x, x), r["x"]))
    real("rsign", "sign(x)", lambda r: nn(lambda x: ite(x < 0, -1, ite(x > 0, 1, 0)), r["x"]))
    real("rneg", "-x", lambda r: nn(lambda x: -x, r["x"]))

    def rounding(name, sql, rel):
        def fn(ctx):
            r = rrow(ctx, cols="x")
            out = run("select %s as v from t" % sql, {"t": [dict(r, id=1)]})
            ctx.meta["out"] = out
            v, x = out[0]["v"], r["x"]
            if x is None:
                ctx.check(v is None, sql + " of NULL")
            else:
                ctx.check(rel(v, x), "value of " + sql)
        A(H(name, fn, "quarters within +-10^6, or NULL"))
    isint = lambda v: same(v % 1, 0)
    rounding("floor", "floor(x)", lambda v, x: conj([isint(v), v <= x, x < v + 1]))
    rounding("ceil", "ceil(x)", lambda v, x: conj([isint(v), v >= x, x > v - 1]))
    rounding("ceiling", "ceiling(x)", lambda v, x: conj([isint(v), v >= x, x > v - 1]))
    rounding("round0", "round(x, 0)", lambda v, x: conj([isint(v), v - x <= 0.5, x - v <= 0.5]))
    rounding("round1", "round(x, 1)", lambda v, x: conj([isint10(v), v - x <= Fr("0.0500001"), x - v <= Fr("0.0500001")]))
    rounding("roundm", "round(x, -2)", lambda v, x: conj([same(v % 100, 0), v - x <= 50, x - v <= 50]))
    compositions(hs, T)
    return hs


PREC = {"*": 3, "/": 3, "%": 3, "+": 2, "-": 2, "<<": 1, ">>": 1, "&": 0, "|": -1, "^": 4}
FUNCS = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
    "/": lambda a, b: None if bool(b == 0) else a / b,
    "%": lambda a, b: None if bool(b == 0) else tmod(a, b),
    "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
    "<<": lambda a, b: a * 2 ** b, ">>": lambda a, b: a // 2 ** b,
}


def infix(operands, ops):
    """(sql, reference) of operands joined by operators, grouped by precedence, left associative"""
    items = [(o if isinstance(o, tuple) else (str(o), (lambda r, o=o: o) if isinstance(o, int) else (lambda r, o=o: r[o]))) for o in operands]
    sql = items[0][0]
    for op, it in zip(ops, items[1:]):
        sql += " %s %s" % (op, it[0])
    vals, st = [items[0][1]], []

    def reduce_():
        op = st.pop()
        y = vals.pop()
        x = vals.pop()
        vals.append(lambda r, x=x, y=y, op=op: nn(FUNCS[op], x(r), y(r)))
    for op, it in zip(ops, items[1:]):
        while st and PREC[st[-1]] >= PREC[op]:
            reduce_()
        st.append(op)
        vals.append(it[1])
    while st:
        reduce_()
    return sql, vals[0]


def par(e):
    return ("(%s)" % e[0], e[1])


def compositions(hs, T):
    ar = ("+", "-", "*", "%", "/")
    bit = ("&", "|", "<<", ">>")
    W = dict(lo=-9, hi=9)
    N = dict(lo=0, hi=5)
    for p in ar:
        for q in ar:
            if (p, q) in (("%", "%"), ("*", "%"), ("/", "%"), ("%", "/"), ("/", "/"), ("*", "/"), ("/", "*"), ("%", "*")) and not T:
                ops = [("a", 3, 2), (7, "a", 2)]
            else:
                ops = [("a", "b", 3), ("a", 3, "b"), (7, "a", "b")]
            for k, o in enumerate(ops):
                s, f = infix(o, (p, q))
                hs.append(scalar("e%d %s" % (k, s), s, f, **W))
            s, f = infix(("a", par(infix(("b", 3) if (p, q) != ("/", "%") else (9, 2), (q,)))), (p,))
            hs.append(scalar("p " + s, s, f, **W))
            s, f = infix((par(infix(("a", "b") if q not in "%/" else ("a", 4), (q,))), 2), (p,))
            hs.append(scalar("q " + s, s, f, **W))
    for p in ("+", "-", "*"):
        for q in bit:
            for o in (("a", "b", 3), (6, "a", "b"), ("a", 2, "b")):
                for ops in ((p, q), (q, p)):
                    if ops[0] in ("<<", ">>") or ops[1] in ("<<", ">>"):
                        if p == "-" or (p == "*" and not T):
                            continue
                    s, f = infix(o, ops)
                    hs.append(scalar("b " + s, s, f, **N))
    for p in bit + ("^",):
        for q in bit + ("^",):
            for o in (("a", "b", 3), (6, "a", "b"), ("a", 2, "b")):
                if p in ("<<", ">>") and q in ("<<", ">>") and o[0] == 6:
                    continue
                s, f = infix(o, (p, q))
                hs.append(scalar("c " + s, s, f, **N))
    for p in ("+", "*", "-"):
        for ops in ((p, "^"), ("^", p)):
            s, f = infix(("a", "b", 3), ops)
            hs.append(scalar("x " + s, s, f, **N))
    for u in ("-a", "abs(a)", "-(a)", "- -a", "+a"):
        fu = (lambda r: nn(abs_, r["a"])) if "abs" in u else (lambda r: r["a"]) if u in ("- -a", "+a") else (lambda r: nn(lambda a: -a, r["a"]))
        for p in ar:
            s, f = infix(((u, fu), 3), (p,))
            hs.append(scalar("u " + s, s, f, "ab", **W))
            s, f = infix((7, (u, fu)), (p,))
            hs.append(scalar("v " + s, s, f, "ab", **W))


def abs_(a):
    return ite(a < 0, -a, a)


def Fr(s):
    return float(s)


def isint10(v):
    if isinstance(v, (int, float)):
        return abs(v * 10 - round(v * 10)) < 1e-6
    return same((v * 10) % 1, 0)


def mx(xs):
    m = xs[0]
    for x in xs[1:]:
        m = ite(x > m, x, m)
    return m


def mn(xs):
    m = xs[0]
    for x in xs[1:]:
        m = ite(x < m, x, m)
    return m
