# -*- coding: utf-8 -*-
"""predicates as (sql, reference) pairs and their systematic composition"""
from .lib import *


class P(object):
    """sql text, reference over an environment, whether NULL operands are in the claim (a comparison that the WHERE clause hands to the
    in-memory driver, a dependency, coerces NULL), whether it needs parentheses"""

    def __init__(self, sql, f, null=True, kind="", loose=False):
        self.sql, self.f, self.null, self.kind, self.loose = sql, f, null, kind, loose

    def par(self):
        return "(%s)" % self.sql if self.loose else self.sql


def AND(*ps):
    return P(" and ".join(p.par() if p.kind == "or" else p.sql for p in ps), lambda r: and3(*[p.f(r) for p in ps]),
             all(p.null for p in ps), "and", True)


def OR(*ps):
    return P(" or ".join(p.sql for p in ps), lambda r: or3(*[p.f(r) for p in ps]), True, "or", True)


def NOT(p):
    return P("not (%s)" % p.sql, lambda r: not3(p.f(r)), True, "not")


def PAR(p):
    return P("(%s)" % p.sql, p.f, p.null, "par")


def colp(col):
    return lambda r: r[col]


def plus(f, k):
    return lambda r: nn(lambda v: v + k, f(r))


def atoms(a, b, ga, gb, consts=(5, 1, 8, -3)):
    """atomic predicates over two columns; pushable ones first"""
    k, l, m, n = consts
    C = lambda op, x, y: (lambda r: cmp3(op, x(r) if callable(x) else x, y(r) if callable(y) else y))
    out = [
        P("%s = %s" % (a, k), C("=", ga, k)),
        P("%s != %s" % (a, l), C("!=", ga, l), False),
        P("%s > %s" % (a, l), C(">", ga, l)),
        P("%s < %s" % (a, m), C("<", ga, m), False),
        P("%s >= %s" % (b, n), C(">=", gb, n)),
        P("%s <= %s" % (a, k), C("<=", ga, k), False),
        P("%s < %s" % (l, a), C("<", l, ga)),
        P("%s >= %s" % (m, b), C(">=", m, gb), False),
        P("%s in (%s, %s)" % (a, k, l), lambda r: in3(ga(r), [k, l])),
        # not pushable
        P("%s + 0 = %s" % (a, k), C("=", ga, k)),
        P("%s is null" % b, lambda r: gb(r) is None),
        P("%s is not null" % a, lambda r: ga(r) is not None),
        P("%s < %s" % (a, b), C("<", ga, gb)),
        P("%s = %s + 1" % (b, a), C("=", gb, plus(ga, 1))),
        P("%s between %s and %s" % (a, l, m), lambda r: and3(cmp3(">=", ga(r), l), cmp3("<=", ga(r), m))),
        P("%s not in (%s, %s)" % (b, k, l), lambda r: not3(in3(gb(r), [k, l]))),
        P("not %s = %s" % (b, m), lambda r: not3(cmp3("=", gb(r), m))),
        P("coalesce(%s, %s) > %s" % (a, m, k), lambda r: cmp3(">", m if ga(r) is None else ga(r), k)),
        P("if(%s > %s, %s, %s) = %s" % (b, l, a, k, k), lambda r: cmp3("=", ga(r) if is_true(cmp3(">", gb(r), l)) else k, k)),
    ]
    return out


def compose(at, level):
    """(name, predicate): level 0 = a covering selection of shapes, 1 = all pairs and many triples"""
    n = len(at)
    out = []
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    if level == 0:
        pairs = [(i, j) for i, j in pairs if (i * 7 + j * 3) % 4 == 0 or (i + 1) % n == j]
    for i, j in pairs:
        out.append(("and_%d_%d" % (i, j), AND(at[i], at[j])))
        if i < j or level:
            out.append(("or_%d_%d" % (i, j), OR(at[i], at[j])))
    T = [lambda p, q, r: AND(p, q, r),
         lambda p, q, r: OR(p, q, r),
         lambda p, q, r: AND(p, OR(q, r)),
         lambda p, q, r: AND(OR(p, q), r),
         lambda p, q, r: OR(p, AND(q, r)),
         lambda p, q, r: OR(AND(p, q), r),
         lambda p, q, r: AND(p, NOT(q), r),
         lambda p, q, r: AND(p, PAR(AND(q, r))),
         lambda p, q, r: OR(PAR(OR(p, q)), r),
         lambda p, q, r: NOT(AND(p, OR(q, r))),
         lambda p, q, r: AND(p, NOT(OR(q, r))),
         lambda p, q, r: OR(NOT(AND(p, q)), r)]
    for t, f in enumerate(T):
        for i in range(n):
            for s in ((1,) if level == 0 else (1, 3, 5, 7)):
                j, k = (i + s + t) % n, (i * 2 + 5 * s + 3 * t + 1) % n
                if len(set((i, j, k))) == 3:
                    out.append(("t%d_%d_%d_%d" % (t, i, j, k), f(at[i], at[j], at[k])))
    Q = [lambda p, q, r, s: AND(p, q, r, s),
         lambda p, q, r, s: AND(OR(p, q), OR(r, s)),
         lambda p, q, r, s: OR(AND(p, q), AND(r, s)),
         lambda p, q, r, s: AND(p, OR(q, AND(r, s))),
         lambda p, q, r, s: AND(AND(p, q), AND(r, s)),
         lambda p, q, r, s: OR(p, AND(q, OR(r, s)))]
    for t, f in enumerate(Q):
        for i in range(0, n, 3 if level == 0 else 1):
            j, k, l = (i + 4 + t) % n, (i * 3 + 9 + t) % n, (i * 5 + 2) % n
            if len(set((i, j, k, l))) == 4:
                out.append(("q%d_%d_%d_%d_%d" % (t, i, j, k, l), f(at[i], at[j], at[k], at[l])))
    return out
