# -*- coding: utf-8 -*-
"""deterministic composition of expressions and aggregate queries: (sql, reference) pairs"""
from .lib import *


class Rnd(object):
    """a fixed sequence of choices (no library generator: the catalogue must not depend on the interpreter)"""

    def __init__(self, seed):
        self.x = seed * 2654435761 % 4294967291 + 1

    def __call__(self, n):
        self.x = (self.x * 48271 + 11) % 2147483647
        return (self.x >> 7) % n

    def pick(self, xs):
        return xs[self(len(xs))]


class X(object):
    """an expression: sql text, reference over an environment, binding strength (9 atom, 6 * / %, 5 + -, 3 comparison, 2 not, 1 and, 0 or)"""

    def __init__(self, sql, f, p=9):
        self.sql, self.f, self.p = sql, f, p

    def at(self, p):
        return self.sql if self.p >= p else "(%s)" % self.sql


def _cmp(op):
    return lambda a, b: X("%s %s %s" % (a.at(4), op, b.at(4)), lambda r: cmp3(op, a.f(r), b.f(r)), 3)


def const(k):
    return X(str(k), lambda r: k, 9 if k >= 0 else 4)


def col(c):
    return X(c, lambda r: r[c])


def add(a, b): return X("%s + %s" % (a.at(5), b.at(6)), lambda r: nn(lambda x, y: x + y, a.f(r), b.f(r)), 5)
def sub(a, b): return X("%s - %s" % (a.at(5), b.at(6)), lambda r: nn(lambda x, y: x - y, a.f(r), b.f(r)), 5)
def times(a, k): return X("%s * %d" % (a.at(6), k), lambda r: nn(lambda x: x * k, a.f(r)), 6)
def ifnull(a, b): return X("ifnull(%s, %s)" % (a.sql, b.sql), lambda r: b.f(r) if a.f(r) is None else a.f(r))
def coalesce(a, b): return X("coalesce(%s, %s)" % (a.sql, b.sql), lambda r: b.f(r) if a.f(r) is None else a.f(r))
def absx(a): return X("abs(%s)" % a.sql, lambda r: nn(lambda x: ite(x < 0, 0 - x, x), a.f(r)))
def iff(c, a, b): return X("if(%s, %s, %s)" % (c.sql, a.sql, b.sql), lambda r: a.f(r) if is_true(c.f(r)) else b.f(r))
def casew(c, a, b): return X("case when %s then %s else %s end" % (c.sql, a.sql, b.sql), lambda r: a.f(r) if is_true(c.f(r)) else b.f(r))


def casew2(c, a, d, b):
    return X("case when %s then %s when %s then %s end" % (c.sql, a.sql, d.sql, b.sql),
             lambda r: a.f(r) if is_true(c.f(r)) else b.f(r) if is_true(d.f(r)) else None)


def casev(a, k, b, c):
    return X("case %s when %d then %s else %s end" % (a.sql, k, b.sql, c.sql), lambda r: b.f(r) if is_true(cmp3("=", a.f(r), k)) else c.f(r))


def isnull(a): return X("%s is null" % a.at(5), lambda r: a.f(r) is None, 3)
def notnullx(a): return X("%s is not null" % a.at(5), lambda r: a.f(r) is not None, 3)
def inx(a, ks): return X("%s in (%s)" % (a.at(5), ", ".join(map(str, ks))), lambda r: in3(a.f(r), ks), 3)
def between(a, l, h): return X("%s between %d and %d" % (a.at(5), l, h), lambda r: and3(cmp3(">=", a.f(r), l), cmp3("<=", a.f(r), h)), 3)
def andx(a, b): return X("%s and %s" % (a.at(1), b.at(2)), lambda r: and3(a.f(r), b.f(r)), 1)
def orx(a, b): return X("%s or %s" % (a.at(0), b.at(1)), lambda r: or3(a.f(r), b.f(r)), 0)
def notx(a): return X("not (%s)" % a.sql, lambda r: not3(a.f(r)), 2)


def num(rnd, leaves, d, wide=False):
    """a numeric expression of depth at most d over the given leaves"""
    if d <= 0 or rnd(6) == 0:
        return rnd.pick(leaves) if rnd(5) else const(rnd.pick((0, 1, 2, 5)))
    k = rnd(10)
    n = lambda: num(rnd, leaves, d - 1, wide)
    if k < 3:
        return add(n(), n())
    if k < 5:
        return sub(n(), n())
    if k == 5:
        return times(n(), rnd.pick((2, 3)))
    if k == 6:
        return ifnull(n(), n()) if rnd(2) else coalesce(n(), const(7))
    if k == 7:
        return absx(n())
    c = cond(rnd, leaves, 1 if wide else 0)
    if k == 8:
        return iff(c, n(), n()) if rnd(2) else casew(c, n(), n())
    return casev(n(), rnd.pick((0, 1, 2)), n(), n()) if rnd(2) else casew2(c, n(), cond(rnd, leaves, 0), n())


def cond(rnd, leaves, d, dnum=0):
    n = lambda: num(rnd, leaves, dnum)
    if d > 0 and rnd(4):
        k = rnd(3)
        a, b = cond(rnd, leaves, d - 1, dnum), cond(rnd, leaves, d - 1, dnum)
        return andx(a, b) if k == 0 else orx(a, b) if k == 1 else notx(a)
    k = rnd(9)
    leaf = rnd.pick(leaves)
    if k < 4:
        return _cmp(rnd.pick((">", "<", ">=", "<=", "=", "!=")))(leaf, const(rnd.pick((0, 1, 3))))
    if k == 4:
        return _cmp(rnd.pick((">", "<", "=")))(leaf, n())
    if k == 5:
        return isnull(leaf) if rnd(2) else notnullx(leaf)
    if k == 6:
        return inx(leaf, [1, 3])
    if k == 7:
        return between(leaf, 0, 2)
    return _cmp("<")(const(1), leaf)


# ------------------------------------------------------------------ aggregates: environments are (key row, rows of the group)
def aggs(x):
    vs = lambda e: [v for v in (x.f(r) for r in e[1]) if v is not None]
    return [X("count(*)", lambda e: len(e[1])), X("count(%s)" % x.sql, lambda e: len(vs(e))), X("sum(%s)" % x.sql, lambda e: total(vs(e))),
            X("min(%s)" % x.sql, lambda e: minof(vs(e))), X("max(%s)" % x.sql, lambda e: maxof(vs(e)))]


def aggquery(seed, nullable, where=True, having=False, order=False):
    """(sql, cols, reference(rows) -> rows); grouped or whole-table select with expressions over aggregates and keys"""
    r = Rnd(seed)
    cols = [col("a"), col("b"), col("c")]
    keys = [[col("a")], [col("a"), col("c")], [add(col("a"), const(1))], [col("a")], [],
            [iff(_cmp(">")(col("a"), const(1)), const(1), const(0))], [ifnull(col("a"), const(0))], [sub(col("a"), col("c"))]][r(8)]
    wh = None
    if where and r(3) == 0:
        wh = cond(r, [c for c in cols if not nullable or c.sql != "b"], 0) if r(2) else _cmp(r.pick((">", "<=")))(add(col("a"), col("b")), const(1))
    outs, names = [], []
    plain = bool(keys) and keys[0].sql == "a"
    for i in range(1 + r(3)):
        ag = []
        for _ in range(1 + r(2)):
            v = num(r, cols, r(2)) if r(2) else col("b")
            while v.sql.lstrip("-").isdigit():
                v = num(r, cols, r(2))
            ag.append(r.pick(aggs(v)))
        kx = [X(k.sql, lambda e, k=k: k.f(e[0]), k.p) for k in keys] if plain else []
        ex = r.pick(ag)
        if r(3):
            ex = num(r, ag + kx, 1 + r(2))
            if not any(a.sql in ex.sql for a in ag):
                ex = add(ag[0], ex)
        outs.append(ex)
        names.append("v%d" % i)
    ksel = [(k, "k%d" % i) for i, k in enumerate(keys)] if keys and r(4) else []
    sel = ["%s as %s" % (k.sql, n) for k, n in ksel] + ["%s as %s" % (o.sql, n) for o, n in zip(outs, names)]
    if r(2) and ksel:
        sel = sel[len(ksel):] + sel[:len(ksel)]
    sql = "select %s from {t}%s%s" % (", ".join(sel), " where " + wh.sql if wh else "", " group by " + ", ".join(k.sql for k in keys) if keys else "")

    def ref(rows):
        rs = [q for q in rows if wh is None or is_true(wh.f(q))]
        out = []
        for k, g in (group(rs, lambda q: tuple(x.f(q) for x in keys)) if keys else ([((), rs)] if rs else [])):
            e = (g[0], g)
            d = dict((n, x.f(g[0])) for x, n in ksel)
            d.update((n, o.f(e)) for o, n in zip(outs, names))
            out.append(d)
        return out
    return sql, ref


def fullquery(seed, nullable, agg=None):
    """aggquery or a row query, with HAVING / DISTINCT / ORDER BY / LIMIT / OFFSET on top of it"""
    r = Rnd(seed * 7 + 3)
    agg = r(2) if agg is None else agg
    if agg:
        sql, base = aggquery(seed, nullable)
        names = [n for n in ("k0", "k1", "v0", "v1", "v2") if " as %s" % n in sql]
        grouped = " group by " in sql
    else:
        cols = [col("a"), col("b"), col("c")]
        safe = [c for c in cols if not nullable or c.sql != "b"]
        wh = None
        if r(2) == 0:
            wh = cond(r, safe, r(2))
        outs = [num(r, cols, r(3)) for _ in range(1 + r(2))]
        outs = [o if not o.sql.lstrip("-").isdigit() else col("b") for o in outs]
        names = ["v%d" % i for i in range(len(outs))]
        dist = r(4) == 0
        sel = ["%s as %s" % (o.sql, n) for o, n in zip(outs, names)]
        if not dist:
            names, sel = ["id"] + names, ["id"] + sel
        sql = "select %s%s from {t}%s" % ("distinct " if dist else "", ", ".join(sel), " where " + wh.sql if wh else "")
        grouped = False

        def base(rows):
            out = []
            for q in rows:
                if wh is None or is_true(wh.f(q)):
                    d = dict(("v%d" % i, o.f(q)) for i, o in enumerate(outs))
                    if not dist:
                        d = dict(d, id=q["id"])
                    if dist and any(bool(conj([nulleq(d[k], e[k]) for k in d])) for e in out):
                        continue
                    out.append(d)
            return out
    hv = None
    if agg and grouped and r(2):
        vs = [col(n) for n in names]
        hv = cond(r, vs, r(2))
        sql += " having " + hv.sql
    order = []
    if r(4) and (grouped or not agg):
        ns = list(names)
        for _ in range(1 + r(2)):
            n = r.pick(ns)
            if n not in [o[0] for o in order]:
                order.append((n, bool(r(2))))
        sql += " order by " + ", ".join(n + (" desc" if d else r.pick((" asc", ""))) for n, d in order)
    lim = off = None
    if r(3) == 0:
        lim = r(3)
        off = r(3)
        sql += " limit %d" % lim + (" offset %d" % off if off else "") if r(2) else " limit %d, %d" % (off, lim)

    def ref(rows):
        out = base(rows)
        if hv is not None:
            out = [o for o in out if is_true(hv.f(o))]
        if order:
            out = order_rows(out, *order)
        if lim is not None:
            out = out[off:off + lim]
        return out
    return sql, ref
