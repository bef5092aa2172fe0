# -*- coding: utf-8 -*-
"""LIKE and regular expressions."""
import itertools

from .lib import *
from .c21 import cs


def low(c):
    o = ord(c)
    if _sym(c):
        return ite((o >= 65) & (o <= 90), o + 32, o)
    return o + 32 if 65 <= o <= 90 else o


def eqi(c, x, icase=True):
    """characters equal, ASCII case ignored"""
    if not icase:
        return bool(c == x)
    return bool(same(low(c), low(x)))


def tokens(p):
    """LIKE pattern -> list of '%', '_' (as None, True) or characters"""
    out, i = [], 0
    while i < len(p):
        if p[i] == "%":
            out.append(None)
        elif p[i] == "_":
            out.append(True)
        else:
            if p[i] == "\\" and i + 1 < len(p):
                i += 1
            out.append(p[i])
        i += 1
    return out


def like(s, t, i=0, j=0):
    """s[i:] matches the tokens t[j:]"""
    if j == len(t):
        return i == len(s)
    if t[j] is None:
        return any(like(s, t, k, j + 1) for k in range(i, len(s) + 1))
    if i == len(s):
        return False
    return (t[j] is True or eqi(s[i], t[j])) and like(s, t, i + 1, j + 1)


# ------------------------------------------------------------------ regular expressions as trees
def C(c): return ("c", c)
def S(*n): return ("s",) + n
def O(*n): return ("o",) + n                      # alternatives
def R(n, lo, hi=None, q=None): return ("r", n, lo, hi)
def G(n): return ("g", n)
def K(neg, *items): return ("k", neg) + items     # items: character or (from, to)
ANY, BOL, EOL = ("any",), ("bol",), ("eol",)
DIG = K(False, ("0", "9"))


def text(n):
    t = n[0]
    if t == "c":
        return n[1] if n[1].isalnum() or n[1] in " ,-_" else "[" + n[1] + "]"
    if t == "any":
        return "."
    if t == "bol":
        return "^"
    if t == "eol":
        return "$"
    if t == "s":
        return "".join(text(x) if x[0] != "o" else "(%s)" % text(x) for x in n[1:])
    if t == "o":
        return "|".join(text(x) for x in n[1:])
    if t == "g":
        return "(%s)" % text(n[1])
    if t == "k":
        return "[%s%s]" % ("^" if n[1] else "", "".join(i if type(i) is str else "%s-%s" % i for i in n[2:]))
    inner = text(n[1]) if n[1][0] in ("c", "any", "k", "g") else "(%s)" % text(n[1])
    lo, hi = n[2], n[3]
    q = {(0, None): "*", (1, None): "+", (0, 1): "?"}.get((lo, hi))
    return inner + (q or ("{%d}" % lo if lo == hi else "{%d,%s}" % (lo, "" if hi is None else hi)))


def inclass(c, n, icase):
    hit = False
    o = ord(c)
    forms = [o]
    if icase:
        l = low(c)
        forms = [l, ite((l >= 97) & (l <= 122), l - 32, l) if _sym(c) else (l - 32 if 97 <= l <= 122 else l)]
    conds = []
    for i in n[2:]:
        a, b = (i, i) if type(i) is str else i
        for f in forms:
            conds.append((f >= ord(a)) & (f <= ord(b)) if _sym(f) else ord(a) <= f <= ord(b))
    return bool(disj(conds)) != n[1]


def ends(n, s, i, icase):
    """the ends of the matches of n at i, in the order backtracking finds them"""
    t = n[0]
    if t == "bol":
        if i == 0:
            yield i
    elif t == "eol":
        if i == len(s) or (i == len(s) - 1 and bool(s[i] == "\n")):
            yield i
    elif t in ("c", "any", "k"):
        if i < len(s) and (eqi(s[i], n[1], icase) if t == "c" else inclass(s[i], n, icase) if t == "k" else not bool(s[i] == "\n")):
            yield i + 1
    elif t == "g":
        for e in ends(n[1], s, i, icase):
            yield e
    elif t == "o":
        for x in n[1:]:
            for e in ends(x, s, i, icase):
                yield e
    elif t == "s":
        if len(n) == 1:
            yield i
        else:
            for m in ends(n[1], s, i, icase):
                for e in ends(("s",) + n[2:], s, m, icase):
                    yield e
    else:
        x, lo, hi = n[1:]
        if hi is None or hi > 0:
            for m in ends(x, s, i, icase):
                if m > i or lo > 0:
                    for e in ends(("r", x, max(lo - 1, 0), None if hi is None else hi - 1), s, m, icase):
                        yield e
        if lo == 0:
            yield i


def first(n, s, i=0, icase=True):
    """(start, end) of the leftmost match from i on, or None"""
    for a in range(i, len(s) + 1):
        for e in ends(n, s, a, icase):
            return a, e
    return None


def nth(n, s, pos, k, icase=True):
    """k-th match (1..) from position pos (1..); the text before pos does not count"""
    s = cs(s)[pos - 1:]
    i = 0
    while i < len(s):
        m = first(n, s, i, icase)
        if m is None:
            return None
        k -= 1
        if k <= 0:
            return m[0] + pos - 1, m[1] + pos - 1
        i = m[1]
    return None


A_, B_, D_ = C("a"), C("b"), C("-")
RX = [A_, C("B"), S(A_, B_), O(A_, B_), S(BOL, A_), S(A_, EOL), S(BOL, A_, EOL), S(BOL, EOL), ANY, S(A_, ANY, B_), R(A_, 1), S(A_, R(ANY, 0), B_),
      K(False, "a", "b"), K(True, "a", "b"), K(False, ("a", "c")), DIG, R(DIG, 2, 2), R(DIG, 1, 2), S(BOL, R(DIG, 1), EOL), S(A_, R(B_, 0, 1), C("c")),
      S(BOL, O(A_, S(B_, C("c"))), EOL), R(G(S(A_, B_)), 1), S(C("."), A_), S(BOL, R(K(False, ("a", "z"), ("0", "9")), 1), D_, R(ANY, 0), EOL),
      S(O(A_, S(A_, B_)), C("c")), S(BOL, R(ANY, 2, 3), EOL), S(A_, R(B_, 0)), S(C("+"), R(A_, 0, 1)), S(G(O(A_, B_)), R(C("c"), 0, 1), EOL)]


def harnesses(tier):
    T = tier == "thorough"
    L = 4 if T else 3
    hs = []
    A = hs.append

    def s_(ctx, name="s", l=None, alpha=None, nul=True):
        if nul and ctx.choice(name + "?nul", (0, 1)):
            return None
        return ctx.str(name, l or L, alpha) if alpha else ctx.str(name, l or L)

    def E(name, exprs, vals, l=None, alpha=None, nul=True, bounds=None):
        """several expressions over one symbolic text s"""
        def fn(ctx):
            s = s_(ctx, "s", l, alpha, nul)
            out = run("select %s from t" % ", ".join("%s as x%d" % (e, i) for i, e in enumerate(exprs)), {"t": [{"id": 1, "s": s}]})
            ctx.meta["out"] = out
            ctx.check(same(out, [dict(("x%d" % i, None if s is None else f(s)) for i, f in enumerate(vals))]), "; ".join(exprs))
        A(H(name, fn, bounds or "texts of up to %d characters %s, NULL" % (l or L, "of %r" % alpha if alpha else "32..126")))

    lk = lambda p: (lambda s, t=tokens(p): 1 if like(cs(s), t) else 0)
    nl = lambda p: (lambda s, t=tokens(p): 0 if like(cs(s), t) else 1)
    pats = [""] + ["".join(x) for n in (1, 2, 3) for x in itertools.product("aB%_", repeat=n)]
    pats = [p for p in pats if "%%" not in p]
    pats += ["a%b%", "%a%b", "_a_b", "%ab%", "a__b", "%a_", "_%_", "%_%"]
    spec = ["a.", ".", "a*", "(a", "a)", "[a]", "a+", "a?", "^a", "a$", "a|b", "{1}", "a{2}", "\\%", "\\_", "a\\%", "%\\%", "\\%%", "\\_%", "%\\_%", "a b", "#", "-", "~&"]
    for i in range(0, len(pats), 4):
        ps = pats[i:i + 4]
        E("like %s" % " ".join(ps), ["s like '%s'" % p for p in ps], [lk(p) for p in ps], alpha=None if i % 8 else "aAbB%_")
    for i in range(0, len(spec), 3):
        ps = spec[i:i + 3]
        E("special %s" % " ".join(ps), ["s like '%s'" % p for p in ps], [lk(p) for p in ps], l=3)
    ml = ["a%", "%", "%a", "a_", "_", "%a%"]
    E("multiline", ["s like '%s'" % p for p in ml], [lk(p) for p in ml], alpha="a\nb")
    for i in range(0, len(pats), 9):
        ps = pats[i:i + 3]
        E("notlike %s" % " ".join(ps), ["s not like '%s'" % p for p in ps], [nl(p) for p in ps], alpha="aAbB_")
        E("notpar %s" % " ".join(ps), ["not (s like '%s')" % p for p in ps], [nl(p) for p in ps], alpha="aAbB_")

    # the pattern is data too
    def cols(name, sql, f, l=2, alpha="aAb%_", al2=None):
        def fn(ctx):
            s, p = s_(ctx, "s", l, al2 or alpha), s_(ctx, "p", 2, alpha)
            out = run("select %s as x from t" % sql, {"t": [{"id": 1, "s": s, "p": p}]})
            ctx.meta["out"] = out
            ctx.check(same(out, [{"x": nn(f, s, p)}]), sql)
        A(H(name, fn, "texts of up to %d and patterns of up to 2 characters of %r, NULL" % (l, alpha)))

    def dyn(p):
        """tokens of a symbolic pattern (forks)"""
        return tokens([c for c in cs(p)])
    cols("columns", "s like p", lambda s, p: 1 if like(cs(s), dyn(p)) else 0)
    cols("columns_not", "s not like p", lambda s, p: 0 if like(cs(s), dyn(p)) else 1)
    cols("columns_esc", "s like p", lambda s, p: 1 if like(cs(s), dyn(p)) else 0, alpha="a%\\", al2="a%\\")
    cols("contains", "s like concat('%', p, '%')", lambda s, p: 1 if like(cs(s), [None] + dyn(p) + [None]) else 0)
    cols("prefix", "s like concat(p, '%')", lambda s, p: 1 if like(cs(s), dyn(p) + [None]) else 0, alpha="aB_")

    # numbers are matched by their text
    def num(ctx):
        n = ctx.nint("n", -30, 130)
        out = run("select n like '1%' as x, n like '_' as y, n not like '%2' as z, n regexp '^[0-9]$' as u from t", {"t": [{"id": 1, "n": n}]})
        ctx.meta["out"] = out
        e = None
        if n is not None:
            s = cs(str(n))
            e = [like(s, tokens("1%")), like(s, tokens("_")), not like(s, tokens("%2")), len(s) == 1]
        ctx.check(same(out, [dict((k, None if e is None else 1 if e[i] else 0) for i, k in enumerate("xyzu"))]), "numbers")
    A(H("numbers", num, "ints in [-30,130], NULL"))

    # as conditions
    def cond(name, sql, keep, n=2, proj=("id",), pre="id"):
        def fn(ctx):
            rows = [{"id": i, "a": ctx.int("a%d" % i, 0, 1), "s": s_(ctx, "s%d" % i, 2, "aAb")} for i in range(n)]
            out = run(sql, {"t": rows})
            ctx.meta["out"] = out
            ctx.check(same(out, [{"id": r["id"]} for r in rows if keep(r)]), sql)
        A(H(name, fn, "%d row(s), texts of up to 2 of 'aAb', NULL" % n))
    lks = lambda s, p: None if s is None else like(cs(s), tokens(p))
    for i, p in enumerate(["a%", "%a", "a", "_", "%a%", "_b", "a_", "%", ""]):
        cond("where %s" % p, "select id from t where s like '%s'" % p, lambda r, p=p: bool(lks(r["s"], p)))
        cond("wherenot %s" % p, "select id from t where s not like '%s'" % p, lambda r, p=p: lks(r["s"], p) is False)
        if not T and i not in (0, 4, 5):
            continue
        nm = 2 if T else 1
        cond("whereand %s" % p, "select id from t where a = 1 and s like '%s'" % p, lambda r, p=p: bool(r["a"] == 1) and bool(lks(r["s"], p)), nm)
        cond("whereor %s" % p, "select id from t where a = 1 or s like '%s'" % p, lambda r, p=p: bool(r["a"] == 1) or bool(lks(r["s"], p)), nm)
        cond("case %s" % p, "select id from t where case when s like '%s' then a else 1 - a end = 1" % p,
             lambda r, p=p: bool(r["a"] == (1 if bool(lks(r["s"], p)) else 0)), nm)

        def hv(ctx, p=p):
            rows = [{"id": i, "s": ctx.str("s%d" % i, 2 if T else 1 + i, "aAb")} for i in range(2)]
            out = run("select s, count(*) as c from t group by s having s like '%s'" % p, {"t": rows})
            ctx.meta["out"] = out
            ctx.check(same(out, [{"s": k[0], "c": len(g)} for k, g in group(rows, lambda r: (r["s"],)) if bool(lks(k[0], p))]), "having like " + p)
        A(H("having %s" % p, hv, "2 rows, texts of up to 2 of 'aAb'"))

    # regular expressions
    al = "aAbc1.-+" if T else "aBc1-"
    rx = lambda n, ic=True: (lambda s: 1 if first(n, cs(s), 0, ic) is not None else 0)
    for i, n in enumerate(RX):
        p = text(n)
        E("rx %s" % p, ["s not regexp '%s'" % p, ("s rlike '%s'" if i % 4 == 0 else "s regexp '%s'") % p] + (["regexp_like(s, '%s', 'c')" % p] if i % 2 else ["regexp_like(s, '%s')" % p]),
          [lambda s, n=n: 1 - rx(n)(s), rx(n), rx(n, not i % 2)], l=3, alpha=al if not T else None, bounds="texts of up to 3 characters of %r, NULL" % al)

    # positions, occurrences, replacement (the expression does not match the empty text and has no anchors)
    def empty(n):
        return any(e == 0 for e in ends(n, [], 0, True))

    def anchored(n):
        return n[0] in ("bol", "eol") or any(anchored(x) for x in n[1:] if type(x) is tuple and x and type(x[0]) is str and len(x[0]) > 1 or type(x) is tuple and x and x[0] in "sogrck")
    for n in RX:
        p = text(n)
        if empty(n):
            continue
        sp = lambda s, pos, k, n=n: nth(n, s, pos, k)
        for pos, k in ((1, 1), (1, 2), (2, 1)) if T else ((1, 1), ((1, 2), (2, 1))[RX.index(n) % 2]):
            if "^" in p.replace("[^", "") and (pos, k) != (1, 1):
                continue
            a = ", %d, %d" % (pos, k)

            def instr(s, r, pos=pos, k=k, sp=sp):
                m = sp(s, pos, k)
                return 0 if m is None else m[r] + 1

            def substr(s, pos=pos, k=k, sp=sp):
                m = sp(s, pos, k)
                return None if m is None else "".join(cs(s)[m[0]:m[1]])

            def repl1(s, pos=pos, k=k, sp=sp):
                m = sp(s, pos, k)
                return s if m is None else "".join(cs(s)[:m[0]] + ["x", "y"] + cs(s)[m[1]:])

            def replall(s, pos=pos, sp=sp):
                out, i = cs(s)[:pos - 1], pos - 1
                while True:
                    m = sp(s, i + 1, 1)
                    if m is None:
                        return "".join(out + cs(s)[i:])
                    out += cs(s)[i:m[0]] + ["x", "y"]
                    i = m[1]
            ex = ["regexp_instr(s, '%s'%s)" % (p, a), "regexp_instr(s, '%s'%s, 1)" % (p, a), "regexp_substr(s, '%s'%s)" % (p, a),
                  "regexp_replace(s, '%s', 'xy'%s)" % (p, a)]
            fs = [lambda s, instr=instr: instr(s, 0), lambda s, instr=instr: instr(s, 1), substr, repl1]
            if k == 1 and "^" not in p.replace("[^", ""):
                ex.append("regexp_replace(s, '%s', 'xy', %d)" % (p, pos))
                fs.append(replall)
            E("span %s %d %d" % (p, pos, k), ex, fs, l=3, alpha=al, bounds="texts of up to 3 characters of %r, NULL" % al)
    # match types, third occurrence
    for n in (A_, C("B"), S(A_, B_), K(False, "a", "b"), O(A_, S(B_, C("c"))), S(A_, R(C("B"), 0, 1))):
        p = text(n)
        for mt, ic in (("c", False), ("i", True), ("ic", False), ("ci", True)):
            if not T and (RX.index(n) if n in RX else 5) % 2 != (mt in ("c", "ci")):
                continue
            sp = lambda s, k=1, n=n, ic=ic: nth(n, s, 1, k, ic)
            E("type %s %s" % (p, mt), ["regexp_like(s, '%s', '%s')" % (p, mt), "regexp_instr(s, '%s', 1, 1, 0, '%s')" % (p, mt), "regexp_substr(s, '%s', 1, 2, '%s')" % (p, mt),
                                       "regexp_replace(s, '%s', 'z', 1, 1, '%s')" % (p, mt)],
              [lambda s, sp=sp: 1 if sp(s) else 0, lambda s, sp=sp: sp(s)[0] + 1 if sp(s) else 0, lambda s, sp=sp: "".join(cs(s)[sp(s, 2)[0]:sp(s, 2)[1]]) if sp(s, 2) else None,
               lambda s, sp=sp: "".join(cs(s)[:sp(s)[0]] + ["z"] + cs(s)[sp(s)[1]:]) if sp(s) else s], l=2, alpha="aAbBc")
    for n in (A_, K(False, "a", "b"), ANY):
        p = text(n)
        sp = lambda s, pos=1, k=3, n=n: nth(n, s, pos, k)
        E("third %s" % p, ["regexp_instr(s, '%s', 1, 3)" % p, "regexp_substr(s, '%s', 1, 3)" % p, "regexp_replace(s, '%s', '', 1, 3)" % p, "regexp_instr(s, '%s', 2, 2, 1)" % p],
          [lambda s, sp=sp: sp(s)[0] + 1 if sp(s) else 0, lambda s, sp=sp: "".join(cs(s)[sp(s)[0]:sp(s)[1]]) if sp(s) else None,
           lambda s, sp=sp: "".join(cs(s)[:sp(s)[0]] + cs(s)[sp(s)[1]:]) if sp(s) else s, lambda s, sp=sp: sp(s, 2, 2)[1] + 1 if sp(s, 2, 2) else 0], l=4, alpha="aB1")
    return hs


from .lib import _sym          # noqa: E402
