# -*- coding: utf-8 -*-
"""Backtracking interpreter of sre parse trees over symbolic subject strings
(and patterns whose ordinary characters may be symbolic)."""
import re
import re._parser as sp
import re._constants as sc

import z3

from . import core
from .proxies import (SymStr, mkstr, chars_of, code, cpred, cmap, truth, mkbool, conc, in_codes, ceq, join)

SPECIAL = set("()[]{}?*+-|^$\\.&~# \t\n\r\v\f")
PH = 0xE000


class Pattern(object):
    def __init__(self, text, flags=0, holes=None, orig=None):
        self.text = text
        self.tree = sp.parse(text, flags)
        self.flags = self.tree.state.flags
        self.groups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)
        self.holes = holes or []
        self.pattern = orig if orig is not None else text

    def _run(self, s, i, k):
        m = M(self, s)
        m.start0 = i
        return m.seq(list(self.tree), 0, i, {}, k)

    def _match_at(self, s, i, full=False):
        n = len(chars_of(s))

        def k(j, g):
            if full and j != n:
                return None
            return (j, g)
        r = self._run(s, i, k)
        if r is None:
            return None
        return Match(self, s, i, r[0], r[1])

    def match(self, s, pos=0, endpos=None):
        s, pos = _cut(s, pos, endpos)
        return self._match_at(s, pos)

    def fullmatch(self, s, pos=0, endpos=None):
        s, pos = _cut(s, pos, endpos)
        return self._match_at(s, pos, True)

    def search(self, s, pos=0, endpos=None):
        s, pos = _cut(s, pos, endpos)
        for i in range(pos, len(chars_of(s)) + 1):
            m = self._match_at(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        s, pos = _cut(s, pos, endpos)
        n = len(chars_of(s))
        i, last_empty_at = pos, None
        must_advance = False
        while i <= n:
            m = None
            j = i
            while j <= n:
                m = self._match_at_adv(s, j, must_advance and j == i)
                if m is not None:
                    break
                j += 1
            if m is None:
                return
            yield m
            i = m._e
            must_advance = m._e == m._s

    def _match_at_adv(self, s, i, must_advance):
        if not must_advance:
            return self._match_at(s, i)

        def k(j, g):
            if j == i:
                return None
            return (j, g)
        r = self._run(s, i, k)
        return None if r is None else Match(self, s, i, r[0], r[1])

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else "")
            else:
                out.append(tuple(x if x is not None else "" for x in m.groups()))
        return out

    def subn(self, repl, s, count=0):
        count = conc(count)
        cs = chars_of(s)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.extend(cs[pos:m._s])
            if callable(repl):
                r = repl(m)
            else:
                r = m.expand(repl)
            out.extend(chars_of(r if r is not None else ""))
            pos = m._e
            n += 1
        out.extend(cs[pos:])
        return mkstr(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        cs = chars_of(s)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(mkstr(cs[pos:m._s]))
            out.extend(m.groups())
            pos = m._e
            n += 1
        out.append(mkstr(cs[pos:]))
        return out


def _cut(s, pos, endpos):
    pos = conc(pos)
    n = len(chars_of(s))
    if endpos is not None:
        endpos = max(0, min(conc(endpos), n))
        s = mkstr(chars_of(s)[:endpos])
        n = endpos
    return s, max(0, min(pos, n))


class Match(object):
    def __init__(self, p, s, a, e, g):
        self.re, self.string = p, s
        self._s, self._e, self._g = a, e, g

    def _gi(self, i):
        if isinstance(i, str):
            i = self.re.groupindex[i]
        i = conc(i)
        if i < 0 or i > self.re.groups:
            raise IndexError("no such group")
        return i

    def _span(self, i):
        i = self._gi(i)
        if i == 0:
            return (self._s, self._e)
        return self._g.get(i, (-1, -1))

    def _get(self, i):
        a, b = self._span(i)
        if a < 0:
            return None
        return mkstr(chars_of(self.string)[a:b])

    def group(self, *a):
        if not a:
            return self._get(0)
        if len(a) == 1:
            return self._get(a[0])
        return tuple(self._get(i) for i in a)

    def __getitem__(self, i):
        return self._get(i)

    def groups(self, default=None):
        return tuple(default if self._get(i) is None else self._get(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: default if self._get(i) is None else self._get(i) for k, i in self.re.groupindex.items()}

    def start(self, i=0): return self._span(i)[0]
    def end(self, i=0): return self._span(i)[1]
    def span(self, i=0): return self._span(i)

    def expand(self, t):
        t = conc(t)
        if "\\" not in t:
            return t
        out = []
        for x in sp.parse_template(t, re.compile(self.re.text)):
            if type(x) is int:
                out.append(self._get(x) or "")
            else:
                out.append(x)
        return join("", out)

    @property
    def lastindex(self):
        return max(self._g) if self._g else None

    def __bool__(self):
        return True


CATS = {sc.CATEGORY_DIGIT: ("isdecimal", False), sc.CATEGORY_NOT_DIGIT: ("isdecimal", True),
        sc.CATEGORY_SPACE: ("isspace", False), sc.CATEGORY_NOT_SPACE: ("isspace", True)}


def is_word(c):
    if type(c) is str:
        return c.isalnum() or c == "_"
    return ceq(c, "_") or cpred(c, "isalnum")


class M(object):
    def __init__(self, p, s):
        self.p = p
        self.cs = chars_of(s)
        self.flags = p.flags

    def lit(self, v):
        if v >= PH and v - PH < len(self.p.holes):
            return self.p.holes[v - PH]
        return chr(v)

    def chareq(self, c, l, flags):
        if flags & sc.SRE_FLAG_IGNORECASE:
            a, b = cmap(c, "lower"), cmap(l, "lower")
            if len(a) != 1 or len(b) != 1:
                return a == b
            c, l = a[0], b[0]
        if type(c) is str and type(l) is str:
            return c == l
        return truth(mkbool(code(c) == code(l)))

    def inset(self, c, items, flags):
        neg = False
        its = items
        if its and its[0][0] is sc.NEGATE:
            neg, its = True, its[1:]
        variants = [c]
        if flags & sc.SRE_FLAG_IGNORECASE:
            variants = [cmap(c, "lower")[0], cmap(c, "upper")[0]]
        r = False
        for op, av in its:
            for v in variants:
                if op is sc.LITERAL:
                    r = self.chareq(v, self.lit(av), 0)
                elif op is sc.RANGE:
                    r = av[0] <= ord(v) <= av[1] if type(v) is str else \
                        truth(mkbool(z3.And(v >= av[0], v <= av[1])))
                elif op is sc.CATEGORY:
                    r = self.cat(v, av)
                else:
                    raise NotImplementedError(op)
                if r:
                    break
            if r:
                break
        return r != neg

    def cat(self, c, av):
        if av in CATS:
            n, neg = CATS[av]
            return cpred(c, n) != neg
        if av is sc.CATEGORY_WORD:
            return is_word(c)
        if av is sc.CATEGORY_NOT_WORD:
            return not is_word(c)
        raise NotImplementedError(av)

    def seq(self, nodes, ni, i, g, k, flags=None):
        if flags is None:
            flags = self.flags
        if ni == len(nodes):
            return k(i, g)
        op, av = nodes[ni]
        cs = self.cs
        n = len(cs)

        def nxt(j, g2):
            return self.seq(nodes, ni + 1, j, g2, k, flags)
        if op is sc.LITERAL:
            return nxt(i + 1, g) if i < n and self.chareq(cs[i], self.lit(av), flags) else None
        if op is sc.NOT_LITERAL:
            return nxt(i + 1, g) if i < n and not self.chareq(cs[i], self.lit(av), flags) else None
        if op is sc.ANY:
            if i < n and (flags & sc.SRE_FLAG_DOTALL or not ceq(cs[i], "\n")):
                return nxt(i + 1, g)
            return None
        if op is sc.IN:
            return nxt(i + 1, g) if i < n and self.inset(cs[i], av, flags) else None
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, g, nxt, flags)
                if r is not None:
                    return r
            return None
        if op is sc.SUBPATTERN:
            gid, addf, delf, sub = av
            f2 = (flags | addf) & ~delf

            def after(j, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                return nxt(j, g2)
            return self.seq(list(sub), 0, i, g, after, f2)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            hi = None if hi is sc.MAXREPEAT else hi
            if op is sc.POSSESSIVE_REPEAT:
                c, j, g2 = 0, i, g
                while hi is None or c < hi:
                    r = self.seq(sub, 0, j, g2, lambda a, b: (a, b), flags)
                    if r is None or r[0] == j:
                        break
                    j, g2 = r
                    c += 1
                return nxt(j, g2) if c >= lo else None

            def rep(c, j, g2):
                def more(j2, g3):
                    if j2 == j and c >= lo:
                        return None
                    return rep(c + 1, j2, g3)
                can = hi is None or c < hi
                if op is sc.MAX_REPEAT:
                    if can:
                        r = self.seq(sub, 0, j, g2, more, flags)
                        if r is not None:
                            return r
                    return nxt(j, g2) if c >= lo else None
                if c >= lo:
                    r = nxt(j, g2)
                    if r is not None:
                        return r
                return self.seq(sub, 0, j, g2, more, flags) if can else None
            return rep(0, i, g)
        if op is sc.AT:
            if av is sc.AT_BEGINNING:
                ok = i == 0 or (flags & sc.SRE_FLAG_MULTILINE and ceq(cs[i - 1], "\n"))
            elif av is sc.AT_BEGINNING_STRING:
                ok = i == 0
            elif av is sc.AT_END:
                if flags & sc.SRE_FLAG_MULTILINE:
                    ok = i == n or ceq(cs[i], "\n")
                else:
                    ok = i == n or (i == n - 1 and ceq(cs[i], "\n"))
            elif av is sc.AT_END_STRING:
                ok = i == n
            elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                a = i > 0 and is_word(cs[i - 1])
                b = i < n and is_word(cs[i])
                ok = (a != b) == (av is sc.AT_BOUNDARY)
            else:
                raise NotImplementedError(av)
            return nxt(i, g) if ok else None
        if op is sc.GROUPREF:
            sp_ = g.get(av)
            if sp_ is None:
                return None
            ref = cs[sp_[0]:sp_[1]]
            if i + len(ref) > n:
                return None
            for a, b in zip(ref, cs[i:i + len(ref)]):
                if not self.chareq(a, b, flags):
                    return None
            return nxt(i + len(ref), g)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d < 0:
                lo, hi = sub.getwidth()
                r = None
                for w in range(lo, hi + 1):
                    if i - w >= 0:
                        r = self.seq(list(sub), 0, i - w, g, lambda a, b: (a, b) if a == i else None, flags)
                        if r is not None:
                            break
            else:
                r = self.seq(list(sub), 0, i, g, lambda a, b: (a, b), flags)
            if op is sc.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        if op is sc.ATOMIC_GROUP:
            r = self.seq(list(av), 0, i, g, lambda a, b: (a, b), flags)
            return nxt(*r) if r is not None else None
        raise NotImplementedError(op)


def escape(p):
    out = []
    for c in chars_of(p):
        if type(c) is str:
            out.extend(list(re.escape(c)))
        else:
            if core.cur().branch(in_codes(c, sorted(ord(x) for x in SPECIAL))):
                out.append("\\")
            out.append(c)
    return mkstr(out)


def compile(p, flags=0):
    if isinstance(p, Pattern):
        return p
    if isinstance(p, re.Pattern):
        return Pattern(p.pattern, p.flags)
    flags = int(flags)
    if type(p) is str:
        return Pattern(p, flags)
    holes, text = [], []
    spec = sorted(set(ord(x) for x in SPECIAL) | set(range(48, 58)) | set(map(ord, "<>:=!,PLiImMsSuUaAxX")))
    for i, c in enumerate(p.chars()):
        if type(c) is not str:
            if (text and text[-1] == "\\" and not (len(text) > 1 and text[-2] == "\\")) or \
                    core.cur().branch(in_codes(c, spec)):
                c = chr(core.cur().concretize(c))
                text.append(c)
            else:
                text.append(chr(PH + len(holes)))
                holes.append(c)
        else:
            text.append(c)
    return Pattern("".join(text), flags, holes, p)


def pattern_method(p, name, a, k):
    return getattr(Pattern(p.pattern, p.flags), name)(*a, **k)


def module_fn(name, a, k):
    a = list(a)
    pat = a.pop(0) if a else k.pop("pattern")
    flags = k.pop("flags", 0)
    npos = {"match": 1, "search": 1, "fullmatch": 1, "findall": 1, "finditer": 1, "sub": 3, "subn": 3, "split": 2}[name]
    if len(a) > npos:
        flags = a.pop()
    p = compile(pat, flags)
    if "string" in k:
        if name in ("sub", "subn"):
            a.insert(1, k.pop("string"))
        else:
            a.insert(0, k.pop("string"))
    return getattr(p, name)(*a, **k)
