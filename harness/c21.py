# -*- coding: utf-8 -*-
"""string functions."""
from .lib import *


def cs(s):
    return [s[i] for i in range(len(s))]


def lo_(s):
    return "".join(chr(ite((ord(c) >= 65) & (ord(c) <= 90) if _sym(c) else 65 <= ord(c) <= 90, ord(c) + 32, ord(c))) for c in cs(s))


def up_(s):
    return "".join(chr(ite((ord(c) >= 97) & (ord(c) <= 122) if _sym(c) else 97 <= ord(c) <= 122, ord(c) - 32, ord(c))) for c in cs(s))


def rev_(s):
    return "".join(s[len(s) - 1 - i] for i in range(len(s)))


def trim_(s):
    i, j = 0, len(s)
    while i < j and s[i] == " ":
        i += 1
    while j > i and s[j - 1] == " ":
        j -= 1
    return "".join(cs(s)[i:j])


def left_(s, n):
    return "".join(c for i, c in enumerate(cs(s)) if i < n)


def right_(s, n):
    return "".join(c for i, c in enumerate(cs(s)) if len(s) - i <= n)


def sub_(s, n, l=None):
    """positions count from 1, negative ones from the end"""
    p = n if n >= 0 else len(s) + n + 1
    if p <= 0:
        return ""
    return "".join(c for i, c in enumerate(cs(s)) if i + 1 >= p and (l is None or i + 1 < p + l))


def pieces(s, d):
    """s split at the non-overlapping occurrences of d from the left"""
    out, cur, i = [], [], 0
    while i < len(s):
        if i + len(d) <= len(s) and len(d) and all(s[i + k] == d[k] for k in range(len(d))):
            out.append("".join(cur))
            cur = []
            i += len(d)
        else:
            cur.append(s[i])
            i += 1
    out.append("".join(cur))
    return out


def subidx_(s, d, c):
    p = pieces(s, d)
    n = len(p)
    sel = [x for i, x in enumerate(p) if (i < c if c > 0 else n - i <= -c)]
    out = ""
    for i, x in enumerate(sel):
        out = out + (d if i else "") + x
    return out


def replace_(s, a, b):
    out = ""
    for i, x in enumerate(pieces(s, a)):
        out = out + (b if i else "") + x
    return out


def repeat_(s, n):
    out, i = "", 0
    while i < n:
        out = out + s
        i += 1
    return out


def strcmp_(a, b):
    for x, y in zip(cs(a), cs(b)):
        if x != y:
            return -1 if ord(x) < ord(y) else 1
    return 0 if len(a) == len(b) else (-1 if len(a) < len(b) else 1)


def starts_(a, b):
    return 1 if len(b) <= len(a) and all(x == y for x, y in zip(cs(a), cs(b))) else 0


def contains_(a, b):
    return 1 if any(all(a[i + k] == b[k] for k in range(len(b))) for i in range(len(a) - len(b) + 1)) else 0


def fis_(s, ss):
    if len(ss) == 0:
        return 0
    for i, x in enumerate(pieces(ss, ",")):
        if x == s:
            return i + 1
    return 0


def bytelen(s):
    n = 0
    for c in cs(s):
        o = ord(c)
        n += 1 if o < 0x80 else 2 if o < 0x800 else 3 if o < 0x10000 else 4
    return n


def digits(n, base):
    """the digits of a non-negative int"""
    out = ""
    while True:
        d = n % base
        out = chr(ite(d < 10, d + 48, d + 87)) + out
        n = n // base
        if n == 0:
            return out


def num_(n, base):
    return digits(n, base) if n >= 0 else "-" + digits(0 - n, base)


def harnesses(tier):
    T = tier == "thorough"
    L = 4 if T else 3
    hs = []
    A = hs.append

    def V(ctx, name, kind):
        """an argument: s/d strings, n/m ints; one NULL choice"""
        if ctx.choice(name + "?nul", (0, 1)):
            return None
        if kind == "i":
            return ctx.int(name, -5, 6)
        if kind == "z":
            return ctx.str(name, 2)
        if kind == "c":
            return ctx.str(name, 1, "a,.", minlen=1)
        if kind == "u":
            return ctx.str(name, 2, lo=32, hi=0x10FFFF)
        if kind == "v":
            return ctx.str(name, 1, lo=32, hi=0x10FFFF)
        if kind == "w":
            return ctx.str(name, L, "ab ")
        if kind == "l":
            return ctx.str(name, L, "ab,")
        return ctx.str(name, L)

    def E(name, sql, kinds, f, bounds=None, skip=None, plain=False):
        """kinds: column -> kind; f over the non-NULL values unless plain"""
        def fn(ctx):
            r = dict((c, V(ctx, c, k)) for c, k in kinds.items())
            if skip is not None and skip(r):
                return
            out = run("select %s as x from t" % sql, {"t": [dict(r, id=1)]})
            ctx.meta["out"] = out
            exp = f(*[r[c] for c in kinds]) if plain or all(v is not None for v in r.values()) else None
            ctx.check(same(out, [{"x": exp}]), "value of %s" % sql)
        A(H(name, fn, bounds or "strings of up to %d characters 32..126, lengths and positions in [-5,6], NULLs" % L))

    S = dict(s="s")
    U = [("lower", "lower(%s)", lo_), ("upper", "upper(%s)", up_), ("ucase", "ucase(%s)", up_), ("lcase", "lcase(%s)", lo_),
         ("reverse", "reverse(%s)", rev_), ("trim", "trim(%s)", trim_),
         ("left2", "left(%s, 2)", lambda s: left_(s, 2)), ("right2", "right(%s, 2)", lambda s: right_(s, 2)),
         ("sub2", "substring(%s, 2)", lambda s: sub_(s, 2)), ("subm2", "substring(%s, -2, 1)", lambda s: sub_(s, -2, 1)),
         ("subidx", "substring_index(%s, ' ', 1)", lambda s: subidx_(s, " ", 1)),
         ("replace", "replace(%s, 'a', 'xy')", lambda s: replace_(s, "a", "xy")),
         ("repeat2", "repeat(%s, 2)", lambda s: s + s), ("concat", "concat(%s, '-', 'A')", lambda s: s + "-A"),
         ("concatws", "concat_ws('-', 'B', %s)", lambda s: "B-" + s)]
    G = [("len", "char_length(%s)", lambda s: len(s)), ("length", "length(%s)", bytelen), ("ascii", "ascii(%s)", lambda s: ord(s[0]) if len(s) else 0),
         ("strcmp", "strcmp(%s, 'b')", lambda s: strcmp_(s, "b")), ("fis", "find_in_set(%s, 'a,A,-A')", lambda s: fis_(s, "a,A,-A")),
         ("starts", "startswith(%s, 'a')", lambda s: starts_(s, "a")), ("contains", "contains(%s, 'A')", lambda s: contains_(s, "A")),
         ("eq", "%s = 'a'", lambda s: tf(s == "a"))]
    for n, q, f in U + G:
        if n != "concatws":
            E(n, q % "s", S, f)
    # compositions: the value of one function is the argument of the next
    for i, (n, q, f) in enumerate(U):
        for j, (m, p, g) in enumerate(U + G):
            if not T and (i + j) % 2:
                continue
            if n == "concatws":
                E(m + "_" + n, p % (q % "s"), dict(s="w"), lambda s, f=f, g=g: g("B" if s is None else f(s)), plain=True, bounds="strings of up to %d of 'ab '" % L)
            elif m != "concatws":
                E(m + "_" + n, p % (q % "s"), dict(s="w"), lambda s, f=f, g=g: g(f(s)), bounds="strings of up to %d of 'ab '" % L)

    E("left", "left(s, n)", dict(s="s", n="i"), lambda s, n: left_(s, n))
    E("right", "right(s, n)", dict(s="s", n="i"), lambda s, n: right_(s, n))
    for fn in ("substring", "substr"):
        E(fn, fn + "(s, n)", dict(s="s", n="i"), lambda s, n: sub_(s, n))
        E(fn + "3", fn + "(s, n, m)", dict(s="s", n="i", m="i"), lambda s, n, m: sub_(s, n, m), skip=lambda r: r["m"] is None)
    E("trim_s", "trim(s)", dict(s="w"), trim_)
    E("concat2", "concat(s, d)", dict(s="s", d="z"), lambda s, d: s + d)
    E("concat3", "concat(s, d, s)", dict(s="z", d="z"), lambda s, d: s + d + s)
    E("concat_num", "concat(s, n, 'x', 12)", dict(s="z", n="i"), lambda s, n: s + str(n) + "x12")
    def cws(s, d, e):
        if s is None:
            return None
        v = [x for x in (d, e) if x is not None]
        return v[0] + s + v[1] if len(v) == 2 else (v[0] if v else "")
    E("concat_ws", "concat_ws(s, d, e)", dict(s="z", d="z", e="z"), cws, plain=True)
    E("concat_ws1", "concat_ws(',', d)", dict(d="z"), lambda d: "" if d is None else d, plain=True)
    E("repeat", "repeat(s, n)", dict(s="z", n="i"), repeat_)
    E("replace3", "replace(s, d, e)", dict(s="w", d="w", e="z"), lambda s, d, e: replace_(s, d, e))
    E("strcmp2", "strcmp(s, d)", dict(s="z", d="z"), strcmp_)
    E("startswith2", "startswith(s, d)", dict(s="s", d="z"), starts_)
    E("endswith2", "endswith(s, d)", dict(s="s", d="z"), lambda s, d: starts_(rev_(s), rev_(d)))
    E("contains2", "contains(s, d)", dict(s="s", d="z"), contains_)
    E("find_in_set2", "find_in_set(s, d)", dict(s="w", d="l"), fis_)
    E("subidx_c", "substring_index(s, d, n)", dict(s="l", d="c", n="i"), subidx_)
    E("subidx_2", "substring_index(s, 'ab', n)", dict(s="l", n="i"), lambda s, n: subidx_(s, "ab", n), skip=lambda r: r["n"] is not None and bool(r["n"] < 0))
    E("elt", "elt(n, s, d)", dict(n="i", s="z", d="z"), lambda n, s, d: None if n is None else s if n == 1 else d if n == 2 else None, plain=True)
    E("elt1", "elt(n, s)", dict(n="i", s="z"), lambda n, s: None if n is None else s if n == 1 else None, plain=True)

    def field_(s, d, e):
        if s is None:
            return 0
        if d is not None and s == d:
            return 1
        return 2 if e is not None and s == e else 0
    E("field", "field(s, d, e)", dict(s="z", d="z", e="z"), field_, plain=True)
    E("field_n", "field(n, m, 3, k)", dict(n="i", m="i", k="i"),
      lambda n, m, k: 0 if n is None else 1 if m is not None and n == m else 2 if n == 3 else 3 if k is not None and n == k else 0, plain=True)
    E("ord", "ord(s)", dict(s="u"), lambda s: ord(s[0]) if len(s) else 0, bounds="any code points", skip=None)
    E("char", "char(n + 60, m + 70)", dict(n="i", m="i"), lambda n, m: chr(n + 60) + chr(m + 70))
    for fn in ("char_length", "character_length"):
        E(fn, fn + "(s)", dict(s="u"), lambda s: len(s), bounds="any code points")
    E("length_u", "length(s)", dict(s="u"), bytelen, bounds="2 characters of any code point except surrogates", skip=surr)
    E("bit_length_u", "bit_length(s)", dict(s="u"), lambda s: bytelen(s) * 8, bounds="2 characters of any code point except surrogates", skip=surr)

    # values of other types are converted to their text
    def numlen(n):
        return len(str(n))
    E("length_n", "length(n)", dict(n="i"), numlen)
    E("char_length_n", "char_length(n * 7)", dict(n="i"), lambda n: numlen(n * 7))
    E("reverse_n", "reverse(n)", dict(n="i"), lambda n: rev_(str(n)))
    E("left_n", "left(n * 11, 2)", dict(n="i"), lambda n: left_(str(n * 11), 2))

    # codecs
    E("b64", "from_base64(to_base64(s))", dict(s="v"), lambda s: s, bounds="1 character of any code point except surrogates", skip=surr)
    E("b64_ascii", "from_base64(to_base64(s))", dict(s="s"), lambda s: s)
    E("b64_len", "char_length(to_base64(s))", dict(s="s"), lambda s: (len(s) + 2) // 3 * 4)
    E("hex", "unhex(hex(s))", dict(s="v"), lambda s: s, bounds="1 character of any code point except surrogates", skip=surr)
    E("hex_ascii", "hex(s)", dict(s="s"), lambda s: "".join(hx(ord(c) // 16) + hx(ord(c) % 16) for c in cs(s)))
    E("unhex_ascii", "unhex(hex(s))", dict(s="s"), lambda s: s)

    def B(name, sql, base, lo, hi):
        def fn(ctx):
            n = ctx.nint("n", lo, hi)
            out = run("select %s as x from t" % sql, {"t": [{"id": 1, "n": n}]})
            ctx.check(same(out, [{"x": None if n is None else num_(n, base)}]), sql)
        A(H(name, fn, "ints in [%d,%d] and NULL" % (lo, hi)))
    B("hex_n", "hex(n)", 16, -300, 70000)
    B("bin_n", "bin(n)", 2, -20, 40)
    B("oct_n", "oct(n)", 8, -100, 600)
    return hs


def hx(d):
    return chr(ite(d < 10, d + 48, d + 87))


def surr(r):
    s = r["s"]
    return s is not None and any(bool((ord(c) >= 0xD800) & (ord(c) <= 0xDFFF)) if _sym(c) else 0xD800 <= ord(c) <= 0xDFFF for c in cs(s))


from .lib import _sym          # noqa: E402
