# -*- coding: utf-8 -*-
"""symbolic bytes (concrete length per path) and models of the codecs that consume or produce them"""
import base64
import binascii

import z3

from . import core, ops
from .proxies import Proxy, SymStr, chars_of, code, conc, mkint, mkstr, mkbool, num_expr, slice_positions, index_position


def br(e):
    if e is True or e is False:
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return core.cur().branch(e)


def _v(b):
    return z3.IntVal(b) if type(b) is int else b


def mkbytes(items):
    out = []
    for b in items:
        if type(b) is not int:
            b = z3.simplify(b)
            if z3.is_int_value(b):
                b = b.as_long()
        out.append(b)
    if all(type(b) is int for b in out):
        return bytes(out)
    return SymBytes(out)


def items_of(b):
    return b.b if type(b) is SymBytes else list(b)


class SymBytes(Proxy):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    @property
    def __class__(self): return bytes

    def __len__(self): return len(self.b)
    def __bool__(self): return len(self.b) > 0
    def __hash__(self): return 0x5eed
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return "SymBytes(%d)" % len(self.b)

    def __iter__(self):
        return iter([mkint(x) for x in self.b])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes([self.b[j] for j in slice_positions(i, len(self.b))])
        return mkint(self.b[index_position(i, len(self.b), "index")])

    def __eq__(self, o):
        if not isinstance(o, bytes):
            return NotImplemented
        y = items_of(o)
        if len(y) != len(self.b):
            return False
        return mkbool(z3.And([_v(p) == _v(q) for p, q in zip(self.b, y)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else mkbool(z3.Not(r.e))

    def __add__(self, o):
        return mkbytes(self.b + items_of(o))

    def __radd__(self, o):
        return mkbytes(items_of(o) + self.b)

    def __mul__(self, n):
        return mkbytes(self.b * conc(n))

    def _unicode_escape(self):
        b, out, i = self.b, [], 0
        while i < len(b):
            if not br(_v(b[i]) == 92):
                out.append(b[i])
                i += 1
                continue
            if i + 1 == len(b):
                return conc_bytes(self).decode("unicode_escape")         # (raises)
            c = _v(b[i + 1])
            for k, v in ((92, 92), (39, 39), (34, 34), (98, 8), (102, 12), (110, 10), (114, 13), (116, 9), (118, 11), (97, 7), (10, None)):
                if br(c == k):
                    if v is not None:
                        out.append(v)
                    break
            else:
                if br(z3.Or(c == 120, c == 117, c == 85, c == 78, z3.And(c >= 48, c <= 55))):
                    return conc_bytes(self).decode("unicode_escape")
                out.extend([92, b[i + 1]])
            i += 2
        return mkstr(out)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = str(encoding).lower().replace("_", "-")
        if enc in ("latin-1", "latin1", "iso-8859-1"):
            return mkstr(self.b)
        if enc == "unicode-escape" and errors == "strict":
            return self._unicode_escape()
        if enc not in ("utf-8", "utf8", "ascii"):
            return conc_bytes(self).decode(encoding, errors)
        b, out, i = self.b, [], 0

        def bad(i):
            if errors != "strict":
                return conc_bytes(self).decode(encoding, errors)
            raise UnicodeDecodeError("utf-8", b"?" * len(b), i, i + 1, "invalid byte")
        while i < len(b):
            c = _v(b[i])
            if br(c < 0x80):
                out.append(b[i])
                i += 1
                continue
            if enc == "ascii":
                return bad(i)
            if br(z3.And(c >= 0xC2, c < 0xE0)):
                n, v = 1, c - 0xC0
            elif br(z3.And(c >= 0xE0, c < 0xF0)):
                n, v = 2, c - 0xE0
            elif br(z3.And(c >= 0xF0, c < 0xF5)):
                n, v = 3, c - 0xF0
            else:
                return bad(i)
            if i + n >= len(b):
                return bad(i)
            for k in range(n):
                d = _v(b[i + 1 + k])
                if not br(z3.And(d >= 0x80, d < 0xC0)):
                    return bad(i)
                v = v * 64 + (d - 0x80)
            if n == 2 and not br(z3.And(v >= 0x800, z3.Or(v < 0xD800, v > 0xDFFF))):
                return bad(i)
            if n == 3 and not br(z3.And(v >= 0x10000, v <= 0x10FFFF)):
                return bad(i)
            out.append(v)
            i += n + 1
        return mkstr(out)

    def hex(self, *a):
        return b2a_hex(self).decode() if not a else conc_bytes(self).hex(*a)

    def startswith(self, p): return bool(self[:len(p)] == p)
    def endswith(self, p): return len(p) <= len(self) and bool(self[len(self) - len(p):] == p)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(conc_bytes(self), name)


def conc_bytes(s):
    ctx = core.cur()
    return bytes(x if type(x) is int else ctx.concretize(x) for x in s.b)


def encode(s, encoding="utf-8", errors="strict"):
    enc = str(encoding).lower().replace("_", "-")
    if enc not in ("utf-8", "utf8", "ascii", "latin-1", "latin1"):
        return conc(s).encode(encoding, errors)
    out = []
    for ch in chars_of(s):
        if type(ch) is str:
            out.extend(ch.encode(encoding, errors))
            continue
        c = ch
        if br(c < 0x80):
            out.append(c)
        elif enc == "ascii" or (enc.startswith("latin") and not br(c < 256)):
            raise UnicodeEncodeError(enc, "?", 0, 1, "ordinal not in range")
        elif enc.startswith("latin"):
            out.append(c)
        elif br(c < 0x800):
            out.extend([0xC0 + c / 64, 0x80 + c % 64])
        elif br(c < 0x10000):
            if br(z3.And(c >= 0xD800, c <= 0xDFFF)):
                raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
            out.extend([0xE0 + c / 4096, 0x80 + (c / 64) % 64, 0x80 + c % 64])
        else:
            out.extend([0xF0 + c / 262144, 0x80 + (c / 4096) % 64, 0x80 + (c / 64) % 64, 0x80 + c % 64])
    return mkbytes(out)


def _bytes(x):
    if isinstance(x, str):
        return encode(x, "ascii")
    return x


# ------------------------------------------------------------------ hexadecimal
def b2a_hex(b, *a):
    if a:
        return binascii.b2a_hex(conc_bytes(b), *a)
    out = []
    for x in items_of(b):
        for d in (_v(x) / 16, _v(x) % 16):
            out.append(z3.If(d < 10, d + 48, d + 87))
    return mkbytes(out)


def a2b_hex(s):
    if isinstance(s, str) and any(type(c) is not str and not br(c < 128) for c in chars_of(s)):
        raise ValueError("string argument should contain only ASCII characters")
    h = items_of(_bytes(s))
    if len(h) % 2:
        raise binascii.Error("Odd-length string")
    ds = []
    for x in h:
        x = _v(x)
        if br(z3.And(x >= 48, x <= 57)):
            ds.append(x - 48)
        elif br(z3.And(x >= 97, x <= 102)):
            ds.append(x - 87)
        elif br(z3.And(x >= 65, x <= 70)):
            ds.append(x - 55)
        else:
            raise binascii.Error("Non-hexadecimal digit found")
    return mkbytes([ds[i] * 16 + ds[i + 1] for i in range(0, len(ds), 2)])


# ------------------------------------------------------------------ base64
def b64encode(b, altchars=None):
    if altchars is not None:
        return base64.b64encode(conc_bytes(b), altchars)
    b = items_of(b)

    def enc(d):
        return z3.If(d < 26, d + 65, z3.If(d < 52, d + 71, z3.If(d < 62, d - 4, z3.If(d == 62, z3.IntVal(43), z3.IntVal(47)))))
    out = []
    for i in range(0, len(b), 3):
        g = [_v(x) for x in b[i:i + 3]]
        n = len(g)
        g += [z3.IntVal(0)] * (3 - n)
        v = (g[0] * 65536 + g[1] * 256 + g[2])
        ds = [g[0] / 4, (g[0] % 4) * 16 + g[1] / 16, (g[1] % 16) * 4 + g[2] / 64, g[2] % 64]
        cs = [enc(d) for d in ds]
        out += cs[:n + 1] + [61] * (3 - n)
    return mkbytes(out)


def b64decode(s, altchars=None, validate=False):
    if altchars is not None or validate:
        return base64.b64decode(conc_bytes(_bytes(s)), altchars, validate)
    ds, pads = [], 0
    for x in items_of(_bytes(s)):
        x = _v(x)
        if br(x == 61):
            if len(ds) % 4 >= 2:
                pads += 1
                if (len(ds) % 4) + pads >= 4:
                    break           # what follows a complete padding is ignored
            continue
        if br(z3.And(x >= 65, x <= 90)):
            d = x - 65
        elif br(z3.And(x >= 97, x <= 122)):
            d = x - 71
        elif br(z3.And(x >= 48, x <= 57)):
            d = x + 4
        elif br(x == 43):
            d = z3.IntVal(62)
        elif br(x == 47):
            d = z3.IntVal(63)
        else:
            continue                # other characters are discarded
        pads = 0
        ds.append(d)
    r = len(ds) % 4
    if r == 1 or (r and r + pads < 4):
        raise binascii.Error("Incorrect padding")
    out = []
    for i in range(0, len(ds), 4):
        g = ds[i:i + 4]
        n = len(g)
        g = g + [z3.IntVal(0)] * (4 - n)
        bs = [g[0] * 4 + g[1] / 16, (g[1] % 16) * 16 + g[2] / 4, (g[2] % 4) * 64 + g[3]]
        out += bs[:n - 1]
    return mkbytes(out)


def register():
    for f, h in ((binascii.b2a_hex, b2a_hex), (binascii.hexlify, b2a_hex), (binascii.a2b_hex, a2b_hex), (binascii.unhexlify, a2b_hex)):
        ops.EXTRA[f] = h
    for f, h in ((base64.b64encode, b64encode), (base64.b64decode, b64decode)):
        def w(f, *a, _h=h, **k):
            return _h(*a, **k) if ops._args_sym(a, k) else f(*a, **k)
        ops.FUNC_STUBS[f] = w
