# -*- coding: utf-8 -*-
"""json.dumps/loads over symbolic leaves (default options only; anything else
enumerates)"""
import json

from .proxies import SymStr, SymInt, SymBool, SymReal, chars_of, cin, ceq, mkstr, join, conc_deep, truth, Proxy, code
from . import core

ESC = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\f": "\\f", "\b": "\\b"}


def dumps(o, **k):
    ea = k.pop("ensure_ascii", True)
    default = k.pop("default", None)
    cls = k.pop("cls", None)
    seps = k.pop("separators", None) or (", ", ": ")
    if any(v for v in k.values()):
        return json.dumps(conc_deep(o), ensure_ascii=ea, default=default, cls=cls, separators=seps, **k)
    enc = cls(ensure_ascii=ea) if cls is not None else None
    return _d(o, ea, default, enc, seps)


def _q(s, ea):
    out = ['"']
    for c in chars_of(s):
        if type(c) is str:
            out.extend(list(json.dumps(c, ensure_ascii=ea)[1:-1]))
            continue
        if core.cur().branch(z3_plain(c)):
            out.append(c)
        else:
            v = chr(core.cur().concretize(c))
            out.extend(list(json.dumps(v, ensure_ascii=ea)[1:-1]))
    out.append('"')
    return mkstr(out)


def z3_plain(c):
    import z3
    return z3.And(c >= 32, c < 127, c != 34, c != 92)


def _d(o, ea, default, enc, seps):
    from . import ops
    t = type(o)
    if t in (SymInt, SymReal):
        return ops.to_str(o)
    if t is SymBool:
        return "true" if truth(o) else "false"
    if t is SymStr:
        return _q(o, ea)
    if isinstance(o, dict):
        items = []
        for k, v in o.items():
            if isinstance(k, str):
                ks = k
            elif k is None:
                ks = "null"
            elif isinstance(k, bool):
                ks = "true" if truth(k) else "false"
            else:
                ks = ops.to_str(k)
            items.append(join("", [_q(ks, ea), seps[1], _d(v, ea, default, enc, seps)]))
        return join("", ["{", join(seps[0], items), "}"])
    if isinstance(o, (list, tuple)):
        return join("", ["[", join(seps[0], [_d(x, ea, default, enc, seps) for x in o]), "]"])
    if o is None or t in (int, float, str, bool):
        return json.dumps(o, ensure_ascii=ea)
    if enc is not None:
        return _d(enc.default(o), ea, default, enc, seps)
    if default is not None:
        return _d(default(o), ea, default, enc, seps)
    raise TypeError("Object of type %s is not JSON serializable" % t.__name__)


class _P(object):
    def __init__(self, s):
        self.cs = chars_of(s)
        self.i = 0

    def err(self, msg="Expecting value"):
        raise json.JSONDecodeError(msg, "", self.i)

    def ws(self):
        while self.i < len(self.cs) and cin(self.cs[self.i], " \t\n\r"):
            self.i += 1

    def lit(self, w):
        if self.i + len(w) > len(self.cs):
            return False
        for j, ch in enumerate(w):
            if not ceq(self.cs[self.i + j], ch):
                return False
        self.i += len(w)
        return True

    def value(self):
        from .proxies import str_to_int, str_to_float
        if self.i >= len(self.cs):
            self.err()
        c = self.cs[self.i]
        if ceq(c, '"'):
            return self.string()
        if ceq(c, "{"):
            return self.obj()
        if ceq(c, "["):
            return self.arr()
        if ceq(c, "n"):
            if self.lit("null"):
                return None
            self.err()
        if ceq(c, "t"):
            if self.lit("true"):
                return True
            self.err()
        if ceq(c, "f"):
            if self.lit("false"):
                return False
            self.err()
        if ceq(c, "N"):
            if self.lit("NaN"):
                return float("nan")
            self.err()
        if ceq(c, "I"):
            if self.lit("Infinity"):
                return float("inf")
            self.err()
        st = self.i
        if ceq(c, "-"):
            self.i += 1
            if self.lit("Infinity"):
                return float("-inf")
        if self.i >= len(self.cs):
            self.i = st
            self.err()
        if ceq(self.cs[self.i], "0"):
            self.i += 1
        elif cin(self.cs[self.i], "123456789"):
            while self.i < len(self.cs) and cin(self.cs[self.i], "0123456789"):
                self.i += 1
        else:
            self.i = st
            self.err()
        isf = False
        j = self.i
        if j + 1 < len(self.cs) and ceq(self.cs[j], ".") and cin(self.cs[j + 1], "0123456789"):
            isf = True
            j += 1
            while j < len(self.cs) and cin(self.cs[j], "0123456789"):
                j += 1
        q = j
        if q < len(self.cs) and cin(self.cs[q], "eE"):
            q += 1
            if q < len(self.cs) and cin(self.cs[q], "+-"):
                q += 1
            if q < len(self.cs) and cin(self.cs[q], "0123456789"):
                while q < len(self.cs) and cin(self.cs[q], "0123456789"):
                    q += 1
                isf, j = True, q
        self.i = j
        tok = mkstr(self.cs[st:j])
        if isf:
            return str_to_float(tok) if type(tok) is SymStr else float(tok)
        return str_to_int(tok) if type(tok) is SymStr else int(tok)

    def string(self):
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.cs):
                self.err("Unterminated string starting at")
            c = self.cs[self.i]
            if ceq(c, '"'):
                self.i += 1
                return mkstr(out)
            if ceq(c, "\\"):
                self.i += 1
                if self.i >= len(self.cs):
                    self.err("Unterminated string starting at")
                e = self.cs[self.i]
                for k, v in (('"', '"'), ("\\", "\\"), ("/", "/"), ("b", "\b"), ("f", "\f"),
                             ("n", "\n"), ("r", "\r"), ("t", "\t")):
                    if ceq(e, k):
                        out.append(v)
                        break
                else:
                    if ceq(e, "u"):
                        h = "".join(x if type(x) is str else chr(core.cur().concretize(x))
                                    for x in self.cs[self.i + 1:self.i + 5])
                        try:
                            out.append(json.loads('"\\u' + h + '"'))
                        except ValueError:
                            self.err("Invalid \\uXXXX escape")
                        self.i += 4
                    else:
                        self.err("Invalid \\escape")
                self.i += 1
                continue
            if type(c) is str:
                if ord(c) < 32:
                    self.err("Invalid control character at")
            elif core.cur().branch(c < 32):
                self.err("Invalid control character at")
            out.append(c)
            self.i += 1

    def obj(self):
        from . import ops
        self.i += 1
        d = {}
        self.ws()
        if self.i < len(self.cs) and ceq(self.cs[self.i], "}"):
            self.i += 1
            return d
        while True:
            self.ws()
            if self.i >= len(self.cs) or not ceq(self.cs[self.i], '"'):
                self.err("Expecting property name enclosed in double quotes")
            k = self.string()
            self.ws()
            if self.i >= len(self.cs) or not ceq(self.cs[self.i], ":"):
                self.err("Expecting ':' delimiter")
            self.i += 1
            self.ws()
            ops.setitem(d, k, self.value())
            self.ws()
            if self.i < len(self.cs) and ceq(self.cs[self.i], ","):
                self.i += 1
                continue
            if self.i < len(self.cs) and ceq(self.cs[self.i], "}"):
                self.i += 1
                return d
            self.err("Expecting ',' delimiter")

    def arr(self):
        self.i += 1
        out = []
        self.ws()
        if self.i < len(self.cs) and ceq(self.cs[self.i], "]"):
            self.i += 1
            return out
        while True:
            self.ws()
            out.append(self.value())
            self.ws()
            if self.i < len(self.cs) and ceq(self.cs[self.i], ","):
                self.i += 1
                continue
            if self.i < len(self.cs) and ceq(self.cs[self.i], "]"):
                self.i += 1
                return out
            self.err("Expecting ',' delimiter")


def loads(s, **k):
    if any(v is not None for v in k.values()):
        from .proxies import conc
        return json.loads(conc(s), **k)
    p = _P(s)
    p.ws()
    v = p.value()
    p.ws()
    if p.i != len(p.cs):
        p.err("Extra data")
    return v
