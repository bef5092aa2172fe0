# -*- coding: utf-8 -*-
"""JSON functions: paths, containment, changed documents."""
import copy
from .lib import *
from .lib import _sym

SKIP = object()       # outside the claim
MISSING = object()


def concrete_loads(s):
    from sx import jsonsym
    return jsonsym.loads(s)


def dumps(doc):
    from sx import jsonsym
    return jsonsym.dumps(doc)


def clone(v):
    """a copy of the containers of a value"""
    if isinstance(v, dict):
        return dict((k, clone(x)) for k, x in v.items())
    if isinstance(v, list):
        return [clone(x) for x in v]
    return v


def kind(v):
    return "list" if isinstance(v, list) else "dict" if isinstance(v, dict) else "scalar"


def child(doc, leg):
    """(container key found, ...) of one leg: key or index to use, MISSING, or SKIP"""
    what, x = leg
    if what == "i":
        if kind(doc) == "scalar":
            return SKIP if doc is not None else MISSING
        if kind(doc) == "dict":
            return SKIP
        for k in range(len(doc)):
            if is_true(x == k):
                return k
        return MISSING
    if kind(doc) != "dict":
        return MISSING
    for k in doc:
        if is_true(x == k):
            return k
    return MISSING


def walk(doc, legs):
    for leg in legs:
        k = child(doc, leg)
        if k is SKIP or k is MISSING:
            return k
        doc = doc[k]
    return doc


def put(doc, legs, value):
    """the document with the value at the path"""
    if not legs:
        return SKIP
    doc = clone(doc)
    at = walk(doc, legs[:-1])
    if at is SKIP or at is MISSING:
        return SKIP if at is SKIP else doc
    k = child(at, legs[-1])
    if k is SKIP:
        return SKIP
    if k is not MISSING:
        at[k] = value
    elif kind(at) == "dict":
        at[legs[-1][1]] = value
    elif kind(at) == "list" and legs[-1][0] == "i":
        at.append(value)
    return doc


def drop(doc, legs):
    """the document without the value at the path"""
    if not legs:
        return SKIP
    doc = clone(doc)
    at = walk(doc, legs[:-1])
    if at is SKIP or at is MISSING:
        return SKIP if at is SKIP else doc
    k = child(at, legs[-1])
    if k is SKIP:
        return SKIP
    if k is not MISSING:
        del at[k]
    return doc


def contains(target, cand):
    """the MySQL rules of containment"""
    if kind(target) == "list":
        if kind(cand) == "list":
            return conj([disj([contains(t, c) for t in target]) for c in cand])
        return disj([contains(t, cand) for t in target])
    if kind(target) == "dict":
        if kind(cand) != "dict":
            return False
        return conj([k in target and contains(target[k], v) for k, v in cand.items()])
    if kind(cand) != "scalar":
        return False
    return equal(target, cand)


def equal(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) != isinstance(b, str) or isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def depth(v):
    vs = v if kind(v) == "list" else list(v.values()) if kind(v) == "dict" else []
    return 1 + max([0] + [depth(x) for x in vs])


def path(ctx, name, n, plain="ab", quoted="a.", lens=(1, 1)):
    """a path of n legs: its text and its legs"""
    text, legs = "$", []
    for i in range(n):
        nm = "%s%d" % (name, i)
        form = ctx.choice(nm + " form", ("name", "index", "quoted"))
        if form == "index":
            d = ctx.int(nm, 0, 3)
            legs.append(("i", d))
            text = text + "[" + str(d) + "]"
        elif form == "name":
            s = ctx.str(nm, lens[0], alphabet=plain, minlen=1)
            legs.append(("n", s))
            text = text + "." + s
        else:
            s = ctx.str(nm, lens[1], alphabet=quoted, minlen=1)
            legs.append(("n", s))
            text = text + '."' + s + '"'
    return text, legs


def doc1(ctx):
    return {"a": [ctx.int("u", 0, 9), {"b": ctx.int("v", 0, 9), "a": None}], "b": {"a": {"a": ctx.int("w", 0, 9), "b": "xy"}, ".": [True]}, ".": ctx.int("z", 0, 9), "ab": None}


def doc2(ctx):
    return [ctx.int("u", 0, 9), [ctx.int("v", 0, 9), ctx.int("w", 0, 9), {"a": "q"}], {"a": [], "b": {}, ".": {"a": ctx.int("z", 0, 9)}}]


DOCS = {"object": doc1, "array": doc2}


def rnd(ctx, name, depth, leaf=("int", "null", "str", "bool")):
    """any document of a depth, two children each"""
    k = ctx.choice(name, leaf + (("[]", "[1]", "[2]", "{}", "{1}", "{2}") if depth > 1 else ()))
    if k == "int":
        return ctx.int(name + "i", 0, 9)
    if k == "null":
        return None
    if k == "bool":
        return ctx.choice(name + "b", (True, False))
    if k == "str":
        return ctx.str(name + "s", 1, alphabet="1a\"", minlen=0)
    n = int(k[1:-1] or 0)
    if k[0] == "[":
        return [rnd(ctx, "%s%d" % (name, i), depth - 1, leaf) for i in range(n)]
    return dict(("ab"[i], rnd(ctx, "%s%d" % (name, i), depth - 1, leaf)) for i in range(n))


def harnesses(tier):
    hs = []
    T = tier == "thorough"

    def add(name, sql, mk, bounds, form="both", keep=True):
        """mk(ctx) -> columns, expected value (SKIP: outside the claim)"""
        def fn(ctx):
            cols, exp = mk(ctx)
            if callable(exp):
                exp = exp()
            ctx.assume(exp is not SKIP)
            f = ctx.choice("form", ("value", "text")) if form == "both" and (T or len(name) % 2) else "value" if form == "both" else form
            given = dumps(cols["j"]) if f == "text" else clone(cols["j"])
            with Engine() as e:
                e.load("t", [dict(cols, j=given)])
                out = e.rows("select %s as x from t" % sql)
                left = e.rows("select j from t")
            ctx.meta["out"] = [out, left]
            ctx.check(same(out, [{"x": exp}]), "the result")
            ctx.check(same(left, [{"j": dumps(cols["j"]) if f == "text" else cols["j"]}]), "the document read keeps its value")
        hs.append(H(name, fn, bounds))

    none = lambda v: None if v is MISSING else v
    for d in DOCS:
        for n in (0, 1, 2, 3):
            b = "%s of depth 4 with any digits, path of %d legs: .name, .\"name\" or [0..3]; names of 1-2 characters" % (d, n)
            if T:
                pl, qu, lg = "ab", "ab .[", (2 if n < 2 else 1, 2 if n < 3 else 1)
            else:
                pl, qu, lg = "ab", "a.", (2, 2) if n < 2 else (1, 1)

            def p1(ctx, d=d, n=n, pl=pl, qu=qu, lg=lg):
                t, legs = path(ctx, "p", n, pl, qu, lg)
                return DOCS[d](ctx), t, legs

            def extract(ctx, p1=p1):
                doc, t, legs = p1(ctx)
                return {"j": doc, "p": t}, lambda: none(walk(doc, legs))
            add("extract %s %d" % (d, n), "json_extract(j, p)", extract, b)

            def length(ctx, p1=p1):
                doc, t, legs = p1(ctx)
                v = lambda x: x if x is SKIP else None if x is MISSING else 1 if kind(x) == "scalar" else len(x)
                return {"j": doc, "p": t}, lambda: v(walk(doc, legs))
            if n < 3 or T:
                add("length %s %d" % (d, n), "json_length(j, p)", length, b)

            def keys(ctx, p1=p1):
                doc, t, legs = p1(ctx)
                v = lambda x: list(x) if kind(x) == "dict" else SKIP
                return {"j": doc, "p": t}, lambda: v(walk(doc, legs))
            if (n or d == "object") and (n < 2 or T and n < 3):
                add("keys %s %d" % (d, n), "json_keys(j, p)", keys, b)

            def has(ctx, p1=p1):
                doc, t, legs = p1(ctx)
                v = lambda x: x if x is SKIP else 0 if x is MISSING else 1
                return {"j": doc, "p": t}, lambda: v(walk(doc, legs))
            for word in ("one", "ALL")[:2 if n == 1 or T else 0]:
                add("path %s %s %d" % (word, d, n), "json_contains_path(j, '%s', p)" % word, has, b)

            def cont(ctx, p1=p1):
                doc, t, legs = p1(ctx)
                c = ctx.choice("candidate", ("int", "object", "array"))
                x = ctx.int("c", 0, 9)
                cand = {"int": x, "object": {"a": x}, "array": [x]}[c]
                v = lambda at: at if at is SKIP else SKIP if at is MISSING else tf(contains(at, cand))
                return {"j": doc, "p": t, "c": dumps(cand)}, lambda: v(walk(doc, legs))
            if n < 2 or T and n < 3:
                add("contains %s %d" % (d, n), "json_contains(j, c, p)", cont, b)

            if n:
                def sets(ctx, p1=p1):
                    doc, t, legs = p1(ctx)
                    x = ctx.choice("new", ("int", "str", "null"))
                    x = ctx.int("x") if x == "int" else None if x == "null" else "q"
                    return {"j": doc, "p": t, "v": x}, lambda: put(doc, legs, x)
                add("set %s %d" % (d, n), "json_set(j, p, v)", sets, b)

                def removes(ctx, p1=p1):
                    doc, t, legs = p1(ctx)
                    return {"j": doc, "p": t}, lambda: drop(doc, legs)
                add("remove %s %d" % (d, n), "json_remove(j, p)", removes, b)

    for d in DOCS:
        b = "%s of depth 4, two paths of 1-2 legs" % d

        def two(ctx, d=d):
            t, legs = path(ctx, "p", 1 + ctx.choice("legs", (0, 1)) if T else 1, "ab", ".")
            t2, legs2 = path(ctx, "q", 1, "ab", ".")
            return DOCS[d](ctx), t, legs, t2, legs2

        def set2(ctx, two=two):
            doc, t, legs, t2, legs2 = two(ctx)
            x, y = ctx.int("x"), ctx.int("y")

            def exp():
                r = put(doc, legs, x)
                return r if r is SKIP else put(r, legs2, y)
            return {"j": doc, "p": t, "q": t2, "v": x, "w": y}, exp
        add("set two %s" % d, "json_set(j, p, v, q, w)", set2, b)

        def rem2(ctx, two=two):
            doc, t, legs, t2, legs2 = two(ctx)

            def exp():
                r = drop(doc, legs)
                return r if r is SKIP else drop(r, legs2)
            return {"j": doc, "p": t, "q": t2}, exp
        add("remove two %s" % d, "json_remove(j, p, q)", rem2, b)

        def setrem(ctx, two=two):
            doc, t, legs, t2, legs2 = two(ctx)
            x = ctx.int("x")

            def exp():
                r = put(doc, legs, x)
                if r is SKIP:
                    return r
                r = drop(r, legs2)
                return r if r is SKIP else none(walk(r, legs))
            return {"j": doc, "p": t, "q": t2, "v": x}, exp
        add("extract of remove of set %s" % d, "json_extract(json_remove(json_set(j, p, v), q), p)", setrem, b)
        for word in ("one", "all"):
            def has2(ctx, two=two, word=word):
                doc, t, legs, t2, legs2 = two(ctx)

                def exp():
                    r = [walk(doc, legs), walk(doc, legs2)]
                    if SKIP in r:
                        return SKIP
                    return tf((any if word == "one" else all)([x is not MISSING for x in r]))
                return {"j": doc, "p": t, "q": t2}, exp
            add("paths %s %s" % (word, d), "json_contains_path(j, '%s', p, q)" % word, has2, b)

    def arrow(op, sql):
        def mk(ctx):
            doc = {"a": [ctx.int("u", 0, 9), {"b": ctx.int("v", 0, 9), "n": None}], "b": "x" + ctx.str("s", 1, alphabet="a1 ")}
            return {"j": doc}, {"$.a[0]": doc["a"][0], "$.a[1].b": doc["a"][1]["b"], "$.a[1].n": None, "$.b": doc["b"], "$.a[*].b": [doc["a"][1]["b"]], "$.a": doc["a"], "$.c": None}[sql]
        add("%s %s" % (op, sql), "j%s'%s'" % (op, sql), mk, "any digits")
    for op in ("->", "->>"):
        for q in ("$.a[0]", "$.a[1].b", "$.a[1].n", "$.b", "$.a[*].b", "$.a", "$.c"):
            arrow(op, q)

    dp = 3 if T else 2
    b = "any document of depth <= %d with <= 2 children each; leaves: digits, NULL, booleans, strings of <= 1 character" % dp

    def depths(ctx):
        doc = rnd(ctx, "d", 3, ("int", "null", "str"))
        return {"j": doc}, depth(doc)

    def nullless(ctx, f):
        doc = rnd(ctx, "d", dp)
        if doc is None or isinstance(doc, str):
            return {"j": doc}, SKIP
        return {"j": doc}, f(doc)
    add("depth", "json_depth(j)", lambda ctx: nullless(ctx, depth), b)
    add("depth of value", "json_depth(j)", depths, b, "value")
    add("valid", "json_valid(j)", lambda ctx: nullless(ctx, lambda d: 1), b)
    add("length", "json_length(j)", lambda ctx: nullless(ctx, lambda d: 1 if kind(d) == "scalar" else len(d)), b)
    add("decode of encode", "json_decode(json_encode(j))", lambda ctx: ((lambda d: ({"j": d}, d))(rnd(ctx, "d", dp))), b, "value")
    add("decode", "json_decode(j)", lambda ctx: ((lambda d: ({"j": d}, d))(rnd(ctx, "d", dp))), b, "text")
    add("encode", "json_encode(j)", lambda ctx: ((lambda d: ({"j": d}, dumps(d)))(rnd(ctx, "d", dp))), b, "value")

    def both(ctx):
        doc, cand = rnd(ctx, "d", 2, ("int", "bool", "null")), rnd(ctx, "c", 2, ("int",) if not T else ("int", "bool"))
        if doc is None:
            return {"j": doc}, SKIP
        return {"j": doc, "c": dumps(cand)}, lambda: tf(contains(doc, cand))
    add("contains any", "json_contains(j, c)", both, "any document and candidate of depth <= 2 with <= 2 children each")

    def arr(ctx):
        x, y = ctx.nint("x"), ctx.str("y", 2)
        return {"j": {"a": 1}, "x": x, "y": y}, [x, y, {"a": 1}]
    add("array", "json_array(x, y, j)", arr, "any int, NULL, string of <= 2", "value")

    def bad(ctx):
        s = ctx.str("s", 4 if T else 3, alphabet='[]{}1,":a ')
        with Engine() as e:
            e.load("t", [{"j": s}])
            out = e.rows("select json_valid(j) as x from t")
        ctx.meta["out"] = out
        try:
            concrete_loads(s)
            ok = 1
        except ValueError:
            ok = 0
        ctx.check(same(out, [{"x": ok}]), "whether the text is JSON")
    hs.append(H("valid text", bad, "texts of <= %d characters of []{}1,\":a and blank" % (4 if T else 3)))

    def nulls(ctx):
        q = ctx.choice("function", ("json_extract(j, '$.a')", "json_length(j)", "json_valid(j)", "json_length(j, '$.a')", "json_set(j, '$.a', 1)", "json_remove(j, '$.a')",
                                    "json_contains_path(j, 'one', '$.a')", "json_contains(j, '1')", "json_decode(j)"))
        with Engine() as e:
            e.load("t", [{"i": 1, "j": None}, {"i": 2, "j": {"a": ctx.int("u")}}])
            out = e.rows("select i, %s as x from t" % q)
        ctx.meta["out"] = out
        ctx.check(same([r["i"] for r in out], [1, 2]) and out[0]["x"] is None, "NULL of NULL")
    hs.append(H("null", nulls, "each function of a NULL document"))

    def rowset(name, sql, exp):
        def fn(ctx):
            docs = [{"a": ctx.int("u%d" % i, 0, 9), "b": [ctx.int("v%d" % i, 0, 9)]} for i in range(3)]
            form = ctx.choice("form", ("value", "text"))
            with Engine() as e:
                e.load("t", [{"i": i, "j": dumps(d) if form == "text" else clone(d)} for i, d in enumerate(docs)])
                out = e.rows(sql)
                left = e.rows("select j from t")
            ctx.meta["out"] = out
            ctx.check(same(out, exp(docs)), "the rows")
            ctx.check(same(left, [{"j": dumps(d) if form == "text" else d} for d in docs]), "the documents read keep their value")
        hs.append(H(name, fn, "3 documents with any digits"))
    rowset("where extract", "select i from t where json_extract(j, '$.a') > 4", lambda ds: [{"i": i} for i, d in enumerate(ds) if is_true(d["a"] > 4)])
    rowset("where contains", "select i from t where json_contains(j, '3', '$.b') = 1", lambda ds: [{"i": i} for i, d in enumerate(ds) if is_true(d["b"][0] == 3)])
    rowset("order by extract", "select i, json_extract(j, '$.b[0]') as x from t order by x, i", lambda ds: order_rows([{"i": i, "x": d["b"][0]} for i, d in enumerate(ds)], ("x", False), ("i", False)))
    rowset("sum of extract", "select sum(json_extract(j, '$.a')) as x, max(json_extract(j, '$.b[0]')) as y from t", lambda ds: [{"x": ds[0]["a"] + ds[1]["a"] + ds[2]["a"], "y": maxof([d["b"][0] for d in ds])}])
    rowset("set by row", "select json_set(j, '$.a', i) as x, json_extract(j, '$.a') as y from t", lambda ds: [{"x": dict(d, a=i), "y": d["a"]} for i, d in enumerate(ds)])
    return hs
