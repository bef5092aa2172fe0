# -*- coding: utf-8 -*-
"""${name} and ${name:default} in a script."""
from .lib import *


def fmt(v):
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, (list, tuple)):
        out = ""
        for i, x in enumerate(v):
            out = out + ("," if i else "") + fmt(x)
        return "(" + out + ")"
    return str(v)


# a script text as pieces: text, or (name, default or None)
V = lambda name, default=None: (name, default)
PIECES = [
    [V("@a")],
    ["select '", V("@a"), "' as x"],
    ["select ", V("@a"), ", '", V("@b"), "' from t"],
    [V("@a"), V("@b")], [V("@b"), V("@a")],
    [V("@a"), V("@a"), "-", V("@a", "7")],
    [V("@a", "5"), " ", V("@c", "5"), " ", V("@b", "'x y'")],
    [V("@c", "'x y'"), V("@c", ""), V("@c"), V("@c", "a:b"), V("@c", "1,\n2")],
    ["${a b} $a {a} ${} ${:x} ${-} $ { ", V("@a"), " }"],
    ["set @x='", V("@a"), "';\n-- ", V("@b"), "\nselect @x"],
    ["\\", V("@a"), "\\\\", V("@b"), "$", V("@a"), "}", V("@b"), "{"],
    [V("a"), V("b"), V("A"), V("c", "1")],
    [V("@A"), " ", V("@a"), " ", V("@aa"), V("@aA", "0")],
    [V("lower"), V("LOWER"), V("Lower", "1"), V("Mixed"), V("mixed", "none")],
    ["%s %d %(a)s \\1 \\g<0> ", V("@a"), " \\1"],
    [V("@a", "\\1"), V("@b", "x"), V("@c", "\\1\\n")],
]


def harnesses(tier):
    hs = []
    T = tier == "thorough"

    def text(pieces):
        return "".join(p if isinstance(p, str) else "${%s%s}" % (p[0], "" if p[1] is None else ":" + p[1]) for p in pieces)

    def value(env, name):
        for n in (name, name.lower()):
            if n in env:
                return env[n]
            if n[0] == "@" and n[1:] in env:
                return env[n[1:]]
        return KeyError

    def expected(pieces, env):
        out = ""
        for p in pieces:
            if isinstance(p, str):
                out = out + p
                continue
            v = value(env, p[0])
            out = out + ((p[1] or "") if v is KeyError else fmt(v))
        return out

    def subst(name, pieces, mk, context=False):
        def fn(ctx):
            env = mk(ctx)
            with Engine() as e:
                e.e.setup()
                ex = e.e.executor
                for k, v in env.items():
                    ex.env_variables[k] = v
                if context:
                    ex = e.e.context().executor
                out = ex.compile_variable(text(pieces))
                left = dict((k, ex.env_variables.get(k)) for k in env)
            ctx.meta["out"] = out
            ctx.check(same(out, expected(pieces, env)), "text with the variables' values")
            ctx.check(conj([same(left[k], env[k]) for k in env]), "the variables keep their values")
        hs.append(H("%s %r" % (name, text(pieces)), fn, "values: " + name))
    k = 3 if T else 2
    AL = "${}@ab:'\\;"
    for i, p in enumerate(PIECES):
        two = lambda ctx: {"@a": ctx.str("a", k, alphabet=AL), "@b": ctx.str("b", k, alphabet=AL)}
        low = lambda ctx: {"a": ctx.str("a", k, alphabet=AL), "b": ctx.str("b", 1), "@A": ctx.str("A", 1), "@aa": ctx.str("aa", 1), "lower": ctx.str("l", 1), "Mixed": ctx.str("m", 1)}
        subst("texts", p, low if i in (11, 12, 13) else two, context=i % 2 == 1)
        if i in (11, 12, 13):
            continue
        subst("any text", p, lambda ctx: {"@a": ctx.str("a", 2), "@b": ctx.str("b", 1)})
        subst("numbers", p, lambda ctx: {"@a": ctx.nint("a", -9, 10), "@b": ctx.bool("b")}, context=i % 2 == 0)
        subst("lists", p, lambda ctx: {"@a": [ctx.nint("a", -1, 2), ctx.str("s", 1, alphabet=AL), True], "@b": [[ctx.int("b", 9, 10)], None]})
        subst("one", p, lambda ctx: {"@b": ctx.str("b", k, alphabet=AL)})

    # a default that is a call of a function
    CALLS = [("${x:abs(-5)}", "5"), ("${@x:add(1,2)}", "3"), ("a${x:sub(1, 3)}b", "a-2b"), ("${x:mul(2, 4)}${@a}", None),
             ("${x:nofunc(1)}", "nofunc(1)"), ("${x:(1,2)}", "(1,2)"), ("${x:mysql__upper('ab')}", "AB"), ("${x:mysql__concat(1,'b')}", "1b")]

    def calls(ctx):
        i = ctx.choice("call", tuple(range(len(CALLS))))
        a = ctx.str("a", 2, alphabet=AL)
        with Engine() as e:
            e.e.set_variable("a", a)
            out = e.e.executor.compile_variable(CALLS[i][0])
        ctx.meta["out"] = out
        ctx.check(same(out, "8" + a if CALLS[i][1] is None else CALLS[i][1]), "value of the call")
    hs.append(H("calls", calls, "8 defaults"))

    # a statement sees the value as if it stood there
    WORDS = [("it''s", "it's"), ("a;b", "a;b"), ("${@b}", "${@b}"), ("${@a}", "${@a}"), ("-- x", "-- x"), ("", ""), ("a:b}", "a:b}"), ("\\\\1", "\\1"), ("%s", "%s")]
    NUMS = [5, -3, 2.5, True, None]

    def statement(ctx):
        i = ctx.choice("word", tuple(range(len(WORDS))))
        j = ctx.choice("number", tuple(range(len(NUMS))))
        with Engine() as e:
            e.e.set_variable("a", WORDS[i][0])
            e.e.set_variable("b", NUMS[j])
            e.execute("insert into o select '${@a}' as x, ${@b} as y, ${@zz:7} as z")
            out = e.pop("o")
        ctx.meta["out"] = out
        ctx.check(same(out, [{"x": WORDS[i][1], "y": NUMS[j], "z": 7}]), "stored")
    hs.append(H("statement", statement, "9 texts, 5 other values"))

    def lists(ctx):
        t = table(ctx, 2, "", "a")
        x, y = ctx.choice("x", tuple(range(5))), ctx.choice("y", tuple(range(5)))
        with Engine() as e:
            e.load("t", t)
            e.e.set_variable("l", [x, y])
            e.execute("insert into o select id from t where a in ${@l}")
            out = e.pop("o")
        ctx.check(same(out, [{"id": r["id"]} for r in t if is_true(disj([r["a"] == x, r["a"] == y]))]), "rows")
    hs.append(H("list in", lists, "two rows, 2 numbers"))

    # --name=value arguments of the process
    def args(ctx):
        import sys
        from syncanysql.executor import EnvVariables
        from syncanysql.config import GlobalConfig
        s = ctx.str("s", 3, alphabet="=a-\\ '\"", minlen=0)
        q = ctx.choice("quote", ("", "'", '"'))
        if q == "":
            ctx.assume(neg(disj([s.startswith("'"), s.startswith('"')])))
        old = sys.argv
        try:
            sys.argv = ["syncany-sql", "x.sql", "--v=" + q + s + q, "--flag", "w=1", "-x"]
            env = EnvVariables.build_global(GlobalConfig())
        finally:
            sys.argv = old
        ctx.check(same(env["v"], s), "the argument's value")
        ctx.check(env["flag"] is True and "w" not in env and "x" not in env, "arguments")
    hs.append(H("arguments", args, "values of up to 3 characters"))
    return hs
