# -*- coding: utf-8 -*-
"""scopes of variables and functions: everyone, an engine, its contexts, executed files."""
import os
import shutil
import tempfile
from .lib import *


class Scratch(object):
    """a directory with scripts"""

    def __init__(self, **files):
        self.files = files

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="sx")
        self.old = os.getcwd()
        for k, v in self.files.items():
            with open(os.path.join(self.dir, k + ".sql"), "w") as f:
                f.write(v)
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir)


def clean():
    """variables set for everyone are forgotten"""
    from syncanysql.executor import Executor
    for k in ("@v", "@w"):
        (Executor.global_env_variables or {}).pop(k, None)


FILES = dict(
    plain="insert into o select @v as x; select 9 into @v; insert into o select @v as x",
    into="select a into @v from t where id=0; insert into o select @v as x",
    outer="execute 'plain.sql'; insert into o select @v as x",
    everyone="set global @v=8",
)


def harnesses(tier):
    hs = []
    T = tier == "thorough"
    L = ("engine", "first", "second")

    def seen(own, l):
        for k in ((l, "engine", "all") if l != "engine" else ("engine", "all")):
            if k in own:
                return own[k]
        return None

    # op: (name, what runs at the level, its effect: own value of the level / of all, rows it stores into o)
    def api(e, x):
        (e.e if isinstance(e, Engine) else e).set_variable("v", x)

    def api2(e, x):
        (e.e if isinstance(e, Engine) else e).set_variable("@v", x)
    OPS = {
        "set_variable": (api, "own", lambda x, old, a: x, lambda x, old, a: []),
        "set_variable @": (api2, "own", lambda x, old, a: x, lambda x, old, a: []),
        "set": ("set @v=7", "own", lambda x, old, a: 7, lambda x, old, a: []),
        "set expression": ("set @v=@v+1", "own", lambda x, old, a: None if old is None else old + 1, lambda x, old, a: []),
        "into": ("select a into @v from t where id=0", "own", lambda x, old, a: a, lambda x, old, a: []),
        "assign": ("insert into o select (@v := a) as x from t", "own", lambda x, old, a: a, lambda x, old, a: [a]),
        "global": ("set global @v=3", "all", lambda x, old, a: 3, lambda x, old, a: []),
        "execute": ("execute `plain.sql`", None, None, lambda x, old, a: [old, 9]),
        "execute into": ("execute `into.sql`", None, None, lambda x, old, a: [a]),
        "execute execute": ("execute `outer.sql`", None, None, lambda x, old, a: [old, 9, old]),
        "execute global": ("execute `everyone.sql`", "all", lambda x, old, a: 8, lambda x, old, a: []),
    }

    def history(name, ops, n, joined=False):
        def fn(ctx):
            clean()
            a = ctx.int("a")
            with Scratch(**FILES), Engine() as e:
                e.load("t", [{"id": 0, "a": a}])
                cs = {"engine": e, "first": e.e.context(), "second": e.e.context()}
                own, rows = {}, []
                for i in range(n):
                    op, l, x = ctx.choice("op%d" % i, ops), ctx.choice("level%d" % i, L), (ctx.nint if i == 0 else ctx.int)("x%d" % i)
                    do, what, f, out = OPS[op]
                    old = seen(own, l)
                    if callable(do):
                        do(cs[l], x)
                    else:
                        cs[l].execute(do)
                    rows.extend(out(x, old, a))
                    if what:
                        own[l if what == "own" else "all"] = f(x, old, a)
                exp = [seen(own, l) for l in L]
                api_got = [(cs[l].e if l == "engine" else cs[l]).get_variable("v") for l in L]
                sql_got = []
                for l in L:
                    cs[l].execute("insert into p select @v as x")
                    sql_got.append(e.pop("p")[0]["x"])
                o = [r["x"] for r in e.get("o")]
                dflt = [(cs[l].e if l == "engine" else cs[l]).get_variable("w", 5) for l in L]
            clean()
            ctx.meta["out"] = (api_got, sql_got, o)
            ctx.check(same(api_got, exp), "get_variable")
            ctx.check(same(sql_got, exp), "the variable in a statement")
            ctx.check(same(o, rows), "rows stored on the way")
            ctx.check(dflt == [5, 5, 5], "default")
        hs.append(H(name, fn, "%d operations at three levels, any values" % n))
    names = tuple(OPS)
    for i, a in enumerate(names):
        if not T:
            history("%s then another" % a, (a,) + tuple(names[(i + k) % len(names)] for k in (1, 2, 4, 5)), 2)
        else:
            history("%s" % a, (a,) + tuple(names[(i + k) % len(names)] for k in (1, 3, 4)), 3)
            history("%s then any" % a, (a,) + names[i + 1:], 2)

    # settings
    def settings(ctx):
        l = ctx.choice("level", L)
        v, w = ctx.choice("file", ("conf", "outer", "all", "none")), ctx.choice("own", (True, False))
        files = dict(conf="set @config.options.k=6; set @config.databases.d.p=7; insert into o select 1 as x", outer="set @config.options.m=3; execute 'conf.sql'", all="set global @config.options.k=5", none="insert into o select 1 as x")
        with Scratch(**files), Engine({"options": {"k": 1}, "databases": [{"name": "d", "driver": "memory", "p": 1}]}) as e:
            cs = {"engine": e, "first": e.e.context(), "second": e.e.context()}
            if w:
                cs[l].execute("set @config.options.k=2")
            cs[l].execute("execute '%s.sql'" % v)
            got = []
            for k in L:
                c = ((cs[k].e if k == "engine" else cs[k]).executor.session_config).get()
                got.append((c["options"], [d["p"] for d in c["databases"] if d["name"] == "d"]))
        exp = [({"k": 2 if w and l in (k, "engine") else 5 if v == "all" else 1}, [1]) for k in L]
        ctx.meta["out"] = got
        ctx.check(got == exp, "the settings of the caller")
    hs.append(H("settings in executed files", settings, "four scripts, three levels"))

    # functions
    def functions(ctx):
        f = {"engine": ctx.int("f0"), "first": ctx.int("f1"), "second": ctx.int("f2")}
        late = ctx.choice("late", (True, False))
        has = {l: ctx.choice(l, (True, False)) for l in L}
        with Scratch(f="insert into p select f() as x"), Engine() as e:
            cs = {"engine": e.e, "first": e.e.context(), "second": e.e.context()}
            if late:
                for l in L:
                    cs[l].execute("insert into q select 1 as x")
            for l in L:
                if has[l]:
                    cs[l].use("f", lambda l=l: f[l])
            got, filed = [], []
            for l in L:
                for stmt, to in (("insert into p select f() as x", got), ("execute `f.sql`", filed)):
                    try:
                        cs[l].execute(stmt)
                        to.append(e.pop("p")[0]["x"])
                    except Exception as x:
                        to.append("unknown")
        exp = [f[l] if has[l] else f["engine"] if has["engine"] else "unknown" for l in L]
        ctx.check(same(got, exp), "the nearest level's function")
        ctx.check(same(filed, exp), "the function in an executed file")
    hs.append(H("functions", functions, "a function or none at each of three levels"))

    def replaced(ctx):
        x, y = ctx.int("x"), ctx.int("y")
        l1, l2 = ctx.choice("l1", L), ctx.choice("l2", L)
        with Engine() as e:
            cs = {"engine": e.e, "first": e.e.context(), "second": e.e.context()}
            cs["engine"].use("f", lambda: 0)
            got, own = [], {"engine": 0}
            for l, v in ((l1, x), (l2, y)):
                cs[l].use("f", lambda v=v: v)
                own[l] = v
                for k in L:
                    cs[k].execute("insert into p select f() as x")
                    got.append(same(e.pop("p")[0]["x"], seen(own, k)))
        ctx.check(conj(got), "the last function of the nearest level")
    hs.append(H("functions replaced", replaced, "two registrations at any level"))

    # the current executor and context
    def current(ctx):
        from syncanysql import ScriptEngine
        from syncanysql.executor import Executor
        x = ctx.int("x")
        fail = ctx.choice("fail", (True, False))
        with Engine() as e:
            log = []
            e.e.use("here", lambda: (log.append(Executor.current().env_variables.get("@v")), 1)[1])
            with e.e.context() as c:
                c.set_variable("v", x)
                inside = ScriptEngine.current_context() is c
                c.execute("insert into p select here() as x")
                if fail:
                    try:
                        c.execute("insert into p select nofunction(1) as x; insert into p select 2 as x")
                    except Exception:
                        pass
            outside = ScriptEngine.current_context()
            e.execute("insert into p select here() as x")
            p = e.pop("p")
        ctx.check(inside and outside is None, "the current context")
        ctx.check(same(log, [x, None]), "functions see the executor that runs them")
        ctx.check(p == [{"x": 1}, {"x": 1}], "rows")
    hs.append(H("current", current, "any value"))

    # contexts entered inside each other
    def nested(ctx):
        from syncanysql import ScriptEngine
        n = 4 if T else 3
        with Engine() as e:
            cs = [e.e.context(), e.e.context(), e.e.context()]
            stack, good = [], []
            for i in range(2 * n):
                if len(stack) < n and (not stack or ctx.choice("enter%d" % i, (True, False))):
                    c = cs[ctx.choice("which%d" % i, (0, 1, 2))]
                    c.__enter__()
                    stack.append(c)
                else:
                    stack.pop().__exit__(None, None, None)
                good.append(ScriptEngine.current_context() is (stack[-1] if stack else None))
            while stack:
                stack.pop().__exit__(None, None, None)
                good.append(ScriptEngine.current_context() is (stack[-1] if stack else None))
        ctx.check(all(good), "the innermost context entered and not left is the current one")
    hs.append(H("nested contexts", nested, "every sequence of entering one of 3 contexts and leaving, depth up to %d" % (4 if T else 3)))

    # ${v} uses the same scopes
    def substituted(ctx):
        clean()
        has = {l: ctx.choice(l, (True, False)) for l in L + ("all",)}
        own = {l: k + 1 for k, l in enumerate(L + ("all",)) if has[l]}
        with Engine() as e:
            cs = {"engine": e.e, "first": e.e.context(), "second": e.e.context()}
            for l in L:
                if has[l]:
                    cs[l].set_variable("v", own[l])
            if has["all"]:
                cs["second"].execute("set global @v=4")
            got = []
            for l in L:
                cs[l].execute("insert into p select ${@v:0} as x")
                got.append(e.pop("p")[0]["x"])
        clean()
        ctx.check(got == [seen(own, l) or 0 for l in L], "value")
    hs.append(H("substituted", substituted, "set or not at each of four levels"))
    return hs
