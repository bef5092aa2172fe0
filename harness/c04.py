# -*- coding: utf-8 -*-
"""layers of configuration: files, the engine's own, sessions."""
import os
from .lib import *

HOMES = ("/h", "/home/a/.syncany", "/zz/top", "/r")
CWDS = ("/w", "/srv/data", "/a/b/c", "/q9")


def files(home, cwd):
    return [os.path.join(home, "config.json"), os.path.join(home, "config.yaml"), os.path.join(cwd, "config.json"), os.path.join(cwd, "config.yaml")]


class Files(object):
    """stand-in for the configuration files: {path: configuration}"""

    def __init__(self, home, cwd, contents, others=()):
        self.home, self.cwd, self.contents, self.others = home, cwd, contents, others

    def __enter__(self):
        import sys
        from syncanysql import config
        self.saved = config.os.path.exists, config.os.getcwd, config.load_config, dict(config.os.environ), list(sys.path)
        config.os.path.exists = lambda p: p in self.contents or p in self.others
        config.os.getcwd = lambda: self.cwd
        config.load_config = lambda p: dict(self.contents[p])
        config.os.environ["SYNCANY_HOME"] = self.home
        config.os.environ["HOME"] = "/users/u"

    def __exit__(self, *a):
        import sys
        from syncanysql import config
        config.os.path.exists, config.os.getcwd, config.load_config = self.saved[:3]
        config.os.environ.clear()
        config.os.environ.update(self.saved[3])
        sys.path[:] = self.saved[4]


def named(l):
    return {d["name"]: d for d in l}


def harnesses(tier):
    hs = []
    T = tier == "thorough"
    LAYERS = ("home json", "home yaml", "cwd json", "cwd yaml", "own")

    # a setting: the last layer that has it counts
    def layered(name, put, get, default, mk=lambda ctx, n: ctx.int(n), wrap=lambda v, i: v):
        def fn(ctx):
            from syncanysql.config import GlobalConfig
            home, cwd = ctx.choice("home", HOMES if T else HOMES[:2]), ctx.choice("cwd", CWDS if T else CWDS[:2])
            values = []
            for i, l in enumerate(LAYERS):
                values.append(mk(ctx, "v%d" % i) if ctx.choice("has%d" % i, (True, False)) else None)
            cs = [put(v, i) if v is not None else {"other": i} for i, v in enumerate(values)]
            exists = ctx.choice("files", (15, 12, 3, 9))
            fs = files(home, cwd)
            with Files(home, cwd, {fs[i]: cs[i] for i in range(4) if exists & (1 << i)}):
                c = GlobalConfig()
                c.load(cs[4])
            seen = [wrap(v, i) for i, v in enumerate(values) if v is not None and (i == 4 or exists & (1 << i))]
            got = get(c.get())
            ctx.meta["out"] = got
            ctx.check(same(got, seen[-1] if seen else default), "the last layer's value")
            s = c.session().session()
            ctx.check(same(get(s.get()), seen[-1] if seen else default), "the value in a session")
        hs.append(H("layers " + name, fn, "any of four files exists or not, each layer has the setting or not, any values"))
    layered("setting", lambda v, i: {"x": v}, lambda c: c.get("x"), None)
    layered("text setting", lambda v, i: {"encoding": v}, lambda c: c.get("encoding"), None, lambda ctx, n: ctx.str(n, 2, minlen=1))
    layered("list setting", lambda v, i: {"extensions": [v]}, lambda c: (c.get("extensions") or [None])[0], None)
    for k in ("options", "imports", "sources", "defines", "variables"):
        layered(k, lambda v, i, k=k: {k: {"a": v, "own%d" % i: i}}, lambda c, k=k: c.get(k, {}).get("a"), None)
    for k in ("options", "defines", "variables"):
        layered(k + " holding objects", lambda v, i, k=k: {k: {"a": {"n": v, "m%d" % i: i, "o": {"p": v}}, "own%d" % i: {"q": i}}}, lambda c, k=k: c.get(k, {}).get("a"), None,
                wrap=lambda v, i: {"n": v, "m%d" % i: i, "o": {"p": v}})
    layered("setting holding an object", lambda v, i: {"x": {"n": v, "m%d" % i: i}}, lambda c: c.get("x"), None, wrap=lambda v, i: {"n": v, "m%d" % i: i})
    layered("database parameter holding an object", lambda v, i: {"databases": [{"name": "d", "driver": "memory", "p": {"n": v, "m%d" % i: i}}]}, lambda c: named(c["databases"]).get("d", {}).get("p"), None,
            wrap=lambda v, i: {"n": v, "m%d" % i: i})
    layered("database parameter", lambda v, i: {"databases": [{"name": "d", "driver": "memory", "p": v}]}, lambda c: named(c["databases"]).get("d", {}).get("p"), None)
    layered("second database", lambda v, i: {"databases": [{"name": "c%d" % i, "driver": "memory"}, {"name": "d", "driver": "memory", "p": v, "q": {"r": v}}]}, lambda c: named(c["databases"]).get("d", {}).get("q", {}).get("r"), None)
    layered("cache", lambda v, i: {"caches": [{"name": "d", "p": v}]}, lambda c: named(c["caches"]).get("d", {}).get("p"), None)
    layered("virtual view", lambda v, i: {"databases": [{"name": "d", "driver": "memory", "virtual_views": [{"name": "w%d" % i, "query": "", "args": []}, {"name": "v", "query": v, "args": []}]}]},
            lambda c: named(named(c["databases"]).get("d", {}).get("virtual_views", [])).get("v", {}).get("query"), None)

    # settings of different names from all layers are all there
    def union(ctx):
        from syncanysql.config import GlobalConfig
        home, cwd = ctx.choice("home", HOMES), ctx.choice("cwd", CWDS)
        v = [ctx.int("v%d" % i) for i in range(5)]
        has = [ctx.choice("has%d" % i, (True, False)) for i in range(5)]
        cs = [{"s%d" % i: v[i], "options": {"o%d" % i: v[i]}, "imports": {"i%d" % i: v[i]}, "states": [v[i]], "executes": ["/f%d" % i],
               "databases": [{"name": "d%d" % i, "driver": "memory", "p": v[i]}, {"name": "all", "driver": "memory", "p%d" % i: v[i], "virtual_views": [{"name": "w%d" % i, "query": v[i], "args": []}]}]} for i in range(5)]
        fs = files(home, cwd)
        with Files(home, cwd, {fs[i]: cs[i] for i in range(4) if has[i]}, ["/f%d" % i for i in range(5)]):
            c = GlobalConfig()
            executes = c.load(cs[4] if has[4] else None)
        c = c.get()
        n = [i for i in range(5) if has[i]]
        d = named(c["databases"])
        ctx.check(conj([same(c.get("s%d" % i), v[i] if has[i] else None) for i in range(5)]), "settings")
        ctx.check(same(c["options"], {"o%d" % i: v[i] for i in n}) and set(c["imports"]) == {"i%d" % i for i in n}, "settings by name")
        ctx.check(same(c["states"], [v[i] for i in n]), "states")
        ctx.check(same(executes, ["/f%d" % i for i in n]), "initial scripts in the order of the layers")
        ctx.check(set(d) == {"-", "--"} | {"d%d" % i for i in n} | ({"all"} if n else set()), "databases")
        ctx.check(conj([same(d["d%d" % i]["p"], v[i]) for i in n] + [same(d["all"]["p%d" % i], v[i]) for i in n]), "database parameters")
        ctx.check(not n or same([(w["name"], w["query"]) for w in d["all"]["virtual_views"]], [("w%d" % i, v[i]) for i in n]), "virtual views")
    hs.append(H("all layers", union, "any of four files and the own configuration, any values"))

    # an engine's own configuration is not changed, and engines do not see each other's
    def engines(ctx):
        import copy
        a, b, p = ctx.int("a"), ctx.int("b"), ctx.int("p")
        mine = {"x": 1, "options": {"a": a}, "databases": [{"name": "d", "driver": "textline", "p": p}], "states": [1], "encoding": "x"}
        before = {"x": 1, "options": {"a": a}, "databases": [{"name": "d", "driver": "textline", "p": p}], "states": [1], "encoding": "x"}
        with Engine(mine) as e:
            e.e.setup()
            s = e.e.executor.session_config
            s.set("options.a", b)
            s.set("databases.d.p", b)
            e.execute("set @config.options.z=5; set global @config.options.y=6; set @config.databases.d.q='text'; set global @config.databases.d.g=1")
            with Engine() as f:
                f.e.setup()
                c = f.e.executor.session_config.get()
                ctx.check(c["options"] == {} and [d["name"] for d in c["databases"]] == ["-", "--"] and "x" not in c, "another engine")
            c = s.get()
        ctx.check(same(c["options"], {"a": b, "z": 5, "y": 6}), "options")
        ctx.check(same(named(c["databases"])["d"], {"name": "d", "driver": "textline", "encoding": "x", "p": b, "q": "text", "g": 1}), "database")
        ctx.check(same(mine, before), "the configuration given")
    hs.append(H("engines", engines, "any values"))

    # histories of settings at three levels: everyone, a session, a session inside it
    KEYS = {"x": (("x",), lambda c: c.get("x")), "options": (("options", "k"), lambda c: c["options"].get("k")), "imports": ("imports.k", lambda c: c["imports"].get("k")),
            "database": ("databases.d.p", lambda c: named(c["databases"]).get("d", {}).get("p")),
            "view": ("databases.d.virtual_views.v.query", lambda c: named(named(c["databases"]).get("d", {}).get("virtual_views", [])).get("v", {}).get("query")),
            "defines": ("defines.k", lambda c: c["defines"].get("k")), "cache": ("caches.d.p", lambda c: named(c["caches"]).get("d", {}).get("p"))}

    def history(k, n):
        key, get = KEYS[k]

        def fn(ctx):
            from syncanysql.config import GlobalConfig
            g = GlobalConfig()
            g.load({})
            s = g.session()
            t, u = s.session(), s.session()
            levels = {"global": g, "session": s, "inner": t}
            own = {}
            for i in range(n):
                l = ctx.choice("level%d" % i, ("global", "session", "inner"))
                v = ctx.int("v%d" % i) if k != "view" else str(i) + "x"
                if ctx.choice("look%d" % i, (True, False)):
                    t.get(), s.get(), s.get_tasker_extend_config(), t.get_tasker_extend_config()
                levels[l].set(key, v)
                own[l] = v
            exp = {}
            for name, chain in (("global", ["global"]), ("session", ["session", "global"]), ("inner", ["inner", "session", "global"]), ("other", ["session", "global"])):
                exp[name] = next((own[c] for c in chain if c in own), None)
            got = {"global": get(g.get()), "session": get(s.get()), "inner": get(t.get()), "other": get(u.get())}
            ctx.meta["out"] = got
            ctx.check(same(got, exp), "the nearest level's last value")
            if k not in ("x",):
                ctx.check(same(get(dict({"databases": [], "options": {}, "imports": {}, "defines": {}, "caches": []}, **t.get_tasker_extend_config())), exp["inner"]), "what queries get")
        hs.append(H("history %s %d" % (k, n), fn, "%d settings at any of three levels, any values, caches filled or not" % n))
    for k in KEYS:
        history(k, 3 if T else 2)

    # the same by statements
    STMTS = [("set @config.options.k=%s", lambda c: c["options"].get("k")), ("set @options.k='%s'", lambda c: c["options"].get("k")), ("set @config.databases.d.p=%s", lambda c: named(c["databases"]).get("d", {}).get("p")),
             ("set @databases.d.p = %s", lambda c: named(c["databases"]).get("d", {}).get("p")), ("set @defines.k='%s'", lambda c: c["defines"].get("k")),
             ("set @variables.k=%s", lambda c: c["variables"].get("k")),
             ("set @config.databases.d.virtual_views.v='select %s'", lambda c: (lambda q: q and int(q[7:]))(named(named(c["databases"]).get("d", {}).get("virtual_views", [])).get("v", {}).get("query"))),
             ("set @virtual_views.d.v='select %s'", lambda c: (lambda q: q and int(q[7:]))(named(named(c["databases"]).get("d", {}).get("virtual_views", [])).get("v", {}).get("query")))]

    def statements(sql, get):
        def fn(ctx):
            with Engine({"databases": [{"name": "d", "driver": "memory", "virtual_views": [{"name": "first", "query": "select 0", "args": []}]}]}) as e:
                e.e.setup()
                inner = e.e.context()
                own = {}
                for i in range(2):
                    l = ctx.choice("level%d" % i, ("global", "session", "inner", "global inner"))
                    v = ctx.choice("v%d" % i, (3, 40))
                    if ctx.choice("look%d" % i, (True, False)):
                        inner.execute("insert into o select 1 as x")
                    s = sql % v
                    (inner if "inner" in l else e).execute(s.replace("set ", "set global ") if "global" in l else s)
                    own["global" if "global" in l else l] = v
                s, t = e.e.executor.session_config.get(), inner.executor.session_config.get()
                views = [d for c in (s, t) for d in c["databases"] if d["name"] == "d"]
            got = [get(s), get(t)]
            ctx.meta["out"] = got
            ctx.check(same(got, [own.get("session", own.get("global")), own.get("inner", own.get("session", own.get("global")))]), "the nearest level's last value")
            ctx.check(all("first" in named(d["virtual_views"]) for d in views) and len(views) == 2, "other settings stay")
        hs.append(H("statements " + sql, fn, "two statements at any of the levels"))
    for sql, get in STMTS:
        statements(sql, get)

    # initial scripts and default formats
    def executes(ctx):
        from syncanysql.config import GlobalConfig
        name = ctx.choice("name", ("a.sql", "${HOME}/a.sql", "${SYNCANY_HOME}/a.sql", "/x/a.sql"))
        where = ctx.choice("where", (True, False))
        there = {"a.sql": ["a.sql"] if where else ["/sy/a.sql"], "${HOME}/a.sql": ["/users/u/a.sql"], "${SYNCANY_HOME}/a.sql": ["/sy/a.sql"], "/x/a.sql": ["/x/a.sql"]}[name]
        gone = ctx.choice("gone", (True, False))
        with Files("/sy", "/w", {}, [] if gone else there):
            try:
                out = GlobalConfig().load({"executes": [name]})
            except FileNotFoundError:
                out = None
        ctx.check(out == (None if gone else there), "the script's file")
    hs.append(H("initial scripts", executes, "4 names"))

    def formats(ctx):
        from syncanysql.config import GlobalConfig
        keys = ("encoding", "datetime_format", "date_format", "time_format")
        k = ctx.choice("key", keys)
        d = ctx.choice("driver", ("textline", "json", "csv", "memory"))
        a, b = ctx.str("a", 2, minlen=1), ctx.str("b", 2, minlen=1)
        has = ctx.choice("own", (True, False))
        db = dict({"name": "d", "driver": d}, **({k: b} if has else {}))
        with Files("/sy", "/w", {}):
            c = GlobalConfig()
            c.load({k: a, "databases": [db]})
        got = named(c.get()["databases"])
        ctx.check(same(got["d"].get(k), b if has else (None if d == "memory" else a)), "the database's format")
        ctx.check(same(got["-"].get(k), a), "the output's format")
    hs.append(H("formats", formats, "any texts"))

    # arguments of virtual views
    def view(ctx):
        from syncanysql.config import GlobalConfig
        op = ctx.choice("op", (("", "=="), ("__eq", "=="), ("__neq", "!="), ("__gt", ">"), ("__gte", ">="), ("__lt", "<"), ("__lte", "<="), ("__in", "in")))
        dflt = ctx.choice("default", (("", ""), (":5", 5), (":abc", "abc"), (":[1,2]", [1, 2]), (":a:b", "a:b")))
        twice = ctx.choice("twice", (True, False))
        g = GlobalConfig()
        q, args = g.parse_virtual_view_args("select * from t where x > #{x%s%s} and y = #{yy:1}%s" % (op[0], dflt[0], " or z=#{x%s%s}" % (op[0], dflt[0]) if twice else ""))
        x = ["x", op[1], dflt[1]]
        ctx.check(q == "select * from t where x > %s and y = %s" + (" or z=%s" if twice else ""), "query")
        ctx.check(same(args, [x, ["yy", "==", 1]] + ([x] if twice else [])), "arguments")
    hs.append(H("view arguments", view, "8 operators, 5 defaults"))
    return hs
