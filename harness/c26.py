# -*- coding: utf-8 -*-
"""tables and variables as a program sees them: pushing, getting and popping rows between statements."""
from .lib import *


class Model(object):
    def __init__(self):
        self.tables = {}

    def get(self, t):
        return self.tables.get(t, [])


def plainrows(rows):
    return [dict(r) for r in rows]


def harnesses(tier):
    hs = []
    T = tier == "thorough"

    # what can be done at a level; each takes (api, model of the engine, held, values of the path) and does the same to both
    def push(kind, t):
        def op(api, m, held, v):
            rows = [{"id": 1, "a": v[0]}, {"id": 2, "a": v[1]}]
            if kind == "dict":
                rows = rows[:1]
            m.tables.setdefault(t, []).extend(plainrows(rows))
            api.push_memory_datas(t, rows[0] if kind == "dict" else tuple(rows) if kind == "tuple" else iter(rows) if kind == "iterator" else rows)
            held.append((rows, plainrows(rows)))
        return op

    def push_held(t):
        def op(api, m, held, v):
            if held:
                api.push_memory_datas(t, held[-1][0])
                m.tables.setdefault(t, []).extend(plainrows(held[-1][1]))
        return op

    def push_empty(t):
        def op(api, m, held, v):
            api.push_memory_datas(t, [])
        return op

    def get(t):
        def op(api, m, held, v):
            rows = api.get_memory_datas(t)
            held.append((rows, plainrows(m.get(t))))
        return op

    def pop(t):
        def op(api, m, held, v):
            rows = api.pop_memory_datas(t)
            held.append((rows, plainrows(m.tables.pop(t, []))))
        return op

    def change(api, m, held, v):
        # the program changes rows of its own
        if held and len(held[-1][1]):
            held[-1][0][0]["a"] = 9
            held[-1][1][0]["a"] = 9
            del held[-1][0][1:]
            del held[-1][1][1:]

    def insert(t):
        def op(api, m, held, v):
            api.execute("insert into %s (id, a) values (3, 7)" % t)
            m.tables.setdefault(t, []).append({"id": 3, "a": 7})
        return op

    def update(t, kind):
        def op(api, m, held, v):
            api.execute("insert into `%s<%s>` select 1 as id, 8 as a" % (t, kind))
            rows = m.tables.setdefault(t, [])
            hit = False
            for r in rows:
                if r["id"] == 1:
                    r["a"], hit = 8, True
            if not hit and "I" in kind:
                rows.append({"id": 1, "a": 8})
        return op

    def delete(t):
        def op(api, m, held, v):
            api.execute("delete from %s where a = 1" % t)
            m.tables[t] = [r for r in m.get(t) if not v_eq(r["a"], 1)]
        return op

    def copy(api, m, held, v):
        api.execute("insert into u select id, a from t")
        if len(m.get("t")):
            m.tables.setdefault("u", []).extend(plainrows(m.get("t")))

    def var(api, m, held, v):
        api.set_variable("sx26", v[0])
        api.execute("insert into u select 4 as id, @sx26 as a")
        m.tables.setdefault("u", []).append({"id": 4, "a": v[0]})

    def v_eq(a, b):
        return bool(a == b)

    OPS = {"push list": push("list", "t"), "push dict": push("dict", "t"), "push tuple": push("tuple", "t"), "push iterator": push("iterator", "u"),
           "push again": push_held("t"), "push again to u": push_held("u"), "push nothing": push_empty("t"), "get": get("t"), "get u": get("u"), "pop": pop("t"), "change": change,
           "insert": insert("t"), "update": update("t", "U"), "update insert": update("t", "UI"), "delete": delete("t"), "copy": copy, "variable": var}

    def history(name, first, n, levels, bounds):
        def fn(ctx):
            import syncanysql
            syncanysql.close()
            a = [ctx.int("a0", 0, 2), ctx.int("a1", 0, 2)]
            models = {"engine": Model(), "other": Model()}
            models["context"] = models["engine"]
            models["module"] = Model()
            held = []
            with Engine() as e, Engine() as e2:
                apis = {"engine": e.e, "context": e.e.context(), "other": e2.e, "module": syncanysql}
                try:
                    steps = [(OPS[o], apis[l], models[l]) for o, l in first]
                    for i in range(n):
                        o = ctx.choice("op%d" % i, tuple(sorted(OPS)))
                        l = ctx.choice("level%d" % i, levels)
                        steps.append((OPS[o], apis[l], models[l]))
                    for op, api, m in steps:
                        op(api, m, held, a)
                    for l in sorted(set(levels) | set(l for _, l in first)):
                        for t in ("t", "u"):
                            got = apis[l].get_memory_datas(t)
                            ctx.check(same(got, models[l].get(t)), "the table %s of the %s" % (t, l))
                    ctx.meta["held"] = [h[0] for h in held]
                    for have, want in held:
                        ctx.check(same(have, want), "the rows of the program")
                finally:
                    syncanysql.close()
        hs.append(H(name, fn, bounds))

    n = 3 if T else 2
    for o in sorted(OPS):
        history("after %s" % o, [(o, "engine")], n, ("engine",), "%s, then any %d of %d operations on an engine" % (o, n, len(OPS)))
    B = [("push list", "engine")]
    history("levels", B, 2, ("engine", "context", "other", "module"), "rows pushed, then any 2 operations on the engine, a context, another engine or the module")
    history("context", [("push list", "context"), ("get", "engine")], n - 1, ("engine", "context"), "rows pushed to a context, then any %d operations on it or its engine" % (n - 1))
    history("module", [("push list", "module"), ("push list", "other")], n - 1, ("module", "other"), "rows pushed to the module and an engine, then any %d operations on them" % (n - 1))
    history("aliases", [("push list", "engine"), ("push again to u", "engine"), ("get", "engine")], n - 1, ("engine",), "rows pushed to two tables and got, then any %d operations" % (n - 1))
    history("twice", [("push dict", "engine"), ("push again", "engine"), ("pop", "engine"), ("push again", "engine"), ("push again", "engine")], n - 1, ("engine",), "a row pushed several times, then any %d operations" % (n - 1))

    # any values
    VALUES = {"none": None, "float": 1.5, "text": "a'b", "list": [1, [2]], "map": {"k": {"l": 1}}, "bytes": b"\x00x", "true": True}

    def values(ctx):
        k = ctx.choice("kind", tuple(sorted(VALUES)) + ("int", "word"))
        v = ctx.int("i") if k == "int" else ctx.str("w", 3, alphabet="a'\"$ \\") if k == "word" else VALUES[k]
        name = ctx.choice("name", ("a", "a b", "A", "id", "select", "\u00e9"))
        row = {"id": 5, name: v}
        with Engine() as e:
            e.e.push_memory_datas("t", row)
            ctx.check(same(e.e.get_memory_datas("t"), [dict(row)]), "got as pushed")
            e.execute("insert into o select `%s` as v from t" % name)
            ctx.check(same(e.e.pop_memory_datas("o"), [{"v": v}]), "the statement sees the value")
            e.e.set_variable("v", v)
            ctx.check(same([e.e.get_variable("v")], [v]), "the variable")
            ctx.check(same([e.e.get_variable("@v")], [v]), "the variable")
            e.execute("insert into o select @v as v")
            ctx.check(same(e.e.pop_memory_datas("o"), [{"v": v}]), "the statement sees the variable")
            e.execute("select `%s` into @w from t" % name)
            ctx.check(same([e.e.get_variable("w")], [v]), "the variable has the value")
    hs.append(H("values", values, "values of 9 kinds (any integer, any text of 3 characters) under 6 names"))
    return hs
