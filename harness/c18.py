# -*- coding: utf-8 -*-
"""session variables: SET, SELECT INTO, @a := expression."""
from .lib import *


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    N = 3 if T else 2

    # ------------------------------------------------------------ values of any type, wherever a variable may stand
    KINDS = ("int", "null", "text", "bool")

    def value(ctx, name, kinds=KINDS):
        k = ctx.choice(name + "kind", kinds)
        return {"int": lambda: ctx.int(name), "null": lambda: None, "text": lambda: ctx.str(name, 2), "bool": lambda: ctx.bool(name)}[k]()

    def rows_(ctx, n=N, nulls=""):
        return [dict(id=i + 1, a=ctx.nint("a%d" % i) if "a" in nulls else ctx.int("a%d" % i), b=ctx.int("b%d" % i)) for i in range(n)]

    def alike(x, y):
        return (x is None) == (y is None) and isinstance(x, str) == isinstance(y, str) and isinstance(x, float) == isinstance(y, float)

    def api(ctx):
        x, y = value(ctx, "x"), value(ctx, "y")
        with Engine() as e:
            e.e.set_variable("v", x)
            e.e.set_variable("@w", y)
            out = e.rows("select @v as p, @w as q, @unset as r")
            g = (e.e.get_variable("v"), e.e.get_variable("@w"), e.e.get_variable("unset"), e.e.get_variable("unset", 7))
            e.e.set_variable("v", y)
            out2 = e.rows("select @v as p, @w as q")
        ctx.check(same(out, [{"p": x, "q": y, "r": None}]), "a query sees the variables")
        ctx.check(alike(out[0]["p"], x) and alike(out[0]["q"], y), "types")
        ctx.check(same(g[0], x) and same(g[1], y) and g[2] is None and g[3] == 7, "get_variable")
        ctx.check(same(out2, [{"p": y, "q": y}]), "the last value")
    hs.append(H("values set by the program", api, "any int, text of 2 characters, boolean, NULL"))

    # ------------------------------------------------------------ SET
    LITS = [("1", 1), ("-2", -2), ("0", 0), ("007", 7), ("1.5", 1.5), ("-2.5", -2.5), ("-0.5", -0.5), (".5", 0.5), ("1e3", 1000.0), ("-1.5e1", -15.0), ("null", None), ("NULL", None), ("true", True), ("FALSE", False),
            ("'a'", "a"), ("''", ""), ("'7'", "7"), ("'it''s'", "it's"), ('"x"', "x"), ('"it\'s"', "it's"), ("'a=b'", "a=b"), ("'a;b'", "a;b"), ("'--x'", "--x"), ("'a#b'", "a#b"), ("' x '", " x "), ("'é'", "é"), ("'null'", "null"), ("'a\tb'", "a\tb"),
            ("0x1F", 31), ("b'101'", 5), ("(3)", 3), ("-(3)", -3), ("1 + 2 * 3", 7), ("concat('a', 'b')", "ab"), ("not 1", 0), ("case when 1 then 2 end", 2), ("(select 5)", 5), ("1 = 1", 1), ("nullif", None)][:-1]
    SPELL = ["set @v=%s", "SET @v = %s", "Set  @v=%s ;", "set @v=1; set @v=%s", "set @v='x';set @v = %s -- y", "select 9 into @v; set @u=1; set @w=%s; select @w into @v"]

    def lits(ctx, spell):
        t, v = ctx.choice("lit", LITS)
        with Engine() as e:
            e.execute(spell % t)
            g = e.e.get_variable("v")
            out = e.rows("select @v as p")
        ctx.check(same(g, v) and type(g) is type(v), "value")
        ctx.check(same(out, [{"p": v}]), "a query sees it")
    for s in SPELL:
        hs.append(H("set: " + s, lambda ctx, s=s: lits(ctx, s), "%d constants and expressions" % len(LITS)))

    def setter(ctx, mk, exp):
        from syncanysql.taskers.set import SetCommandTasker
        text, v = mk(ctx)
        with Engine() as e:
            e.e.set_variable("z", 0)
            SetCommandTasker({"key": "@v", "value": text}).start("x", e.e.executor, e.e.executor.session_config, e.e.manager, {})
            g = e.e.get_variable("v")
        ctx.check(same(g, v), "value")
        ctx.check(isinstance(g, str) == isinstance(v, str), "type")

    def quoted(q):
        def mk(ctx):
            n = 4 if T else 3
            s = ctx.str("s", n)
            ctx.assume(conj([neg(s[i] == q) for i in range(len(s))]))
            return q + s + q, s
        return mk
    for q in ("'", '"'):
        hs.append(H("set text in " + q, lambda ctx, q=q: setter(ctx, quoted(q), None), "every text of up to %d characters without the quote" % (4 if T else 3)))

    def digits(sign, dot):
        def mk(ctx):
            s, v, n = sign, 0, 3 if T else 2
            for i in range(n):
                c = ctx.str("d%d" % i, 1, alphabet="0123456789", minlen=1)
                s = s + c
                v = v * 10 + (ord(c) - 48)
                if i == dot:
                    s = s + "."
            if dot is not None:
                v = v / 10 ** (n - 1 - dot)
            return s, (0 - v if sign else v)
        return mk

    for sign in ("", "-"):
        for dot in (None, 0):
            hs.append(H("set number %s%s" % (sign, "d.d" if dot is not None else "dd"), lambda ctx, sign=sign, dot=dot: setter(ctx, digits(sign, dot), None), "every number of %d digits" % (3 if T else 2)))

    # ------------------------------------------------------------ scripts: a query between, before and after; steps are (sql, effect on variables)
    def script(name, stmts, n=N, vars=(), nulls="", joined=True, pre=None):
        """stmts: (sql, f(env, t) -> rows or None); env is updated by f"""
        def fn(ctx):
            t = rows_(ctx, n, nulls)
            env = dict((v, ctx.int(v)) for v in vars)
            with Engine() as e:
                e.load("t", t)
                for v in env:
                    e.e.set_variable(v, env[v])
                outs, exp = [], []
                for i, (sql, f) in enumerate(stmts):
                    r = f(env, t)
                    exp.append(r)
                sqls = [("insert into `o%d` " % i + s) if exp[i] is not None else s for i, (s, f) in enumerate(stmts)]
                if joined:
                    e.execute("; ".join(sqls))
                else:
                    for s in sqls:
                        e.execute(s)
                for i in range(len(stmts)):
                    outs.append((e.pop("o%d" % i) or []) if exp[i] is not None else None)
                fin = dict((k, e.e.get_variable(k)) for k in env)
            ctx.meta["out"] = outs
            ctx.check(same(outs, exp), "results")
            ctx.check(same(fin, env), "variables after the script")
        hs.append(H(("script " if joined else "steps ") + name, fn, "%d rows, any ints%s" % (n, ", any initial values" if vars else "")))

    def SETV(env, **kw):
        env.update(kw)

    def put(k, f):
        def g(env, t):
            env[k] = f(env, t)
        return g

    W = lambda t, f: [r for r in t if is_true(f(r))]
    ids = lambda t, f: [{"id": r["id"]} for r in t if is_true(f(r))]
    one = lambda rows: rows[0] if len(rows) == 1 else rows
    N0 = lambda x: 0 if x is None else x
    INTO = [
        ("max(a)", "select max(a) into @v from t", lambda env, t: maxof([r["a"] for r in t])),
        ("count", "select count(*) into @v from t where a > 3", lambda env, t: (lambda x: len(x) if x else [])(W(t, lambda r: r["a"] > 3))),
        ("one row", "select a into @v from t where id = 1", lambda env, t: t[0]["a"]),
        ("expression", "select a + b into @v from t where id = 2", lambda env, t: t[1]["a"] + t[1]["b"]),
        ("limit", "select a into @v from t order by a desc limit 1", lambda env, t: order_rows(t, ("a", True))[0]["a"]),
        ("constant", "select 5 into @v", lambda env, t: 5),
        ("negative", "select -(2) into @v", lambda env, t: -2),
        ("subquery", "select (select min(b) from t) into @v", lambda env, t: minof([r["b"] for r in t])),
        ("derived", "select sum(x) into @v from (select a + 1 as x from t) d", lambda env, t: total([r["a"] + 1 for r in t])),
        ("cte", "with d as (select a from t) select max(a) into @v from d", lambda env, t: maxof([r["a"] for r in t])),
        ("itself", "select @v + 1 into @v", lambda env, t: env["v"] + 1),
    ]
    USE = [
        ("select @v as x", lambda env, t: [{"x": env["v"]}]),
        ("select id, a + @v as x from t", lambda env, t: [{"id": r["id"], "x": r["a"] + env["v"]} for r in t]),
        ("select id from t where a = @v", lambda env, t: ids(t, lambda r: r["a"] == env["v"])),
        ("select id from t where @v < a", lambda env, t: ids(t, lambda r: r["a"] > env["v"])),
        ("select id from t where a + 0 >= @v", lambda env, t: ids(t, lambda r: r["a"] >= env["v"])),
        ("select id from t where a between @v and @v + 2", lambda env, t: ids(t, lambda r: and3(r["a"] >= env["v"], r["a"] <= env["v"] + 2))),
        ("select id from t where a in (@v, 3)", lambda env, t: ids(t, lambda r: or3(r["a"] == env["v"], r["a"] == 3))),
        ("select id from t where a not in (@v)", lambda env, t: ids(t, lambda r: r["a"] != env["v"])),
        ("select id from t where a in (@v)", lambda env, t: ids(t, lambda r: r["a"] == env["v"])),
        ("select id, a in (@v, 3) as x from t", lambda env, t: [{"id": r["id"], "x": tf(or3(r["a"] == env["v"], r["a"] == 3))} for r in t]),
        ("select id, case a when @v then 1 when 3 then 2 else 0 end as x from t", lambda env, t: [{"id": r["id"], "x": 1 if is_true(r["a"] == env["v"]) else 2 if is_true(r["a"] == 3) else 0} for r in t]),
        ("select id, case when a > @v then @v else a end as x from t", lambda env, t: [{"id": r["id"], "x": env["v"] if is_true(r["a"] > env["v"]) else r["a"]} for r in t]),
        ("select sum(a + @v) as x from t", lambda env, t: [{"x": total([r["a"] + env["v"] for r in t])}]),
        ("select id from t having id > @v", lambda env, t: ids(t, lambda r: r["id"] > env["v"])),
        ("select id from t having id in (@v)", lambda env, t: ids(t, lambda r: r["id"] == env["v"])),
        ("select x.id, y.b from t x left join t y on x.a = y.id and y.b in (@v, 3)", lambda env, t: [{"id": r["id"], "b": ([z["b"] for z in t if is_true(and3(z["id"] == r["a"], or3(z["b"] == env["v"], z["b"] == 3)))] or [None])[0]} for r in t]),
        ("select x.id, y.b from t x left join t y on x.a = y.id and y.b > @v", lambda env, t: [{"id": r["id"], "b": ([z["b"] for z in t if is_true(and3(z["id"] == r["a"], z["b"] > env["v"]))] or [None])[0]} for r in t]),
        ("select id from t where a > (select @v)", lambda env, t: ids(t, lambda r: r["a"] > env["v"])),
        ("select d.x from (select id + @v as x from t) d where d.x > @v + 1", lambda env, t: [{"x": r["id"] + env["v"]} for r in t if r["id"] > 1]),
        ("(x, y) values (@v, 1), (2, @v)", lambda env, t: [{"x": env["v"], "y": 1}, {"x": 2, "y": env["v"]}]),
        ("(x, y) values (1, @v)", lambda env, t: [{"x": 1, "y": env["v"]}]),
        ("select @v as x union all select id from t where id = @v", lambda env, t: [{"x": env["v"]}] + [{"x": r["id"]} for r in t if is_true(r["id"] == env["v"])]),
        ("select id, row_number() over (order by id) + @v as x from t", lambda env, t: [{"id": r["id"], "x": r["id"] + env["v"]} for r in t]),
        ("select -@v as x, @v * @v as y, @v is null as z", lambda env, t: [{"x": 0 - env["v"], "y": env["v"] * env["v"], "z": 0}]),
    ]
    for u, f in USE:
        script("use: " + u, [(u, f)], vars=("v",))
        script("into, use: " + u, [("select max(b) into @v from t", put("v", lambda env, t: maxof([r["b"] for r in t]))), (u, f)], vars=("v",))
        script("into a new variable, use: " + u, [("select min(b) into @v from t", put("v", lambda env, t: minof([r["b"] for r in t]))), (u, f)])
    for n, s, f in INTO:
        if n == "count":
            continue
        script("into " + n, [(s, put("v", f)), USE[0], USE[2], USE[6]], vars=("v",))
        script("into " + n, [(s, put("v", f)), USE[0], USE[2]], vars=("v",), joined=False)
    # results that take several steps, from a table that is read at once or in batches
    first = lambda vs: vs[0] if len(vs) == 1 else vs
    G = lambda t: group(t, lambda r: (r["b"],))
    REDUCED = [
        ("avg(a)", lambda t: avgof([r["a"] for r in t])), ("max(a)", lambda t: maxof([r["a"] for r in t])), ("count(distinct a)", lambda t: len(distinct([r["a"] for r in t]))),
        ("max(a) + 1", lambda t: maxof([r["a"] for r in t]) + 1), ("sum(a) - min(b)", lambda t: total([r["a"] for r in t]) - minof([r["b"] for r in t])), ("count(*)", lambda t: len(t)),
        ("avg(a) as x, sum(b) as y", lambda t: {"x": avgof([r["a"] for r in t]), "y": total([r["b"] for r in t])}),
        ("count(distinct a) as x, count(distinct b) as y, max(a) as z", lambda t: {"x": len(distinct([r["a"] for r in t])), "y": len(distinct([r["b"] for r in t])), "z": maxof([r["a"] for r in t])}),
        ("b, avg(a) as x @ group by b", lambda t: first([{"b": k[0], "x": avgof([r["a"] for r in g])} for k, g in G(t)])),
        ("max(a) as x @ group by b", lambda t: first([maxof([r["a"] for r in g]) for k, g in G(t)])),
        ("count(distinct a) as n, max(a) as m @ group by b", lambda t: first([{"n": len(distinct([r["a"] for r in g])), "m": maxof([r["a"] for r in g])} for k, g in G(t)])),
        ("b, count(*) as n @ group by b having n > 1", lambda t: first([{"b": k[0], "n": len(g)} for k, g in G(t) if len(g) > 1])),
        ("distinct b @", lambda t: first(distinct([r["b"] for r in t]))), ("distinct a, b @", lambda t: first([{"a": k[0], "b": k[1]} for k, g in group(t, lambda r: (r["a"], r["b"]))])),
        ("a @ order by b, a desc", lambda t: first([r["a"] for r in order_rows(t, ("b", False), ("a", True))])), ("a @ order by b limit 1", lambda t: order_rows(t, ("b", False))[0]["a"]),
        ("sum(a) over (partition by b order by id) as x, id @", lambda t: first([{"x": total([s["a"] for s in t if s["id"] <= r["id"] and bool(s["b"] == r["b"])]), "id": r["id"]} for r in t])),
        ("* @ where id = 1", lambda t: t[1]), ("a + 1 as x @", lambda t: first([r["a"] + 1 for r in t])),
        ("max(x) as m @@ (select b, max(a) as x from T group by b) d", lambda t: maxof([r["a"] for r in t])),
    ]

    def reduced(s, f, batch):
        def fn(ctx):
            t = table(ctx, 3, "", "ab")
            with Engine({"databases": [{"name": "mdb", "driver": "memory"}]}) as e:
                db = e.e.get_database("mdb")
                db.ensure_memory_databases()
                db.memory_databases["mdb.t"] = [dict(r) for r in t]
                e.load("t", t)
                src = "mdb.t" if batch else "t"
                cols, _, rest = s.partition(" @")
                e.execute("set @batch=%d; select %s into @v from %s" % (batch, cols, rest[1:].replace("T", src) if rest[:1] == "@" else src + rest))
                got = e.e.get_variable("v")
                e.execute("insert into o select 1 as one; insert into o2 select @v is null as x")
                two = e.pop("o2")
                left = sorted(k for k, v in e.collections().items() if v and k not in ("mdb.t", "--.t", "--.o"))
            ctx.meta["out"] = got
            ctx.check(same(got, f(t)), "the variable")
            ctx.check(two == [{"x": 0}] and left == [], "afterwards")
        hs.append(H("into %s%s" % (s, " batches of %d" % batch if batch else ""), fn, "3 rows, any ints"))
    for s, f in REDUCED:
        for batch in ((0, 1, 2, 3) if T else (0, 2)):
            reduced(s, f, batch)

    # chains
    I1 = ("select max(a) into @v from t", put("v", lambda env, t: maxof([r["a"] for r in t])))
    I2 = ("select min(b) into @w from t where a <= @v", put("w", lambda env, t: minof([r["b"] for r in t if is_true(r["a"] <= env["v"])])))
    I3 = ("select @v - @w into @v", put("v", lambda env, t: env["v"] - env["w"]))
    S1 = ("set @w=@v", put("w", lambda env, t: env["v"]))
    S2 = ("set @w=@v + @w * 2", put("w", lambda env, t: env["v"] + env["w"] * 2))
    S3 = ("set @v=(select max(a) from t)", put("v", lambda env, t: maxof([r["a"] for r in t])))
    S4 = ("set @w=7", put("w", lambda env, t: 7))
    S5 = ("set @v=-3", put("v", lambda env, t: -3))
    S6 = ("set @v=-@w", put("v", lambda env, t: 0 - env["w"]))
    Q = ("select @v as x, @w as y", lambda env, t: [{"x": env["v"], "y": env["w"]}])
    R = ("select id from t where a <= @v and b != @w", lambda env, t: ids(t, lambda r: and3(r["a"] <= env["v"], r["b"] != env["w"])))
    for i, st in enumerate([[I1, Q, I2, Q, I3, Q, R], [S1, Q, S2, Q, R], [Q, S1, Q, S3, Q, S1, R], [I1, S1, Q, I2, S2, Q], [Q, I1, Q, I2, Q], [S3, S6, Q, S2, Q, S6, Q], [I1, I1, I2, I3, I3, Q]]):
        script("chain %d" % i, st, vars=("v", "w"))
        script("chain %d" % i, st, vars=("v", "w"), joined=False)
    for i, st in enumerate([[S4, S5, Q, R], [S5, I1, Q], [S4, S2, Q, R], [S5, S4, S1, Q]]):
        script("constants first %d" % i, st, vars=("v", "w"))
    for i, st in enumerate([[Q, S4, Q, S5, Q, R], [I1, S5, Q, I2, S4, Q], [S5, S4, S2, Q, S4, Q]]):
        script("constants %d" % i, st, vars=("v", "w"), joined=False)
    # rows and lists
    for n, w, f in (("all", "", None), ("some", " where a > 3", lambda r: r["a"] > 3), ("none", " where a + 0 != a", lambda r: False)):
        rs = lambda t, f=f: [r for r in t if f is None or (r["a"] is not None and is_true(f(r)))]
        script("into list " + n, [("select a into @v from t" + w, put("v", lambda env, t, rs=rs: one([r["a"] for r in rs(t)]))), USE[0]], vars=("v",))
        script("into list with NULLs " + n, [("select a into @v from t" + w, put("v", lambda env, t, rs=rs: one([r["a"] for r in rs(t)]))), USE[0]], vars=("v",), nulls="a")
        script("into rows with NULLs " + n, [("select a, b into @v from t" + w, put("v", lambda env, t, rs=rs: one([{"a": r["a"], "b": r["b"]} for r in rs(t)]))), USE[0]], vars=("v",), nulls="ab")
        script("into rows " + n, [("select a, b into @v from t" + w, put("v", lambda env, t, rs=rs: one([{"a": r["a"], "b": r["b"]} for r in rs(t)]))), USE[0]], vars=("v",))
    script("list in", [("select a into @v from t", put("v", lambda env, t: [r["a"] for r in t])), ("select id from t where b in @v", lambda env, t: ids(t, lambda r: in3(r["b"], env["v"])))], vars=("v",))
    script("into NULL", [("select null into @v", put("v", lambda env, t: None)), USE[0], ("select id from t where @v is null", lambda env, t: ids(t, lambda r: True))], vars=("v",))
    script("into a NULL value", [("select a into @v from t where id = 1", put("v", lambda env, t: t[0]["a"])), ("select @v as x, @v is null as y", lambda env, t: [{"x": env["v"], "y": tf(env["v"] is None)}])], vars=("v",), nulls="a")

    # ------------------------------------------------------------ assignment inside a query, row by row
    def assign(sql, f, order=None, vars=("v",)):
        def g(env, t):
            rows = []
            for r in t:
                x = f(env, r)
                if x is not None:
                    rows.append(x)
            if order:
                rows = order_rows(rows, order)
            return rows
        script("assign " + sql, [(sql, g), USE[0]], vars=vars)
        script("assign twice " + sql, [(sql, g), (sql, g)], vars=vars)

    def asg(env, k, v):
        env[k] = v
        return v
    assign("select id, @v := @v + a as x from t", lambda env, r: {"id": r["id"], "x": asg(env, "v", env["v"] + r["a"])})
    assign("select @v := a as x, @v as y from t", lambda env, r: {"x": asg(env, "v", r["a"]), "y": r["a"]})
    assign("select @v as y, @v := a as x from t", lambda env, r: {"y": env["v"], "x": asg(env, "v", r["a"])})
    assign("select id, (@v := @v + 1) as x from t where a > 3", lambda env, r: {"id": r["id"], "x": asg(env, "v", env["v"] + 1)} if is_true(r["a"] > 3) else None)
    assign("select id, (@v := @v + 1) as x from t where a + b > 3", lambda env, r: {"id": r["id"], "x": asg(env, "v", env["v"] + 1)} if is_true(r["a"] + r["b"] > 3) else None)
    assign("select id, (@v := @v + 1) * 2 as x, @v + b as y from t", lambda env, r: (lambda n: {"id": r["id"], "x": n * 2, "y": n + r["b"]})(asg(env, "v", env["v"] + 1)))
    assign("select id, case when a > @v then (@v := a) else @v end as x from t", lambda env, r: {"id": r["id"], "x": asg(env, "v", r["a"]) if is_true(r["a"] > env["v"]) else env["v"]})
    assign("select id, if(a = @v, (@w := @w + 1), (@w := 1)) as x, @v := a as y from t", lambda env, r: {"id": r["id"], "x": asg(env, "w", env["w"] + 1 if is_true(r["a"] == env["v"]) else 1), "y": asg(env, "v", r["a"])}, vars=("v", "w"))
    assign("select id, (@v := ifnull(@v, 0) + a) as x from t", lambda env, r: {"id": r["id"], "x": asg(env, "v", N0(env["v"]) + r["a"])})
    assign("select id, @v := @v + a as x from t order by x desc", lambda env, r: {"id": r["id"], "x": asg(env, "v", env["v"] + r["a"])}, order=("x", True))

    # ------------------------------------------------------------ known finding: a constant SET after a statement of the same script
    def known(ctx):
        v, w = ctx.int("v"), ctx.choice("w", tuple(range(10)))
        with Engine() as e:
            e.e.set_variable("v", v)
            ctx.exclude("KF6", neg(same(v, w)))
            e.execute("insert into o1 select @v as x; set @v=%s; insert into o2 select @v as x" % w)
            out = [e.pop("o1"), e.pop("o2")]
        ctx.check(same(out, [[{"x": v}], [{"x": w}]]), "each query sees the variable's value at its place in the script")
    hs.append(H("set between", known, "any value before, 0..9 after"))
    return hs
