# -*- coding: utf-8 -*-
"""scripts: order of statements, failures."""
import itertools
import os
import shutil
import tempfile
from .lib import *


class Model(object):
    """the statements applied one after another to two tables and a variable"""

    def __init__(self, t, m):
        self.t, self.u, self.m = [dict(r) for r in t], [], m
        self.printed = []

    def ins(self, i):
        self.t.append({"a": 3 + i})

    def copy(self, i):
        self.u += [{"a": r["a"] + 1} for r in self.t]

    def dele(self, i):
        self.t = [r for r in self.t if not is_true(r["a"] > 4)]

    def into(self, i):
        x = 0
        for r in self.t:
            x = ite(r["a"] > x, r["a"], x)
        self.m = x

    def use(self, i):
        self.u.append({"a": self.m})

    def sete(self, i):
        self.m = self.m + 1

    def file(self, i):
        self.t.append({"a": 9})
        self.u.append({"a": sum([1 for r in self.t])})

    def union(self, i):
        self.u += [{"a": r["a"]} for r in self.t] + [{"a": 20 + i}]

    def view(self, i):
        self.printed += [{"a": r["a"], "b": self.m} for r in self.t]


SQL = {"ins": "insert into t (a) values (%d)", "copy": "insert into u select a + 1 as a from t", "dele": "delete from t where a > 4",
       "into": "select max(a) into @m from t", "use": "insert into u select @m as a", "sete": "set @m = @m + 1",
       "file": "execute 'c27.sql'", "union": "insert into u select a from t union all select %d as a", "view": "select a, @m as b from t"}
BASE = {"ins": 3, "union": 20}
FILE = "insert into t (a) values (9);\n-- it's\ninsert into u select count(*) as a from t"
FAULTS = {"interrupt": "insert into u select boom(a) as a from t", "error": "insert into `u<UI>` (z) values (1)", "bad": "select a b c d from from t"}


def boom(x):
    raise KeyboardInterrupt()


def text(op, i):
    return SQL[op] % (BASE[op] + i) if op in BASE else SQL[op]


def script(name, ops, mode, faults):
    def fn(ctx):
        t = [{"a": 0}, {"a": ctx.int("a")}]
        m = ctx.int("m")
        n = len(ops)
        k = ctx.choice("fault at", tuple(range(n + 1)) + ("none",)) if faults else "none"
        kind = ctx.choice("fault", tuple(f for f in FAULTS if mode != "nested" or f == "interrupt")) if k != "none" else None
        files = tempfile.mkdtemp(prefix="sx")
        with open(os.path.join(files, "a.sql"), "w") as f:
            f.write(FILE)
        stmts = [text(op, i).replace("c27.sql", os.path.join(files, "a.sql")) for i, op in enumerate(ops)]
        model = Model(t, m)
        if kind != "bad" or mode == "each":
            for i, op in enumerate(ops):
                if k == i:
                    break
                getattr(model, op)(i)
        if k != "none":
            stmts.insert(k, FAULTS[kind])
        sep = ctx.choice("separator", (";", " ; -- x\n")) if mode == "one" else ";\n"
        w, printed, caught = [], [], []
        from syncany.database import textline
        cls = textline.TextLineInsertBuilder
        write = cls.commit
        cls.commit = lambda self: printed.extend([dict((f, d[f]) for f in (self.fields or d)) for d in self.datas])
        try:
            with Engine() as e:
                e.e.set_variable("m", m)
                e.e.use("boom", boom)
                e.load("t", t)
                raised, c = False, None
                try:
                    if mode == "one":
                        e.execute(sep.join(stmts))
                    elif mode == "each":
                        for s in stmts:
                            e.execute(s)
                    elif mode == "context":
                        c = e.e.context()
                        with c:
                            c.execute(sep.join(stmts))
                    elif mode == "file":
                        with open(os.path.join(files, "b.sql"), "w") as f:
                            f.write(sep.join(stmts) + ";")
                        e.execute("execute `%s`; insert into w (a) values (5)" % os.path.join(files, "b.sql"))
                        w = [{"a": 5}]
                    elif mode in ("nested", "caught"):
                        def nest(x):
                            try:
                                e.execute(sep.join(stmts))
                            except (KeyboardInterrupt, Exception) as error:
                                if mode == "nested":
                                    raise
                                caught.append(type(error).__name__)
                            return x
                        e.e.use("nest", nest)
                        e.execute("insert into w select nest(6) as a; insert into w select count(*) as a from t; set @m = @m + 1")
                        model.m = model.m + 1
                        w = [{"a": 6}, {"a": len(model.t)}]
                except BaseException as x:
                    if type(x).__module__.startswith("sx."):
                        raise
                    raised = type(x).__name__
                raised = raised or "".join(caught)
                left = len(e.e.executor.runners)
                e.execute("insert into w (a) values (1); insert into w select count(*) as a from u")
                out = [e.get("t"), e.get("u"), e.get("w")]
                var = (c or e.e).get_variable("m")
        finally:
            cls.commit = write
            shutil.rmtree(files)
        ctx.meta["out"] = [out, var, raised, printed]
        ctx.check(bool(raised) == (k != "none"), "it fails only with the statement that fails")
        ctx.check(not kind == "interrupt" or raised == "KeyboardInterrupt", "the interruption is passed on")
        ctx.check(left == 0, "nothing is left to run")
        ctx.check(same(out[0], model.t), "the first table")
        ctx.check(same(out[1], model.u), "the second table")
        ctx.check(same(out[2], w + [{"a": 1}, {"a": len(model.u)}] if model.u else w + [{"a": 1}]), "the next script")
        ctx.check(same(printed, model.printed), "the rows printed")
        if mode != "file":
            ctx.check(same(var, model.m), "the variable")
    return H(name, fn, "%s, %s" % ("; ".join(ops), mode))


def harnesses(tier):
    hs = []
    T = tier == "thorough"
    ops = [o for o in SQL]
    modes = ["one", "each", "context", "file", "nested", "caught"]
    k = 0
    for n in (2, 3):
        for combo in itertools.product(ops, repeat=n):
            k += 1
            if n == 3 and k % (3 if T else 7):
                continue
            if n == 2 and not T and k % 2:
                continue
            mode = modes[k // (2 if n == 2 else 7) % 6]
            for md in (modes if T and n == 2 else [mode]):
                hs.append(script("%s %s" % (md, " ".join(combo)), combo, md, True))
    return hs
