# -*- coding: utf-8 -*-
"""the command line: files, pipes, the prompt, options and exit codes."""
import os
import shutil
import signal
import sys
import tempfile
import types
from .lib import *

VALS = []
KINDS = ("print", "insert", "show", "quoted", "empty")
SQL = {"print": "select sx_m$val(%d) as a", "insert": "insert into t select sx_m$val(%d) as a", "show": "select a from t", "quoted": "select sx_m$val(%d) as 'a'", "empty": ""}
FAULTS = {"interrupt": "insert into t select sx_m$stop() as a", "error": "insert into `t<UI>` (z) values (1)", "bad": "select a b from from t"}
CODES = {"interrupt": 130, "error": 1, "bad": 1}


def stop():
    raise KeyboardInterrupt()


class In(object):
    def __init__(self, text):
        self.text = text

    def isatty(self):
        return self.text is None

    def read(self):
        return self.text


class World(object):
    """a home, a working directory, standard input and arguments of their own"""

    def __init__(self, files, config=None, home=None):
        self.files, self.config, self.home = files, config, home

    def __enter__(self):
        from syncanysql import config
        from syncanysql.executor import Executor
        from syncany.database import textline
        self.dir = tempfile.mkdtemp(prefix="sx")
        os.makedirs(os.path.join(self.dir, "home", ".syncany"))
        os.makedirs(os.path.join(self.dir, "work"))
        for name, text in self.files.items():
            with open(os.path.join(self.dir, "work", name), "w") as f:
                f.write(text)
        for name, text in (self.home or {}).items():
            with open(os.path.join(self.dir, "home", ".syncany", name), "w") as f:
                f.write(text)
        m = types.ModuleType("sx_mod")
        m.val, m.stop = (lambda i: VALS[int(i)]), stop
        sys.modules["sx_mod"] = m
        self.saved = dict(os.environ), os.getcwd(), list(sys.path), sys.argv, sys.stdin, Executor.global_env_variables, textline.TextLineInsertBuilder.commit, signal.signal, config.GlobalConfig.config_logging
        os.environ["HOME"] = os.path.join(self.dir, "home")
        os.environ.pop("SYNCANY_HOME", None)
        os.chdir(os.path.join(self.dir, "work"))
        Executor.global_env_variables = None
        Executor.tasker_index = 0
        self.printed, self.handlers = [], {}
        printed = self.printed
        signal.signal = self.handlers.__setitem__
        textline.TextLineInsertBuilder.commit = lambda b: printed.append([dict((f, d[f]) for f in (b.fields or d)) for d in b.datas])
        config.GlobalConfig.config_logging = lambda self, *a: None
        load = config.GlobalConfig.load
        self.load = load
        own = self.config

        def loaded(c, *a, **k):
            r = load(c, *a, **k)
            c.config.setdefault("imports", {})["sx_m"] = "sx_mod"
            return r
        config.GlobalConfig.load = loaded
        if own is not None:
            import json
            with open(os.path.join(self.dir, "work", "config.json"), "w") as f:
                f.write(json.dumps(own))
        return self

    def main(self, argv, stdin=None):
        """exit code of the command"""
        from syncanysql import main
        sys.argv = ["syncany-sql"] + argv
        sys.stdin = In(stdin)
        if not hasattr(main, "exit"):
            main.exit = sys.exit
        try:
            main.main()
            return 0
        except SystemExit as e:
            return e.code or 0

    def __exit__(self, *a):
        from syncanysql import config
        from syncanysql.executor import Executor
        from syncany.database import textline
        env, cwd, path, sys.argv, sys.stdin, Executor.global_env_variables, textline.TextLineInsertBuilder.commit, sigs, config.GlobalConfig.config_logging = self.saved
        config.GlobalConfig.load = self.load
        os.environ.clear()
        os.environ.update(env)
        os.chdir(cwd)
        sys.path[:] = path
        signal.signal = sigs
        sys.modules.pop("sx_mod", None)
        shutil.rmtree(self.dir)


class Model(object):
    def __init__(self):
        self.t, self.printed = [], []

    def run(self, script):
        """script: [(kind, value index)]; returns the exit code"""
        if any(k == "bad" for k, i in script):
            return CODES["bad"]
        for k, i in script:
            if k in CODES:
                return CODES[k]
            if k in ("print", "quoted"):
                self.printed.append([{"a": VALS[i]}])
            elif k == "insert":
                self.t.append({"a": VALS[i]})
            elif k == "show" and self.t:
                self.printed.append(list(self.t))
        return 0


def text(script, sep=";\n"):
    out = []
    for k, i in script:
        s = FAULTS[k] if k in FAULTS else SQL[k]
        out.append(s % i if "%d" in s else s)
    return sep.join(out)


def harnesses(tier):
    hs = []
    T = tier == "thorough"

    def script(ctx, name, base, n, faults=True):
        s = [(k, base + i) for i, k in enumerate(ctx.choice(name, SCRIPTS[n]))]
        if faults:
            f = ctx.choice(name + " fault", ("none",) + tuple(FAULTS))
            if f != "none":
                s.insert(ctx.choice(name + " at", tuple(range(n + 1))), (f, 0))
        return s

    import itertools
    SCRIPTS = {1: [(k,) for k in KINDS], 2: [s for s in itertools.product(KINDS[:4], repeat=2)], 3: [s for s in itertools.product(KINDS[:4], repeat=3)][:: 2 if T else 8]}

    def values(ctx, n=6):
        VALS[:] = [ctx.int("v%d" % i) for i in range(n)]

    WAYS = {"file.sql": (["a.sql"], None, 1), "FILE.SQLX": (["A.SQLX"], None, 1), "file, not a terminal": (["a.sql"], "select 9 as z", 1), "pipe": ([], "", 0), "quoted pipe": ([], "'%s'", 0),
            "double quoted pipe": ([], '"%s"', 0), "pipe, other file": (["a.txt"], "", 0), "pipe, options": (["--x=1"], "", 0)}

    def way(name, n, inits):
        argv, stdin, isfile = WAYS[name]

        def fn(ctx):
            values(ctx)
            init = [script(ctx, "init%d" % i, i, 1, i == inits - 1) for i in range(inits)]
            main = script(ctx, "script", 2, n, not inits)
            sep = ctx.choice("separator", (";\n", " ; -- it's\n", ";")) if not inits else ";\n"
            t = text(main, sep)
            tail = ctx.choice("end", ("", ";", ";\n\n")) if not inits else ""
            ctx.assume(t.strip() != "" or isfile)
            files = dict(("i%d.sql" % i, text(s)) for i, s in enumerate(init))
            if isfile:
                files[argv[0]] = t + tail
                given = stdin
            else:
                files["a.txt"] = "select 8 as y"
                given = stdin % (t + tail) if stdin else t + tail
            with World(files, config={"executes": ["i%d.sql" % i for i in range(inits)]} if inits else None) as w:
                code = w.main(argv, given)
                printed = w.printed
            m = Model()
            exp = 0
            for s in init + [main]:
                exp = m.run(s)
                if exp:
                    break
            ctx.meta["out"] = [code, printed]
            ctx.check(code == exp, "the exit code")
            ctx.check(same(printed, m.printed), "the rows printed")
        hs.append(H("%s %d init %d" % (name, n, inits), fn, "%s, scripts of %d statements with or without a fault, %d files of configuration to run before" % (name, n, inits)))

    for name in WAYS:
        for n in (1, 2) if not T else (1, 2, 3):
            for inits in (0, 1, 2):
                if T or inits == 0 or inits == 2 and n == 1 or name == "file.sql":
                    way(name, n, inits)

    def usage(ctx):
        values(ctx)
        ext = ctx.choice("extension", ("txt", "py", "sq", "sql ", "json"))
        with World({"a." + ext: "select sx_m$val(0) as a"}) as w:
            code = w.main(["a." + ext])
            printed = w.printed
        ctx.meta["out"] = [code, printed]
        ctx.check(code == 2, "the exit code")
        ctx.check(printed == [], "nothing runs")
    hs.append(H("usage", usage, "a terminal and a file of another kind"))

    def missing(ctx):
        values(ctx)
        what = ctx.choice("missing", ("file", "init"))
        with World({"b.sql": "select sx_m$val(0) as a"}, config={"executes": ["zz.sql"]} if what == "init" else None) as w:
            code = w.main(["a.sql" if what == "file" else "b.sql"])
            printed = w.printed
        ctx.meta["out"] = [code, printed]
        ctx.check(code == 1, "the exit code")
        ctx.check(printed == [], "nothing runs")
    hs.append(H("missing file", missing, "a file that does not exist"))

    def nothing(ctx):
        values(ctx)
        blank = ctx.str("blank", 2, alphabet=" \n\t")
        with World({"i.sql": "select sx_m$val(0) as a"}, config={"executes": ["i.sql"]}) as w:
            code = w.main([], blank)
            printed = w.printed
        ctx.meta["out"] = [code, printed]
        ctx.check(code == 0, "the exit code")
        ctx.check(same(printed, [[{"a": VALS[0]}]]), "the files of the configuration")
    hs.append(H("empty pipe", nothing, "blank standard input of <= 2 characters"))

    # the prompt
    def prompt(n, k):
        def fn(ctx):
            values(ctx, 8)
            lines = [script(ctx, "line%d" % i, i * k, k) for i in range(n)]
            end = ctx.choice("end", ("exit", "Exit;", None))
            texts = [text(l) + ";" for l in lines]
            if end:
                texts.append(end)
                texts.append("select 5 as never")
            todo = list(texts)
            from syncanysql import prompt as p
            saved, shown = p.PromptSession, []

            class Session(object):
                def __init__(self, **k):
                    pass

                def prompt(self, *a, **k):
                    if not todo:
                        raise EOFError()
                    return todo.pop(0)
            p.PromptSession = Session
            try:
                with World({}) as w:
                    code = w.main([])
                    printed = w.printed
            finally:
                p.PromptSession = saved
            m = Model()
            for l in lines:
                m.run(l)
            ctx.meta["out"] = [code, printed]
            ctx.check(code in (0, 130, None), "the exit code")
            ctx.check(same(printed, m.printed), "the rows printed")
        hs.append(H("prompt %d %d" % (n, k), fn, "%d lines of %d statements, each with or without a fault" % (n, k)))
    prompt(1, 2)
    prompt(2, 1)
    if T:
        prompt(2, 2)
        prompt(3, 1)

    def complete(n, pre, alphabet):
        def fn(ctx):
            s = pre + ctx.str("s", n, alphabet=alphabet)
            from syncanysql.prompt import CliPrompt
            p = CliPrompt(None, None, None)
            more = p.check_complete(s)
            exp = not ends(s)
            ctx.meta["out"] = [more]
            ctx.check(bool(more) == exp, "whether the statement goes on")
        hs.append(H("complete %r" % pre, fn, "%r + texts of <= %d characters of %r" % (pre, n, alphabet)))
    for pre in ("select ", "select 'a", "select `a", "select 1 /*", "select 1 -- "):
        complete(4 if T else 3, pre, ";'\"`\\\n*/a")

    # options
    def options(ctx):
        name = ctx.choice("name", ("n", "opt", "a.b"))
        v = ctx.str("v", 4 if T else 3, alphabet="'\"=a-5 ")
        flag = ctx.choice("flag", (True, False))
        with World({}) as w:
            from syncanysql.executor import EnvVariables
            from syncanysql.config import GlobalConfig
            sys.argv = ["syncany-sql", "x.sql", "--" + name + "=" + v] + (["--flag"] if flag else []) + ["-z=3", "q=4"]
            e = EnvVariables.build_global(GlobalConfig())
            out = [e.get(name), e.get("flag"), e.get("z"), e.get("-z"), e.get("q")]
        q = len(v) >= 2 and is_true(disj([conj([v[0] == c, v[-1] == c]) for c in "'\""]))
        ctx.meta["out"] = out
        ctx.check(same(out[0], v[1:-1] if q else v), "the option's value")
        ctx.check(out[1] is (True if flag else None) and out[2:] == [None, None, None], "the other options")
    hs.append(H("options", options, "--name=value with values of <= 3 (4) characters of '\"=a-5 and blank"))
    return hs


def ends(s):
    """whether a ; outside quotes and comments ends a statement"""
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if is_true(c == ";"):
            return True
        for q in "'\"`":
            if is_true(c == q):
                i += 1
                while True:
                    if i >= n:
                        return False
                    if q != "`" and is_true(s[i] == "\\"):
                        i += 2
                        continue
                    if is_true(s[i] == q):
                        break
                    i += 1
                i += 1
                break
        else:
            if is_true(c == "#") or is_true(s[i:i + 2] == "--"):
                while i < n and not is_true(s[i] == "\n"):
                    i += 1
            elif is_true(s[i:i + 2] == "/*"):
                i += 2
                while not is_true(s[i:i + 2] == "*/"):
                    i += 1
                    if i >= n:
                        return False
                i += 2
            else:
                i += 1
    return False
