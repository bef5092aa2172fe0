# -*- coding: utf-8 -*-
"""a script is split into its statements."""
from .lib import *
from .lib import _sym
from .c21 import cs

LETTERS = [(65, 90), (97, 122)]


def letter(c):
    o = ord(c)
    if _sym(c):
        return ((o >= 65) & (o <= 90)) | ((o >= 97) & (o <= 122))
    return 65 <= o <= 90 or 97 <= o <= 122


class Refused(Exception):
    pass


def scan(text):
    """[(statement, line number)] and whether a ; ends a statement, by a state machine; Refused for an open quote or comment"""
    out, complete = [], False
    line, start, state = 1, None, ""
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if state == "":
            if is_true(c == "'"):
                state = "'"
            elif is_true(c == '"'):
                state = '"'
            elif is_true(c == "`"):
                state = "`"
            elif is_true(c == "#"):
                state = "-"
            elif is_true(c == "-") and i + 1 < n and is_true(text[i + 1] == "-"):
                state = "-"
                i += 1
            elif is_true(c == "/") and i + 1 < n and is_true(text[i + 1] == "*"):
                state = "*"
                i += 1
            elif is_true(c == ";"):
                complete = True
                if start is not None:
                    out.append((text[start[0]:i], start[1]))
                start = None
            elif start is None and (is_true(letter(c)) or is_true(c == "(")):
                start = (i, line)
        elif state == "-":
            if is_true(c == "\n"):
                state = ""
        elif state == "*":
            if is_true(c == "*") and i + 1 < n and is_true(text[i + 1] == "/"):
                state = ""
                i += 1
        else:
            if state != "`" and is_true(c == "\\"):
                i += 1
                c = text[i] if i < n else " "
            elif is_true(c == state):
                state = ""
        if is_true(c == "\n"):
            line += 1
        i += 1
    if state and state != "-":
        raise Refused()
    if start is not None:
        out.append((text[start[0]:], start[1]))
    return out, complete


def split(text):
    from syncanysql.parser import SqlParser
    try:
        return [(s.sql, s.lineno) for s in SqlParser(text).split()]
    except EOFError:
        return "refused"


# characters that matter for the splitting, and one of every other kind
ALL = "'\"`#-/*;\n\\(a 1,"


def harnesses(tier):
    hs = []
    T = tier == "thorough"

    def tmpl(name, pre, n, post, alphabet, minlen=0):
        def fn(ctx):
            s = ctx.str("s", n, alphabet=alphabet, minlen=minlen)
            text = pre + s + post
            out = split(text)
            ctx.meta["out"] = out
            try:
                exp, _ = scan(text)
            except Refused:
                exp = "refused"
            ctx.check(same(out, exp), "statements and their lines")
        hs.append(H(name, fn, "text %r + up to %d characters of %r + %r" % (pre, n, alphabet or "printable ASCII", post)))
    k = 1 if T else 0
    tmpl("any", "", 3 + k, "", None)
    tmpl("anything", "", 3 + k, "", ALL)
    tmpl("before", "", 3 + k, "a;b", ALL)
    tmpl("after", "a;b", 3 + k, "", ALL)
    tmpl("between", "a;", 3 + k, ";b\n;c", ALL)
    for q in "'\"`":
        o = {"'": '"', '"': "`", "`": "'"}[q]
        tmpl("in %s" % q, "a " + q, 3 + k, q + "; b;\n c", q + o + "\\;-#/*\na")
        tmpl("backslashes in %s" % q, "a " + q, 6 + k, q + "; b", "\\;" + q)
        tmpl("any character in %s" % q, "a " + q, 2, q + "; b;\n c", None)
        tmpl("end of %s" % q, "a\n" + q + "x", 3 + k, ";b", q + "\\;\n-")
        tmpl("two %s" % q, "a %sx%s" % (q, q), 2 + k, "%s;%s;\nb" % (q, q), q + o + "\\; \n")
    for c in ("--", "#", "--x\n--", "# '\n#"):
        tmpl("in %r" % c, "a " + c, 3 + k, "\n;b;\nc", "'\"`#-/*;\n\\ a")
        tmpl("after %r" % c, c, 3 + k, "", "'\n;a-")
    tmpl("in /*", "a /*", 3 + k, "*/;b;\nc", "'\"`#-/*;\n\\ a")
    tmpl("end of /*", "a /*;", 3 + k, ";b", "*/;'\n-")
    tmpl("before comment", "a ", 3 + k, "--;\n;b", "'\"`#-/*;\n\\ a")
    tmpl("before /*", "a ", 3 + k, "/*;*/;b", "'\"`#-/*;\n\\ a")
    tmpl("parenthesis", "(a;'b);(", 3 + k, "';\n(c)", "'\\;()\n")
    tmpl("not ASCII", "a '", 2, "';b", "éä中'; a")

    # a whole script runs its statements: each stores its own text
    WORDS = ["'it''s'", '"a;b"', "'-- no comment'", "'/* x'", "`b`", "'#'", "'a\\\\'", "5", "(1)", "';'", '"\'; --"']
    VALUES = ["it's", "a;b", "-- no comment", "/* x", 7, "#", "a\\", 5, 1, ";", "'; --"]
    SEPS = [";", " ;\n", "; -- it's;\n", ";# \"x;\n", "/* ' ; */;", ";;\n;", "\n-- a;b\n;\n\n"]

    def run_script(ctx):
        i, j = ctx.choice("first", tuple(range(len(WORDS)))), ctx.choice("second", tuple(range(len(WORDS))))
        p, q = ctx.choice("separator", tuple(range(len(SEPS)))), ctx.choice("end", tuple(range(len(SEPS))))
        with Engine() as e:
            e.load("t", [{"b": 7}])
            e.execute("insert into o1 select %s as x from t%sinsert into o2 select %s as x from t%s" % (WORDS[i], SEPS[p], WORDS[j], SEPS[q]))
            out = [e.pop("o1"), e.pop("o2")]
        ctx.meta["out"] = out
        ctx.check(same(out, [[{"x": VALUES[i]}], [{"x": VALUES[j]}]]), "what the statements store")
    hs.append(H("script", run_script, "two statements of 11 values each, 7 separators"))

    # refused scripts: nothing of them runs
    def refused(ctx):
        i = ctx.choice("open", tuple(range(4)))
        with Engine() as e:
            try:
                e.execute("insert into o1 select 1 as x; insert into o2 select " + ["'a", '"it\'s', "1 as `x", "1 /* x"][i])
                ok = False
            except EOFError:
                ok = True
            out = [e.pop("o1"), e.pop("o2")]
        ctx.check(ok and same(out, [[], []]), "an open quote or comment is refused, nothing runs")
    hs.append(H("refused", refused, "four open texts"))

    # a statement typed in is complete once a ; ends it
    def complete(pre, n, post, alphabet):
        def fn(ctx):
            from syncanysql.prompt import CliPrompt
            text = pre + ctx.str("s", n, alphabet=alphabet) + post
            more = CliPrompt(None, None, None).check_complete(text)
            try:
                exp = not scan(text)[1]
            except Refused:
                exp = True if not completes(text) else False
            ctx.check(same(bool(more), exp), "more lines are asked for")
        hs.append(H("complete %r %r" % (pre, post), fn, "%r + up to %d characters of %r + %r" % (pre, n, alphabet, post)))

    def completes(text):
        """a ; outside quotes and comments comes before the open quote or comment"""
        for k in range(len(text)):
            try:
                if scan(text[:k + 1])[1]:
                    return True
            except Refused:
                pass
        return False
    for pre, post in (("a", ""), ("a '", "';"), ("a --", "\n;"), ("a/*", "*/;"), ("a #", ";"), ('a "', ";"), ("select `", "`;")):
        complete(pre, 3, post, "'\"`#-/*;\n\\ a" if T else "'`#-;\n\\a")
    return hs
