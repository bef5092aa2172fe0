# -*- coding: utf-8 -*-
"""layout: blanks, comments and the case of keywords."""
import os
import re
import shutil
import tempfile
from .lib import *

KW = set("""insert into select as from where and is not null order by desc limit offset count sum group having left join on or in union all case when then else end if between like
row_number over partition cast convert char interval day date with values delete set global max explain execute show use exists date_format concat avg group_array group_bit_or group_concat rank lag ifnull coalesce json_extract lower get_value date_add min yield_array div mod xor true false distinct inner right""".split())

# tokens are separated by a blank; ~ stands for a place where nothing need be between two tokens, _ for a blank within what counts as one keyword (no comments there)
STATEMENTS = [
    "insert into o select a ~ , ~ c ~ + ~ 1 as d from t where a ~ > ~ 1 and b is not null order_by a desc limit 2 offset 0",
    "insert into o select a ~ , ~ count ~ ( ~ * ~ ) as n ~ , ~ sum ~ ( ~ c ~ ) as s from t group_by a having n ~ >= ~ 1 order_by a",
    "insert into o select x ~ . ~ a ~ , ~ y ~ . ~ c from t x left_join u y on x ~ . ~ a ~ = ~ y ~ . ~ a where y ~ . ~ b is null or y ~ . ~ b in ~ ( ~ 1 ~ , ~ 2 ~ )",
    "insert into o select a ~ , ~ c from t union all select b as a ~ , ~ c from t",
    "insert into o select distinct a from t",
    "insert into o select case when a ~ > ~ 1 then 'x' else c end as d ~ , ~ if ~ ( ~ a ~ > ~ 1 ~ , ~ 1 ~ , ~ 0 ~ ) as i ~ , ~ a between 1 and 2 as w ~ , ~ a not in ~ ( ~ 5 ~ ) as z from t",
    "insert into o select c ~ , ~ row_number ~ ( ~ ) over ( ~ partition_by a order_by b desc ~ ) as r from t",
    "insert into o select cast ~ ( ~ a as char ~ ) as d ~ , ~ convert ~ ( ~ a ~ , ~ char ~ ) as e ~ , ~ a like '1 %' as l from t",
    "with w as ( ~ select a ~ , ~ c from t ~ ) insert into o select a ~ , ~ c from w",
    "insert into o select a ~ , ~ c from ~ ( ~ select a ~ , ~ c from t where a ~ > ~ 1 ~ ) z",
    "insert into o ( ~ a ~ , ~ b ~ ) values ~ ( ~ 1 ~ , ~ 'it''s' ~ ) ~ , ~ ( ~ 3 ~ , ~ - ~ 4 ~ )",
    "delete from t where a ~ = ~ 1 ~ ; ~ insert into o select a ~ , ~ c from t",
    "set @x ~ = ~ 5 ~ ; ~ insert into o select @x as v",
    "set @x ~ = ~ 'a b' ~ ; ~ insert into o select @x as v",
    "set global @sxg ~ = ~ 5 ~ ; ~ insert into o select @sxg as v",
    "select max ~ ( ~ c ~ ) into @x from t ~ ; ~ insert into o select @x as v",
    "insert into o select @x ~ := ~ c as v from t where a ~ = ~ 1",
    "set @x ~ = ~ ( ~ select max ~ ( ~ c ~ ) from t ~ ) ~ ; ~ insert into o select @x as v",
    "execute 'FILE' ~ ; ~ insert into o select c from t",
    "execute `FILE` ~ ; ~ insert into o select c from t",
    "explain select a from t ~ ; ~ insert into o select c from t",
    "insert into ~ `o<I>` ~ select a ~ , ~ c from t",
    "insert into o select exists ~ ( ~ select a from u where b ~ = ~ 1 ~ ) as e ~ , ~ c from t limit 1",
    "insert into o select a ~ , ~ c from t where a in ~ ( ~ select a from u ~ )",
    "insert into o select a ~ , ~ c from t where a ~ = ~ ( ~ select max ~ ( ~ a ~ ) from u ~ )",
    "insert into o select x ~ . ~ a ~ , ~ y ~ . ~ c from t x inner_join u y on x ~ . ~ a ~ = ~ y ~ . ~ a",
    "insert into o select a ~ % ~ 2 as d ~ , ~ not a as g ~ , ~ c as h ~ , ~ a ~ & ~ 1 as i ~ , ~ a ~ << ~ 1 as j ~ , ~ true as k ~ , ~ null as l from t",
    "insert into o select concat ~ ( ~ a ~ , ~ ' -- x' ~ ) as d ~ , ~ \"/* y\" as e ~ , ~ c as `c d` from t",
    "insert into o select a ~ , ~ group_array ~ ( ~ c ~ ) as d ~ , ~ group_bit_or ~ ( ~ a ~ ) as e ~ , ~ avg ~ ( ~ c ~ ) as f ~ , ~ group_concat ~ ( ~ c ~ ) as g from t group_by a",
    "insert into o select a ~ , ~ rank ~ ( ~ ) over ( ~ order_by a ~ ) as r ~ , ~ lag ~ ( ~ c ~ , ~ 1 ~ ) over ( ~ order_by b ~ ) as l from t",
    "insert into o select ifnull ~ ( ~ b ~ , ~ c ~ ) as d ~ , ~ coalesce ~ ( ~ b ~ , ~ 5 ~ ) as e ~ , ~ json_extract ~ ( ~ '{\"a\": 1}' ~ , ~ '$.a' ~ ) as f ~ , ~ lower ~ ( ~ 'A B' ~ ) as g ~ , ~ get_value ~ ( ~ c ~ , ~ 0 ~ ) as h from t",
    "insert into o select date_format ~ ( ~ '2020-05-06' ~ , ~ '%Y %m' ~ ) as d ~ , ~ date_add ~ ( ~ '2020-05-06' ~ , ~ interval 1 day ~ ) as e ~ , ~ - ~ a as f from t",
    "insert into o select a ~ , ~ count ~ ( ~ distinct c ~ ) as n ~ , ~ min ~ ( ~ c ~ ) as m from t where c is not null group_by a order_by m ~ , ~ a limit 5",
    "insert into o select a ~ , ~ yield_array ~ ( ~ b ~ ) as y from t",
]
FILE = "insert into o select 77 as z"


def tokens(s):
    """[(gap, token)]: gap None (start), 1 (needs something), 0 (need not), "_" (blanks only)"""
    out, gap = [], None
    # blanks within quotes belong to the token
    for w in re.findall(r"'[^']*'(?:'[^']*')*|\"[^\"]*\"|`[^`]*`|[^ ]+", s):
        if w == "~":
            gap = 0
            continue
        parts = w.split("_") if "_" in w and w.split("_")[0] in ("order", "group", "left", "inner", "partition") and w not in ("group_array", "group_bit_or", "group_concat") else [w]
        for i, p in enumerate(parts):
            out.append((gap if i == 0 else "_", p))
            gap = 1
    return out


def plain(toks, repl=None, at=None):
    text = ""
    for i, (gap, w) in enumerate(toks):
        if i == at and repl is not None:
            text = text + repl
        elif gap is not None:
            text = text + " "
        text = text + w
    return text


def harnesses(tier):
    hs = []
    T = tier == "thorough"

    def run_text(sql, c):
        d = tempfile.mkdtemp(prefix="sx")
        path = os.path.join(d, "f.sql")
        with open(path, "w") as f:
            f.write(FILE)
        # what EXPLAIN prints is not looked at, and its printer takes no text with symbolic characters
        import syncanysql.taskers.explain as explain
        write = getattr(explain, "beautify_print", None)
        explain.beautify_print = lambda *args, **kwargs: None
        try:
            with Engine() as e:
                e.load("t", [{"id": 1, "a": 1, "b": 1, "c": c[0]}, {"id": 2, "a": 2, "b": None, "c": c[1]}, {"id": 3, "a": 2, "b": 7, "c": 5}])
                e.load("u", [{"id": 1, "a": 1, "b": 1, "c": c[1]}, {"id": 2, "a": 2, "b": 4, "c": c[0]}])
                e.execute(sym_replace(sql, "FILE", path))
                return e.pop("o")
        finally:
            explain.beautify_print = write
            shutil.rmtree(d)

    def add(name, toks, mk, bounds):
        def fn(ctx):
            c = [ctx.int("c0", 0, 3), ctx.int("c1", 0, 3)]
            text = mk(ctx)
            base = run_text(plain(toks), c)
            out = run_text(text, c)
            ctx.meta["out"] = [base, out]
            ctx.check(len(base) > 0, "the statement gives rows")
            ctx.check(same(out, base), "the layout changes nothing")
        hs.append(H(name, fn, bounds))

    for i, s in enumerate(STATEMENTS):
        toks = tokens(s)
        gaps = [k for k, (g, w) in enumerate(toks) if g is not None]
        n = 2 if T else 1

        def blanks(ctx, toks=toks, gaps=gaps):
            at = ctx.choice("at", tuple(gaps))
            b = ctx.str("blank", n, alphabet=" \n\t\r", minlen=0 if toks[at][0] == 0 else 1)
            return plain(toks, b, at)
        add("blanks %d" % i, toks, blanks, "%s: between any two tokens up to %d blanks, tabs, newlines and returns" % (plain(toks), n))

        def comment(ctx, toks=toks, gaps=gaps, i=i):
            places = [k for k in gaps if toks[k][0] != "_"]
            at = ctx.choice("at", tuple(places if T else places[i % 3::3]))
            form = ctx.choice("form", ("/* %s*/", "-- %s\n", "# %s\n", "/**%s*/"))
            c = ctx.str("text", n, alphabet=";'`\"*a-(\\")
            a, b = form.split("%s")
            if "*/" in form:
                ctx.assume(neg(c[-1] == "/") if len(c) else True)
            return plain(toks, " " + a + c + b + " ", at)
        add("comments %d" % i, toks, comment, "%s: between any two tokens (outside ORDER BY and the like) a comment of up to %d characters" % (plain(toks), n))

        kws = [k for k, (g, w) in enumerate(toks) if w in KW]

        def cases(ctx, toks=toks, kws=kws):
            at = ctx.choice("at", tuple(kws))
            w = toks[at][1]
            m = min(len(w), 3 if T else 2)
            head = ""
            for j in range(m):
                head = head + ctx.str("c%d" % (10 + j), 1, alphabet=w[j] + w[j].upper(), minlen=1) if w[j] != "_" else head + "_"
            tail = ctx.choice("rest", (w[m:], w[m:].upper()))
            return plain(toks[:at] + [(toks[at][0], head + tail)] + toks[at + 1:])
        add("case %d" % i, toks, cases, "%s: any keyword in any mix of capitals in its first %d letters" % (plain(toks), 3 if T else 2))

        def tight(ctx, toks=toks):
            up = ctx.choice("capitals", (True, False))
            sep = ctx.choice("separator", (" ", "\n", "\t", "  ", "\r\n") if T else (" ", "\n", "\t"))
            opt = ctx.choice("optional", ("", sep))
            ends = [("", ";"), ("\n ", " ;\n"), ("-- x;'\n", " -- e;"), ("/* ;' */", "/* e */")]
            lead, trail = ctx.choice("ends", tuple([(l, t) for l, _ in ends for _, t in ends] if T else ends))
            text = ""
            for g, w in toks:
                text += "" if g is None else opt if g == 0 else sep
                text += w.upper() if up and w in KW else w
            return lead + text + trail
        add("whole %d" % i, toks, tight, "%s: every gap in one of several ways, with and without optional blanks, all capitals or none, something before and after" % plain(toks))
    return hs


def sym_replace(sql, what, by):
    """replaces a word of a text with symbolic characters by another"""
    if isinstance(sql, str) and type(sql) is str:
        return sql.replace(what, by)
    i = sql.find(what)
    return sql if i < 0 else sql[:i] + by + sql[i + len(what):]
