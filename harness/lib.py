# -*- coding: utf-8 -*-
"""helpers shared by the harnesses; runs both symbolically and concretely"""
import itertools
import sys


def setup_symbolic():
    import datetime
    import syncany.utils
    syncany.utils.set_timezone(datetime.timezone.utc)       # TZ=UTC, as a pure-Python object
    stub = lambda *a, **k: ""
    for name, m in list(sys.modules.items()):
        if m is not None and (name == "syncany" or name.startswith("syncany.") or name.startswith("syncanysql")):
            if "human_repr_object" in m.__dict__:
                m.__dict__["human_repr_object"] = stub


PRINT = [False]           # print mode: statements are not wrapped into an INSERT (C31)


class Raised(object):
    """marker for an exception"""

    def __init__(self, e):
        self.e = e
        self.name = type(e).__name__

    def __repr__(self):
        return "Raised(%s: %s)" % (self.name, str(self.e)[:200])


class Engine(object):
    def __init__(self, config=None):
        from syncanysql import ScriptEngine
        self.e = ScriptEngine(config)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.e.close()

    def load(self, name, rows):
        self.e.push_memory_datas(name, [dict(r) for r in rows])

    def execute(self, sql):
        return self.e.execute(sql)

    def get(self, name):
        return self.e.get_memory_datas(name)

    def pop(self, name):
        return self.e.pop_memory_datas(name)

    def rows(self, sql, pre=""):
        if PRINT[0] and not sql.startswith("("):
            return self.printed(pre + sql)
        self.execute(pre + "insert into `r_out` " + sql)
        return self.pop("r_out")

    def printed(self, sql):
        """the rows a statement gives to the output that prints them"""
        from syncany.database import textline
        rows, cls = [], textline.TextLineInsertBuilder
        write = cls.commit
        cls.commit = lambda self: rows.extend([dict((f, d[f]) for f in (self.fields or d)) for d in self.datas])
        try:
            self.execute(sql)
        finally:
            cls.commit = write
        return rows

    def collections(self):
        db = self.e.get_database("--")
        db.ensure_memory_databases()
        return dict(db.memory_databases)


def run(sql, tables, pre="", config=None):
    with Engine(config) as e:
        for n, rows in tables.items():
            e.load(n, rows)
        return e.rows(sql, pre)


# ------------------------------------------------------------------ equality without forking
def _sym(x):
    p = sys.modules.get("sx.proxies")
    return p is not None and p.is_sym(x)      # (that module is not instrumented)


def conj(items):
    """conjunction of bools/SymBools without forking"""
    out = None
    for i in items:
        if not _sym(i):
            if not i:
                return False
            continue
        out = i if out is None else (out & i)
    return True if out is None else out


def disj(items):
    out = None
    for i in items:
        if not _sym(i):
            if i:
                return True
            continue
        out = i if out is None else (out | i)
    return False if out is None else out


def neg(b):
    if _sym(b):
        from sx.proxies import mkbool, bool_expr
        import z3
        return mkbool(z3.Not(bool_expr(b)))
    return not b


def ite(c, a, b):
    """symbolic if-then-else over numbers/bools (no fork)"""
    if not _sym(c):
        return a if c else b
    from sx.proxies import num_expr, mkint, mkreal, mkbool, SymBool
    import z3
    if type(a) in (bool, SymBool) and type(b) in (bool, SymBool):
        from sx.proxies import bool_expr
        return mkbool(z3.If(c.e, bool_expr(a), bool_expr(b)))
    (x, xr), (y, yr) = num_expr(a), num_expr(b)
    if xr != yr:
        x = x if xr else z3.ToReal(x)
        y = y if yr else z3.ToReal(y)
        return mkreal(z3.If(c.e, x, y))
    return mkreal(z3.If(c.e, x, y)) if xr else mkint(z3.If(c.e, x, y))


def same(a, b):
    """deep equality (None only equals None; numbers by value)"""
    if a is None or b is None:
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a.keys()) != set(b.keys()):
            return False
        return conj([same(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return conj([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, (dict, list, tuple)) or isinstance(b, (dict, list, tuple)):
        return False
    if isinstance(a, str) != isinstance(b, str):
        return False
    if not _sym(a) and not _sym(b) and isinstance(a, float) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    if not _sym(a) and not _sym(b) and isinstance(b, float) and isinstance(a, int):
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    r = (a == b)
    return r if _sym(r) else bool(r)


def same_multiset(a, b):
    """lists equal up to order (exact disjunction over the permutations)"""
    if not isinstance(a, list) or not isinstance(b, list) or len(a) != len(b):
        return False
    if len(a) > 6:
        raise ValueError("too many rows")
    m = [[same(x, y) for y in b] for x in a]
    opts = []
    for p in itertools.permutations(range(len(b))):
        t = conj([m[i][p[i]] for i in range(len(a))])
        if not _sym(t):
            if t:
                return True
            continue
        opts.append(t)
    return disj(opts)


# ------------------------------------------------------------------ SQL three-valued logic
def and3(*xs):
    """None / bool / SymBool"""
    xs = list(xs)
    known = [x for x in xs if x is not None]
    c = conj([_b(x) for x in known])
    if len(known) == len(xs):
        return c
    # some NULL: FALSE if any operand is FALSE else NULL
    if not bool(c):
        return False
    return None


def _b(x):
    if _sym(x):
        from sx.proxies import SymBool
        return x if type(x) is SymBool else (x != 0)
    return bool(x)


def or3(*xs):
    xs = list(xs)
    known = [x for x in xs if x is not None]
    c = disj([_b(x) for x in known])
    if len(known) == len(xs):
        return c
    if bool(c):
        return True
    return None


def not3(x):
    return None if x is None else neg(_b(x))


def cmp3(op, a, b):
    if a is None or b is None:
        return None
    if op == "=":
        return same(a, b)
    if op in ("!=", "<>"):
        return neg(same(a, b))
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


def in3(a, items):
    if a is None:
        return None
    return or3(*[cmp3("=", a, i) for i in items])


def is_true(x):
    """WHERE: keep the row? forks on symbolic truth"""
    if x is None:
        return False
    return bool(x)


def H(name, fn, bounds="", **k):
    return dict(name=name, fn=fn, bounds=bounds, **k)


def nn(f, *args):
    """NULL-propagating application"""
    return None if any(a is None for a in args) else f(*args)


def scalar(name, sql, val, cols="ab", lo=None, hi=None, null=True, bounds=None, exc=None, mk=None):
    """SELECT <sql> FROM a one-row table t with int columns, compared with val(row)"""
    def fn(ctx):
        if mk is not None:
            r = mk(ctx)
        else:
            r = dict((c, ctx.nint(c, lo, hi) if null else ctx.int(c, lo, hi)) for c in cols)
        if exc is not None:
            exc(ctx, r)
        out = run("select %s as x from t" % sql, {"t": [dict(r, id=1)]})
        ctx.meta["out"] = out
        exp = val(r)
        ctx.check(same(out, [{"x": exp}]), "value of %s" % sql)
    return H(name, fn, bounds or "one row; %s: any int%s%s" % (
        ",".join(cols), "" if lo is None and hi is None else " in [%s,%s]" % (lo, hi), " or NULL" if null else ""))


def tf(x):
    return None if x is None else ite(x, 1, 0)


def tr(x):
    """truth of a value used as a condition: NULL is not true, 0 is not true"""
    if x is None:
        return False
    return _b(x)


# ------------------------------------------------------------------ relational reference
def nulleq(a, b):
    if a is None or b is None:
        return a is None and b is None
    return same(a, b)


def group(rows, keyf):
    """[(key, rows)] in order of first appearance; forks on key equality"""
    out = []
    for r in rows:
        k = keyf(r)
        for g in out:
            if bool(conj([nulleq(x, y) for x, y in zip(g[0], k)])):
                g[1].append(r)
                break
        else:
            out.append((k, [r]))
    return out


def notnull(rows, c):
    f = c if callable(c) else (lambda r: r[c])
    return [v for v in (f(r) for r in rows) if v is not None]


def total(vs):
    s = 0
    for v in vs:
        s = s + v
    return s


def maxof(vs):
    m = None
    for v in vs:
        m = v if m is None else ite(v > m, v, m)
    return m


def minof(vs):
    m = None
    for v in vs:
        m = v if m is None else ite(v < m, v, m)
    return m


def distinct(vs):
    out = []
    for v in vs:
        if not bool(disj([nulleq(v, o) for o in out])):
            out.append(v)
    return out


def avgof(vs):
    return total(vs) / len(vs) if vs else 0


def table(ctx, n, nullcols="", cols="", lo=None, hi=None, prefix=""):
    return [dict([("id", i)] + [(c, ctx.nint(prefix + "%s%d" % (c, i), lo, hi)) for c in nullcols] +
                 [(c, ctx.int(prefix + "%s%d" % (c, i), lo, hi)) for c in cols]) for i in range(n)]


def sized(ctx, name, lo, hi):
    """a table size (explored exhaustively)"""
    return lo + ctx.choice(name, tuple(range(hi - lo + 1)))


def run_batched(sql, tables, batch, mem=None):
    """the tables live in a second in-memory source (database mdb), read in batches of the given size"""
    with Engine({"databases": [{"name": "mdb", "driver": "memory"}]}) as e:
        e.e.setup()
        db = e.e.get_database("mdb")
        db.ensure_memory_databases()
        for n, rows in tables.items():
            db.memory_databases["mdb." + n] = [dict(r) for r in rows]
        for n, rows in (mem or {}).items():
            e.load(n, rows)
        return e.rows(sql, "set @batch=%d;" % batch if batch else "")


def order_rows(rows, *keys):
    """stable sort; keys: (column or function, descending); NULLs first ascending, last descending; forks on comparisons"""
    out = list(rows)
    for f, desc in reversed(keys):
        g = f if callable(f) else (lambda r, f=f: r[f])
        res = []
        for r in out:                       # stable insertion
            i = len(res)
            while i > 0 and bool(before(g(r), g(res[i - 1]), desc)):
                i -= 1
            res.insert(i, r)
        out = res
    return out


def before(x, y, desc):
    if desc:
        x, y = y, x
    if x is None:
        return y is not None
    if y is None:
        return False
    return x < y


def pick(rows, *cols):
    return [dict((c, r[c]) for c in cols) for r in rows]
