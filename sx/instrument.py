# -*- coding: utf-8 -*-
"""AST instrumentation + import hook: the working tree's own source is compiled
with calls/subscripts/in/is/f-strings/% routed through sx.ops."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import ops
from .proxies import conc_deep

NO_CALL = {"super", "locals", "globals", "eval", "exec", "vars", "dir", "__import__", "_sys", "namedtuple"}


def _ops(attr):
    return ast.Attribute(value=ast.Name(id="__sx__", ctx=ast.Load()), attr=attr, ctx=ast.Load())


def _call(attr, *args):
    return ast.Call(func=_ops(attr), args=list(args), keywords=[])


class T(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_CALL:
            return node
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) \
                and node.func.value.id == "__sx__":
            return node
        return ast.copy_location(ast.Call(func=_ops("call"), args=[node.func] + node.args,
                                          keywords=[ast.keyword(arg=None, value=_call("kwargs", x.value)) if x.arg is None else x for x in node.keywords]), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("getitem", node.value, self._slice(node.slice)), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=_ops("slice"), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            # evaluation order: value first, then container, then key
            return ast.copy_location(ast.Expr(value=_call(
                "setitem_v", node.value, t.value, self._slice(t.slice))), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Subscript):
            t = node.target
            return ast.copy_location(ast.Expr(value=_call(
                "augitem", t.value, self._slice(t.slice),
                ast.Constant(value=type(node.op).__name__), node.value)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(value=_call(
                    "delitem", t.value, self._slice(t.slice))), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            l, r = node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(_call("contains", l, r), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(_call("not_in", l, r), node)
            if isinstance(op, (ast.Is, ast.IsNot)):
                if isinstance(r, ast.Constant) and r.value is None:
                    return node
                return ast.copy_location(_call("is_" if isinstance(op, ast.Is) else "is_not", l, r), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("mod", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[val, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(_call("fstr", *parts), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is not None and isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                pairs.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(_call("mkdict", *pairs), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                               generators=node.generators)
        return ast.copy_location(_call("dictcomp", gen), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return ast.copy_location(_call("mkset", gen), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("mkset", ast.List(elts=node.elts, ctx=ast.Load())), node)

    # annotations/decorators/bases are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.body = self._body(node.body)
        return node

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        node.body = self._body(node.body)
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        return node

    def visit_MatchValue(self, node):
        return node


def setitem_v(v, o, k):
    ops.setitem(o, k, v)


ops.setitem_v = setitem_v
ops.slice = slice


def instrument(source, filename):
    tree = ast.parse(source, filename)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return instrument(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__["__sx__"] = ops
        code = self.get_code(module.__name__)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = tuple(prefixes)

    def find_spec(self, fullname, path, target=None):
        if fullname.split(".")[0] not in self.prefixes:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or spec.origin is None or not spec.origin.endswith(".py"):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        spec.cached = None
        return spec


def install(prefixes):
    sys.meta_path.insert(0, Finder(prefixes))
    ops.init()


def load_pure_datetime():
    """instrumented pure-python datetime in place of the C one"""
    import datetime as cdt
    import _strptime        # noqa  (strptime of concrete strings)
    import zoneinfo         # noqa  (needs the C datetime)
    import pendulum.parsing
    import bson.objectid    # noqa
    import _pydatetime as orig
    path = orig.__file__
    import types
    m = types.ModuleType("datetime")
    m.__file__ = path
    m.__dict__["__sx__"] = ops
    sys.modules["datetime"] = m
    with open(path, "rb") as fp:
        code = instrument(fp.read(), path)
    exec(code, m.__dict__)
    for c in (m.date, m.time, m.timedelta, m.datetime):
        c.__deepcopy__ = lambda self, memo: self
        c.__copy__ = lambda self: self
        c.__module__ = "datetime"
    m.tzinfo.__module__ = "datetime"
    _strptime.datetime_date = m.date
    _strptime.datetime_timedelta = m.timedelta
    _strptime.datetime_timezone = m.timezone
    from . import datesym
    datesym.patch(m)
    m.from_c = from_c
    m.CDT = cdt
    parse0 = pendulum.parsing.parse
    pendulum.parsing.parse = lambda text, **o: from_c(parse0(conc_deep(text), **o))
    return m


def from_c(x):
    """C datetime object -> instrumented pure-python one"""
    m = sys.modules["datetime"]
    c = m.CDT
    if isinstance(x, c.datetime):
        tz = x.tzinfo
        if tz is not None:
            tz = m.timezone(m.timedelta(seconds=x.utcoffset().total_seconds()))
        return m.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, tz)
    if isinstance(x, c.date):
        return m.date(x.year, x.month, x.day)
    if isinstance(x, c.time):
        return m.time(x.hour, x.minute, x.second, x.microsecond)
    return x
