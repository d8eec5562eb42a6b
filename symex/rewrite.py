"""
Import hook: loads pdr's (and a few pure-Python helpers') current source
through an AST rewriter so that operations CPython performs in C are routed
through `ops`, which understands proxies.  Concrete behaviour is unchanged.
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import sys

PREFIXES = ("pdr", "dustgoggles", "more_itertools", "vax")
SKIP = ("pdr.pds4_tools.viewer", "pdr.pds4_tools.extern")
O = "__sx_ops__"
ENCODED = {}


class Rewriter(ast.NodeTransformer):
    def _op(self, name, args, node, keywords=()):
        return ast.copy_location(
            ast.Call(
                func=ast.Attribute(
                    value=ast.Name(id=O, ctx=ast.Load()), attr=name,
                    ctx=ast.Load(),
                ),
                args=args, keywords=list(keywords),
            ),
            node,
        )

    # do not rewrite annotations
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(b) for b in node.body]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [
            None if d is None else self.visit(d) for d in node.args.kw_defaults
        ]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "warn" and not self.msg:
            self.msg = True
            try:
                return self.visit_Call(node)
            finally:
                self.msg = False
        if isinstance(f, ast.Name) and f.id in (
            "super", "locals", "globals", "vars", "dir", "eval", "exec",
        ):
            self.generic_visit(node)
            return node
        node.args = [self.visit(a) for a in node.args]
        node.keywords = [
            ast.keyword(arg=k.arg, value=self.visit(k.value))
            for k in node.keywords
        ]
        if isinstance(f, ast.Attribute):
            name = f.attr
            return self._op(
                "mcall",
                [self.visit(f.value), ast.Constant(value=name)] + node.args,
                node, node.keywords,
            ) if not name.startswith("__") or name.endswith("__") else \
                self._generic(node, f)
        return self._op("call", [self.visit(f)] + node.args, node, node.keywords)

    def _generic(self, node, f):
        # name-mangled private attribute: let the compiler mangle it
        return self._op("call", [self.visit(f)] + node.args, node, node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        special = (ast.In, ast.NotIn, ast.Is, ast.IsNot)
        if len(node.ops) == 1:
            op = node.ops[0]
            names = {ast.In: "in_", ast.NotIn: "not_in", ast.Is: "is_",
                     ast.IsNot: "is_not"}
            if type(op) in names:
                return self._op(
                    names[type(op)], [node.left, node.comparators[0]], node
                )
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = self._slice(sl)
            elif isinstance(sl, ast.Tuple):
                sl = ast.copy_location(ast.Tuple(
                    elts=[self._slice(e) if isinstance(e, ast.Slice) else e
                          for e in sl.elts], ctx=ast.Load()), sl)
            return self._op("getitem", [node.value, sl], node)
        return node

    def _slice(self, sl):
        none = ast.Constant(value=None)
        return ast.copy_location(ast.Call(
            func=ast.Name(id="__sx_slice__", ctx=ast.Load()),
            args=[sl.lower or none, sl.upper or none, sl.step or none],
            keywords=[]), sl)

    msg = False

    def visit_Raise(self, node):
        # text of exception messages is not modelled
        old, self.msg = self.msg, True
        self.generic_visit(node)
        self.msg = old
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant(value=None)
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                parts.append(ast.Tuple(
                    elts=[val, ast.Constant(value=v.conversion), spec],
                    ctx=ast.Load(),
                ))
        return self._op("msgstr" if self.msg else "fstr", parts, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._op("mod", [node.left, node.right], node)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, filename=path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True,
                       optimize=_optimize)

    def get_code(self, fullname):
        # never use cached bytecode
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        from . import ops
        module.__dict__[O] = ops
        module.__dict__["__sx_slice__"] = slice
        ENCODED[module.__name__] = self.path
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        root = fullname.split(".")[0]
        if root not in PREFIXES or fullname.startswith(SKIP):
            return None
        for f in sys.meta_path:
            if f is self or not hasattr(f, "find_spec"):
                continue
            spec = f.find_spec(fullname, path, target)
            if spec is None:
                continue
            if isinstance(spec.loader, importlib.machinery.SourceFileLoader):
                spec.loader = Loader(spec.loader.name, spec.loader.path)
            return spec
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
