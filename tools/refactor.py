#!/usr/bin/env python3
"""refactor.py DIR KIND...: rewrites hatchet's modules below DIR (a scratch copy of /repo) without changing what they do.

Kinds: helpers (every method and function gets a helper that holds its body), temps (conditions and returned values are named first),
invert (if/else branches swapped), rename (local variables). Development aid: the checks have to stay quiet on the result.
"""
import ast
import glob
import os
import sys

DIR, KINDS = sys.argv[1], sys.argv[2:]
SPECIAL = {"__new__", "__init_subclass__", "__getattr__", "__class_getitem__"}
# their source text is sent to the browser (inspect.getsource)
SPECIAL |= {"_default_to_converter", "_default_from_converter", "_default_converter", "_query_to_dict"}


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


class Temps(ast.NodeTransformer):
    n = 0

    def temp(self, value):
        Temps.n += 1
        v = "value_%d" % Temps.n
        return v, ast.Assign([name(v, ast.Store())], value)

    def visit_If(self, node):
        self.generic_visit(node)
        if any(isinstance(x, (ast.NamedExpr, ast.Yield)) for x in ast.walk(node.test)):
            return node
        v, a = self.temp(node.test)
        return [a, ast.If(name(v), node.body, node.orelse)]

    def visit_Return(self, node):
        if node.value is None:
            return node
        v, a = self.temp(node.value)
        return [a, ast.Return(name(v))]

    def visit_Module(self, node):  # only inside functions
        for f in ast.walk(node):
            if isinstance(f, ast.FunctionDef) and not getattr(f, "done", False):
                for g in ast.walk(f):
                    g.done = True
                f.body = [y for x in f.body for y in (lambda r: r if isinstance(r, list) else [r])(self.visit(x))]
        return node


class Invert(ast.NodeTransformer):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        inner = [x for x in ast.walk(f) if x is not f]
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for x in inner):
            self.generic_visit(f)
            return f
        args = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        stored = {x.id for x in inner if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for x in inner:
            if isinstance(x, ast.Name) and x.id in stored:
                x.id += "_local"
            if isinstance(x, ast.ExceptHandler) and x.name in stored:
                x.name += "_local"
        return f


def helper(f, method):
    """f's body moves to a helper with the same parameters."""
    a = f.args
    h = ast.FunctionDef("_body_of_" + f.name, ast.arguments(a.posonlyargs, a.args, a.vararg, a.kwonlyargs, [None] * len(a.kwonlyargs), a.kwarg, []), f.body, [], None, lineno=0)
    if "staticmethod" in [getattr(d, "id", "") for d in f.decorator_list]:
        return None
    pos = [x.arg for x in a.posonlyargs + a.args]
    call = ast.Attribute(name(pos[0]), h.name, ast.Load()) if method else name(h.name)
    args = [name(x) for x in pos[method:]] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else [])
    kw = [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else [])
    f.body = [ast.Return(ast.Call(call, args, kw))]
    return h


class Helpers(ast.NodeTransformer):
    def split(self, body, method):
        out = []
        for f in body:
            if isinstance(f, ast.FunctionDef) and f.name not in SPECIAL and not any(getattr(d, "attr", "") in ("setter", "getter") for d in f.decorator_list) \
                    and not any(getattr(x, "id", "") == "__class__" for x in ast.walk(f)):
                if method and (not f.args.args or f.args.args[0].arg != "self"):
                    out.append(f)
                    continue
                h = helper(f, method)
                if h is not None:
                    out.append(h)
            out.append(f)
        return out

    def visit_Module(self, node):
        for c in ast.walk(node):
            if isinstance(c, ast.ClassDef):
                c.body = self.rename(c, self.split(c.body, 1))
        node.body = self.split(node.body, 0)
        return node

    def rename(self, c, body):
        for f in body:  # a subclass must not override the helper of its base class
            if isinstance(f, ast.FunctionDef):
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and x.attr.startswith("_body_of_"):
                        x.attr += "_" + c.name
                if f.name.startswith("_body_of_"):
                    f.name += "_" + c.name
        return body


for p in glob.glob(os.path.join(DIR, "hatchet", "**", "*.py"), recursive=True):
    if "/tests/" in p or p.endswith("/static_fixer.py"):
        continue
    src = open(p).read()
    t = ast.parse(src)
    for k in KINDS:
        t = {"temps": Temps, "invert": Invert, "rename": Rename, "helpers": Helpers}[k]().visit(t)
    out = ast.unparse(ast.fix_missing_locations(t))
    ast.parse(out)
    with open(p, "w") as f:
        f.write(out + "\n")
