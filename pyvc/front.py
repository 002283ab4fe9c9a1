"""Source of the running code: function objects -> AST, straight from disk."""
import ast
import os
import sys
import sysconfig
import types

_files = {}


def _path(code):
    fn = code.co_filename
    if fn.startswith("<frozen "):
        fn = os.path.join(sysconfig.get_paths()["stdlib"], fn[8:-1].replace(".", "/") + ".py")
    return fn


class Mangle(ast.NodeTransformer):
    """private names of a class, as the compiler names them"""

    cls = None

    def name(self, n):
        if self.cls is None or n is None or not n.startswith("__") or n.endswith("__") or "." in n:
            return n
        c = self.cls.lstrip("_")
        return f"_{c}{n}" if c else n

    def visit_ClassDef(self, node):
        outer, self.cls = self.cls, node.name
        node.body = [self.visit(x) for x in node.body]
        self.cls = outer
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self.name(node.attr)
        return node

    def visit_Name(self, node):
        node.id = self.name(node.id)
        return node

    def visit_arg(self, node):
        self.generic_visit(node)
        node.arg = self.name(node.arg)
        return node


def _load(fn):
    if fn not in _files:
        with open(fn) as f:
            src = f.read()
        tree = Mangle().visit(ast.parse(src))
        table = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                first = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    first = node.decorator_list[0].lineno
                table[(getattr(node, "name", "<lambda>"), first)] = node
        _files[fn] = (src, table)
    return _files[fn]


def function_ast(fn):
    code = fn.__code__
    path = _path(code)
    try:
        src, table = _load(path)
    except (OSError, SyntaxError):
        return None
    return table.get((code.co_name, code.co_firstlineno))


_assigned = {}


def assigned_attributes(cls):
    """the names the methods of a class (and of its bases) assign as attributes"""
    if cls not in _assigned:
        names = set()
        for k in cls.__mro__:
            for f in list(vars(k).values()):
                for g in (f.fget, f.fset, f.fdel) if isinstance(f, property) else (getattr(f, "__func__", f),):
                    node = function_ast(g) if isinstance(g, types.FunctionType) else None
                    for x in ast.walk(node) if node is not None else ():
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            names.add(x.attr)
                        elif isinstance(x, ast.Call) and getattr(x.func, "id", None) == "setattr":
                            if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                                names.add(x.args[1].value)
                            else:
                                names.add(None)
        _assigned[cls] = names
    return _assigned[cls]


def file_of(fn):
    return _path(fn.__code__)


def source_files():
    return dict((k, v[0]) for k, v in _files.items())


def closure_var(fn, name):
    if fn.__closure__ is None or name not in fn.__code__.co_freevars:
        raise KeyError(name)
    return fn.__closure__[fn.__code__.co_freevars.index(name)].cell_contents
