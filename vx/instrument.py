"""Load the real code with its calls and text operations routed to the symbolic runtime.

The sources are read from the repository on every run. The transformation keeps the statements, the line numbers and the
names as they are, it only replaces operations that python implements in C (so would lose the symbolic value):

    f(x)       ->  _vx_fn(f)(x)      _vx_fn returns f itself unless it is a builtin with a symbolic version
    f'{x}'     ->  _vx_fstr(...)
    a % b      ->  _vx_mod(a, b)
    a in b     ->  _vx_in(a, b)
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys
import types

SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', '__import__'}


class Transform(ast.NodeTransformer):

    def _name(self, name, node):
        return ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node)

    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(func=self._name(name, node), args=args, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            return node
        node.func = self._call('_vx_fn', [node.func], node.func)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('_vx_mod', [node.left, node.right], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = self._call('_vx_in', [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=call), node)
            return call
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.copy_location(
                    ast.Constant(value=None), node)
                parts.append(ast.copy_location(ast.Tuple(elts=[
                    self.visit(v.value), ast.copy_location(ast.Constant(value=v.conversion), node), spec],
                    ctx=ast.Load()), node))
            else:
                parts.append(v)
        return self._call('_vx_fstr', parts, node)

    # annotations and decorators are left as they are
    def _visit_def(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d if d is None else self.visit(d) for d in node.args.kw_defaults]
        node.body = [self.visit(b) for b in node.body]
        return node

    visit_FunctionDef = _visit_def
    visit_AsyncFunctionDef = _visit_def

    def visit_ClassDef(self, node):
        node.body = [self.visit(b) for b in node.body]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def instrument(source, filename):
    tree = ast.parse(source, filename)
    tree = Transform().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            return instrument(f.read(), path)

    def exec_module(self, module):
        from . import runtime
        module.__dict__.update(runtime.NAMES)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    """Instrument the packages that are being checked."""

    def __init__(self, roots):
        self.roots = roots   # package name -> directory of the package

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split('.')[1:])
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, '__init__.py')):
            filename, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            filename, pkg = base + '.py', False
        else:
            return None
        spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, filename), origin=filename, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [base]
        return spec


# ------------------------------------------------------------------------------------------- state of the modules
class ModuleState:
    """The mutable state of the modules (and their classes, defaults, and shared objects), restored before each path."""

    def __init__(self, prefixes):
        self.prefixes = prefixes
        self.saved = []
        self.seen = set()
        for name, mod in sorted(sys.modules.items()):
            if mod is not None and self._ours(name):
                self.saved.append((mod.__dict__, dict(mod.__dict__), 'dict'))
                for v in list(mod.__dict__.values()):
                    self._walk(v)

    def _ours(self, name):
        return isinstance(name, str) and any(name == p or name.startswith(p + '.') for p in self.prefixes)

    def _walk(self, v):
        if id(v) in self.seen or issubclass(type(v), types.ModuleType):
            return
        t = type(v)
        if t is dict:
            self._add(v)
            self.saved.append((v, dict(v), 'dict'))
            for x in list(v.values()):
                self._walk(x)
        elif t is list or t is set or t.__name__ == 'deque':
            self._add(v)
            self.saved.append((v, t(v), 'list' if t is not set else 'set'))
            for x in list(v):
                self._walk(x)
        elif t is tuple:
            self._add(v)
            for x in v:
                self._walk(x)
        elif issubclass(type(v), type):
            if self._ours(getattr(v, '__module__', '')):
                self._add(v)
                self.saved.append((v, dict(v.__dict__), 'class'))
                for x in list(v.__dict__.values()):
                    self._walk(x)
        elif t is types.FunctionType:
            if self._ours(v.__module__):
                self._add(v)
                self._walk(v.__defaults__ or ())
                self._walk(v.__kwdefaults__ or {})
                if v.__dict__:
                    self._walk(v.__dict__)
                for c in v.__closure__ or ():
                    try:
                        self._walk(c.cell_contents)
                    except ValueError:
                        pass
        elif t is staticmethod or t is classmethod:
            self._add(v)
            self._walk(v.__func__)
        elif t is property:
            self._add(v)
            for x in (v.fget, v.fset):
                if x is not None:
                    self._walk(x)
        elif self._ours(t.__module__) and hasattr(v, '__dict__'):
            self._add(v)
            self.saved.append((v.__dict__, dict(v.__dict__), 'dict'))
            for x in list(v.__dict__.values()):
                self._walk(x)

    def _add(self, v):
        self.seen.add(id(v))

    def restore(self):
        for target, copy, kind in self.saved:
            if kind == 'dict':
                if target != copy or len(target) != len(copy) or any(target[k] is not copy[k] for k in copy):
                    target.clear()
                    target.update(copy)
            elif kind == 'list':
                target.clear()
                target.extend(copy)
            elif kind == 'set':
                target.clear()
                target.update(copy)
            else:
                now = target.__dict__
                for k in list(now.keys()):
                    if k not in copy:
                        try:
                            delattr(target, k)
                        except (AttributeError, TypeError):
                            pass
                for k, v in copy.items():
                    if now.get(k) is not v:
                        try:
                            setattr(target, k, v)
                        except (AttributeError, TypeError):
                            pass
