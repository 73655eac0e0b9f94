"""The import structure of the package, from its syntax trees."""
from __future__ import annotations

import ast
import builtins
import os
import sys
import tomllib

from .interp import PKG, Program

STDLIB = set(sys.stdlib_module_names)


class Site:
    """One import of one name."""

    def __init__(self, module, node, target, name, scope, typing_only, guarded, alias):
        self.module = module  # where
        self.line = node.lineno
        self.target = target  # absolute module name
        self.name = name  # the name taken from it, None for 'import x', '*' for all
        self.scope = scope  # qualified name of the function, '' at import time
        self.typing_only = typing_only
        self.guarded = guarded  # inside try ... except ImportError
        self.alias = alias  # the name bound here

    @property
    def internal(self):
        return self.target == PKG or self.target.startswith(PKG + ".")

    @property
    def top(self):
        return self.target.partition(".")[0]

    def __str__(self):
        what = f"from {self.target} import {self.name}" if self.name else f"import {self.target}"
        return f"{self.module}{':' + self.scope if self.scope else ''} (line {self.line}): {what}"


def is_typing_test(t):
    if isinstance(t, ast.Name):
        return t.id == "TYPE_CHECKING"
    if isinstance(t, ast.Attribute):
        return t.attr == "TYPE_CHECKING"
    return False


def name_test(t):
    """Conditions on __name__ which are settled for a module of the package:
    it is never the main program, and it has a dot in its name."""
    if isinstance(t, ast.BoolOp):
        vs = [name_test(v) for v in t.values]
        stop = isinstance(t.op, ast.Or)
        return stop if stop in vs else None if None in vs else not stop
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = name_test(t.operand)
        return None if v is None else not v
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        sides = (t.left, t.comparators[0])
        name = next((x for x in sides if isinstance(x, ast.Name) and x.id == "__name__"), None)
        const = next((x.value for x in sides if isinstance(x, ast.Constant)), None)
        if name is not None and const == "__main__":
            return isinstance(t.ops[0], ast.NotEq)
        if name is not None and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and any(isinstance(x, ast.Constant) and x.value is None for x in sides):
            return isinstance(t.ops[0], ast.IsNot)
        if name is not None and const == "." and isinstance(t.ops[0], (ast.In, ast.NotIn)):
            return isinstance(t.ops[0], ast.In)
    return None


def catches_import_error(node):
    for h in node.handlers:
        ts = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
        for t in ts:
            if t is None or getattr(t, "id", getattr(t, "attr", "")) in ("ImportError", "ModuleNotFoundError", "Exception", "BaseException"):
                # and does not raise again
                if not any(isinstance(x, ast.Raise) for b in h.body for x in ast.walk(b)):
                    return True
    return False


class Structure:
    def __init__(self, root=None):
        self.program = Program(root)
        self.modules = {}
        self.sites = []
        self.bound = {}  # module -> names bound at import time
        self.star = {}
        for m in self.program.modules():
            tree, is_pkg, path = self.program.load(m)
            self.modules[m] = (tree, is_pkg)
            self.bound[m] = set()
            self.star[m] = []
            self.visit(m, is_pkg, tree.body, "", False, False)
        pp = os.path.join(self.program.root, "pyproject.toml")
        self.core, self.extras, self.generated = set(), {}, set()
        if os.path.exists(pp):
            with open(pp, "rb") as fh:
                d = tomllib.load(fh)
            self.core = {dist(x) for x in d["project"].get("dependencies", [])} - {PKG}
            self.extras = {k: {dist(x) for x in v} - {PKG} for k, v in d["project"].get("optional-dependencies", {}).items()}
            vf = d.get("tool", {}).get("setuptools_scm", {}).get("version_file")
            if vf:
                self.generated.add(vf[:-3].replace("/", "."))

    def resolve(self, m, is_pkg, node):
        if not node.level:
            return node.module
        parts = m.split(".")
        if not is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[: len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def visit(self, m, is_pkg, body, scope, typing_only, guarded):
        for n in body:
            self.statement(m, is_pkg, n, scope, typing_only, guarded)

    def statement(self, m, is_pkg, n, scope, typing_only, guarded):
        here = self.bound[m] if not scope else set()
        if isinstance(n, ast.Import):
            for a in n.names:
                self.sites.append(Site(m, n, a.name, None, scope, typing_only, guarded, a.asname or a.name.partition(".")[0]))
                here.add(a.asname or a.name.partition(".")[0])
        elif isinstance(n, ast.ImportFrom):
            t = self.resolve(m, is_pkg, n)
            for a in n.names:
                self.sites.append(Site(m, n, t, a.name, scope, typing_only, guarded, a.asname or a.name))
                if a.name == "*":
                    if not scope:
                        self.star[m].append(t)
                else:
                    here.add(a.asname or a.name)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            here.add(n.name)
            q = f"{scope}.{n.name}" if scope else n.name
            self.visit(m, is_pkg, n.body, q, typing_only, guarded)
        elif isinstance(n, ast.ClassDef):
            here.add(n.name)
            # a class body runs at import time, its names are not the module's
            before = set(self.bound[m])
            self.visit(m, is_pkg, n.body, scope, typing_only, guarded)
            if not scope:
                self.bound[m] = before | {n.name}
        elif isinstance(n, ast.If):
            t = is_typing_test(n.test)
            c = name_test(n.test)
            if c is not False:
                self.visit(m, is_pkg, n.body, scope, typing_only or t, guarded)
            if c is not True:
                self.visit(m, is_pkg, n.orelse, scope, typing_only, guarded)
        elif isinstance(n, (ast.Try, ast.TryStar)):
            self.visit(m, is_pkg, n.body, scope, typing_only, guarded or catches_import_error(n))
            for h in n.handlers:
                self.visit(m, is_pkg, h.body, scope, typing_only, guarded)
            self.visit(m, is_pkg, n.orelse, scope, typing_only, guarded)
            self.visit(m, is_pkg, n.finalbody, scope, typing_only, guarded)
        elif isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            if hasattr(n, "target"):
                here |= names_of(n.target)
            self.visit(m, is_pkg, n.body, scope, typing_only, guarded)
            self.visit(m, is_pkg, n.orelse, scope, typing_only, guarded)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    here |= names_of(i.optional_vars)
            self.visit(m, is_pkg, n.body, scope, typing_only, guarded)
        elif isinstance(n, ast.Match):
            for c in n.cases:
                self.visit(m, is_pkg, c.body, scope, typing_only, guarded)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                here |= names_of(t)
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
            here |= names_of(n.target)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                self.bound[m] -= names_of(t) if not scope else set()
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr) and not scope:
                here.add(x.target.id)
            if isinstance(x, ast.Global):
                self.bound[m] |= set(x.names)

    def exists(self, m):
        return m in self.modules or m in self.generated or self.program.exists(m)

    def has(self, m, name, seen=()):
        """Is the name there after 'import m'?  None when it cannot be told."""
        if m in self.generated or m not in self.modules:
            return True if m in self.generated else None
        if name in self.bound[m] or name in ("__name__", "__file__", "__doc__", "__package__", "__path__", "__dict__", "__spec__", "__loader__"):
            return True
        if "__getattr__" in self.bound[m]:
            return None
        if self.exists(f"{m}.{name}"):
            return True
        for t in self.star[m]:
            if t not in seen:
                if not (t == PKG or t.startswith(PKG + ".")):
                    return None
                r = self.has(t, name, (*seen, m))
                if r is not False:
                    return r
        return False

    def edges(self, s):
        """The modules which a site runs, without the packages above them."""
        if not s.internal:
            return []
        out = [s.target]
        if s.name and s.name != "*" and s.target in self.modules and s.name not in self.bound[s.target] and self.exists(f"{s.target}.{s.name}"):
            out = [f"{s.target}.{s.name}"]
            # the package it is taken from runs as well, but that is so for any relative import
        return out

    def closure(self, m, parents=False):
        """Everything which importing m runs at import time: {module: site path}."""
        out = {m: ()}
        todo = [m]
        while todo:
            x = todo.pop()
            more = []
            if parents and "." in x:
                more.append((x.rpartition(".")[0], None))
            for s in self.sites:
                if s.module == x and not s.scope and not s.typing_only:
                    more += [(t, s) for t in self.edges(s)]
            for t, s in more:
                if t not in out:
                    out[t] = (*out[x], s) if s is not None else out[x]
                    todo.append(t)
        return out


def names_of(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def dist(req):
    out = ""
    for c in req:
        if not (c.isalnum() or c in "-_."):
            break
        out += c
    return out.lower().replace("-", "_")


def attribute_uses(st, m):
    """[(alias target module, attribute, line)]: attributes of package modules
    used through a name which only ever stands for that module."""
    tree, is_pkg = st.modules[m]
    modules = {}  # alias -> set of modules
    other = set()
    for s in st.sites:
        if s.module != m:
            continue
        t = None
        if s.internal:
            if s.name is None and s.alias != PKG:
                t = s.target
            elif s.name and s.name != "*" and s.target in st.modules and s.name not in st.bound[s.target] and st.exists(f"{s.target}.{s.name}"):
                t = f"{s.target}.{s.name}"
        if t:
            modules.setdefault(s.alias, set()).add(t)
        else:
            other.add(s.alias)
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            other.add(n.id)
        elif isinstance(n, ast.arg):
            other.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            other.add(n.name)
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in modules and n.value.id not in other and len(modules[n.value.id]) == 1 and isinstance(n.ctx, ast.Load):
            out.append((next(iter(modules[n.value.id])), n.attr, n.lineno))
    return out


BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__class__", "__module__", "__qualname__", "__annotations__"}
