"""Abstract interpreter for the Python of the analysed package.

Nothing of the analysed package is imported or executed: its syntax trees are
evaluated over the abstract values of `values` and `terms`.  A guard which the
abstract state does not decide partitions the trace (`decide`); `explore`
enumerates the partitions.
"""
from __future__ import annotations

import ast
import builtins
import decimal
import math
import operator
import os
import random
import sys
import threading
from fractions import Fraction

from . import terms
from .terms import T
from .values import (
    ADict,
    ASet,
    AbsRaise,
    Atom,
    Bound,
    DELETED,
    Desc,
    ExcVal,
    ExtClass,
    ExtModule,
    ExtObj,
    Func,
    Iter,
    Native,
    Obj,
    SStr,
    SliceV,
    Super,
    Top,
    Undecided,
    View,
    is_str,
    mkstr,
    parts_of,
    show,
)

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "pyudunits2"

sys.setrecursionlimit(200000)


class Program:
    """The syntax trees of the package."""

    def __init__(self, root=None):
        self.root = root or REPO
        self.cache = {}
        self.sources = {}
        self.override = {}

    def path(self, name):
        base = os.path.join(self.root, *name.split("."))
        p = os.path.join(base, "__init__.py")
        if os.path.isfile(p):
            return p, True
        p = base + ".py"
        if os.path.isfile(p):
            return p, False
        if os.path.isdir(base):
            return None, True
        return None, None

    def exists(self, name):
        return self.path(name)[1] is not None

    def load(self, name):
        if name not in self.cache:
            p, is_pkg = self.path(name)
            if is_pkg is None:
                self.cache[name] = None
            elif p is None:
                self.cache[name] = (ast.Module(body=[], type_ignores=[]), True, None)
            else:
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.sources[name] = p
                self.cache[name] = (ast.parse(src, p), is_pkg, p)
        return self.cache[name]

    def modules(self):
        """All non-test modules of the package."""
        out = []
        top = os.path.join(self.root, PKG)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    out.append(rel)
        return out


class Module:
    def __init__(self, name, tree, is_pkg, path):
        self.name = name
        self.tree = tree
        self.is_pkg = is_pkg
        self.path = path
        self.globals = {}
        self.executed = False

    def __repr__(self):
        return f"<module {self.name}>"


class Thunk:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


KEYS = {}  # canonical form of a value -> number


class ClassInfo:
    def __init__(self, name, module, bases, qual):
        self.name = name
        self.module = module
        self.bases = bases
        self.qual = qual
        self.attrs = {}
        self.annotations = {}
        self.dc = None
        self.dc_fields = None
        self.mro = None
        self.meta = {}
        self.lineno = 0

    def __repr__(self):
        return f"<class {self.qual}>"


class Frame:
    __slots__ = ("vars", "parent", "func", "module", "globals_", "nonlocals", "locals_", "gen", "exc", "cls")

    def __init__(self, module, parent=None, func=None):
        self.vars = {}
        self.parent = parent
        self.func = func
        self.module = module
        self.globals_ = ()
        self.nonlocals = ()
        self.locals_ = None
        self.gen = parent.gen if (parent is not None and func is None) else None
        self.exc = None
        self.cls = None


class _Return(Exception):
    pass


BREAK, CONTINUE = ("break",), ("continue",)

_NATIVE_NUM = (int, float, decimal.Decimal, Fraction)


class GenExit(BaseException):
    pass


class Gen:
    """A suspended generator of the analysed program, run in its own thread."""

    def __init__(self, interp, run):
        self.interp = interp
        self.run = run
        self.thread = None
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.value = None
        self.error = None
        self.done = False
        self.closed = False
        self.throw_exc = None
        self.sent = None
        self.result = None

    def __iter__(self):
        return self

    def _main(self):
        self.go.acquire()
        try:
            if not self.closed:
                self.result = self.run(self)
        except GenExit:
            pass
        except BaseException as e:  # handed to the consumer
            self.error = e
        self.done = True
        self.back.release()

    def __next__(self):
        if self.done:
            raise StopIteration
        if self.thread is None:
            self.interp.gens.append(self)
            self.thread = threading.Thread(target=self._main, daemon=True)
            self.thread.start()
        self.value = None
        self.go.release()
        self.back.acquire()
        if self.error is not None:
            e, self.error = self.error, None
            raise e
        if self.done:
            raise StopIteration
        return self.value

    def yield_(self, v):
        self.value = v
        self.back.release()
        self.go.acquire()
        if self.closed:
            raise GenExit
        if self.throw_exc is not None:
            e, self.throw_exc = self.throw_exc, None
            raise AbsRaise(e)
        v, self.sent = self.sent, None
        return v

    def throw(self, exc):
        if self.done:
            raise AbsRaise(exc)
        self.throw_exc = exc
        return self.__next__()

    def send(self, v):
        if v is not None and self.thread is None:
            self.interp.raise_(TypeError, "can't send non-None value to a just-started generator")
        self.sent = v
        return self.__next__()

    def close(self):
        if self.thread is not None and not self.done:
            self.closed = True
            self.go.release()
            self.back.acquire()


#: node class -> method
HOW = {}


def how(cls, prefix):
    f = getattr(Interp, prefix + cls.__name__, None)
    if f is None:
        raise Undecided(f"{cls.__name__} is not covered")
    HOW[cls] = f
    return f


class Interp:
    MAX_STEPS = 1_500_000
    MAX_DEPTH = 330

    def __init__(self, program, decisions=(), reverse_sets=False):
        self.program = program
        self.modules = {}
        self.decisions = list(decisions)
        self.taken = []  # the decisions made in this run
        self.generic = False  # opaque numbers are in general position
        self.assumptions = []  # numeric guards
        #: consider number literals beyond what int() and Decimal() take
        self.extremes = False
        # leaves known to be whole numbers
        self.whole = set()
        #: leaf -> (lowest, highest) value
        self.domain = {}
        #: leaf -> interval which guards narrow down
        self.interval = {}
        self.taken_apart = set()
        self.str_assumptions = {}
        self.literals = {}  # the representatives left of opaque number literals
        self.output = []
        self.stderr = []
        self.hooks = {}  # id of function node -> replacement
        self.steps = 0
        self.depth = 0
        self.gens = []
        self.reverse_sets = reverse_sets
        self.set_iterated = False
        self.set_sites = set()
        self.fstack = []
        self.notes = []
        self.writes = None
        self.extern = {}  # overrides for external modules: name -> {attr: value}
        self.missing_modules = set()  # external modules which fail to import
        self.imported_external = []
        self.hash_seen = 0
        self.call_trace = []
        self.raise_site = None
        self.eager_imports = False
        self.try_depth = 0
        from . import libs

        self.libs = libs
        self.libs.setup(self)

    # -- partitions ---------------------------------------------------------

    def choose(self, label):
        i = len(self.taken)
        if i < len(self.decisions):
            v = self.decisions[i]
        else:
            v = True
        self.taken.append(v)
        return v

    def choose_of(self, n):
        """One of n alternatives."""
        for i in range(n - 1):
            if self.choose(i):
                return i
        return n - 1

    def decide(self, op, a, b):
        """Decide a numeric guard, partitioning if it is open."""
        a, b = terms.lift(a), terms.lift(b)
        if op == "==" and a.op == b.op == "hash":
            return a == b  # (no collisions)
        if op == "==" and {a.op, b.op} == {"hash", "const"}:
            return False  # (never -1, and no coincidences)
        d = terms.sub(a, b)
        if d.op == "const":
            c = d.args[0]
            return {"==": c == 0, "<": c < 0, "<=": c <= 0}[op]
        lo, hi = terms.length_bounds(d)
        if lo is not None:
            if lo > 0 or op == "<" and lo >= 0:
                return False
        if hi is not None:
            if op == "==" and hi < 0:
                return False
            if op == "<" and hi < 0 or op == "<=" and hi <= 0:
                return True
        for x, y, above in ((a, b, False), (b, a, True)):
            if x in self.interval and y.op == "const":
                return self.decide_interval(op, x, y.args[0], above)
        for x, y, lower in ((a, b, False), (b, a, True)):
            if x in self.domain and y.op == "const":
                lo, hi = self.domain[x]
                c = y.args[0]
                if op == "==":
                    if not lo <= c <= hi:
                        return False
                elif (hi < c or op == "<=" and hi == c) if not lower else (hi < c or op == "<" and hi == c):
                    # x below c: "x < c", or "c < x"
                    return not lower
                elif (lo > c or op == "<" and lo == c) if not lower else (lo > c or op == "<=" and lo == c):
                    return lower
        for o, x, y, v in self.assumptions:
            if o == op and x == a and y == b:
                return v
        feas = []
        for v in (True, False):
            if terms.sample_envs(self.assumptions + [(op, a, b, v)], (), n=1, tries=80):
                feas.append(v)
        if not feas:
            raise Undecided(f"no sample satisfies the guards at {op} {show(a)} {show(b)}")
        if len(feas) == 1:
            v = feas[0]
        elif op == "==" and self.generic:
            v = False
        else:
            v = self.choose((op, a, b))
        self.assumptions.append((op, a, b, v))
        return v

    def decide_interval(self, op, x, c, above):
        """x == c, x < c (c < x if above), x <= c (c <= x): a leaf of which an interval is known against a number."""
        lo, hi = self.interval[x]
        if op == "==":
            if not lo <= c <= hi or lo == hi:
                return lo == c
            if ("!=", x, c) in self.taken_apart:
                return False
            v = self.choose((op, x, c))
            if v:
                self.interval[x] = (c, c)
            else:
                self.taken_apart.add(("!=", x, c))
                self.interval[x] = (lo + (c == lo), hi - (c == hi))
            return v
        # the last value below the cut
        cut = math.floor(c) if (op == "<=") != above else math.ceil(c) - 1
        if hi <= cut or lo > cut:
            return (hi <= cut) != above
        v = self.choose((op, x, c))
        self.interval[x] = (lo, cut) if v != above else (cut + 1, hi)
        return v

    def decide_text(self, what, s, arg):
        k = (what, s, arg)
        if k not in self.str_assumptions:
            self.str_assumptions[k] = self.choose(k)
        return self.str_assumptions[k]

    # -- exceptions ---------------------------------------------------------

    def raise_(self, cls, *args):
        raise AbsRaise(ExcVal(cls, args))

    # -- modules ------------------------------------------------------------

    def import_module(self, name):
        """A module of the analysed package or of an external library."""
        if name == PKG or name.startswith(PKG + "."):
            if name in self.modules:
                return self.modules[name]
            entry = self.program.load(name)
            if entry is None:
                self.raise_(ModuleNotFoundError, f"No module named '{name}'")
            if "." in name:
                self.import_module(name.rpartition(".")[0])
            tree, is_pkg, path = entry
            m = Module(name, tree, is_pkg, path)
            self.modules[name] = m
            m.globals["__name__"] = name
            m.globals["__file__"] = self.libs.path_value(path or "")
            m.globals["__doc__"] = None
            m.globals["__package__"] = name if is_pkg else name.rpartition(".")[0]
            fr = Frame(m)
            fr.vars = m.globals
            m.executed = True
            self.exec_block(tree.body, fr)
            if "." in name:
                p, _, c = name.rpartition(".")
                self.modules[p].globals.setdefault(c, m)
            return m
        if name in self.missing_modules or name.partition(".")[0] in self.missing_modules:
            self.raise_(ImportError, f"No module named '{name}'")
        self.imported_external.append(name)
        return self.libs.external_module(self, name)

    def resolve_relative(self, module, level, name):
        if level == 0:
            return name or ""
        base = module.name if module.is_pkg else module.name.rpartition(".")[0]
        for _ in range(level - 1):
            base = base.rpartition(".")[0]
        return f"{base}.{name}" if name else base

    def module_attr(self, m, name):
        """Attribute of a module value, or a sub-module."""
        if isinstance(m, Module):
            if name in m.globals:
                v = m.globals[name]
                if isinstance(v, Thunk):
                    v = v.fn()
                    m.globals[name] = v
                return v
            sub = f"{m.name}.{name}"
            if self.program.exists(sub) and m.is_pkg:
                return self.import_module(sub)
            if name == "__dict__":
                d = ADict()
                for k in list(m.globals):
                    self.dict_set(d, k, self.module_attr(m, k))
                return d
            self.libs.no_attribute(self, m, name, f"module '{m.name}' has no attribute '{name}'")
        return self.libs.external_attr(self, m, name)

    def from_import(self, modname, name):
        m = self.import_module(modname)
        try:
            return self.module_attr(m, name)
        except AbsRaise as e:
            if isinstance(e.exc, ExcVal) and e.exc.cls is AttributeError:
                self.raise_(ImportError, f"cannot import name '{name}' from '{modname}'")
            raise

    # -- names --------------------------------------------------------------

    def lookup(self, frame, name):
        f = frame
        if f.locals_ is not None and name in f.locals_:
            if name in f.vars:
                return f.vars[name]
            self.raise_(UnboundLocalError, f"cannot access local variable '{name}'")
        while f is not None:
            if name in f.vars and not (name in f.globals_):
                v = f.vars[name]
                if isinstance(v, Thunk):
                    v = v.fn()
                    f.vars[name] = v
                return v
            f = f.parent
            while f is not None and f.cls is not None:
                f = f.parent  # class scopes are not visible from functions
        g = frame.module.globals
        if name in g:
            v = g[name]
            if isinstance(v, Thunk):
                v = v.fn()
                g[name] = v
            return v
        b = self.builtins
        if name in b:
            return b[name]
        if hasattr(builtins, name):
            raise Undecided(f"the built-in {name}")
        self.raise_(NameError, f"name '{name}' is not defined")

    def store(self, frame, name, value):
        if name in frame.globals_:
            frame.module.globals[name] = value
            return
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None:
                if name in f.vars:
                    f.vars[name] = value
                    return
                f = f.parent
        frame.vars[name] = value

    # -- statements ---------------------------------------------------------

    def exec_block(self, body, fr):
        for st in body:
            r = self.exec_stmt(st, fr)
            if r is not None:
                return r
        return None

    def exec_stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Undecided("step budget")
        try:
            c = st.__class__
            return (HOW.get(c) or how(c, "s_"))(self, st, fr)
        except AbsRaise as e:
            if self.raise_site is None or self.raise_site[0] is not e.exc:
                f = fr
                while f.func is None and f.parent is not None:
                    f = f.parent
                where = f.func.qual if f.func is not None else fr.module.name
                self.raise_site = (e.exc, f"{where} (line {st.lineno})")
            raise

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        return None

    def s_Assign(self, st, fr):
        if fr.cls is not None and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            if isinstance(st.value, (ast.Call, ast.ListComp)) and fr.module.name.startswith(PKG + "._grammar."):
                # (the tables of the generated parser are not needed eagerly)
                node = st.value
                fr.vars[st.targets[0].id] = Thunk(lambda: self.eval(node, fr))
                return None
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if fr.cls is not None and isinstance(st.target, ast.Name):
            fr.cls.annotations[st.target.id] = ast.unparse(st.annotation)
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(fr, t.id)
            self.store(fr, t.id, self.inplace(st.op, old, self.eval(st.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(st.op, old, self.eval(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(st.op, old, self.eval(st.value, fr)))
        else:
            raise Undecided("augmented assignment")

    def s_Return(self, st, fr):
        return ("return", self.eval(st.value, fr) if st.value is not None else None)

    def s_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            return self.exec_block(st.body, fr)
        return self.exec_block(st.orelse, fr)

    def s_For(self, st, fr):
        for v in self.iterate(self.eval(st.iter, fr)):
            self.assign(st.target, v, fr)
            r = self.exec_block(st.body, fr)
            if r is None or r is CONTINUE:
                continue
            if r is BREAK:
                return None
            return r
        return self.exec_block(st.orelse, fr)

    def s_While(self, st, fr):
        n = 0
        while self.truth(self.eval(st.test, fr)):
            n += 1
            if n > 5000:
                raise Undecided("loop bound")
            r = self.exec_block(st.body, fr)
            if r is None or r is CONTINUE:
                continue
            if r is BREAK:
                return None
            return r
        return self.exec_block(st.orelse, fr)

    def s_Break(self, st, fr):
        return BREAK

    def s_Continue(self, st, fr):
        return CONTINUE

    def s_Raise(self, st, fr):
        if st.exc is None:
            f = fr
            while f is not None and f.exc is None:
                f = f.parent
            if f is None:
                self.raise_(RuntimeError, "No active exception to reraise")
            raise AbsRaise(f.exc)
        v = self.eval(st.exc, fr)
        if isinstance(v, (type, ClassInfo)):
            v = self.call(v, [], {})
        if st.cause is not None:
            c = self.eval(st.cause, fr)
            if isinstance(v, (Obj, ExcVal)):
                v.fields["__cause__"] = c
        if isinstance(v, Top):
            raise Undecided("raise of unknown value")
        raise AbsRaise(v)

    def s_Try(self, st, fr):
        r = None
        try:
            self.try_depth += 1
            try:
                try:
                    r = self.exec_block(st.body, fr)
                finally:
                    self.try_depth -= 1
            except AbsRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type, fr)):
                        old = fr.exc
                        fr.exc = e.exc
                        if h.name:
                            self.store(fr, h.name, e.exc)
                        try:
                            r = self.exec_block(h.body, fr)
                        finally:
                            fr.exc = old
                            if h.name:
                                fr.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if r is None:
                    r = self.exec_block(st.orelse, fr)
        except (AbsRaise, GenExit):
            if st.finalbody:
                f = self.exec_block(st.finalbody, fr)
                if f is not None:
                    return f
            raise
        if st.finalbody:
            f = self.exec_block(st.finalbody, fr)
            if f is not None:
                return f
        return r

    def s_With(self, st, fr):
        return self._with(st.items, st.body, fr)

    def _with(self, items, body, fr):
        if not items:
            return self.exec_block(body, fr)
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        if isinstance(cm, Gen) or (isinstance(cm, ExtObj) and "gen" in cm.attrs):
            g = cm if isinstance(cm, Gen) else cm.attrs["gen"]
            try:
                v = next(g)
            except StopIteration:
                self.raise_(RuntimeError, "generator didn't yield")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                r = self._with(items[1:], body, fr)
            except AbsRaise as e:
                try:
                    g.throw(e.exc)
                except StopIteration:
                    return None
                self.raise_(RuntimeError, "generator didn't stop after throw()")
            try:
                next(g)
            except StopIteration:
                pass
            return r
        if isinstance(cm, (ExtObj, Top, ExtModule)) and not (isinstance(cm, ExtObj) and "__enter__" in cm.attrs):
            v = cm
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            return self._with(items[1:], body, fr)
        v = self.call(self.getattr(cm, "__enter__"), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            r = self._with(items[1:], body, fr)
        except AbsRaise as e:
            s = self.call(self.getattr(cm, "__exit__"), [self.type_of(e.exc), e.exc, None], {})
            if self.truth(s):
                return None
            raise
        self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
        return r

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            args = [self.eval(st.msg, fr)] if st.msg is not None else []
            raise AbsRaise(ExcVal(AssertionError, args))

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.vars:
                    self.raise_(NameError, t.id)
                del fr.vars[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, fr), t.attr)

    def repr_args(self, args):
        for n, x in enumerate(args):
            if n:
                yield ", "
            yield self.repr(x)
        yield ")"

    def delattr(self, o, name):
        if isinstance(o, Obj):
            ca = self.class_attr(o.cls, name)
            if ca is not None and isinstance(ca[0], Desc) and ca[0].kind == "property":
                f = ca[0].fdel
                if f is None:
                    self.raise_(AttributeError, f"property '{name}' has no deleter")
                self.call(f, [o], {})
                return
            if ca is not None and isinstance(ca[0], Obj):
                raise Undecided("descriptor")
            da = self.class_attr(o.cls, "__delattr__")
            if da is not None and isinstance(da[1], ClassInfo):
                self.call(self.bind_attr(da[0], o, o.cls), [name], {})
                return
            if name not in o.fields:
                self.raise_(AttributeError, name)
            if self.writes is not None:
                self.writes.append((o, name))
            del o.fields[name]
            return
        store = o.globals if isinstance(o, Module) else o.attrs if isinstance(o, (ClassInfo, Func)) else None
        if store is None:
            raise Undecided("deleted attribute")
        if name not in store:
            self.raise_(AttributeError, name)
        del store[name]

    def s_Global(self, st, fr):
        fr.globals_ = tuple(fr.globals_) + tuple(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(st.names)

    def s_Import(self, st, fr):
        for a in st.names:
            name = a.name
            if a.asname:
                self._bind_import(fr, a.asname, lambda name=name: self._deep(name))
            else:
                top = name.partition(".")[0]
                full = name
                self._bind_import(
                    fr, top, lambda full=full, top=top: (self.import_module(full), self.import_module(top))[1]
                )

    def _deep(self, name):
        return self.import_module(name)

    def s_ImportFrom(self, st, fr):
        if st.module == "__future__":
            return
        modname = self.resolve_relative(fr.module, st.level, st.module)
        for a in st.names:
            if a.name == "*":
                m = self.import_module(modname)
                if isinstance(m, Module):
                    names = list(m.globals)
                    if "__all__" in m.globals:
                        names = self.iterate(self.module_attr(m, "__all__"))
                    for n in names:
                        if not n.startswith("_"):
                            self.store(fr, n, self.module_attr(m, n))
                continue
            self._bind_import(
                fr, a.asname or a.name, lambda modname=modname, n=a.name: self.from_import(modname, n)
            )

    def _bind_import(self, fr, name, thunk):
        if fr.func is None and fr.cls is None and fr.vars is fr.module.globals and not self._in_try(fr):
            fr.vars[name] = Thunk(thunk)  # module-level imports are resolved on use
        else:
            self.store(fr, name, thunk())

    def _in_try(self, fr):
        return self.eager_imports or self.try_depth > 0

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr, st.name)
        v = f
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        if isinstance(v, Desc) and v.name is None:
            v.name = st.name
        self.store(fr, st.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, fr, name):
        f = Func(node, fr.module, fr, fr.cls, name)
        a = node.args
        f.defaults = [self.eval(d, fr) for d in a.defaults]
        f.kwdefaults = [None if d is None else self.eval(d, fr) for d in a.kw_defaults]
        self._scan(f)
        return f

    _scan_cache: dict = {}

    def _scan(self, f):
        c = self._scan_cache.get(id(f.node))
        if c is None or c[0] is not f.node:
            names, gen = set(), False
            if not isinstance(f.node, ast.Lambda):
                decl = set()
                stack = list(f.node.body)
                while stack:
                    n = stack.pop()
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        names.add(n.name)
                        stack.extend(n.decorator_list)
                        continue
                    if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        # walrus targets bind in the enclosing scope
                        for w in ast.walk(n):
                            if isinstance(w, ast.NamedExpr):
                                names.add(w.target.id)
                        continue
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        gen = True
                    if isinstance(n, (ast.Global, ast.Nonlocal)):
                        decl.update(n.names)
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        names.add(n.id)
                    if isinstance(n, ast.ExceptHandler) and n.name:
                        names.add(n.name)
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        for al in n.names:
                            names.add((al.asname or al.name).partition(".")[0])
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        names.add(n.name)
                    stack.extend(ast.iter_child_nodes(n))
                names -= decl
            c = (f.node, frozenset(names), gen)
            self._scan_cache[id(f.node)] = c
        f.locals_ = c[1]
        f.isgen = c[2]

    def s_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.eval(b, fr)
            if isinstance(v, ExtObj) and v.cls.name == "typing.Generic":
                v = v.cls
            bases.append(v)
        bases = self.libs.enum_bases(bases)
        c = ClassInfo(st.name, fr.module, bases, f"{fr.module.name}:{st.name}")
        c.lineno = st.lineno
        c.mro = self.linearise(c)
        cf = Frame(fr.module, fr)
        cf.cls = c
        cf.vars = c.attrs
        cf.gen = None
        self.exec_block(st.body, cf)
        for b in c.mro[1:]:
            if isinstance(b, ClassInfo) and "__init_subclass__" in b.attrs:
                g = b.attrs["__init_subclass__"]
                g = g.fget if isinstance(g, Desc) else g
                self.call(g, [c], {k.arg: self.eval(k.value, fr) for k in st.keywords if k.arg != "metaclass"})
                break
        for k in st.keywords:
            if k.arg == "metaclass":
                m = self.eval(k.value, fr)
                if isinstance(m, (ClassInfo, Func)):
                    raise Undecided("metaclass")
        for k, v in list(c.attrs.items()):
            if isinstance(v, Desc) and v.name is None:
                v.name = k
            elif isinstance(v, Obj):
                sn = self.type_method(v, "__set_name__")
                if sn is not None:
                    self.call(sn, [c, k], {})
        v = c
        if any(getattr(b, "name", "") == "typing.NamedTuple" for b in bases):
            self.libs.make_namedtuple(self, c)
        if self.libs.is_enum_class(c):
            self.libs.make_enum(self, c)
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        self.store(fr, st.name, v)

    def linearise(self, c):
        def lin(x):
            if isinstance(x, ClassInfo):
                return list(x.mro)
            if isinstance(x, type):
                return [k for k in x.__mro__ if k is not object]
            return [x]

        seqs = [lin(b) for b in c.bases] + [list(c.bases)]
        out = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Undecided("inconsistent MRO")
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    del s[0]
        return out

    def s_Match(self, st, fr):
        v = self.eval(st.subject, fr)
        for case in st.cases:
            if self.match(case.pattern, v, fr) and (case.guard is None or self.truth(self.eval(case.guard, fr))):
                return self.exec_block(case.body, fr)
        return None

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.store(fr, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match(q, x, fr) for q, x in zip(p.patterns, v))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(v) < i + after:
                return False
            mid = list(v[i : len(v) - after])
            if not all(self.match(q, x, fr) for q, x in zip(p.patterns[:i], v)):
                return False
            if p.patterns[i].name:
                self.store(fr, p.patterns[i].name, mid)
            return all(self.match(q, x, fr) for q, x in zip(p.patterns[i + 1 :], v[len(v) - after :]))
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, fr)
            if not self.isinstance(v, cls):
                return False
            names = []
            if p.patterns:
                if cls in (int, str, float, list, dict, tuple, bool, bytes):
                    return len(p.patterns) == 1 and self.match(p.patterns[0], v, fr)
                ma = self.class_attr(cls, "__match_args__")
                names = list(ma[0]) if ma else []
            for q, n in zip(p.patterns, names):
                if not self.match(q, self.getattr(v, n), fr):
                    return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.hasattr(v, n) or not self.match(q, self.getattr(v, n), fr):
                    return False
            return True
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, ADict):
                return False
            taken = []
            for k, q in zip(p.keys, p.patterns):
                kk = self.eval(k, fr)
                i = self.dict_find(v, kk)
                if i is None or not self.match(q, v.vals[i], fr):
                    return False
                taken.append(i)
            if p.rest is not None:
                d = ADict()
                for i, (k, x) in enumerate(zip(v.keys, v.vals)):
                    if k is not DELETED and i not in taken:
                        self.dict_set(d, k, x)
                self.store(fr, p.rest, d)
            return True
        raise Undecided("match pattern")

    # -- assignment ---------------------------------------------------------

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Top):
                for e in t.elts:
                    self.assign(e, v, fr)
                return
            vals = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < i + after:
                    self.raise_(ValueError, "not enough values to unpack")
                vals = vals[:i] + [vals[i : len(vals) - after]] + vals[len(vals) - after :]
            if len(vals) != len(t.elts):
                w = "too many" if len(vals) > len(t.elts) else "not enough"
                self.raise_(ValueError, f"{w} values to unpack (expected {len(t.elts)})")
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.iterate(v)), fr)
        else:
            raise Undecided("assignment target")

    # -- expressions --------------------------------------------------------

    def eval(self, e, fr):
        self.steps += 1
        c = e.__class__
        return (HOW.get(c) or how(c, "e_"))(self, e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return tuple(self._elts(e.elts, fr))

    def e_List(self, e, fr):
        return list(self._elts(e.elts, fr))

    def e_Set(self, e, fr):
        s = ASet()
        for v in self._elts(e.elts, fr):
            self.set_add(s, v)
        return s

    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = ADict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.dict_items(self.eval(v, fr)):
                    self.dict_set(d, kk, vv)
            else:
                self.dict_set(d, self.eval(k, fr), self.eval(v, fr))
        return d

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Top):
            return v
        if isinstance(v, T):
            return terms.neg(v) if isinstance(e.op, ast.USub) else v
        if isinstance(v, _NATIVE_NUM):
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)](v)
        if isinstance(v, Obj):
            m = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)]
            f = self.type_method(v, m)
            if f is not None:
                return self.call(f, [], {})
        self.raise_(TypeError, "bad operand type for unary operator")

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, fr)
            if x is e.values[-1]:
                return v
            if self.truth(v) != is_and:
                return v
        return v

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, fr)
            r = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return r
            if not self.truth(r):
                return r
            left = right

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            if f is not None:
                a = f.func.node.args
                first = (a.posonlyargs + a.args)[0].arg
                return Super(f.func.cls, f.vars[first])
        fn = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.dict_items(self.eval(k.value, fr)):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(fn, args, kw, fr)

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                out.append(self.e_FormattedValue(v, fr))
        return mkstr(*out)

    def e_FormattedValue(self, e, fr):
        v = self.eval(e.value, fr)
        if e.conversion == 114:
            v = self.repr(v)
        elif e.conversion == 115:
            v = self.str(v)
        elif e.conversion == 97:
            v = self.repr(v)
        spec = self.eval(e.format_spec, fr) if e.format_spec is not None else ""
        return self.format(v, spec)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.func is None and f.parent is not None and f.cls is None and f.vars is not f.module.globals:
            f = f.parent  # comprehension scopes
        self.store(f, e.target.id, v)
        return v

    def e_Starred(self, e, fr):
        raise Undecided("starred expression")

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        return SliceV(*(None if x is None else self.eval(x, fr) for x in (e.lower, e.upper, e.step)))

    def _comp(self, gens, fr, emit):
        def go(i, f):
            if i == len(gens):
                emit(f)
                return
            g = gens[i]
            it = self.eval(g.iter, f if i else fr)
            for v in self.iterate(it):
                self.assign(g.target, v, f)
                if all(self.truth(self.eval(c, f)) for c in g.ifs):
                    go(i + 1, f)

        f = Frame(fr.module, fr)
        f.gen = None
        go(0, f)

    def e_ListComp(self, e, fr):
        out = []
        self._comp(e.generators, fr, lambda f: out.append(self.eval(e.elt, f)))
        return out

    def e_SetComp(self, e, fr):
        out = ASet()
        self._comp(e.generators, fr, lambda f: self.set_add(out, self.eval(e.elt, f)))
        return out

    def e_DictComp(self, e, fr):
        out = ADict()

        def emit(f):
            k = self.eval(e.key, f)
            self.dict_set(out, k, self.eval(e.value, f))

        self._comp(e.generators, fr, emit)
        return out

    def e_GeneratorExp(self, e, fr):
        # lazily, one element at a time
        interp = self
        first = self.eval(e.generators[0].iter, fr)

        def gen():
            f = Frame(fr.module, fr)

            def go(i):
                if i == len(e.generators):
                    yield interp.eval(e.elt, f)
                    return
                g = e.generators[i]
                it = first if i == 0 else interp.eval(g.iter, f)
                for v in interp.iterate(it):
                    interp.assign(g.target, v, f)
                    if all(interp.truth(interp.eval(c, f)) for c in g.ifs):
                        yield from go(i + 1)

            yield from go(0)

        return Iter(gen())

    def _gen_of(self, fr):
        f = fr
        while f is not None and f.gen is None:
            f = f.parent
        if f is None:
            raise Undecided("yield outside of a generator")
        return f.gen

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        return self._gen_of(fr).yield_(v)

    def e_YieldFrom(self, e, fr):
        g = self._gen_of(fr)
        it = self.eval(e.value, fr)
        if isinstance(it, Iter) and isinstance(it.it, Gen):
            x = None
            while True:
                try:
                    v = it.it.send(x) if x is not None else next(it.it)
                except StopIteration:
                    return it.it.result
                x = g.yield_(v)
        for v in self.iterate(it):
            if g.yield_(v) is not None:
                raise Undecided("a value sent through yield from")
        return None

    def e_Await(self, e, fr):
        raise Undecided("await")

    # -- calls --------------------------------------------------------------

    def call(self, fn, args, kw, fr=None):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Undecided("step budget")
        if isinstance(fn, Bound):
            return self.call(fn.func, [fn.self, *args], kw, fr)
        if isinstance(fn, Func):
            return self.call_func(fn, args, kw)
        if isinstance(fn, Native):
            return fn.fn(self, args, kw)
        if isinstance(fn, ClassInfo):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, type):
            return self.libs.call_type(self, fn, args, kw)
        if isinstance(fn, ExtClass):
            if fn.make is None:
                return Top(f"instance of {fn.name}")
            return fn.make(self, args, kw)
        if isinstance(fn, Obj):
            m = self.type_method(fn, "__call__")
            if m is not None:
                return self.call(m, args, kw)
        if isinstance(fn, Top):
            return Top(f"call of {fn.why}")
        if isinstance(fn, ExtObj):
            if "__call__" in fn.attrs:
                return self.call(fn.attrs["__call__"], args, kw)
            return Top(f"call of {fn!r}")
        if isinstance(fn, Desc) and fn.kind in ("staticmethod", "classmethod"):
            return self.call(fn.fget, args, kw)
        self.raise_(TypeError, f"'{self.type_name(fn)}' object is not callable")

    def call_func(self, f, args, kw):
        hook = self.hooks.get(id(f.node))
        if hook is not None:
            return hook(self, f, args, kw)
        fr = Frame(f.module, f.env, f)
        fr.locals_ = f.locals_
        fr.gen = None
        self.bind(f, args, kw, fr)
        if isinstance(f.node, ast.Lambda):
            return self._run(f, fr)
        if f.isgen:
            def run(gen, fr=fr, f=f):
                fr.gen = gen
                r = self._run(f, fr)
                return r

            return Iter(Gen(self, run))
        if self.call_trace is not None:
            self.call_trace.append(f.qual)
        return self._run(f, fr)

    def _run(self, f, fr):
        self.depth += 1
        self.fstack.append(f.qual)
        try:
            if self.depth > self.MAX_DEPTH:
                self.raise_(RecursionError, "maximum recursion depth exceeded")
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            r = self.exec_block(f.node.body, fr)
            if r is None:
                return None
            return r[1]
        finally:
            self.fstack.pop()
            self.depth -= 1

    def bind(self, f, args, kw, fr):
        a = f.node.args
        pos = a.posonlyargs + a.args
        v = fr.vars
        n = len(pos)
        args = list(args)
        kw = dict(kw)
        for i, p in enumerate(pos):
            if i < len(args):
                v[p.arg] = args[i]
                if p.arg in kw and p not in a.posonlyargs:
                    self.raise_(TypeError, f"{f.name}() got multiple values for argument '{p.arg}'")
            elif p.arg in kw and p not in a.posonlyargs:
                v[p.arg] = kw.pop(p.arg)
            else:
                j = i - (n - len(f.defaults))
                if j < 0:
                    self.raise_(TypeError, f"{f.name}() missing required argument: '{p.arg}'")
                v[p.arg] = f.defaults[j]
        rest = args[n:]
        if a.vararg is not None:
            v[a.vararg.arg] = tuple(rest)
        elif rest:
            self.raise_(TypeError, f"{f.name}() takes {n} positional arguments but {len(args)} were given")
        for i, p in enumerate(a.kwonlyargs):
            if p.arg in kw:
                v[p.arg] = kw.pop(p.arg)
            elif a.kw_defaults[i] is not None:
                v[p.arg] = f.kwdefaults[i]
            else:
                self.raise_(TypeError, f"{f.name}() missing required keyword-only argument: '{p.arg}'")
        if a.kwarg is not None:
            d = ADict()
            for k, x in kw.items():
                self.dict_set(d, k, x)
            v[a.kwarg.arg] = d
        elif kw:
            self.raise_(TypeError, f"{f.name}() got an unexpected keyword argument '{next(iter(kw))}'")
        if f.locals_ is not None:
            fr.locals_ = f.locals_ | set(v)

    def instantiate(self, c, args, kw):
        if "_enum_members_" in c.attrs:
            return self.libs.enum_lookup(self, c, args, kw)
        new = self.class_attr(c, "__new__")
        if new is not None and isinstance(new[1], ClassInfo):
            fn = new[0]
            fn = fn.fget if isinstance(fn, Desc) else fn
            o = self.call(fn, [c, *args], kw)
            if not (isinstance(o, Obj) and c in o.cls.mro):
                return o
        else:
            o = self.new_object(c, args)
        init = self.class_attr(c, "__init__")
        if init is not None and isinstance(init[1], ClassInfo):
            self.call(self.bind_attr(init[0], o, c), args, kw)
        else:
            exc = [k for k in c.mro if isinstance(k, type) and issubclass(k, BaseException)]
            if exc:
                o.fields["args"] = tuple(args)
            elif o.native is not None:
                if new is None or not isinstance(new[1], ClassInfo):
                    o.native = self.libs.call_type(self, self._native_base(c), args, kw)
            elif any(isinstance(k, (ExtClass, ExtModule)) for k in c.mro):
                pass
            elif (args or kw) and not (new is not None and isinstance(new[1], ClassInfo)):
                self.raise_(TypeError, f"{c.name}() takes no arguments")
        return o

    def _native_base(self, c):
        for k in c.mro:
            if isinstance(k, type) and k in (dict, list, set, tuple, str, int, frozenset):
                return k
        return None

    def new_object(self, c, args=()):
        if "abstract" not in c.meta:
            c.meta["abstract"] = self.libs.abstract_names(self, c)
        if c.meta["abstract"]:
            self.raise_(TypeError, f"Can't instantiate abstract class {c.name} without an implementation for abstract methods {', '.join(map(repr, c.meta['abstract']))}")
        o = Obj(c)
        nb = self._native_base(c)
        if nb is not None:
            o.native = self.libs.call_type(self, nb, [], {})
        if any(isinstance(k, type) and issubclass(k, BaseException) for k in c.mro):
            o.fields["args"] = tuple(args)
        return o

    # -- attributes ---------------------------------------------------------

    def class_attr(self, c, name):
        """(value, defining class) by MRO lookup, or None."""
        for k in c.mro:
            if isinstance(k, ClassInfo):
                if name in k.attrs:
                    v = k.attrs[name]
                    if isinstance(v, Thunk):
                        v = v.fn()
                        k.attrs[name] = v
                    return v, k
            elif isinstance(k, type):
                v = self.libs.native_class_attr(self, k, name)
                if v is not None:
                    return v, k
            else:
                v = self.libs.external_class_attr(self, k, name)
                if v is not None:
                    return v, k
        return None

    def bind_attr(self, v, obj, c):
        if isinstance(v, Func):
            return Bound(v, obj)
        if isinstance(v, Native) and v.attrs.get("bind"):
            return Bound(v, obj)
        if isinstance(v, Desc):
            if v.kind == "property":
                return self.call(v.fget, [obj], {})
            if v.kind == "cached_property":
                name = v.name
                if isinstance(obj, Obj):
                    if name not in obj.fields:
                        obj.fields[name] = self.call(v.fget, [obj], {})
                    return obj.fields[name]
                return self.call(v.fget, [obj], {})
            if v.kind == "classmethod":
                return Bound(v.fget, c)
            if v.kind == "staticmethod":
                return v.fget
        if isinstance(v, Obj):
            g = self.type_method(v, "__get__")
            if g is not None:
                return self.call(g, [obj, c], {})
        return v

    _MISSING = object()

    def getattr_or(self, o, name, default):
        try:
            return self.getattr(o, name)
        except AbsRaise as e:
            if self.exc_matches(e.exc, AttributeError):
                return default
            raise

    def hasattr(self, o, name):
        return self.getattr_or(o, name, self._MISSING) is not self._MISSING

    def getattr(self, o, name):
        if isinstance(o, Obj):
            c = o.cls
            ca = self.class_attr(c, name)
            if ca is not None and isinstance(ca[0], Desc) and ca[0].kind == "property":
                return self.bind_attr(ca[0], o, c)
            if ca is not None and isinstance(ca[0], Obj) and self.type_method(ca[0], "__set__") is not None:
                return self.bind_attr(ca[0], o, c)
            if name in o.fields:
                return o.fields[name]
            if ca is not None:
                return self.bind_attr(ca[0], o, c)
            if name == "__class__":
                return c
            if name == "__dict__":
                d = ADict()
                for k, v in o.fields.items():
                    self.dict_set(d, k, v)
                d.owner = o
                return d
            if o.native is not None:
                return self.libs.native_attr(self, o.native, name)
            m = self.libs.object_attr(self, o, name)
            if m is not None:
                return m
            g = self.class_attr(c, "__getattr__")
            if g is not None:
                return self.call(self.bind_attr(g[0], o, c), [name], {})
            if any(isinstance(k, (ExtClass, ExtModule)) and getattr(k, "name", "") not in ("typing.Protocol", "typing.Generic", "abc.ABC") for k in c.mro):
                return Top(f"attribute {name} of {c.name}")
            self.libs.no_attribute(self, o, name, f"'{c.name}' object has no attribute '{name}'")
        if isinstance(o, ClassInfo):
            if name == "__name__" or name == "__qualname__":
                return o.meta.get("__name__", o.name)
            if name == "__module__":
                return o.meta.get("__module__", o.module.name)
            if name == "__mro__":
                return (*o.mro, object)
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__dict__":
                d = ADict()
                for k in list(o.attrs):
                    self.dict_set(d, k, self.class_attr(o, k)[0])
                return d
            if name == "__annotations__":
                d = ADict()
                for k, v in o.annotations.items():
                    self.dict_set(d, k, v)
                return d
            ca = self.class_attr(o, name)
            if ca is not None:
                v = ca[0]
                if isinstance(v, Desc):
                    if v.kind == "classmethod":
                        return Bound(v.fget, o)
                    if v.kind == "staticmethod":
                        return v.fget
                    return v
                if isinstance(v, Obj):
                    g = self.type_method(v, "__get__")
                    if g is not None:
                        return self.call(g, [None, o], {})
                return v
            if name == "__doc__":
                return None
            if name == "__class__":
                return type
            m = self.libs.object_class_attr(self, o, name)
            if m is not None:
                return m
            self.libs.no_attribute(self, o, name, f"type object '{o.name}' has no attribute '{name}'")
        if isinstance(o, Module) or isinstance(o, ExtModule):
            return self.module_attr(o, name)
        if isinstance(o, Super):
            obj = o.obj
            c = obj if isinstance(obj, ClassInfo) else obj.cls
            mro = c.mro
            i = mro.index(o.cls)
            for k in mro[i + 1 :]:
                if isinstance(k, ClassInfo):
                    if name in k.attrs:
                        v = k.attrs[name]
                        if isinstance(v, Thunk):
                            v = v.fn()
                            k.attrs[name] = v
                        if isinstance(obj, ClassInfo):
                            if isinstance(v, Desc) and v.kind == "classmethod":
                                return Bound(v.fget, obj)
                            if isinstance(v, Desc):
                                return v.fget
                            return v
                        return self.bind_attr(v, obj, c)
                elif isinstance(k, type):
                    if issubclass(k, BaseException) and name == "__init__":
                        return Native("exc.__init__", lambda i, a, kw: obj.fields.__setitem__("args", tuple(a)))
                    if isinstance(obj, Obj) and obj.native is not None:
                        if name == "__init__":
                            def ninit(i, a, kw, k=k):
                                obj.native = self.libs.call_type(self, self._native_base(c), a, kw)

                            return Native("native.__init__", ninit)
                        return self.libs.native_attr(self, obj.native, name)
            m = self.libs.object_super_attr(self, obj, c, name)
            if m is not None:
                return m
            self.raise_(AttributeError, f"'super' object has no attribute '{name}'")
        if isinstance(o, Top):
            return Top(f"{o.why}.{name}")
        if isinstance(o, (Func, Native)):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return ast.get_docstring(o.node, clean=False) if isinstance(o, Func) and isinstance(o.node, (ast.FunctionDef, ast.AsyncFunctionDef)) else None
            if name == "__wrapped__" and isinstance(o, Func):
                self.raise_(AttributeError, name)
            if name == "__get__":
                return Native("__get__", lambda i, a, kw: Bound(o, a[0]))
            if name == "__module__":
                return o.module.name if isinstance(o, Func) else "builtins"
            if name == "__dict__" and isinstance(o, Func):
                d = ADict()
                for k, v in o.attrs.items():
                    self.dict_set(d, k, v)
                d.owner = o
                return d
            self.libs.no_attribute(self, o, name, f"function has no attribute '{name}'")
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, ExcVal):
            if name in o.fields:
                return o.fields[name]
            if name == "args":
                return tuple(o.args)
            if name == "__class__":
                return o.cls
            if name == "msg" and o.args:
                return o.args[0]
            if name in ("__cause__", "__context__", "__traceback__"):
                return None
            if name == "with_traceback":
                return Native(name, lambda i, a, kw: o)
            if name == "add_note":
                return Native(name, lambda i, a, kw: None)
            if name == "name":
                return Top("exception attribute")
            self.libs.no_attribute(self, o, name)
        if isinstance(o, Desc):
            if o.kind == "property" and name in ("setter", "getter", "deleter"):
                def setter(i, a, kw):
                    return Desc("property", o.fget if name != "getter" else a[0], a[0] if name == "setter" else o.fset, o.name, a[0] if name == "deleter" else o.fdel)

                return Native(name, setter)
            if name in ("fget", "fset", "fdel"):
                return getattr(o, name)
            if name == "__func__":
                return o.fget
        return self.libs.native_attr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            ca = self.class_attr(o.cls, name)
            if ca is not None and isinstance(ca[0], Desc) and ca[0].kind == "property":
                if ca[0].fset is None:
                    self.raise_(AttributeError, f"property '{name}' has no setter")
                self.call(ca[0].fset, [o, v], {})
                return
            if ca is not None and isinstance(ca[0], Obj):
                ds = self.type_method(ca[0], "__set__")
                if ds is not None:
                    self.call(ds, [o, v], {})
                    return
            sa = self.class_attr(o.cls, "__setattr__")
            if sa is not None and isinstance(sa[1], ClassInfo):
                self.call(self.bind_attr(sa[0], o, o.cls), [name, v], {})
                return
            if self.writes is not None:
                self.writes.append((o, name))
            o.fields[name] = v
            return
        if isinstance(o, ClassInfo):
            if name in ("__module__", "__name__", "__qualname__", "__doc__"):
                o.meta[name] = v
                return
            o.attrs[name] = v
            return
        if isinstance(o, Module):
            o.globals[name] = v
            return
        if isinstance(o, (Func, Native)):
            o.attrs[name] = v
            return
        if isinstance(o, Bound):
            self.raise_(AttributeError, name)
        if isinstance(o, ExtObj):
            o.attrs[name] = v
            return
        if isinstance(o, ADict) and o.kind == "defaultdict" and name == "default_factory":
            o.default = v
            return
        if isinstance(o, ExcVal):
            o.fields[name] = v
            return
        if isinstance(o, Top):
            return
        self.raise_(AttributeError, f"'{self.type_name(o)}' object has no attribute '{name}'")

    def type_method(self, o, name):
        """A special method, looked up on the class of an Obj."""
        ca = self.class_attr(o.cls, name)
        if ca is None:
            return None
        if not isinstance(ca[1], ClassInfo):
            return None
        if ca[0] is None:
            return None
        return self.bind_attr(ca[0], o, o.cls)

    # -- types --------------------------------------------------------------

    def type_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        return self.libs.type_of(self, v)

    def type_name(self, v):
        t = self.type_of(v)
        return getattr(t, "name", None) or getattr(t, "__name__", str(t))

    def isinstance(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinstance(v, x) for x in c)
        if isinstance(c, ExtObj) and c.cls.name == "types.UnionType":
            return any(self.isinstance(v, x) for x in c.attrs["args"])
        if c is None:
            return v is None
        if isinstance(v, Top):
            raise Undecided(f"type of {v.why}")
        if isinstance(c, Top):
            raise Undecided("isinstance of an unknown class")
        return self.subclass(self.type_of(v), c)

    def subclass(self, t, c):
        if isinstance(c, tuple):
            return any(self.subclass(t, x) for x in c)
        if isinstance(c, ExtObj) and c.cls.name == "types.UnionType":
            return any(self.subclass(t, x) for x in c.attrs["args"])
        if c is object:
            return True
        if isinstance(t, ClassInfo):
            if c in t.mro:
                return True
            for k in t.mro:
                if not isinstance(k, ClassInfo) and self.subclass(k, c):
                    return True
            return False
        return self.libs.native_subclass(self, t, c)

    def exc_matches(self, exc, c):
        return self.isinstance(exc, c)

    # -- truth, equality, hashing -------------------------------------------

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple, list, decimal.Decimal, Fraction)):
            return bool(v)
        if isinstance(v, SStr):
            return True
        if isinstance(v, T):
            if v.ty == "sympy" and v.op != "const":
                return True if v.op != "sym" else True
            return not self.decide("==", v, 0)
        if isinstance(v, (ADict, ASet)):
            return len(v) > 0
        if isinstance(v, View):
            return len(v.d) > 0
        if isinstance(v, Obj):
            m = self.type_method(v, "__bool__")
            if m is not None:
                return self.truth(self.call(m, [], {}))
            m = self.type_method(v, "__len__")
            if m is not None:
                return self.truth(self.call(m, [], {}))
            if v.native is not None:
                return self.truth(v.native)
            return True
        if v is NotImplemented:
            return True
        if isinstance(v, Top):
            raise Undecided(f"guard on {v.why}")
        return True

    def hk(self, v):
        """A hashable canonical form of a key, or None if the key's own
        __eq__/__hash__ have to be consulted."""
        if v is None or isinstance(v, (str, bytes)):
            return v if v is not None else ("none",)
        if isinstance(v, (bool, int, float, decimal.Decimal, Fraction)):
            return v
        if isinstance(v, SStr):
            return v
        if isinstance(v, T):
            return v
        if isinstance(v, tuple):
            ks = []
            for x in v:
                k = self.hk(x)
                if k is None:
                    return None
                ks.append(k)
            return ("tuple", tuple(ks))
        if isinstance(v, ASet) and v.frozen:
            ks = []
            for x in v.items():
                k = self.hk(x)
                if k is None:
                    return None
                ks.append(k)
            return ("frozenset", frozenset(ks))
        if isinstance(v, Obj):
            h = self.class_attr(v.cls, "__hash__")
            e = self.class_attr(v.cls, "__eq__")
            hu = h is not None and isinstance(h[1], ClassInfo)
            eu = e is not None and isinstance(e[1], ClassInfo)
            if hu and h[0] is None:
                self.raise_(TypeError, f"unhashable type: '{v.cls.name}'")
            if eu and not hu:
                self.raise_(TypeError, f"unhashable type: '{v.cls.name}'")
            if eu and not self._hash_before_eq(v.cls):
                self.raise_(TypeError, f"unhashable type: '{v.cls.name}'")
            if not hu and not eu:
                if v.native is not None:
                    if isinstance(v.native, (ADict, list)):
                        self.raise_(TypeError, f"unhashable type: '{v.cls.name}'")
                    return self.hk(v.native)
                return ("id", id(v))
            if (
                hu
                and eu
                and isinstance(h[0], Native)
                and isinstance(e[0], Native)
                and h[0].name == "dataclass.__hash__"
                and e[0].name == "dataclass.__eq__"
            ):
                ks = [id(v.cls)]
                for f in e[1].dc_fields:
                    if f.compare:
                        k = self.hk(v.fields[f.name])
                        if k is None:
                            return None
                        ks.append(k)
                return ("dc", tuple(ks))
            return None
        if isinstance(v, (list, ADict, ASet)):
            self.raise_(TypeError, f"unhashable type: '{self.type_name(v)}'")
        if isinstance(v, ClassInfo):
            return ("class", v.qual)
        if isinstance(v, (Func, Native, Module, type, ExtClass, ExtObj, ExtModule, Desc, ExcVal, Bound)):
            return ("id", id(v))
        if isinstance(v, Top):
            raise Undecided(f"unknown key {v.why}")
        return ("id", id(v))

    def _hash_before_eq(self, c):
        """Is the class hashable: a class which defines __eq__ without
        __hash__ sets __hash__ to None."""
        for k in c.mro:
            if isinstance(k, ClassInfo):
                if "__hash__" in k.attrs:
                    return k.attrs["__hash__"] is not None
                if "__eq__" in k.attrs:
                    return False
        return True

    def hash_of(self, v):
        """An abstract hash: equal abstract hashes for equal canonical forms."""
        k = self.hk(v)
        if k is not None:
            return T("hash", (terms.T("key", (KEYS.setdefault(k, len(KEYS)),), "int"),), "int") if not isinstance(v, int) else v
        if isinstance(v, Obj):
            m = self.type_method(v, "__hash__")
            return self.call(m, [], {})
        if isinstance(v, tuple):
            k = ("hashes", tuple(terms.lift(self.hash_of(x)) for x in v))
            return T("hash", (terms.T("key", (KEYS.setdefault(k, len(KEYS)),), "int"),), "int")
        raise Undecided("hash")

    def eq(self, a, b):
        r = self.eq_value(a, b)
        return r if isinstance(r, bool) else self.truth(r)

    def sympy_eq(self, x, y):
        """Equality of expressions of the computer algebra: structural, apart
        from comparisons with a number."""
        if not terms.leaves(x) and not terms.leaves(y):
            z = terms.sub(terms.strip(x), terms.strip(y)) == terms.ZERO
            return z and (terms.has_float(x) == terms.has_float(y) or terms.strip(x) == terms.ZERO)
        for p, q in ((x, y), (y, x)):
            if q.op == "const":
                if terms.has_float(p) and q.args[0] != 0:
                    return False
                if terms.differ(p, q, self.assumptions) is False:
                    return True
                if q.args[0] != 0:
                    return False
                ms = [c for c in terms.monomials(terms.strip(p)).values() if c != terms.ZERO]
                # (no factor of a definition is zero)
                return all(c.op == "add" for c in ms) and all(self.decide("==", c, terms.ZERO) for c in ms)
        return self.unify(x, y)

    def unify(self, x, y):
        """Are the two expressions structurally equal?  (Open numbers partition.)"""
        if x == y:
            return True
        if terms.is_numeric(x) and terms.is_numeric(y):
            if terms.has_float(x) != terms.has_float(y):
                return False
            return self.decide("==", terms.strip(x), terms.strip(y))
        if terms.is_numeric(x) or terms.is_numeric(y):
            return False
        for op in ("add", "mul"):
            if op in (x.op, y.op):
                (cx, rx), (cy, ry) = terms.split_numeric(x, op), terms.split_numeric(y, op)
                if len(rx) != len(ry):
                    return False
                if len(rx) == 1 and rx[0] == x and ry[0] == y:
                    return False
                for a in rx:
                    for n, b in enumerate(ry):
                        if self.shape(a) == self.shape(b):
                            break
                    else:
                        return False
                    if not self.unify(a, ry.pop(n)):
                        return False
                return self.unify(cx, cy)
        if x.op != y.op or len(x.args) != len(y.args):
            return False
        return x.op not in ("sym", "const", "euler") and all(
            self.unify(a, b) if isinstance(a, T) and isinstance(b, T) else a == b for a, b in zip(x.args, y.args)
        )

    @staticmethod
    def shape(t):
        """What two structurally equal expressions have in common."""
        return frozenset(l for l in terms.leaves(t) if terms.is_free_symbol(l)), t.op if t.op == "log" else None

    def eq_value(self, a, b):
        if a is b and not isinstance(a, (float, Obj)):
            return True
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    m = self.type_method(x, "__eq__")
                    if m is not None:
                        r = self.call(m, [y], {})
                        if r is not NotImplemented:
                            return r
                    elif x.native is not None:
                        return self.eq_value(x.native, y.native if isinstance(y, Obj) and y.native is not None else y)
            return a is b
        if isinstance(a, T) or isinstance(b, T):
            x, y = terms.lift(a), terms.lift(b)
            if x is not None and y is not None and x.op == y.op == "hash":
                return x == y  # (no collisions)
            if x is None or y is None:
                return False
            if x == y:
                return True
            if "sympy" in (x.ty, y.ty):
                return self.sympy_eq(x, y)
            return self.decide("==", x, y)
        if isinstance(a, SStr) or isinstance(b, SStr):
            if not (is_str(a) and is_str(b)):
                return False
            return self.libs.text_eq(self, a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                return False
            return all(x is y or self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, ADict) and isinstance(b, ADict):
            if len(a) != len(b):
                return False
            for k, v in a.live():
                i = self.dict_find(b, k)
                if i is None or not (b.vals[i] is v or self.eq(v, b.vals[i])):
                    return False
            return True
        if isinstance(a, (ASet, View)) and isinstance(b, (ASet, View)):
            xs, ys = list(self.iterate_raw(a)), list(self.iterate_raw(b))
            if isinstance(b, ASet):
                return len(xs) == len(ys) and all(self.dict_find(b.d, x) is not None for x in xs)
            return len(xs) == len(ys) and all(any(self.eq(x, y) for y in ys) for x in xs)
        if isinstance(a, Top) or isinstance(b, Top):
            raise Undecided(f"equality of unknown value")
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return self.eq((a.lo, a.hi, a.step), (b.lo, b.hi, b.step))
        if isinstance(a, SliceV) or isinstance(b, SliceV):
            return False
        if isinstance(a, range) and isinstance(b, range):
            return a == b
        if isinstance(a, (str, bytes, int, float, bool, decimal.Decimal, Fraction, type(None))) and isinstance(
            b, (str, bytes, int, float, bool, decimal.Decimal, Fraction, type(None))
        ):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self is b.self
        if isinstance(a, ExtObj) and isinstance(b, ExtObj) and a.cls is b.cls:
            if "key" in a.attrs:
                return self.eq(a.attrs["key"], b.attrs["key"])
        return a is b

    def compare(self, op, a, b):
        k = type(op)
        if k is ast.Is:
            return self.is_(a, b)
        if k is ast.IsNot:
            return not self.is_(a, b)
        if k is ast.Eq:
            return self.eq_value(a, b)
        if k is ast.NotEq:
            if isinstance(a, Obj):
                m = self.type_method(a, "__ne__")
                if m is not None:
                    r = self.call(m, [b], {})
                    if r is not NotImplemented:
                        return r
            return not self.truth(self.eq_value(a, b))
        if k is ast.In:
            return self.contains(b, a)
        if k is ast.NotIn:
            return not self.contains(b, a)
        return self.order(k, a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            if isinstance(a, Top) or isinstance(b, Top):
                raise Undecided("identity of unknown value")
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, ClassInfo) and isinstance(b, ClassInfo):
            return a is b
        if isinstance(a, (str, int)) and isinstance(b, (str, int)) and type(a) is type(b):
            return a == b  # interned in all cases that matter here
        if isinstance(a, ExtClass) and isinstance(b, ExtClass):
            return a.name == b.name
        return False

    def order(self, k, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            names = {ast.Lt: ("__lt__", "__gt__"), ast.LtE: ("__le__", "__ge__"), ast.Gt: ("__gt__", "__lt__"), ast.GtE: ("__ge__", "__le__")}[k]
            if isinstance(a, Obj):
                m = self.type_method(a, names[0])
                if m is not None:
                    r = self.call(m, [b], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Obj):
                m = self.type_method(b, names[1])
                if m is not None:
                    r = self.call(m, [a], {})
                    if r is not NotImplemented:
                        return r
            if all(not isinstance(x, Obj) or x.native is not None for x in (a, b)):
                return self.order(k, *(x.native if isinstance(x, Obj) else x for x in (a, b)))
            self.raise_(TypeError, "'<' not supported")
        if isinstance(a, Top) or isinstance(b, Top):
            raise Undecided("comparison of unknown value")
        if isinstance(a, T) or isinstance(b, T):
            if terms.lift(a) is None or terms.lift(b) is None:
                self.raise_(TypeError, "'<' not supported")
            if k is ast.Lt:
                return self.decide("<", a, b)
            if k is ast.LtE:
                return self.decide("<=", a, b)
            if k is ast.Gt:
                return self.decide("<", b, a)
            return self.decide("<=", b, a)
        if isinstance(a, SStr) or isinstance(b, SStr):
            if not (is_str(a) and is_str(b)):
                self.raise_(TypeError, "'<' not supported")
            # an arbitrary but fixed order of opaque texts
            a, b = repr(a), repr(b)
        if isinstance(a, ASet) and isinstance(b, ASet):
            xs, ys = a.items(), b.items()
            sub = all(self.contains(b, x) for x in xs)
            sup = all(self.contains(a, y) for y in ys)
            return {ast.LtE: sub, ast.GtE: sup, ast.Lt: sub and not sup, ast.Gt: sup and not sub}[k]
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.order(k, x, y)
            a, b = len(a), len(b)
        try:
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[k](a, b)
        except TypeError as e:
            self.raise_(TypeError, str(e))

    # -- operators ----------------------------------------------------------

    _OPS = {
        ast.Add: ("__add__", "__radd__", operator.add),
        ast.Sub: ("__sub__", "__rsub__", operator.sub),
        ast.Mult: ("__mul__", "__rmul__", operator.mul),
        ast.Div: ("__truediv__", "__rtruediv__", operator.truediv),
        ast.FloorDiv: ("__floordiv__", "__rfloordiv__", operator.floordiv),
        ast.Mod: ("__mod__", "__rmod__", operator.mod),
        ast.Pow: ("__pow__", "__rpow__", operator.pow),
        ast.BitOr: ("__or__", "__ror__", operator.or_),
        ast.BitAnd: ("__and__", "__rand__", operator.and_),
        ast.BitXor: ("__xor__", "__rxor__", operator.xor),
        ast.LShift: ("__lshift__", "__rlshift__", operator.lshift),
        ast.RShift: ("__rshift__", "__rrshift__", operator.rshift),
        ast.MatMult: ("__matmul__", "__rmatmul__", operator.matmul),
    }

    def inplace(self, op, a, b):
        if isinstance(a, list) and isinstance(op, ast.Add):
            a.extend(self.iterate(b))
            return a
        if isinstance(a, ASet) and not a.frozen and isinstance(op, ast.BitOr):
            for x in self.iterate_raw(b):
                self.set_add(a, x)
            return a
        if isinstance(a, ASet) and not a.frozen and isinstance(op, (ast.Sub, ast.BitAnd)):
            r = self.binop(op, a, b)
            a.d = r.d
            return a
        if isinstance(a, ADict) and isinstance(op, ast.BitOr):
            for k, v in self.dict_items(b):
                self.dict_set(a, k, v)
            return a
        if isinstance(a, Obj):
            n = self._OPS[type(op)][0].replace("__", "__i", 1)
            m = self.type_method(a, n)
            if m is not None:
                return self.call(m, [b], {})
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        k = type(op)
        if isinstance(a, Obj) or isinstance(b, Obj):
            n, rn, _ = self._OPS[k]
            if isinstance(a, Obj):
                m = self.type_method(a, n)
                if m is not None:
                    r = self.call(m, [b], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Obj):
                m = self.type_method(b, rn)
                if m is not None:
                    r = self.call(m, [a], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(a, Obj) and a.native is not None:
                return self.binop(op, a.native, b)
            if isinstance(b, Obj) and b.native is not None:
                return self.binop(op, a, b.native)
            self.raise_(TypeError, f"unsupported operand types for {n}: {self.type_name(a)} and {self.type_name(b)}")
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isinstance(a, T) or isinstance(b, T):
            return self.num_op(k, a, b)
        if is_str(a) and k is ast.Mod:
            return self.libs.percent_format(self, a, b)
        if is_str(a) and is_str(b) and k is ast.Add:
            return mkstr(a, b)
        if isinstance(a, SStr) or isinstance(b, SStr):
            if k is ast.Mult and (isinstance(a, int) or isinstance(b, int)):
                s, n = (a, b) if isinstance(b, int) else (b, a)
                return mkstr(*([s] * n))
            self.raise_(TypeError, f"unsupported operand types: {self.type_name(a)} and {self.type_name(b)}")
        if isinstance(a, list) and isinstance(b, list) and k is ast.Add:
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple) and k is ast.Add:
            return a + b
        if isinstance(a, (list, tuple)) and isinstance(b, int) and k is ast.Mult:
            return a * b
        if isinstance(b, (list, tuple)) and isinstance(a, int) and k is ast.Mult:
            return b * a
        if isinstance(a, (ASet, View)) and isinstance(b, (ASet, View)):
            out = ASet(frozen=isinstance(a, ASet) and a.frozen)
            xs, ys = list(self.iterate_raw(a)), list(self.iterate_raw(b))
            inn = lambda v, vs: any(self.eq(v, w) for w in vs)  # noqa
            if k is ast.BitOr:
                r = xs + ys
            elif k is ast.BitAnd:
                r = [x for x in xs if inn(x, ys)]
            elif k is ast.Sub:
                r = [x for x in xs if not inn(x, ys)]
            elif k is ast.BitXor:
                r = [x for x in xs if not inn(x, ys)] + [y for y in ys if not inn(y, xs)]
            else:
                self.raise_(TypeError, "unsupported operand types for sets")
            for x in r:
                self.set_add(out, x)
            return out
        if isinstance(a, ADict) and isinstance(b, ADict) and "Counter" in (a.kind, b.kind):
            raise Undecided("operator on counters")
        if isinstance(a, ADict) and isinstance(b, ADict) and k is ast.BitOr:
            out = ADict(a.kind)
            for d in (a, b):
                for kk, v in d.live():
                    self.dict_set(out, kk, v)
            return out
        if k is ast.BitOr and (self._is_type(a) or self._is_type(b)):
            xs = []
            for x in (a, b):
                xs.extend(x.attrs["args"] if isinstance(x, ExtObj) and x.cls.name == "types.UnionType" else [x])
            return ExtObj(self.libs.UNION, args=tuple(xs))
        if isinstance(a, ExtObj) and "__truediv__" in a.attrs and k is ast.Div:
            return self.call(a.attrs["__truediv__"], [b], {})
        if isinstance(a, (ADict, ASet, ExtObj, Func, Native, ExcVal)) or isinstance(b, (ADict, ASet, ExtObj, Func, Native, ExcVal)):
            if isinstance(a, ExtObj) or isinstance(b, ExtObj):
                return Top("operator on external object")
            self.raise_(TypeError, "unsupported operand types")
        try:
            r = self._OPS[k][2](a, b)
        except Exception as e:
            self.raise_(type(e) if type(e) in vars(builtins).values() else ValueError, str(e))
        return r

    def _is_type(self, v):
        return isinstance(v, (type, ClassInfo, ExtClass)) or (isinstance(v, ExtObj) and v.cls.name == "types.UnionType")

    def num_op(self, k, a, b):
        x, y = terms.lift(a), terms.lift(b)
        if x is None or y is None:
            if k is ast.Mult and (isinstance(a, (list, tuple)) or is_str(a) or isinstance(b, (list, tuple)) or is_str(b)):
                raise Undecided("repetition by an unknown number")
            self.raise_(TypeError, f"unsupported operand types: {self.type_name(a)} and {self.type_name(b)}")
        tys = {x.ty, y.ty}
        if tys == {"float", "Decimal"}:
            self.raise_(TypeError, "unsupported operand type(s): 'float' and 'decimal.Decimal'")
        if k is ast.Add:
            return terms.add(x, y)
        if k is ast.Sub:
            return terms.sub(x, y)
        if k is ast.Mult:
            return terms.mul(x, y)
        if k is ast.Div:
            if y.op == "const" and y.args[0] == 0 and "sympy" not in tys:
                self.raise_(ZeroDivisionError, "division by zero")
            r = terms.div(x, y)
            if tys == {"int"}:
                r = terms.retype(r, "float")
            return r
        if k is ast.Pow:
            return terms.power(x, y)
        if k is ast.FloorDiv:
            return T("floordiv", (x, y), terms.join_ty(x.ty, y.ty))
        if k is ast.Mod:
            return T("mod", (x, y), terms.join_ty(x.ty, y.ty))
        raise Undecided("bit operation on a term")

    # -- containers ---------------------------------------------------------

    def dict_find(self, d, key):
        k = self.hk(key)
        if k is not None:
            i = d.index.get(k)
            if i is not None and d.keys[i] is not DELETED:
                return i
            cand = d.loose
        else:
            # the positions with the same hash, or with one which is not known
            h = self._known_hash(key)
            bs = d.buckets
            n = bs.get("at", 0)
            if n < len(d.keys):
                for i in range(n, len(d.keys)):
                    o = d.keys[i]
                    if o is not DELETED:
                        bs.setdefault(self._known_hash(o) if isinstance(o, (Obj, tuple)) else None, []).append(i)
                bs["at"] = len(d.keys)
            if h is None or not isinstance(key, (Obj, tuple)):
                cand = range(len(d.keys))
            else:
                cand = bs.get(h, ())
                if None in bs:
                    cand = sorted([*cand, *bs[None]])
            for i in cand:
                o = d.keys[i]
                if o is not DELETED and (o is key or self.eq(o, key)):
                    return i
            return None
        for i in cand:
            if d.keys[i] is DELETED:
                continue
            o = d.keys[i]
            if o is key or (self._same_hash(o, key) and self.eq(o, key)):
                return i
        return None

    def _known_hash(self, v):
        try:
            return terms.lift(self.hash_of(v))
        except Undecided:
            return None

    def _same_hash(self, a, b):
        if not (isinstance(a, Obj) and isinstance(b, Obj)):
            ta, tb = isinstance(a, Obj), isinstance(b, Obj)
            if ta != tb and self.hk(a) is not None and self.hk(b) is None:
                return True
            if ta != tb:
                return True
        try:
            x, y = self.hash_of(a), self.hash_of(b)
        except Undecided:
            return True
        x, y = terms.lift(x), terms.lift(y)
        if x is None or y is None:
            return True
        return x == y

    def _attributes(self, o):
        return o.fields if isinstance(o, Obj) else o.attrs

    def dict_set(self, d, key, v):
        if self.writes is not None:
            self.writes.append((d, key))
        if d.owner is not None:
            if not isinstance(key, str):
                raise Undecided("the name of an attribute")
            self._attributes(d.owner)[key] = v
        i = self.dict_find(d, key)
        if i is not None:
            d.vals[i] = v
            return
        k = self.hk(key)
        if k is not None:
            d.index[k] = len(d.keys)
        else:
            d.loose.append(len(d.keys))
        d.keys.append(key)
        d.vals.append(v)

    def dict_del(self, d, key):
        i = self.dict_find(d, key)
        if i is None:
            self.raise_(KeyError, key)
        if self.writes is not None:
            self.writes.append((d, key))
        v = d.vals[i]
        if d.owner is not None:
            self._attributes(d.owner).pop(key, None)
        k = self.hk(key)
        if k is not None:
            d.index.pop(k, None)
        d.loose = [j for j in d.loose if j != i]
        d.keys[i] = DELETED
        d.vals[i] = None
        return v

    def dict_items(self, d):
        if isinstance(d, Obj) and d.native is not None:
            d = d.native
        if isinstance(d, ADict):
            return d.live()
        if isinstance(d, View):
            return d.list()
        if isinstance(d, Top):
            raise Undecided(f"items of {d.why}")
        if isinstance(d, Obj) and self.type_method(d, "keys") is not None:
            return [(k, self.getitem(d, k)) for k in self.iterate(self.call(self.getattr(d, "keys"), [], {}))]
        out = []
        for p in self.iterate(d):
            p = list(self.iterate(p))
            if len(p) != 2:
                self.raise_(ValueError, "dictionary update sequence element has wrong length")
            out.append((p[0], p[1]))
        return out

    def set_add(self, s, v):
        self.dict_set(s.d, v, True)

    def contains(self, c, v):
        if isinstance(c, ADict):
            return self.dict_find(c, v) is not None
        if isinstance(c, ASet):
            return self.dict_find(c.d, v) is not None
        if isinstance(c, View) and c.what == "keys":
            return self.dict_find(c.d, v) is not None
        if isinstance(c, Obj):
            m = self.type_method(c, "__contains__")
            if m is not None:
                return self.truth(self.call(m, [v], {}))
            if c.native is not None:
                return self.contains(c.native, v)
        if is_str(c):
            if not is_str(v):
                self.raise_(TypeError, "'in <string>' requires string as left operand")
            return self.libs.text_contains(self, c, v)
        if isinstance(c, Top):
            raise Undecided(f"membership in {c.why}")
        if isinstance(c, range) and isinstance(v, T) and v in self.interval and c.step == 1:
            return self.decide("<=", c.start, v) and self.decide("<", v, c.stop)
        if isinstance(c, range) and type(v) is int:
            return v in c
        for x in self.iterate(c):
            if x is v or self.eq(x, v):
                return True
        return False

    def set_order(self, v):
        """The elements of a set in the order of this run.  Which order a set
        has is up to the hash seed, unless its elements hash to fixed numbers."""
        xs = v.items()
        if len(xs) < 2 or not any(self.seeded(x) for x in xs):
            return xs
        self.set_iterated = True
        how = self.reverse_sets
        self.set_sites.add(self.fstack[-1] if self.fstack else "module")
        if how is False:
            return xs
        if how is True:
            return xs[::-1]
        if how == "rotate":
            return xs[1:] + xs[:1]
        # an order which is a function of the contents
        rnd = random.Random(f"{how}/{sorted(map(repr, xs))}")
        xs = sorted(xs, key=repr)
        rnd.shuffle(xs)
        return xs

    def seeded(self, v):
        """Does the hash of the value depend on the seed or on an address?"""
        if v is None or isinstance(v, (bool, int, float, Fraction, decimal.Decimal)):
            return False
        if isinstance(v, T):
            return v.op in ("hash", "id")
        if isinstance(v, tuple):
            return any(self.seeded(x) for x in v)
        if isinstance(v, Obj):
            m = self.type_method(v, "__hash__")
            if m is None:
                return True
            if isinstance(m, Bound) and isinstance(m.func, Func) or isinstance(m, Func):
                try:
                    h = self.call(m, [], {})
                except (AbsRaise, Undecided):
                    return True
                return bool(hash_leaves(h))
            d = self.class_attr(v.cls, "__hash__")
            if d is not None and isinstance(d[0], Native) and d[0].name == "dataclass.__hash__":
                return any(self.seeded(v.fields.get(f.name)) for f in d[1].dc_fields)
        return True

    def iterate_raw(self, v):
        if isinstance(v, ASet):
            return v.items()
        return self.iterate(v)

    def iterate(self, v):
        if isinstance(v, tuple):
            return iter(v)
        if isinstance(v, list):
            return self._iter_list(v)
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, ADict):
            return self._iter_dict(v, "keys")
        if isinstance(v, View):
            return self._iter_dict(v.d, v.what)
        if isinstance(v, ASet):
            return iter(self.set_order(v))
        if isinstance(v, Iter):
            return v.it
        if isinstance(v, range):
            return iter(v)
        if isinstance(v, Obj):
            m = self.type_method(v, "__iter__")
            if m is not None:
                r = self.call(m, [], {})
                if isinstance(r, Obj) and self.type_method(r, "__next__") is not None:
                    return self._iter_obj(r)
                if r is v:
                    self.raise_(TypeError, f"iter() returned non-iterator of type '{v.cls.name}'")
                return self.iterate(r)
            if v.native is not None:
                return self.iterate(v.native)
            if self.type_method(v, "__getitem__") is not None:
                return self._iter_getitem(v)
            self.raise_(TypeError, f"'{v.cls.name}' object is not iterable")
        if isinstance(v, ExtObj) and "iter" in v.attrs:
            return iter(v.attrs["iter"](self))
        if isinstance(v, ClassInfo) and "_enum_members_" in v.attrs:
            return iter(list(v.attrs["_enum_members_"]))
        if isinstance(v, SStr):
            raise Undecided("iteration over opaque text")
        if isinstance(v, Top):
            raise Undecided(f"iteration over {v.why}")
        self.raise_(TypeError, f"'{self.type_name(v)}' object is not iterable")

    def _iter_list(self, v):
        i = 0
        while i < len(v):
            yield v[i]
            i += 1
            if i > 100000:
                raise Undecided("endless list iteration")

    def _iter_dict(self, d, what):
        n = len(d)
        i = 0
        while i < len(d.keys):
            k = d.keys[i]
            if k is not DELETED:
                if len(d) != n:
                    self.raise_(RuntimeError, "dictionary changed size during iteration")
                yield k if what == "keys" else d.vals[i] if what == "values" else (k, d.vals[i])
            i += 1
        if len(d) != n:
            self.raise_(RuntimeError, "dictionary changed size during iteration")

    def _iter_obj(self, v):
        while True:
            try:
                x = self.call(self.getattr(v, "__next__"), [], {})
            except AbsRaise as e:
                if self.exc_matches(e.exc, StopIteration):
                    return
                raise
            yield x

    def _iter_getitem(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except AbsRaise as e:
                if self.exc_matches(e.exc, IndexError):
                    return
                raise
            yield x
            i += 1

    def getitem(self, o, k):
        if isinstance(o, ADict):
            i = self.dict_find(o, k)
            if i is None:
                if o.kind == "defaultdict" and o.default is not None:
                    v = self.call(o.default, [], {})
                    self.dict_set(o, k, v)
                    return v
                if o.kind == "Counter":
                    return 0
                if o.kind == "ChainMap":
                    for m in o.default:
                        i = self.dict_find(m, k)
                        if i is not None:
                            return m.vals[i]
                raise AbsRaise(ExcVal(KeyError, (k,)))
            return o.vals[i]
        if isinstance(o, Obj):
            m = self.type_method(o, "__getitem__")
            if m is not None:
                return self.call(m, [k], {})
            if o.native is not None:
                if isinstance(o.native, ADict) and self.type_method(o, "__missing__") is not None and self.dict_find(o.native, k) is None:
                    return self.call(self.getattr(o, "__missing__"), [k], {})
                return self.getitem(o.native, k)
            self.raise_(TypeError, f"'{o.cls.name}' object is not subscriptable")
        if isinstance(o, ClassInfo) and "_enum_members_" in o.attrs:
            return self.getitem(o.attrs["__members__"], k)
        if isinstance(o, (list, tuple)):
            if isinstance(k, Obj):
                ix = self.type_method(k, "__index__")
                k = self.call(ix, [], {}) if ix is not None else k.native if isinstance(k.native, int) else k
            if isinstance(k, SliceV):
                lo, hi, st = k.lo, k.hi, k.step
                if any(isinstance(x, (T, Top)) for x in (lo, hi, st)):
                    raise Undecided("slice with unknown bounds")
                return o[slice(lo, hi, st)]
            if isinstance(k, T):
                raise Undecided("unknown index")
            try:
                return o[k]
            except IndexError as e:
                self.raise_(IndexError, str(e))
            except TypeError as e:
                self.raise_(TypeError, str(e))
        if is_str(o):
            return self.libs.text_getitem(self, o, k)
        if isinstance(o, Top):
            return Top(f"{o.why}[]")
        if isinstance(o, (type, ClassInfo, ExtClass, ExtModule)):
            return o  # a generic alias
        if isinstance(o, ExtObj):
            if "__getitem__" in o.attrs:
                return self.call(o.attrs["__getitem__"], [k], {})
            return o
        if isinstance(o, (range, bytes)) and isinstance(k, int):
            try:
                return o[k]
            except IndexError as e:
                self.raise_(IndexError, str(e))
        if isinstance(o, (range, bytes)):
            if isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                return o[slice(k.lo, k.hi, k.step)]
            raise Undecided("unknown index")
        self.raise_(TypeError, f"'{self.type_name(o)}' object is not subscriptable")

    def setitem(self, o, k, v):
        if isinstance(o, ADict):
            if o.ro:
                self.raise_(TypeError, "mapping does not support item assignment")
            self.dict_set(o, k, v)
        elif isinstance(o, list):
            if isinstance(k, SliceV):
                o[slice(k.lo, k.hi, k.step)] = list(self.iterate(v))
                return
            if isinstance(k, T):
                raise Undecided("unknown index")
            try:
                o[k] = v
            except IndexError as e:
                self.raise_(IndexError, str(e))
        elif isinstance(o, Obj):
            m = self.type_method(o, "__setitem__")
            if m is not None:
                self.call(m, [k, v], {})
            elif o.native is not None:
                self.setitem(o.native, k, v)
            else:
                self.raise_(TypeError, "object does not support item assignment")
        elif isinstance(o, Top):
            return
        else:
            self.raise_(TypeError, f"'{self.type_name(o)}' object does not support item assignment")

    def delitem(self, o, k):
        if isinstance(o, ADict):
            self.dict_del(o, k)
        elif isinstance(o, list):
            if isinstance(k, SliceV):
                del o[slice(k.lo, k.hi, k.step)]
            else:
                try:
                    del o[k]
                except IndexError as e:
                    self.raise_(IndexError, str(e))
        elif isinstance(o, Obj) and self.type_method(o, "__delitem__") is not None:
            self.call(self.getattr(o, "__delitem__"), [k], {})
        elif isinstance(o, Obj) and o.native is not None:
            self.delitem(o.native, k)
        else:
            self.raise_(TypeError, "object doesn't support item deletion")

    # -- text ---------------------------------------------------------------

    def str(self, v):
        if is_str(v):
            return v
        if isinstance(v, Obj):
            m = self.type_method(v, "__str__")
            if m is not None:
                r = self.call(m, [], {})
                if not is_str(r) and not isinstance(r, Top):
                    self.raise_(TypeError, "__str__ returned non-string")
                return r
            if any(isinstance(k, type) and issubclass(k, BaseException) for k in v.cls.mro):
                return self.str(ExcVal(Exception, v.fields.get("args", ())))
            return self.repr(v)
        if isinstance(v, ExcVal):
            if not v.args:
                return ""
            if len(v.args) == 1:
                return self.repr(v.args[0]) if v.cls is KeyError else self.str(v.args[0])
            return self.repr(tuple(v.args))
        if isinstance(v, T):
            return self.libs.text_of_number(self, v)
        if isinstance(v, Top):
            return SStr((Atom(f"str {v.why}", "unknown"),))
        if isinstance(v, decimal.Decimal):
            return str(v)
        return self.repr(v)

    def repr(self, v):
        if isinstance(v, str):
            return repr(v)
        if isinstance(v, SStr):
            return mkstr("'", v, "'")
        if isinstance(v, Obj):
            m = self.type_method(v, "__repr__")
            if m is not None:
                return self.call(m, [], {})
            if v.native is not None:
                return self.repr(v.native)
            if "args" in v.fields and any(isinstance(k, type) and issubclass(k, BaseException) for k in v.cls.mro):
                return mkstr(v.cls.name, "(", *self.repr_args(v.fields["args"]))
            return mkstr(f"<{v.cls.name} object>")
        if isinstance(v, T):
            return self.libs.text_of_number(self, v)
        if isinstance(v, (list, tuple)):
            o, c = ("[", "]") if isinstance(v, list) else ("(", ")")
            out = [o]
            for i, x in enumerate(v):
                if i:
                    out.append(", ")
                out.append(self.repr(x))
            if isinstance(v, tuple) and len(v) == 1:
                out.append(",")
            return mkstr(*out, c)
        if isinstance(v, ADict) and v.kind in (None, "dict"):
            out = ["{"]
            for i, (k, x) in enumerate(v.live()):
                if i:
                    out.append(", ")
                out += [self.repr(k), ": ", self.repr(x)]
            return mkstr(*out, "}")
        if isinstance(v, ASet) and not v.frozen and v.d.live():
            out = ["{"]
            for i, k in enumerate(self.iterate(v)):
                if i:
                    out.append(", ")
                out.append(self.repr(k))
            return mkstr(*out, "}")
        if isinstance(v, (bool, int, float, type(None), decimal.Decimal, bytes)):
            return repr(v)
        if isinstance(v, ExcVal):
            return mkstr(v.cls.__name__, "(", *self.repr_args(v.args))
        if isinstance(v, ClassInfo):
            return f"<class '{v.module.name}.{v.name}'>"
        if isinstance(v, type):
            return repr(v)
        return SStr((Atom(f"repr {show(v)}", "unknown"),))

    def format(self, v, spec):
        if spec == "":
            return self.str(v)
        if isinstance(v, Obj):
            m = self.type_method(v, "__format__")
            if m is not None:
                return self.call(m, [spec], {})
            return self.str(v)
        if isinstance(v, T) and isinstance(spec, str):
            return SStr((Atom(f"{terms.show(v)}:{spec}", "num", (v, spec)),))
        if isinstance(v, (SStr, Top)) or isinstance(spec, SStr):
            return SStr((Atom(f"{show(v)}:{spec}", "unknown"),))
        try:
            return format(v, spec)
        except (ValueError, TypeError) as e:
            self.raise_(type(e), str(e))

    # -- end ----------------------------------------------------------------

    def cleanup(self):
        for g in self.gens:
            try:
                g.close()
            except BaseException:
                pass
        self.gens = []


def hash_leaves(h):
    """Does the hash depend on more than numbers?"""
    if isinstance(h, T):
        return h.op in ("hash", "id", "key") or any(hash_leaves(x) for x in h.args)
    return not isinstance(h, (bool, int))


class Outcome:
    """Result of one partition."""

    __slots__ = ("kind", "value", "assumptions", "texts", "interp", "steps")

    def __init__(self, kind, value, interp):
        self.kind = kind  # ok, raise, undecided
        self.value = value
        self.assumptions = list(interp.assumptions)
        self.texts = dict(interp.str_assumptions)
        self.interp = interp
        self.steps = interp.steps

    def guards(self):
        out = [f"{terms.show(a)} {o} {terms.show(b)} is {v}" for o, a, b, v in self.assumptions]
        out += [f"{k[1]!r}.{k[0]}({k[2]!r}) is {v}" for k, v in self.texts.items()]
        return out


STATS = {"partitions": 0, "steps": 0, "runs": 0}


def explore(program, fn, max_partitions=64, **kw):
    """All partitions of fn(interp)."""
    out = []
    todo = [[]]
    while todo:
        dec = todo.pop()
        ip = Interp(program, dec, **kw)
        try:
            try:
                o = Outcome("ok", fn(ip), ip)
            except AbsRaise as e:
                o = Outcome("raise", e.exc, ip)
            except Undecided as e:
                o = Outcome("undecided", str(e), ip)
        finally:
            ip.cleanup()
        STATS["partitions"] += 1
        STATS["steps"] += ip.steps
        out.append(o)
        for i in range(len(dec), len(ip.taken)):
            todo.append(ip.taken[:i] + [not ip.taken[i]])
        if len(out) + len(todo) > max_partitions:
            ip.taken = []
            out.append(Outcome("undecided", f"more than {max_partitions} partitions", ip))
            break
    STATS["runs"] += 1
    return out


def in_thread(fn):
    """Run fn in a thread with a large stack."""
    res = {}

    def main():
        try:
            res["v"] = fn()
        except BaseException as e:
            res["e"] = e

    old = threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    threading.stack_size(64 * 1024 * 1024)
    t.join()
    threading.stack_size(old)
    if "e" in res:
        raise res["e"]
    return res["v"]
