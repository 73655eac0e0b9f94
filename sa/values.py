"""Abstract values."""
from __future__ import annotations

from . import terms
from .terms import T


class Undecided(Exception):
    """The analysis cannot decide the current partition."""


class AbsRaise(Exception):
    """The analysed program raises `exc`."""

    def __init__(self, exc):
        self.exc = exc


class Atom:
    """An opaque non-empty piece of text.  Different atoms are different texts
    in general position (neither is a prefix or suffix of the other)."""

    __slots__ = ("name", "kind", "payload")

    def __init__(self, name, kind="ident", payload=None):
        self.name = name
        self.kind = kind
        self.payload = payload

    def __eq__(self, other):
        return (
            isinstance(other, Atom)
            and self.name == other.name
            and self.kind == other.kind
            and self.payload == other.payload
        )

    def __hash__(self):
        return hash((self.name, self.kind))

    def __repr__(self):
        return f"‹{self.name}›"


class SStr:
    """Text with opaque parts."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, other):
        return isinstance(other, SStr) and self.parts == other.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)


def mkstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


def opaque(name, kind="ident"):
    return SStr((Atom(name, kind),))


def parts_of(s):
    if isinstance(s, str):
        return (s,) if s else ()
    return s.parts


def is_str(v):
    return isinstance(v, (str, SStr))


class Top:
    """An unknown value."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"⊤({self.why})"


class Obj:
    """An instance of a class of the analysed program."""

    __slots__ = ("cls", "fields", "native", "frozen")
    counter = 0

    def __init__(self, cls):
        self.cls = cls
        self.fields = {}
        self.native = None  # backing container, for subclasses of list/dict/...

    def __repr__(self):
        return show(self)


class ExcVal:
    """An instance of a built-in exception."""

    __slots__ = ("cls", "args", "fields")

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = tuple(args)
        self.fields = {}

    def __repr__(self):
        return f"{self.cls.__name__}({', '.join(map(show, self.args))})"


class ADict:
    __slots__ = ("keys", "vals", "index", "loose", "buckets", "kind", "default", "ro", "owner")

    def __init__(self, kind="dict"):
        self.keys = []
        self.vals = []
        self.index = {}
        self.loose = []  # positions of keys which need the program's __eq__
        self.buckets = {}  # hash -> positions, as far as "at"
        self.kind = kind
        self.default = None
        self.ro = False
        self.owner = None  # the object of which these are the attributes

    def __repr__(self):
        return "{" + ", ".join(f"{show(k)}: {show(v)}" for k, v in self.live()) + "}"

    def live(self):
        return [(k, v) for k, v in zip(self.keys, self.vals) if k is not DELETED]

    def __len__(self):
        return sum(1 for k in self.keys if k is not DELETED)


class _Deleted:
    def __repr__(self):
        return "<deleted>"


DELETED = _Deleted()


class ASet:
    __slots__ = ("d", "frozen")

    def __init__(self, frozen=False):
        self.d = ADict("set")
        self.frozen = frozen

    def items(self):
        return [k for k, _ in self.d.live()]

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return "{" + ", ".join(show(k) for k in self.items()) + "}"


class View:
    """A live dictionary view."""

    __slots__ = ("d", "what")

    def __init__(self, d, what):
        self.d = d
        self.what = what

    def list(self):
        if self.what == "keys":
            return [k for k, _ in self.d.live()]
        if self.what == "values":
            return [v for _, v in self.d.live()]
        return [(k, v) for k, v in self.d.live()]


class Func:
    __slots__ = ("node", "module", "env", "cls", "name", "attrs", "defaults", "kwdefaults", "locals_", "isgen", "qual")

    def __init__(self, node, module, env, cls, name):
        self.node = node
        self.module = module
        self.env = env
        self.cls = cls
        self.name = name
        self.attrs = {}
        self.defaults = None
        self.kwdefaults = None
        self.locals_ = None
        self.isgen = False
        self.qual = f"{module.name}:{(cls.name + '.') if cls else ''}{name}"

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return f"<bound {self.func!r}>"


class Native:
    """A modelled function: fn(interp, args, kwargs)."""

    __slots__ = ("name", "fn", "attrs")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.attrs = {}

    def __repr__(self):
        return f"<native {self.name}>"


class Desc:
    """property / classmethod / staticmethod / cached_property wrappers"""

    __slots__ = ("kind", "fget", "fset", "name", "fdel")

    def __init__(self, kind, fget, fset=None, name=None, fdel=None):
        self.fdel = fdel
        self.kind = kind
        self.fget = fget
        self.fset = fset
        self.name = name

    def __repr__(self):
        return f"<{self.kind} {self.fget!r}>"


class Super:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ExtModule:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<external module {self.name}>"


class ExtClass:
    """A class of an external library."""

    def __init__(self, name, bases=(), make=None):
        self.name = name
        self.bases = bases
        self.make = make

    def __repr__(self):
        return f"<external class {self.name}>"


class ExtObj:
    """An instance of an external class with modelled attributes."""

    def __init__(self, cls, **attrs):
        self.cls = cls
        self.attrs = attrs

    def __repr__(self):
        return f"<{self.cls.name} object>"


class Iter:
    """An iterator: wraps a Python iterator of abstract values."""

    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


_depth = 0


def show(v, depth=0) -> str:
    global _depth
    if _depth > 4 or depth > 6:
        return "…"
    _depth += 1
    try:
        s = _show(v, depth)
    finally:
        _depth -= 1
    return s if len(s) < 3000 else s[:3000] + "…"


def _show(v, depth) -> str:
    if isinstance(v, Obj):
        flds = ", ".join(f"{k}={show(x, depth + 2)}" for k, x in v.fields.items() if not k.startswith("_cached"))
        return f"{v.cls.name}({flds})"
    if isinstance(v, T):
        return terms.show(v)
    if isinstance(v, (list, tuple)):
        b = "[]" if isinstance(v, list) else "()"
        return b[0] + ", ".join(show(x, depth + 1) for x in v) + b[1]
    if isinstance(v, SStr):
        return f"“{v!r}”"
    return repr(v)
