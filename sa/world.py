"""Abstract scenarios over the public interface of the analysed package, and
the meaning which the properties give to a unit (the oracle).

A *spec* is the checker's own tree of a unit expression.  Names and numbers in
it are opaque: one scenario stands for every choice of them.
"""
from __future__ import annotations

import dataclasses
import math
from fractions import Fraction

from . import terms, values
from .interp import AbsRaise, Interp, Outcome, PKG, Program, Undecided, explore
from .values import Atom, ExcVal, Obj, SStr, Top, mkstr, opaque, show


@dataclasses.dataclass(frozen=True)
class Spec:
    def children(self):
        return [getattr(self, f.name) for f in dataclasses.fields(self) if isinstance(getattr(self, f.name), Spec)]

    def walk(self):
        yield self
        for c in self.children():
            yield from c.walk()


@dataclasses.dataclass(frozen=True)
class Num(Spec):
    name: str  # the name of the leaf; or a Python int for a concrete number
    ty: str = "Decimal"

    def term(self):
        if isinstance(self.name, int):
            return terms.const(self.name, "int")
        return terms.sym(self.name, self.ty)

    def __str__(self):
        return str(self.name)


@dataclasses.dataclass(frozen=True)
class Id(Spec):
    name: str
    prefix: str = ""

    def __str__(self):
        return (self.prefix + "·" if self.prefix else "") + self.name


@dataclasses.dataclass(frozen=True)
class Mul(Spec):
    a: Spec
    b: Spec

    def __str__(self):
        return f"({self.a}*{self.b})"


@dataclasses.dataclass(frozen=True)
class Div(Spec):
    a: Spec
    b: Spec

    def __str__(self):
        return f"({self.a}/{self.b})"


@dataclasses.dataclass(frozen=True)
class Pow(Spec):
    a: Spec
    n: Num

    def __str__(self):
        return f"{self.a}^{self.n}"


@dataclasses.dataclass(frozen=True)
class Log(Spec):
    fn: str
    a: Spec

    def __str__(self):
        return f"{self.fn}(re {self.a})"


@dataclasses.dataclass(frozen=True)
class Shift(Spec):
    a: Spec
    c: Spec

    def __str__(self):
        return f"({self.a} @ {self.c})"


@dataclasses.dataclass(frozen=True)
class Stamp(Spec):
    """A timestamp."""

    name: str

    def __str__(self):
        return f"<{self.name}>"


@dataclasses.dataclass(frozen=True)
class Empty(Spec):
    def __str__(self):
        return "''"


@dataclasses.dataclass(frozen=True)
class Base:
    dimless: bool = False
    time: bool = False
    symbol: bool = False  # has a symbol and no name


@dataclasses.dataclass(frozen=True)
class Def:
    spec: Spec


@dataclasses.dataclass(frozen=True)
class Pre:
    pass


BASES = {"2": 2.0, "10": 10.0}
LOG_BASE = {"lb": 2.0, "lg": 10.0, "log": 10.0, "ln": math.e}

#: The usual world: base units m, s (time), g, the dimensionless base r,
#: prefix k, and definitions.
ENV = {
    "m": Base(),
    "s": Base(time=True),
    "g": Base(),
    "r": Base(dimless=True),
    "k": Pre(),
}


class World:
    """The analysed package in an abstract scenario."""

    def __init__(self, ip: Interp, env=None, lazy=True):
        self.ip = ip
        self.env = env if env is not None else ENV
        self.specs = {}  # text -> spec
        self.counter = 0
        self.graph = {}
        parse = self.attr("._grammar", "parse")
        ip.hooks[id(parse.node)] = self._parse
        self.lazy = lazy
        self.system = None
        self.basis = {}

    # -- access to the program
    def attr(self, mod, name):
        return self.ip.from_import(PKG + mod if mod.startswith(".") else PKG, name)

    def call(self, fn, *a, **kw):
        return self.ip.call(fn, list(a), kw)

    def m(self, obj, name, *a, **kw):
        return self.ip.call(self.ip.getattr(obj, name), list(a), kw)

    def _parse(self, ip, f, args, kw):
        text = args[0] if args else next(iter(kw.values()))
        if not values.is_str(text):
            raise Undecided(f"parse of {show(text)}")
        if text in self.specs:
            return self.node(self.specs[text])
        if isinstance(text, str):
            from . import refparse

            d = refparse.read(text)
            if d is None:
                ip.raise_(SyntaxError, f"{text!r} is no unit text")
            return self.denoted(d)
        raise Undecided(f"parse of unexpected text {show(text)}")

    def denoted(self, d):
        """The expression node of what the reference reader read."""
        k = d[0]
        if k == "id":
            return self.call(self.g("Identifier"), d[1])
        if k == "num":
            from . import refparse

            v = refparse.value(d[1], d[2])
            if d[2] != "dec":
                v = int(v)
            return self.call(self.g("Number"), v, raw_content=d[1])
        if k == "raw":
            return self.call(self.g("Unhandled"), d[1])
        if k == "log":
            return self.call(self.g("Logarithm"), d[1], self.denoted(d[2]))
        return self.call(self.g({"*": "Multiply", "/": "Divide", "^": "Raise", "@": "Shift"}[k]), self.denoted(d[1]), self.denoted(d[2]))

    def g(self, name):
        if name not in self.graph:
            self.graph[name] = self.attr("._expr.graph", name)
        return self.graph[name]

    def node(self, s: Spec):
        """The expression node of a spec."""
        if not isinstance(s, Spec):
            return s.fn()
        if isinstance(s, Num):
            if isinstance(s.name, int):
                return self.call(self.g("Number"), s.name, raw_content=str(s.name))
            return self.call(
                self.g("Number"), s.term(), raw_content=SStr((Atom(f"raw {s.name}", "num", (s.term(), "raw")),))
            )
        if isinstance(s, Id):
            return self.call(self.g("Identifier"), self.ident(s))
        if isinstance(s, Mul):
            return self.call(self.g("Multiply"), self.node(s.a), self.node(s.b))
        if isinstance(s, Div):
            return self.call(self.g("Divide"), self.node(s.a), self.node(s.b))
        if isinstance(s, Pow):
            return self.call(self.g("Raise"), self.node(s.a), self.node(s.n))
        if isinstance(s, Log):
            return self.call(self.g("Logarithm"), s.fn, self.node(s.a))
        if isinstance(s, Shift):
            return self.call(self.g("Shift"), self.node(s.a), self.node(s.c))
        if isinstance(s, Stamp):
            return self.call(self.g("Unhandled"), opaque(s.name, "text"))
        if isinstance(s, Empty):
            return self.call(self.g("Unhandled"), "")
        raise TypeError(s)

    def ident(self, s: Id):
        if s.prefix:
            return mkstr(opaque(s.prefix), opaque(s.name))
        return opaque(s.name)

    def text(self, s: Spec):
        t = opaque(f"text {s}", "text")
        self.specs[t] = s
        return t

    # -- the unit system
    def build(self):
        us = self.call(self.attr("", "UnitSystem"))
        self.system = us
        for name, d in self.env.items():
            if isinstance(d, Pre):
                self.m(us, "add_prefix", self.prefix(name))
            else:
                self.m(us, "add_unit", self.unit_def(name, d))
        return us

    def prefix(self, name):
        P = self.attr("._unit_reference", "Prefix")
        return self.call(P, opaque(name), opaque(f"value of {name}", "declit"))

    def ref(self, name, symbol=False):
        R = self.attr("._unit_reference", "UnitReference")
        N = self.attr("._unit_reference", "Name")
        if symbol:
            return self.call(R, symbols=(opaque(name),))
        return self.call(R, name=self.call(N, singular=opaque(name)))

    def unit_def(self, name, d):
        if isinstance(d, Base):
            u = self.call(
                self.attr("", "BasisUnit"),
                names=self.ref(name, d.symbol),
                dimensionless=d.dimless,
                is_time_unit=d.time,
            )
            self.basis[name] = u
            return u
        return self.call(
            self.attr("._unit_system", "LazilyDefinedUnit"),
            unit_system=self.system,
            definition=self.text(d.spec),
            names=self.ref(name),
        )

    def unit(self, s: Spec):
        if self.system is None:
            self.build()
        return self.m(self.system, "unit", self.text(s))

    def converter(self, a, b):
        return self.call(self.attr("", "Converter"), a, b)

    def exc_name(self, e):
        return exc_name(e)


def exc_name(e):
    if isinstance(e, ExcVal):
        return e.cls.__name__
    return e.cls.name if isinstance(e, Obj) else repr(e)


def exc_is(e, *names):
    """Is the exception an instance of a class of one of these names?"""
    if isinstance(e, ExcVal):
        return any(k.__name__ in names for k in e.cls.__mro__)
    if isinstance(e, Obj):
        return any((k.__name__ if isinstance(k, type) else getattr(k, "name", "")) in names for k in e.cls.mro)
    return False


# --- the meaning of a spec at a sample point ---------------------------------


class Oracle:
    """Meaning of specs for given values of the leaves."""

    one = 1.0

    def __init__(self, env, leaf):
        self.defs = env
        self.leaf = leaf  # term -> float

    def num(self, n):
        return terms.evaluate(n.term(), self.leaf)

    def prefix(self, name):
        return self.leaf(terms.sym(f"val(value of {name})", "Decimal"))

    def dims(self, s):
        """{base: exponent}"""
        if isinstance(s, (Num, Empty)):
            return {}
        if isinstance(s, Id):
            d = self.defs[s.name]
            if isinstance(d, Base):
                return {} if d.dimless else {s.name: 1.0}
            return self.dims(d.spec)
        if isinstance(s, (Mul, Div)):
            r = dict(self.dims(s.a))
            k = 1 if isinstance(s, Mul) else -1
            for b, e in self.dims(s.b).items():
                r[b] = r.get(b, 0) + k * e
            return {b: e for b, e in r.items() if abs(e) > 1e-9}
        if isinstance(s, Pow):
            n = self.num(s.n)
            return {b: e * n for b, e in self.dims(s.a).items() if abs(e * n) > 1e-9}
        if isinstance(s, (Log, Shift)):
            return self.dims(s.a)
        raise TypeError(s)

    def factor(self, s):
        if isinstance(s, Empty):
            return self.one
        if isinstance(s, Num):
            return self.num(s)
        if isinstance(s, Id):
            d = self.defs[s.name]
            p = self.prefix(s.prefix) if s.prefix else self.one
            if isinstance(d, Base):
                return p
            return p * self.factor(d.spec)
        if isinstance(s, Mul):
            return self.factor(s.a) * self.factor(s.b)
        if isinstance(s, Div):
            return self.factor(s.a) / self.factor(s.b)
        if isinstance(s, Pow):
            r = self.factor(s.a) ** self.num(s.n)
            if isinstance(r, complex):
                raise terms.EvalError("complex")
            return r
        if isinstance(s, Shift):  # an inner shift has no influence
            return self.factor(s.a)
        raise TypeError(s)

    def root(self, s):
        """The outermost operation, names resolved."""
        while isinstance(s, Id) and not s.prefix and isinstance(self.defs[s.name], Def):
            s = self.defs[s.name].spec
        return s

    def to_base(self, s, v):
        s = self.root(s)
        if isinstance(s, Shift):
            return self.to_base(s.a, v + self.num(s.c))
        if isinstance(s, Log):
            return self.to_base(s.a, LOG_BASE[s.fn] ** v)
        return v * self.factor(s)

    def from_base(self, s, x):
        s = self.root(s)
        if isinstance(s, Shift):
            return self.from_base(s.a, x) - self.num(s.c)
        if isinstance(s, Log):
            y = self.from_base(s.a, x)
            if y <= 0:
                raise terms.EvalError("log of non-positive")
            return math.log(y) / math.log(LOG_BASE[s.fn])
        return x / self.factor(s)

    @staticmethod
    def same(d1, d2):
        return d1.keys() == d2.keys() and all(abs(d1[k] - d2[k]) < 1e-9 for k in d1)

    def convertible(self, a, b):
        da, db = self.dims(a), self.dims(b)
        if self.same(da, db):
            return "direct"
        if self.same({k: -e for k, e in da.items()}, db):
            return "inverse"
        return None

    def convert(self, a, b, v):
        how = self.convertible(a, b)
        x = self.to_base(a, v)
        if how == "inverse":
            x = 1 / x
        return self.from_base(b, x)


class Exact(Oracle):
    """The same in exact rational arithmetic (terms.NotExact for logarithms)."""

    one = Fraction(1)

    def num(self, n):
        return terms.exact(n.term(), self.leaf)

    def prefix(self, name):
        return Fraction(super().prefix(name))

    def to_base(self, s, v):
        if isinstance(self.root(s), Log):
            raise terms.NotExact
        return super().to_base(s, v)

    def from_base(self, s, x):
        if isinstance(self.root(s), Log):
            raise terms.NotExact
        return super().from_base(s, x)


def far(t, env, oracle, a, b, v):
    """Does t differ from the conversion of v in exact arithmetic?"""
    try:
        want = Exact(oracle.defs, env).convert(a, b, terms.exact(v, env))
        got = terms.exact(t, env)
        return abs(got - Fraction(want)) > Fraction(1, 10**11) * max(abs(got), abs(Fraction(want)))
    except (terms.NotExact, terms.EvalError, ZeroDivisionError, OverflowError, ValueError):
        return False


def close(x, y, tol=1e-7):
    return abs(x - y) <= tol * max(abs(x), abs(y), 1e-9)


def spec_leaves(*specs, env=None):
    out = []
    seen = set()

    def go(s):
        for x in s.walk():
            if isinstance(x, Num) and not isinstance(x.name, int):
                out.append(x.term())
            if isinstance(x, Id):
                if x.prefix:
                    out.append(terms.sym(f"val(value of {x.prefix})", "Decimal"))
                d = (env or {}).get(x.name)
                if isinstance(d, Def) and x.name not in seen:
                    seen.add(x.name)
                    go(d.spec)

    for s in specs:
        go(s)
    return out


def sym_dims(s, env):
    """{base: exponent term}"""
    if isinstance(s, Id):
        d = env[s.name]
        if isinstance(d, Base):
            return {} if d.dimless else {s.name: terms.const(1)}
        return sym_dims(d.spec, env)
    if isinstance(s, (Mul, Div)):
        r = dict(sym_dims(s.a, env))
        for b, e in sym_dims(s.b, env).items():
            e = e if isinstance(s, Mul) else terms.neg(e)
            r[b] = terms.add(r[b], e) if b in r else e
        return r
    if isinstance(s, Pow):
        return {b: terms.mul(e, s.n.term()) for b, e in sym_dims(s.a, env).items()}
    if isinstance(s, (Log, Shift)):
        return sym_dims(s.a, env)
    return {}


def critical(env, *specs):
    """Lists of guards at which the dimensionality of one of the specs, or of
    two of them together, is special: exponents zero, one, minus one or large,
    all equal or all opposite.  Code which treats these points wrongly need not
    have a guard there."""
    out = []
    ds = [sym_dims(s, env) for s in specs]

    def guards(pairs):
        r = [("==", a, b, True) for a, b in pairs if a != b]
        if any(not terms.leaves(a) and not terms.leaves(b) for _, a, b, _v in r):
            return  # two different numbers
        if r:
            out.append(r)

    zero = terms.const(0)
    for i, a in enumerate(ds):
        for b in ds[i + 1 :]:
            keys = sorted(set(a) | set(b))
            guards([(a.get(k, zero), b.get(k, zero)) for k in keys])
            guards([(a.get(k, zero), terms.neg(b.get(k, zero))) for k in keys])
    for d in ds:
        free = [k for k in sorted(d) if terms.leaves(d[k])]
        for k in free:
            for v in (0, 1, -1):
                guards([(d[k], terms.const(v))])
                guards([(d[j], terms.const(v if j == k else 0)) for j in sorted(d)])
    return out


_PROGRAM = None


def program():
    global _PROGRAM
    if _PROGRAM is None:
        _PROGRAM = Program()
    return _PROGRAM
