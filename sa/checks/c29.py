"""C29: expanding a unit substitutes definitions and nothing else."""
import itertools

from ..core import Ob, path_of
from ..interp import AbsRaise
from ..shapes import dedupe
from ..values import ADict, Atom, SStr, is_str, opaque, show
from ..world import Base, Def, Div, Empty, Id, Log, Mul, Num, Pow, Shift, Stamp, World, exc_name, explore, program
from .c15 import judge, leaves_of, merge

RULE = (
    "Abstract interpretation of expanded() on unit systems with opaque names, numbers and prefix values, in which every kind of "
    "unit (base unit by name or by symbol only, lazily defined unit, constructed NamedUnit, constructed Unit) is referred to in "
    "every way (name, plural, symbols, alias, alias plural, alias symbol, prefixed) from every position of every operator, "
    "through chains of definitions. The text derived is instantiated with numbers and names and read with the checker's own "
    "reader of the grammar: it must denote the definition with every identifier replaced by the expanded form of its unit, the "
    "same operators, operand order, numbers, function names and shifts, base units spelled by their own reference. The unit's "
    "text and a second expansion must be unaffected by queries in between. One obligation per unit, history and spelling class."
)
ASSUMPTIONS = ["products are compared up to regrouping"]
FLOOR = 300

#: the ways to refer to a unit, by suffix
HOW = ("", "_p", "_s", "_s2", "_a", "_ap", "_b")
PREFIXES = ("k", "h")


def rf(name, prefix=""):
    return Id(name, prefix=prefix)


DEFS = {
    "m": Base(),
    "y": Base(symbol=True),
    "t": Base(time=True),
    "r": Base(dimless=True),
    "d": Def(Mul(Num("dn"), rf("m_p"))),
    "c": Def(Shift(rf("m_s"), Num("cn"))),
    "l": Def(Log("lg", Mul(Num("ln1"), rf("m_b")))),
    "q": Def(Pow(Div(rf("d_a"), rf("t_s2")), Num(2, "int"))),
    "f": Def(Div(rf("y_s2"), rf("d_s", "k"))),
    "z": Def(Num("zn")),
    "a": Def(rf("f_ap")),
    "e": Def(Mul(Mul(rf("q_b"), rf("a_p", "k_s")), Pow(rf("z_s"), Num("ep", "int")))),
    "j": Def(Div(Num("jn"), Mul(rf("d", "h"), Div(rf("d_p"), rf("d_s", "h_s"))))),
    "o": Def(Empty()),
}
KINDS = {"lazy": (), "named": ("d", "c", "l", "q", "z", "a"), "mixed": ("d", "f")}


def owner(name):
    return name.partition("_")[0]


class RefWorld(World):
    """Every unit has every kind of reference; some are constructed."""

    def __init__(self, ip, env, named=()):
        super().__init__(ip, env)
        self.named = named

    def prefix(self, name):
        P = self.attr("._unit_reference", "Prefix")
        return self.call(P, opaque(name), opaque(f"value of {name}", "declit"), (opaque(f"{name}_s"), opaque(f"{name}_s2")))

    def build(self):
        us = super().build()
        for p in PREFIXES:
            self.m(us, "add_prefix", self.prefix(p))
        return us

    def ref(self, name, symbol=False):
        R = self.attr("._unit_reference", "UnitReference")
        N = self.attr("._unit_reference", "Name")
        o = lambda x: opaque(f"{name}{x}")  # noqa: E731
        kw = {} if symbol else {"name": self.call(N, singular=o(""), plural=o("_p"))}
        return self.call(
            R, **kw, symbols=(o("_s"), o("_s2")), alias_names=(self.call(N, singular=o("_a"), plural=o("_ap")),), alias_symbols=(o("_b"),)
        )

    def unit_def(self, name, d):
        if isinstance(d, Def) and name in self.named:
            return self.construct(d.spec, "NamedUnit", names=self.ref(name))
        return super().unit_def(name, d)

    def construct(self, s, cls, **kw):
        """The unit object for a spec, without the unit system."""
        refs = ADict()
        for x in s.walk():
            if isinstance(x, Id):
                if x.prefix:
                    # a constructed definition names prefix and unit apart
                    self.ip.dict_set(refs, self.call(self.g("Identifier"), opaque(x.prefix)), self.prefix(owner(x.prefix)))
                n = opaque(x.name)
                self.ip.dict_set(refs, self.call(self.g("Identifier"), n), self.m(self.system, "unit_by_name_or_symbol", n))
        return self.call(self.attr("", cls), definition=self.node(apart(s)), identifier_references=refs, **kw)


def apart(s):
    """Prefixed identifiers as products."""
    if isinstance(s, Id):
        return Mul(Id(s.prefix), Id(s.name)) if s.prefix else s
    if isinstance(s, (Mul, Div)):
        return type(s)(apart(s.a), apart(s.b))
    if isinstance(s, Pow):
        return Pow(apart(s.a), s.n)
    if isinstance(s, Log):
        return Log(s.fn, apart(s.a))
    if isinstance(s, Shift):
        return Shift(apart(s.a), s.c)
    return s


def den(s, env):
    """The denotation of the expanded form."""
    if isinstance(s, Num):
        if isinstance(s.name, int):
            return ("num", str(s.name), "int")
        return ("num", SStr((Atom(s.name, "lit"),)), "int" if s.ty == "int" else "dec")
    if isinstance(s, Empty):
        return ("num", "1", "int")
    if isinstance(s, Id):
        if owner(s.name) in PREFIXES:
            return ("num", SStr((Atom(f"value of {owner(s.name)}", "lit"),)), "dec")
        o = owner(s.name)
        d = env[o]
        if isinstance(d, Base):
            r = ("id", SStr((Atom(f"{o}_s" if d.symbol else o),)))
        else:
            r = den(d.spec, env)
        if s.prefix:
            r = ("*", ("num", SStr((Atom(f"value of {owner(s.prefix)}", "lit"),)), "dec"), r)
        return r
    if isinstance(s, (Mul, Div)):
        return ("*" if isinstance(s, Mul) else "/", den(s.a, env), den(s.b, env))
    if isinstance(s, Pow):
        return ("^", den(s.a, env), den(s.n, env))
    if isinstance(s, Log):
        return ("log", s.fn, den(s.a, env))
    if isinstance(s, Stamp):
        return ("raw", SStr((Atom(s.name, "text"),)))
    return ("@", den(s.a, env), den(s.c, env))


def check(key, s, kind, how, history):
    def scenario(ip):
        w = RefWorld(ip, DEFS, KINDS[kind])
        w.build()
        if how == "system":
            u = w.unit(s)
        else:
            u = w.construct(s, "Unit")
        try:
            first = w.m(u, "expanded")
        except AbsRaise as e:
            return e.exc
        if history == "plain":
            return (first,)
        before = ip.str(u)
        for x in (rf("e"), rf("q_s"), rf("d", "k")):
            v = w.unit(x)
            w.m(v, "expanded")
            w.m(v, "dimensionality")
            w.m(u, "is_convertible_to", v)
        w.m(u, "dimensionality")
        return first, w.m(u, "expanded"), before, ip.str(u)

    d = den(s, DEFS)
    leaf = {}
    leaves_of(d, leaf)
    obs = []
    for o in explore(program(), scenario, 32):
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(key, "undecided", str(o.value), where))
            continue
        if o.kind == "raise":
            # which units are refused is the business of C10 and C23
            continue
        if not isinstance(o.value, tuple):
            obs.append(Ob(key, "violation", f"expanded() of {s} raises {exc_name(o.value)} {show(o.value)[:160]}", where))
            continue
        if history != "plain":
            first, again, before, after = o.value
            if first != again:
                obs.append(Ob(key, "violation", f"the second expansion is {show(again)} and the first was {show(first)}", where))
                continue
            if before != after:
                obs.append(Ob(key, "violation", f"the text of the unit becomes {show(after)}, it was {show(before)}", where))
                continue
        for spelling in ("plain", "odd"):
            obs.append(judge(key if spelling == "plain" else f"{key}: odd names", o, "expanded()", o.value[0], d, leaf, {}, spelling))
    return merge(obs)


def check_base(key, symbol):
    """A base unit expands to its own reference, however it is asked for."""
    env = {"b": Base(symbol=symbol)}
    want = opaque("b_s" if symbol else "b")

    def scenario(ip):
        w = RefWorld(ip, env)
        w.build()
        out = []
        for h in HOW:
            if symbol and h in ("", "_p"):
                continue
            u = w.m(w.system, "unit_by_name_or_symbol", opaque("b" + h))
            out.append((h, w.m(u, "expanded"), ip.str(u)))
            out.append((h, w.m(w.unit(rf("b" + h)), "expanded"), None))
        return out

    obs = []
    for n, o in enumerate(explore(program(), scenario, 8)):
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(f"{key}#{n}", "undecided", str(o.value), where))
        elif o.kind == "raise":
            obs.append(Ob(key, "violation", f"raises {exc_name(o.value)} {show(o.value)[:120]}", where))
        else:
            for h, x, t in o.value:
                for v in (x, t):
                    if v is not None and (not is_str(v) or v != want):
                        return [Ob(key, "violation", f"the base unit with reference {show(want)}, referred to as b{h}, expands to {show(v)}", where)]
            obs.append(Ob(f"{key}#{n}", "ok", f"{len(o.value)} references of a base unit expand to {show(want)}", where))
    return obs


def ids():
    for u in DEFS:
        for h in HOW:
            if DEFS[u] == Base(symbol=True) and h in ("", "_p"):
                continue
            yield rf(u + h)


def ops(a, b, n):
    yield Mul(a, b)
    yield Div(a, b)
    yield Pow(a, Num(f"p{n}", "int"))
    yield Shift(a, Num(f"c{n}"))
    yield Log("lg", a)
    yield Mul(Num(f"n{n}"), a)
    yield Div(Num(f"n{n}"), a)
    yield Div(a, Num(f"n{n}"))


SOME = [rf("m_p"), rf("y_s"), rf("d_s"), rf("q_ap"), rf("f"), rf("z_b"), rf("d_p", "k_s2"), rf("m_s", "h"), rf("e_a", "k"), rf("c_s")]


def shapes(tier):
    out = list(ids())
    out += [rf(x.name, p) for x in ids() for p in (("k", "k_s", "h_s2") if tier == "thorough" else ("k_s",)) if owner(x.name) not in ("c", "l")]
    for n, (a, b) in enumerate(itertools.product(SOME, repeat=2)):
        if tier == "thorough" or n % 3 == 0 or a == b:
            out += list(ops(a, b, 1))
    few = [rf("d_s"), rf("m_p", "k"), rf("q_a"), rf("y_b")]
    inner = dedupe([x for a in few for b in few[:3] for x in ops(a, b, 1)])
    step = 1 if tier == "thorough" else 4
    for n, a in enumerate(inner):
        if n % step == 0:
            out += list(ops(a, few[n % 4], 2)) + list(ops(few[n % 3], a, 2))[:2]
    for fn in ("lb", "ln", "log"):
        out += [Log(fn, Mul(Num("n1"), rf("m_s"))), Log(fn, rf("d_b")), Mul(Log(fn, rf("d_b")), Num("n1"))]
    # definitions with an empty definition among them
    o = rf("o_s")
    out += [o, Mul(o, rf("m")), Mul(rf("m"), o), Div(rf("d"), o), Div(o, rf("m")), Pow(o, Num("p1", "int")), Mul(Num("n1"), o)]
    # dates
    for u in (rf("t_s"), rf("t_p", "k"), Mul(Num("n1"), rf("t_a")), Div(Mul(rf("t"), rf("d")), rf("m"))):
        for c in (Stamp("stamp"), Num("c1"), Num("c2", "int")):
            out.append(Shift(u, c))
    return dedupe(out)


def tasks(tier):
    yield "base unit by name", check_base, (False,)
    yield "base unit by symbol", check_base, (True,)
    for n, s in enumerate(shapes(tier)):
        yield f"{s}", check, (s, "lazy", "system", "plain")
        simple = isinstance(s, Id) or any(isinstance(c, Id) for c in s.children())
        if tier == "thorough" or simple and n % 2 == 0:
            yield f"{s}, constructed definitions", check, (s, "named", "system", "plain")
        if (tier == "thorough" or n % 5 == 0) and not (isinstance(s, Shift) and isinstance(s.c, Stamp)):
            yield f"{s}, constructed", check, (s, "mixed", "direct", "plain")
        if tier == "thorough" or n % 4 == 0:
            if not isinstance(s, Shift):
                yield f"{s}, asked twice", check, (s, "lazy", "system", "twice")
