"""C23: bad unit text fails with documented exceptions only."""
import itertools

from ..core import Ob, guards, path_of
from ..interp import AbsRaise
from ..shapes import *  # noqa: F403
from ..trees import Parser
from ..values import opaque, show
from ..world import Base, Def, Div, Empty, Id, Log, Mul, Num, Pow, Shift, Stamp, World, exc_is, exc_name, explore, program
from . import c11, c12

RULE = (
    "Abstract interpretation of UnitSystem.unit and of the queries of its result (str, expanded, dimensionality, is_dimensionless, "
    "is_time_unit, is_convertible_to in both directions against units of every kind) over all expression shapes up to the bound "
    "with opaque names and numbers, with unknown names, date units, logarithms, shifts and powers in every position, and over the "
    "parse of each derivation of the grammar. unit() may only return or raise SyntaxError or ValueError; the queries of a unit may "
    "not raise, except that an expression with several logarithms or shifts may be refused with ValueError. One obligation per expression."
)
ASSUMPTIONS = ["expression shapes are bounded: all of depth 2, and depth 3 over a smaller set", "circular definitions are not considered"]
FLOOR = 400

ENV23 = dict(DEFS)  # noqa: F405
ENV23.update(
    {
        "x": Base(symbol=True),
        "L": Def(Log("lg", Mul(Num("Ln"), M))),  # noqa: F405
        "h": Def(Mul(Num("hn"), S)),  # noqa: F405
        "one": Def(Num(1)),
        "cs": Def(Shift(Id("d"), Num("csn"))),
        "o": Def(Id("c")),
        "bad": Def(Mul(Num("bn"), Id("unknown"))),
        "t": Def(Shift(S, Num("tn"))),  # noqa: F405
        "em": Def(Empty()),
    }
)

QUERIES = ["dimensionality", "is_dimensionless", "is_time_unit", "expanded"]


def ask(ip, w, u, others, several=False):
    """The first query of the unit which raises, or None. A product of several
    logarithms or shifts may be refused with ValueError."""
    for _ in range(2):
        for q in QUERIES:
            try:
                w.m(u, q)
            except AbsRaise as e:
                if several and q != "expanded" and exc_is(e.exc, "ValueError"):
                    continue
                return f"{q}() raises {exc_name(e.exc)} {show(e.exc)[:150]}"
        try:
            ip.str(u)
        except AbsRaise as e:
            return f"str() raises {exc_name(e.exc)} {show(e.exc)[:150]}"
    for n, o in others.items():
        for a, b, t in ((u, o, f"is_convertible_to({n})"), (o, u, f"{n}.is_convertible_to(it)")):
            try:
                w.m(a, "is_convertible_to", b)
            except AbsRaise as e:
                if several and exc_is(e.exc, "ValueError"):
                    continue
                return f"{t} raises {exc_name(e.exc)} {show(e.exc)[:150]}"
    return None


def judge(key, text, outs):
    obs = []
    for n, o in enumerate(outs):
        k = key if len(outs) == 1 else f"{key}#{n}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
        elif o.kind == "raise":
            if exc_is(o.value, "ValueError", "SyntaxError", "UnresolvableUnitException"):
                obs.append(Ob(k, "ok", f"{text}{guards(o)}: unit() raises {exc_name(o.value)}", where))
            else:
                obs.append(Ob(key, "violation", f"{text}{guards(o)}: unit() raises {exc_name(o.value)} {show(o.value)[:150]}", where))
        elif o.value is None:
            obs.append(Ob(k, "ok", f"{text}{guards(o)}: every query answers", where))
        else:
            obs.append(Ob(key, "violation", f"{text}{guards(o)}: {o.value}", where))
    return obs


def check(key, s, plain=False):
    def scenario(ip):
        w = World(ip, ENV23)
        w.build()
        others = {} if plain else {
            "a base unit": w.unit(M),  # noqa: F405
            "a time": w.unit(S),  # noqa: F405
            "a date": w.unit(Shift(S, Stamp("other"))),  # noqa: F405
            "a number": w.unit(Num("on")),
            "a shifted unit": w.unit(Id("c")),
            "a basis unit": w.m(w.system, "unit_by_name_or_symbol", opaque("m")),
        }
        u = w.unit(s)
        others["itself"] = u
        return ask(ip, w, u, others, transforms(s) > 1)

    return judge(key, str(s), explore(program(), scenario, 48))


def check_tree(key, tree, how):
    """The parse of a derivation, with its names registered in some way."""
    names = sorted(set(ids(tree.den)), key=str)

    def scenario(ip):
        ip.extremes = True
        w = World(ip, {})
        us = w.call(w.attr("", "UnitSystem"))
        R, N, B = (w.attr("._unit_reference", "UnitReference"), w.attr("._unit_reference", "Name"), w.attr("", "BasisUnit"))
        for i, n in enumerate(names):
            if how == "unknown" or how == "last unknown" and i == len(names) - 1:
                continue
            kw = {"is_time_unit": True} if how == "time" and i == 0 else {"dimensionless": True} if how == "dimensionless" and i == 0 else {}
            w.m(us, "add_unit", w.call(B, names=w.call(R, name=w.call(N, singular=n)), **kw))
        del ip.hooks[id(w.attr("._grammar", "parse").node)]
        p = Parser(ip, tree)
        del p
        u = w.m(us, "unit", opaque("the text", "text"))
        return ask(ip, w, u, {"itself": u}, transforms(tree.den) > 1)

    return judge(key, f"{tree} ({how})", explore(program(), scenario, 48))


def transforms(d, depth=0):
    """How many logarithms and shifts there are in a specification or reading"""
    if isinstance(d, tuple) and not hasattr(d, "_fields"):
        return (d[:1] in (("log",), ("@",))) + sum(transforms(c, depth) for c in d[1:])
    if isinstance(d, Id):
        e = ENV23.get(d.name)
        return transforms(e.spec, depth + 1) if isinstance(e, Def) and depth < 9 else 0
    if isinstance(d, (Log, Shift)):
        return 1 + transforms(d.a, depth)
    if isinstance(d, (Mul, Div)):
        return transforms(d.a, depth) + transforms(d.b, depth)
    if isinstance(d, Pow):
        return transforms(d.a, depth)
    return 0


def ids(d):
    if not isinstance(d, tuple):
        return
    if d[0] == "id":
        yield d[1]
    for c in d[1:]:
        yield from ids(c)


LEAVES = [
    Num("n1"), Num("i1", "int"), Num(0, "int"), Num(1, "int"), M, S, R, Id("m", prefix="k"), Id("d"), Id("c"), Id("L"), Id("h"), Id("x"), Id("q"), Id("z"), Id("a"), Id("cs"), Id("o"), Id("kd"),  # noqa: F405
    Id("unknown"), Id("unknown", prefix="k"), Id("bad"), Id("t"), Id("c", prefix="k"), Id("L", prefix="k"), Id("em"),
]
FEW = [Num("n2"), M, S, R, Id("c"), Id("L"), Id("unknown"), Id("a")]  # noqa: F405
EXPS = [Num("p1", "int"), Num(2, "int"), Num(0, "int"), Num(1, "int"), Num(-1, "int"), Num(-3, "int")]
ORIGINS = [Num("c1"), Num("c2", "int"), Stamp("stamp"), Num(0, "int")]


def unary(x, full=True):
    for e in EXPS if full else EXPS[:4]:
        yield Pow(x, e)
    for f in ("lg", "ln", "lb", "log") if full else ("lg", "ln"):
        yield Log(f, x)
    for c in ORIGINS if full else ORIGINS[:3]:
        yield Shift(x, c)


HOWS = [("base",), ("base", "time"), ("base",), ("base", "dimensionless"), ("base",), ("unknown",), ("base",), ("base", "last unknown")]


def tasks(tier):
    def one(s, plain=False):
        return str(s), check, (s, plain)

    d0 = LEAVES
    d1 = [y for x in d0 for y in unary(x)] + [op(x, y) for x in d0 for y in (FEW + d0 if tier == "thorough" else FEW) for op in (Mul, Div)]
    d1 = list(dict.fromkeys(d1))
    for s in [Empty()] + d0 + d1:
        yield one(s)
    few1 = [y for x in FEW for y in unary(x, False)] + [op(x, y) for x in FEW for y in FEW[:6] for op in (Mul, Div)]
    few1 = list(dict.fromkeys(few1))
    d2 = [y for x in few1 for y in unary(x, False)]
    d2 += [op(*p) for x in few1 for y in (Num("n3"), M, Id("c")) for p in ((x, y), (y, x)) for op in (Mul, Div)]  # noqa: F405
    if tier == "thorough":
        d2 += [y for x in d1 for y in unary(x)]
        d2 += [op(x, y) for x in few1 for y in few1[::3] for op in (Mul, Div)]
        d2 += [z for x in few1[::2] for y in unary(x, False) for z in unary(y, False)]
    for s in dict.fromkeys(d2):
        yield one(s, tier == "quick")
    # what the parser makes
    for n, (key, tree) in enumerate(trees(tier)):
        for how in ("base", "time", "dimensionless", "unknown", "last unknown") if tier == "thorough" else HOWS[n % 8]:
            yield f"parse of {key}, {how}", check_tree, (tree, how)


def trees(tier):
    seen = set()
    for key, tree, bad in c12.cases("quick"):
        if not bad:
            yield f"literal {key}", tree
    for item in c11.derivations(tier):
        key, tree = item[0], item[1]
        if key not in seen:
            seen.add(key)
            yield key, tree
