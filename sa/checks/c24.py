"""C24: units are immutable and answers are repeatable."""
import ast

from .. import terms
from ..convert import V
from ..core import Ob, guards, path_of
from ..interp import AbsRaise
from ..shapes import *  # noqa: F403
from ..values import ADict, ASet, Obj, is_str, show
from ..world import Base, Def, Div, Empty, Id, Log, Mul, Num, Pow, Shift, Stamp, World, exc_name, explore, program

RULE = (
    "Abstract interpretation of histories of queries on units, converters and a unit system with opaque names and numbers: "
    "every query is asked alone in a new process, and again inside histories in which all the queries are asked in several "
    "orders, repeatedly, of retained and of newly made units, on one and on two unit systems which define the same names "
    "differently, and with every mutable object that a query returned changed by its receiver. Each answer (text, "
    "dimensionality, truth value, converted value as a term, or exception) must be the one given alone. One obligation per "
    "history and query."
)
ASSUMPTIONS = ["the histories are orders of a fixed set of queries over one family of units", "opaque numbers are in general position: two of them are never equal"]
FLOOR = 300

ENV1 = dict(DEFS)  # noqa: F405
ENV1.update(
    {
        "x": Base(symbol=True),
        "L": Def(Log("lg", Mul(Num("Ln"), M))),  # noqa: F405
        "h": Def(Mul(Num("hn"), S)),  # noqa: F405
        "o": Def(Id("c")),
        "dd": Def(Mul(Num("ddn"), Id("d"))),
    }
)
#: the same names with other meanings
ENV2 = dict(ENV1)
ENV2.update(
    {
        "d": Def(Mul(Num("dn2"), S)),  # noqa: F405
        "c": Def(Mul(Num("cn2"), M)),  # noqa: F405
        "L": Def(Log("ln", M)),  # noqa: F405
        "r": Base(),
        "x": Def(Pow(M, Num(3, "int"))),  # noqa: F405
        "h": Def(Div(Num("hn2"), S)),  # noqa: F405
        "z": Base(dimless=True),
    }
)

UNITS = {
    "m": M, "s": S, "r": R, "x": Id("x"), "d": Id("d"), "dd": Id("dd"), "c": Id("c"), "o": Id("o"), "kd": Id("kd"), "km": Id("m", prefix="k"), "h": Id("h"),  # noqa: F405
    "L": Id("L"), "q": Id("q"), "w": Id("w"), "z": Id("z"), "a": Id("a"), "n": Num("n1"), "n*m": Mul(Num("n1"), M), "m/s": Div(M, S), "s/m": Div(S, M),  # noqa: F405
    "d*h": Mul(Id("d"), Id("h")), "m@n": Shift(M, Num("n2")), "d@n": Shift(Id("d"), Num("n2")), "lg(d)": Log("lg", Id("d")), "d^2": Pow(Id("d"), Num(2, "int")), "r*d": Mul(R, Id("d")),  # noqa: F405
    "date": Shift(S, Stamp("stamp")), "date of h": Shift(Id("h"), Stamp("stamp")), "''": Empty(),  # noqa: F405
}
PAIRS = [
    ("m", "d"), ("d", "m"), ("d", "dd"), ("dd", "kd"), ("c", "d"), ("d", "c"), ("o", "c"), ("m", "L"), ("L", "d"), ("q", "q"), ("w", "s"), ("s", "w"), ("h", "s"), ("w", "h"),
    ("m/s", "s/m"), ("s/m", "m/s"), ("n*m", "m"), ("km", "n*m"), ("m@n", "d@n"), ("m", "m@n"), ("lg(d)", "m"), ("d", "lg(d)"), ("a", "r"), ("r*d", "m"), ("n", "z"), ("z", "a"),
    ("d^2", "d"), ("m", "s"), ("d", "h"), ("date", "date of h"), ("date", "s"), ("s", "date"), ("''", "n"), ("r", "''"), ("d*h", "m"), ("c", "L"),
]
SINGLE = ["str", "repr", "expanded", "dimensionality", "is_dimensionless", "is_time_unit", "again", "dimensionality kept"]
DOUBLE = ["convertible", "equal", "different", "convert", "kept"]


def canon(ip, v):
    """The answer as text, without identities."""
    if isinstance(v, Obj):
        if v.cls.name == "Dimensionality":
            items = ip.call(ip.getattr(v, "items"), [], {})
            return "{" + ", ".join(sorted(f"{show(ip.str(k))}: {show(e)}" for k, e in ((ip.iterate(p)) for p in ip.iterate(items)))) + "}"
        return f"a {v.cls.name}: {show(ip.str(v))}"
    if is_str(v):
        return show(v)
    t = terms.lift(v) if not isinstance(v, bool) else None
    return terms.show(t) if t is not None else show(v)


class State:
    def __init__(self, ip, env, specs=None):
        self.ip = ip
        ip.generic = True
        self.w = World(ip, env)
        if specs is not None:
            self.w.specs = specs
        self.w.build()
        self.kept = {}
        self.conv = {}

    def unit(self, n, new):
        if new or n not in self.kept:
            self.kept[n] = self.w.unit(UNITS[n])
        return self.kept[n]

    def answer(self, q, new=False, wreck=False):
        ip, w = self.ip, self.w
        try:
            kind = q[0]
            a = self.unit(q[1], new)
            if kind in ("str", "repr", "expanded", "dimensionality", "is_dimensionless", "is_time_unit"):
                r = ip.str(a) if kind == "str" else ip.repr(a) if kind == "repr" else w.m(a, kind)
                if kind == "repr":
                    return "text" if is_str(r) else show(r)
                c = canon(ip, r)
                if wreck:
                    self.wreck(r)
                return c
            if kind == "dimensionality kept":  # an earlier answer, asked again
                if new or q not in self.conv:
                    self.conv[q] = w.m(a, "dimensionality")
                d = self.conv[q]
                c = canon(ip, d)
                for n in ("inverted", "items", "keys", "values", "__str__", "__repr__", "__len__"):
                    ip.call(ip.getattr(d, n), [], {})
                ip.truth(ip.compare(ast.Eq(), d, w.m(self.unit("m", False), "dimensionality")))
                ip.truth(ip.compare(ast.Eq(), d, ADict()))
                return c
            if kind == "again":  # the whole text once more through the unit system
                return canon(ip, w.m(w.unit(UNITS[q[1]]), "expanded"))
            b = self.unit(q[2], new)
            if kind == "convertible":
                return canon(ip, w.m(a, "is_convertible_to", b))
            if kind == "equal":
                return canon(ip, ip.truth(ip.compare(ast.Eq(), a, b)))
            if kind == "different":
                return canon(ip, ip.truth(ip.compare(ast.NotEq(), a, b)))
            if kind == "convert":
                return canon(ip, w.m(w.converter(a, b), "convert", V))
            # a converter which is kept
            if new or q not in self.conv:
                self.conv[q] = w.converter(a, b)
            w.m(self.conv[q], "convert", terms.sym("other value", "float"))
            return canon(ip, w.m(self.conv[q], "convert", V))
        except AbsRaise as e:
            return f"raises {exc_name(e.exc)}"

    def wreck(self, r):
        """The receiver changes what it got, as far as its interface lets it."""
        ip = self.ip
        todo = [r]
        if isinstance(r, Obj):
            for n in ("items", "keys", "values", "inverted"):
                try:
                    todo.append(ip.call(ip.getattr(r, n), [], {}))
                except AbsRaise:
                    pass
        for v in todo:
            if isinstance(v, ADict):
                for k in list(v.keys()):
                    ip.dict_set(v, k, 99)
            elif isinstance(v, list):
                del v[:]
            elif isinstance(v, Obj):
                for name, args in (("__setitem__", [self.unit("m", False), 99]), ("clear", []), ("pop", [self.unit("m", False)]), ("update", [ADict()])):
                    try:
                        ip.call(ip.getattr(v, name), args, {})
                    except AbsRaise:
                        pass
            elif isinstance(v, ASet):
                try:
                    ip.call(ip.getattr(v, "clear"), [], {})
                except AbsRaise:
                    pass


ALONE = {}


def alone(which, q):
    """The answer to a query asked first thing."""
    if (which, q) not in ALONE:
        env = (ENV1, ENV2)[which]
        outs = explore(program(), lambda ip: State(ip, env).answer(q), 8)
        o = outs[0]
        ALONE[which, q] = (o.value if len(outs) == 1 and o.kind == "ok" else None, "; ".join(str(x.value) for x in outs))
    return ALONE[which, q]


def questions():
    qs = [(k, u) for u in UNITS for k in SINGLE]
    qs += [(k, a, b) for a, b in PAIRS for k in DOUBLE]
    return qs


def order(qs, how):
    n = len(qs)
    if how == "forward":
        return qs
    if how == "reverse":
        return qs[::-1]
    if how == "by kind":
        return sorted(qs, key=lambda q: (SINGLE + DOUBLE).index(q[0]))
    if how == "by kind, reverse":
        return sorted(qs, key=lambda q: -(SINGLE + DOUBLE).index(q[0]))
    k = int(how)  # a stride through all
    return [qs[(i * k) % n] for i in range(n)]


def strides(n):
    import math

    return [k for k in (7, 11, 13, 17, 19, 23, 29, 31, 37, 41) if math.gcd(k, n) == 1]


def pick(qs, part):
    """The questions on some of the units, so that one wrong answer does not hide others"""
    if part is None:
        return qs
    names = list(UNITS)
    keep = set(names[part::3])
    return [q for q in qs if set(q[1:]) & keep]


def check(key, how, rounds, new, wreck, part, two):
    qs = order(pick(questions(), part), how)
    seen = []

    def scenario(ip):
        st = [State(ip, ENV1)]
        if two:
            st.append(State(ip, ENV2, st[0].w.specs))
        got = []
        for r in range(rounds):
            for q in qs:
                for i, s in enumerate(st):
                    got.append((i, q, r, s.answer(q, new, wreck)))
        return got

    obs = []
    outs = explore(program(), scenario, 6)
    for n, o in enumerate(outs):
        where = path_of(o)
        if o.kind != "ok":
            obs.append(Ob(f"{key}#{n}", "undecided", f"{show(o.value)}{guards(o)}", where))
            continue
        bad = {}
        for i, q, r, a in o.value:
            want, why = alone(i, q)
            k = f"{key}: {i + 1} {' '.join(q)}"
            if want is None:
                bad.setdefault(k, ("undecided", f"asked alone: {why}"))
            elif a != want:
                bad[k] = ("violation", f"{' '.join(q)} answers {a} in round {r + 1} of the queries in the order '{how}', and {want} when asked alone{guards(o)}") if k not in bad or bad[k][0] != "violation" else bad[k]
            else:
                bad.setdefault(k, ("ok", f"answers {a} each time"))
        obs += [Ob(k, s, d, where if s == "violation" else "") for k, (s, d) in bad.items()]
    return obs


def tasks(tier):
    n = len(questions())
    hows = ["forward", "reverse", "by kind", "by kind, reverse"] + [str(k) for k in strides(n)[: 8 if tier == "thorough" else 2]]
    for how in hows:
        for part in (0, 1, 2) if tier == "quick" else (None, 0, 1, 2):
            for new in (False, True):
                for wreck, two in ((False, False), (True, False), (False, True)) if tier == "thorough" else ((False, True),) if new else ((True, False),):
                    yield f"{how}{', new units' if new else ''}{', answers changed' if wreck else ''}{', two systems' if two else ''}{f', part {part}' if part is not None else ''}", check, (how, 2, new, wreck, part, two)
