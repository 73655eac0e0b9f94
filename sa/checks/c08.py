"""C08: unit equality means same dimension, scale and origin."""
import ast

from .. import terms
from ..core import Ob, guards, path_of
from ..shapes import *
from ..values import show
from ..world import BASES, LOG_BASE, Oracle, Stamp, World, close, exc_name, explore, program, spec_leaves

RULE = (
    "Abstract interpretation of Unit.__eq__ (both operand orders, != included) over pairs of units with opaque names "
    "and numbers, from one and from two unit systems: on every partition the answer must be True when the resolved "
    "definitions have the same base units, scale, and value transformation (origins, logarithms) and False when one of "
    "them differs. Comparison with a non-unit must give False. One obligation per pair and partition."
)
ASSUMPTIONS = [
    "expression shapes are bounded; opaque numbers in general position (of sympy's floats the difference from integers and rationals is modelled, the rounding is not), none of which is a zero factor",
    "pairs which differ only by a dimensionless base unit are not decided (the property leaves them open)",
    "a logarithm or shift under another operation than a shift or logarithm is left to C02-C04",
]
FLOOR = 150

ENVX = dict(DEFS)
ENVX.update(
    {
        "x": Base(symbol=True),
        "d2": Def(Mul(M, Num("dn"))),  # another name of d, written differently
        "d3": Def(Id("d")),
        "c2": Def(Shift(Id("m"), Num("cn"))),
        "cc": Def(Shift(Id("c"), Num("ccn"))),
        "h": Def(Mul(Num("hn"), S)),
        "l": Def(Log("lg", Mul(Num("ln"), M))),
    }
)


def transform(orc, s):
    """The chain of value transformations from the outside in, and the unit below."""
    s = orc.root(s)
    out = []
    while isinstance(s, (Shift, Log)):
        if isinstance(s, Shift):
            c = orc.num(s.c)
            if out and out[-1][0] == "@":
                c += out.pop()[1]
            if abs(c) > 1e-9:
                out.append(("@", c))
        else:
            if any(isinstance(x, Shift) for x in orc.root(s.a).walk()):
                return None, s
            out.append(("log", LOG_BASE[s.fn]))
        s = orc.root(s.a)
    return out, s


def dims_all(orc, s):
    """Like dims, dimensionless base units included."""
    plain = {n: (Base(time=d.time) if isinstance(d, Base) else d) for n, d in orc.defs.items()}
    return Oracle(plain, orc.leaf).dims(s)


def equal(orc, a, b):
    """True, False or None (open)."""
    if not orc.same(orc.dims(a), orc.dims(b)):
        return False
    ta, ra = transform(orc, a)
    tb, rb = transform(orc, b)
    if ta is None or tb is None:
        return None
    if len(ta) != len(tb) or any(x[0] != y[0] or not close(x[1], y[1], 1e-6) for x, y in zip(ta, tb)):
        return False
    if not close(orc.factor(ra), orc.factor(rb), 1e-6):
        return False
    if not orc.same(dims_all(orc, a), dims_all(orc, b)):
        return None
    return True


def check(key, env, a, b, two):
    def scenario(ip):
        w = World(ip, env)
        ua = w.unit(a)
        if two:
            w2 = World(ip, env)
            w2.specs = w.specs
            ub = w2.unit(b)
        else:
            ub = w.unit(b)
        return [ip.truth(ip.compare(ast.Eq(), ua, ub)), ip.truth(ip.compare(ast.Eq(), ub, ua)), ip.truth(ip.compare(ast.NotEq(), ua, ub))]

    obs = []
    outs = explore(program(), scenario, 64)
    leaves = spec_leaves(a, b, env=env)
    for n, o in enumerate(outs):
        k = key if len(outs) == 1 else f"{key}#{n}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value) + guards(o), where))
            continue
        bad, wants = None, []
        for e in terms.sample_envs(o.assumptions, leaves, n=8):
            try:
                wants.append(equal(Oracle(env, e), a, b))
            except (terms.EvalError, ZeroDivisionError, OverflowError):
                continue
        if not wants or None in wants:
            obs.append(Ob(k, "undecided", "open or no sample point" + guards(o), where))
            continue
        # in general position: a coincidence of two opaque numbers at a sample point does not count
        want = all(wants)
        if o.kind == "raise":
            bad = f"raises {exc_name(o.value)} {show(o.value)[:150]}"
        else:
            ab, ba, ne = o.value
            if ab is not want:
                bad = f"== answers {show(ab)}"
            elif ba is not want:
                bad = f"== answers {show(ba)} with the operands exchanged"
            elif ne is want:
                bad = f"!= answers {show(ne)}"
        if bad:
            bad += f", but the units are {'equal' if want else 'different'}"
        if bad:
            obs.append(Ob(key, "violation", f"{a} and {b}{guards(o)}: {bad}", where))
        else:
            obs.append(Ob(k, "ok", f"{a} and {b}{guards(o)}: {'equal' if want else 'different'}", where))
    return obs


def check_other(key, env, a, what):
    def scenario(ip):
        w = World(ip, env)
        u = w.unit(a)
        other = {"None": None, "int": 1, "str": "m", "tuple": (), "date": None}[what] if what != "date" else w.unit(Shift(S, Stamp("t")))
        return [ip.truth(ip.compare(ast.Eq(), u, other)), ip.truth(ip.compare(ast.Eq(), other, u)), ip.truth(ip.compare(ast.NotEq(), u, other))]

    obs = []
    for o in explore(program(), scenario, 16):
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(key, "undecided", str(o.value), where))
        elif o.kind == "raise":
            obs.append(Ob(key, "violation", f"comparing {a} with {what} raises {exc_name(o.value)}", where))
        elif o.value != [False, False, True]:
            obs.append(Ob(key, "violation", f"comparing {a} with {what}: ==, reversed, != answer {o.value}", where))
        else:
            obs.append(Ob(key, "ok", f"{a} differs from {what}", where))
    return obs


N1, N2, N3 = Num("n1"), Num("n2"), Num("n3")
P = Num("p1", "int")


def pool(tier):
    T_ = Num(2, "int")
    out = [
        # metre-like
        M, Mul(N1, M), Mul(M, N1), Mul(Num("n2"), M), Div(M, N1), Mul(M, Div(Num(1), N1)), Id("d"), Id("d2"), Id("d3"), Mul(Num("dn"), M),
        KM, Mul(Num(1), M), Pow(M, Num(1)), Div(Pow(M, T_), M), Div(Mul(M, S), S), Mul(N1, Mul(N2, M)), Mul(Mul(N1, N2), M),
        Mul(Mul(N2, M), N1), Mul(N1, Id("d")), Div(Mul(N1, M), N1),
        Shift(M, N1), Shift(M, N2), Shift(Shift(M, N1), N2), Shift(Shift(M, N2), N1), Id("c"), Id("c2"), Id("cc"), Shift(Id("c"), Num("ccn")),
        Shift(M, Num("cn")), Shift(Id("d"), N1), Shift(Mul(N1, M), N1), Shift(M, Num(0)),
        Shift(M, Num("i1", "int")), Shift(M, Num(5, "int")), Mul(Num("i1", "int"), M), Shift(Shift(M, N1), Num("i1", "int")),
        Log("lg", M), Log("log", M), Log("ln", M), Log("lb", M), Log("lg", Mul(N1, M)), Log("lg", Mul(M, N1)), Id("l"), Log("lg", Log("lg", M)),
        Log("ln", Log("lg", M)), Shift(Log("lg", M), N1),
        # others
        S, G, Id("x"), Id("h"), Div(M, S), Mul(M, Id("w")), Mul(M, Pow(S, Num(-1))), Mul(Pow(S, Num(-1)), M), Div(Num(1), Div(S, M)),
        Div(Id("d"), S), Div(M, Id("h")), Mul(M, S), Mul(S, M), Div(S, M), Id("q"), Pow(Div(Id("d"), S), T_), Div(Pow(Id("d"), T_), Pow(S, T_)), Pow(Div(M, S), T_),
        Mul(Div(M, S), G), Mul(G, Div(M, S)), Div(Mul(G, M), S), Pow(M, T_), Mul(M, M), Pow(Mul(N1, M), T_), Pow(M, Num(3)), Pow(M, Num(-2)),
        Num(1), Num(2), N1, N2, Mul(N1, N2), Mul(N2, N1), Div(M, M), Pow(M, Num(0)), Id("z"), R, Id("a"), Mul(Num("an"), R), Mul(R, R), Pow(R, T_),
        Div(R, R), Mul(R, M),
        Pow(M, P), Mul(Pow(M, P), M), Pow(Mul(N1, M), P), Mul(Pow(N1, P), Pow(M, P)),
    ]
    if tier == "thorough":
        out += [
            Shift(Mul(N1, M), N2), Shift(Mul(M, N1), N2), Shift(Shift(Mul(N1, M), N2), N3), Shift(Shift(Mul(N1, M), N3), N2), Shift(Shift(Shift(M, N1), N2), N3),
            Shift(Id("d"), Num("cn")), Shift(Id("d2"), Num("cn")), Shift(KM, N1), Mul(Id("d"), S), Mul(S, Id("d2")), Mul(Pow(Id("d"), T_), Pow(Id("h"), Num(-1))),
            Div(Mul(Id("d"), Id("d2")), Id("h")), Log("lg", Div(M, S)), Log("lg", Mul(M, Id("w"))), Log("lb", Log("lb", M)), Log("lg", Id("d")), Log("lg", Id("d3")),
            Log("log", Mul(Num("ln"), M)), Log("lg", Shift(M, N1)), Log("ln", Id("kd")), Id("kd"), Mul(Num("en", "int"), Id("d", prefix="k")),
            Div(Id("kd"), Num("en", "int")), Pow(Div(M, Mul(S, G)), T_), Div(Mul(M, M), Mul(Mul(S, S), Mul(G, G))), Div(Pow(M, T_), Pow(Mul(S, G), T_)),
            Mul(Mul(M, S), G), Mul(M, Mul(S, G)), Mul(G, Mul(S, M)), Div(Div(M, S), G), Div(M, Mul(S, G)), Div(M, Div(S, G)), Mul(Div(M, S), Pow(G, Num(-1))),
            Pow(Pow(M, T_), Num(3)), Pow(Pow(M, Num(3)), T_), Pow(M, Num(6)), Pow(M, Num("p2", "int")), Mul(Pow(M, P), Pow(S, P)), Pow(Mul(M, S), P),
            Mul(Id("a"), M), Mul(Mul(Num("an"), R), M), Div(Id("a"), S), Mul(Id("x"), M), Div(Id("x"), Id("x")), Num("n1", "int"), Num(0), Mul(Num(2), Num(3)), Num(6),
        ]
    return list(dict.fromkeys(out))


def tasks(tier):
    ps = pool(tier)
    for i, a in enumerate(ps):
        for j, b in enumerate(ps):
            if i <= j:
                yield f"{a} = {b}", check, (ENVX, a, b, False)
        yield f"{a} = itself in another system", check, (ENVX, a, a, True)
        for what in ("None", "int", "str", "tuple", "date") if tier == "thorough" or i % 4 == 0 else ():
            yield f"{a} = {what}", check_other, (ENVX, a, what)
    for i, a in enumerate(ps):
        b = ps[(i * 7 + 3) % len(ps)]
        yield f"{a} = {b} in another system", check, (ENVX, a, b, True)
    for sh in dedupe(wide_shapes()):
        a = spec(sh)
        if has(sh, "r"):
            continue
        yield f"wide {name(sh)} = itself renamed", check, (WIDE, a, rename(a, "b"), False)
        yield f"wide {name(sh)} = itself in another system", check, (WIDE, a, a, True)
        for what, b in others(a, WIDE):
            yield f"wide {name(sh)} = {what}", check, (WIDE, a, b, False)
