"""C10: date units arise only from a top-level shift of a time unit."""
import ast

from .. import terms
from ..core import Ob, guards, path_of
from ..shapes import *
from ..values import Obj, show
from ..world import Oracle, Stamp, World, exc_is, exc_name, explore, program, spec_leaves, critical

RULE = (
    "Abstract interpretation of UnitSystem.unit on expressions with a shift (by an opaque number or timestamp) at every "
    "position under every operator, of time units, units which are only possibly time units (opaque exponents), and "
    "others: on every partition the result must be a DateUnit of the inner unit with the reference as written, an "
    "ordinary Unit, or a ValueError, as the property prescribes. One obligation per expression and partition."
)
ASSUMPTIONS = ["expression shapes are bounded: contexts of depth 2 (quick) or 3 (thorough) around the shift"]
FLOOR = 150

ENVX = dict(DEFS)
ENVX.update(
    {
        "h": Def(Mul(Num("hn"), S)),
        "v": Def(Div(Id("m"), Id("w"))),  # m·s
        "t": Def(Shift(S, Num("tn"))),  # a definition which would be a date
        "t2": Def(Mul(Num("tn"), Shift(Id("h"), Stamp("st")))),
        "c3": Def(Shift(M, Stamp("st"))),
        "f": Def(Mul(Id("t"), M)),
        "x": Base(symbol=True),
    }
)


def refused(orc, s):
    """Is there a shift in s (names resolved) which must be refused?"""
    if isinstance(s, Id):
        d = orc.defs[s.name]
        return isinstance(d, Def) and refused(orc, d.spec)
    if isinstance(s, Shift):
        if refused(orc, s.a) or not isinstance(s.c, Num):
            return True
        return orc.same(orc.dims(s.a), {"s": 1.0})
    return any(refused(orc, c) for c in s.children())


def expected(orc, s):
    if isinstance(s, Shift):
        if refused(orc, s.a):
            return "ValueError"
        if orc.same(orc.dims(s.a), {"s": 1.0}):
            return "DateUnit"
        return "Unit" if isinstance(s.c, Num) else "ValueError"
    return "ValueError" if refused(orc, s) else "Unit"


def check(key, env, a):
    def scenario(ip):
        w = World(ip, env)
        u = w.unit(a)
        date, unit = w.attr("", "DateUnit"), w.attr("", "Unit")
        kind = "DateUnit" if ip.isinstance(u, date) else "Unit" if ip.isinstance(u, unit) else show(u)
        if kind == "DateUnit":
            inner = ip.getattr(u, "unit")
            ref = ip.str(ip.getattr(u, "reference_date"))
            plain = w.unit(a.a)
            same = ip.truth(ip.compare(ast.Eq(), ip.str(inner), ip.str(plain))) and ip.isinstance(inner, unit)
            dims = ip.truth(ip.compare(ast.Eq(), w.m(u, "dimensionality"), w.m(plain, "dimensionality")))
            want = ip.str(w.node(a.c)) if isinstance(a.c, Stamp) else w.node(a.c).fields["raw_content"]
            return kind, same and dims, ip.eq(ref, want), show(ref)
        return kind, True, True, ""

    obs = []
    outs = explore(program(), scenario, 48)
    leaves = spec_leaves(a, env=env)
    special = critical(env, a)
    for n, o in enumerate(outs):
        k = key if len(outs) == 1 else f"{key}#{n}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
            continue
        bad, good = None, 0
        for e in terms.sample_envs(o.assumptions, leaves, n=5) + terms.critical_envs(o.assumptions, special, leaves):
            want = expected(Oracle(env, e), a)
            if o.kind == "raise":
                if want != "ValueError":
                    bad = f"raises {exc_name(o.value)} {show(o.value)[:150]}, but should be a {want}"
                elif not exc_is(o.value, "ValueError"):
                    bad = f"raises {exc_name(o.value)} {show(o.value)[:150]} and not a ValueError"
            else:
                kind, same, ref, shown = o.value
                if kind != want:
                    bad = f"gives a {kind}, but should {'be refused with ValueError' if want == 'ValueError' else 'be a ' + want}"
                elif not same:
                    bad = "the DateUnit does not hold the unit which is shifted"
                elif not ref:
                    bad = f"the DateUnit refers to {shown} and not to the date as written"
            if bad:
                break
            good += 1
        if bad:
            obs.append(Ob(key, "violation", f"{a}{guards(o)}: {bad}", where))
        elif not good:
            obs.append(Ob(k, "undecided", "no sample point" + guards(o), where))
        else:
            obs.append(Ob(k, "ok", f"{a}{guards(o)}: {want}", where))
    return obs


def tasks(tier):
    P = lambda i: Num(f"p{i}", "int")
    st, num, inum = Stamp("stamp"), Num("c1"), Num("c2", "int")
    inner = [
        S, Id("h"), Mul(Num("n1"), S), Mul(S, Num("n1")), Id("s", prefix="k"), Mul(Div(M, M), S), Div(Mul(S, M), M), Pow(Id("w"), Num(-1)), Div(Num(1), Id("w")), Mul(R, S),
        Pow(S, Num(1)), Log("lg", S),
        M, Id("d"), Pow(S, Num(2)), Pow(S, Num(0)), Div(M, S), Id("w"), Num("n1"), R, Mul(S, M), Id("v"), Id("c"), Log("ln", M), Pow(S, Num(-1)), Div(S, M), Id("x"),
        Pow(S, P(1)), Mul(Pow(S, P(1)), S), Div(Id("v"), Pow(M, P(1))),
    ]
    shifts = [Shift(u, c) for u in inner for c in (st, num, inum)]
    ctx1 = [
        lambda x: x, lambda x: Mul(Num("k1"), x), lambda x: Mul(x, Num("k1")), lambda x: Mul(x, M), lambda x: Mul(M, x), lambda x: Div(x, S), lambda x: Div(S, x),
        lambda x: Div(Num(1), x), lambda x: Pow(x, Num(2)), lambda x: Pow(x, Num(1)), lambda x: Pow(x, Num(0)), lambda x: Log("lg", x), lambda x: Shift(x, Num("k2")), lambda x: Shift(x, Stamp("s2")),
    ]
    for x in shifts:
        for c in ctx1:
            y = c(x)
            yield str(y), check, (ENVX, y)
    few = [Shift(u, c) for u in (S, Id("h"), M, Div(M, S), Pow(S, P(1))) for c in (st, num)]
    for x in few if tier == "quick" else shifts:
        for c in ctx1[1:]:
            for c2 in ctx1[1:]:
                y = c2(c(x))
                yield str(y), check, (ENVX, y)
    if tier == "thorough":
        for x in few:
            for c in ctx1[1:]:
                for c2 in ctx1[1:]:
                    for c3 in ctx1[1:]:
                        y = c3(c2(c(x)))
                        yield str(y), check, (ENVX, y)
    for n in ("t", "t2", "c3", "f", "c", "h", "v"):
        for c in ctx1:
            y = c(Id(n))
            yield str(y), check, (ENVX, y)
        yield f"k{n}", check, (ENVX, Id(n, prefix="k"))
