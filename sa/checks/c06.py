"""C06: a converter exists exactly for convertible units."""
from .. import terms
from ..core import Ob, guards, path_of
from ..shapes import *
from ..values import show
from ..world import Empty, Oracle, Stamp, World, exc_is, exc_name, explore, program, spec_leaves, critical

RULE = (
    "Abstract interpretation of is_convertible_to in both directions and of Converter() for pairs of units with opaque "
    "names, numbers and exponents (base, named, prefixed, shifted, logarithmic and date units): on every partition the "
    "answers must be True and a converter for equal or inverse dimensionality, False and IncompatibleUnitsError "
    "otherwise and whenever one side is a date unit. One obligation per ordered pair and partition."
)
ASSUMPTIONS = ["expression shapes are bounded (operator depth 2 quick, 3 thorough, plus named definitions)"]
FLOOR = 200

ENVX = dict(DEFS)
ENVX.update(
    {
        "x": Base(symbol=True),
        "l": Def(Log("lg", Mul(Num("ln"), M))),
        "h": Def(Mul(Num("hn"), S)),  # another time unit
        "f": Def(Div(Num(1, "int"), S)),
    }
)

DATES = {
    "date(s)": Shift(S, Stamp("stamp")),
    "date(h)": Shift(Id("h"), Stamp("stamp")),
    "date(n*s)": Shift(Mul(Num("n9"), S), Stamp("stamp")),
    "date(s@n)": Shift(S, Num("n8")),
    "date(ks)": Shift(Id("s", prefix="k"), Stamp("stamp")),
}


def check(key, env, a, b, date):
    def scenario(ip):
        w = World(ip, env)
        ua, ub = w.unit(a), w.unit(b)
        from ..interp import AbsRaise

        r = [w.m(ua, "is_convertible_to", ub), w.m(ub, "is_convertible_to", ua)]
        try:
            w.converter(ua, ub)
            r.append(None)
        except AbsRaise as e:
            r.append(e.exc)
        return r

    obs = []
    outs = explore(program(), scenario, 48)
    leaves = spec_leaves(a, b, env=env)
    special = critical(env, a, b)
    for n, o in enumerate(outs):
        k = key if len(outs) == 1 else f"{key}#{n}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
            continue
        bad, good = None, 0
        for e in terms.sample_envs(o.assumptions, leaves, n=5) + terms.critical_envs(o.assumptions, special, leaves):
            try:
                want = False if date else Oracle(env, e).convertible(a, b) is not None
            except terms.EvalError:
                continue
            if o.kind == "raise":
                bad = f"raises {exc_name(o.value)} {show(o.value)[:150]}"
            else:
                ab, ba, exc = o.value
                if ab is not want:
                    bad = f"is_convertible_to answers {show(ab)}"
                elif ba is not want:
                    bad = f"is_convertible_to answers {show(ba)} in the other direction"
                elif want and exc is not None:
                    bad = f"Converter raises {exc_name(exc)} {show(exc)[:150]}"
                elif not want and exc is None:
                    bad = "a Converter is made"
                elif not want and not exc_is(exc, "IncompatibleUnitsError"):
                    bad = f"Converter raises {exc_name(exc)} {show(exc)[:150]} and not IncompatibleUnitsError"
            if bad:
                bad += f", but the units are {'convertible' if want else 'not convertible'}"
                break
            good += 1
        if bad:
            obs.append(Ob(key, "violation", f"{a} and {b}{guards(o)}: {bad}", where))
        elif not good:
            obs.append(Ob(k, "undecided", "no sample point" + guards(o), where))
        else:
            obs.append(Ob(k, "ok", f"{a} and {b}{guards(o)}: {'convertible' if want else 'refused'}", where))
    return obs


def tasks(tier):
    less = ["n", "r", "a", "z", ("/", "m", "m"), ("^", "m", 0), ("@", "n"), ("lg", "r"), ("*", "r", "a"), ("/", "d", "m"), ("/", "n", "r")]
    plain = ["m", "s", "km", "d", "c", "q", "w", "l", "x", "h", "f", "kd", ("*", "m", "s"), ("/", "m", "s"), ("/", "s", "m"), ("^", "s", -1),
             ("*", "n", "m"), ("^", "m", 2), ("^", "m", -2), ("@", "m"), ("lg", "m"), ("ln", ("/", "m", "s")), ("*", "r", "m"), ("@", ("/", "s", "m")),
             ("/", "n", "s"), ("/", "r", "m"), ("^", "q", -1), ("/", "n", "d"), ("*", "m", "w"), ("lb", "l"), ("@", ("^", "s", -1))]
    sym = [("^", "m"), ("*", ("^", "m"), "s"), ("/", "s", ("^", "m")), ("^", ("/", "m", "s")), ("*", ("^", "m"), ("^", "s"))]
    pool = less + plain + sym
    if tier == "thorough":
        small = ["m", "s", "d", "w", "r", "n", ("/", "m", "s")]
        pool += [x for x in grow(small, small, ("*", "/", "^", "@")) if x not in pool]
        pool += [("lg", x) for x in (("*", "m", "s"), ("^", "m", 2), ("/", "d", "s"), "h", "w")] + [("*", ("*", "m", "s"), "d"), ("/", ("/", "m", "s"), "s")]
        pool = dedupe(pool)
    dates = list(DATES.items())

    def ok(s):
        for x in s.walk():
            if isinstance(x, Shift):
                d = Oracle(ENVX, lambda t: 1.5).dims(x.a)
                if "s" in d and (symbolic_exponent(x.a) or set(d) == {"s"} and abs(d["s"] - 1) < .01):
                    return False
        return True

    for x in pool:
        a = spec(x)
        if not ok(a):
            continue
        for y in pool:
            b = rename(spec(y), "b", exponents=True)
            if ok(b):
                yield f"{name(x)} and {name(y)}", check, (ENVX, a, b, False)
        for n, d in dates:
            yield f"{name(x)} and {n}", check, (ENVX, a, d, True)
            yield f"{n} and {name(x)}", check, (ENVX, d, a, True)
    for n, d in dates:
        for n2, d2 in dates:
            yield f"{n} and {n2}", check, (ENVX, d, d2, True)
    yield "'' and n", check, (ENVX, Empty(), Num("n1"), False)
    yield "m and ''", check, (ENVX, M, Empty(), False)
    for sh in dedupe(wide_shapes()):
        a = spec(sh)
        for what, b in others(a, WIDE):
            yield f"wide {name(sh)} and {what}", check, (WIDE, a, b, False)
