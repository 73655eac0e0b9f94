"""C04: logarithmic units convert with the base of their function."""
from ..convert import check_conversion
from ..shapes import *

RULE = (
    "Abstract interpretation of UnitSystem.unit and Converter on units f(re U) for every function of the grammar, with "
    "opaque names and numbers in U, nested, shifted and by name; the term derived for convert(v) must be base**v of U, "
    "and the logarithm in that base on the way back, at generic points. One obligation per ordered pair and partition."
)
ASSUMPTIONS = [
    "shapes are bounded (nesting of two logarithms, reference level of operator depth 2, plus named definitions)",
    "a logarithmic unit times a number, raised, divided, or over a shifted unit is outside this property (see DESIGN.md)",
]
FLOOR = 60

ENVX = dict(DEFS)
ENVX.update(
    {
        "l": Def(Log("lg", Mul(Num("ln"), M))),
        "ll": Def(Log("ln", Id("l"))),
        "lc": Def(Shift(Log("lb", M), Num("lcn"))),
        "lr": Def(Log("log", R)),
    }
)


def family(tier):
    fns = ["lb", "lg", "ln", "log"]
    metre = ["m", "d", "l", "ll", "lc"] + [(f, "m") for f in fns] + [(f, ("*", "n", "m")) for f in fns]
    metre += [("lg", "km"), ("ln", "d"), ("lb", ("/", "m", "n")), ("lg", ("lg", "m")), ("ln", ("lb", ("*", "n", "m"))), ("log", "l"),
              ("@", ("lg", "m")), ("@", ("ln", ("*", "n", "m")))]
    less = ["n", "r", "lr", ("lg", "n"), ("log", "r"), ("ln", ("*", "n", "r")), ("lb", ("/", "m", "m")), ("lg", "a")]
    other = [("*", "g", "q"), ("lg", ("*", "g", "q")), ("ln", ("*", "n", ("*", "g", ("/", ("^", "m", 2), ("^", "s", 2))))),
             ("log", ("/", ("*", "g", ("^", "m", 2)), ("^", "s", 2)))]
    if tier == "thorough":
        metre += [(f, (g, "m")) for f in fns for g in fns] + [(f, (g, ("*", "n", "d"))) for f in fns for g in fns]
        metre += [("lg", ("lg", ("lg", "m"))), ("@", ("@", ("lg", "d"))), ("@", "l"), ("@", "lc"), ("*", "n", "m"), ("@", "m"), "c"]
        less += [(f, "r") for f in fns] + [(f, "z") for f in fns] + [("lg", ("ln", "n"))]
        other += [(f, "q" if False else ("*", "g", "q")) for f in fns]
    return [metre, dedupe(less), dedupe(other)]


def tasks(tier):
    for fam in family(tier):
        for x in fam:
            for y in fam:
                a, b = spec(x), rename(spec(y), "b")
                if not (has_log(a, ENVX) or has_log(b, ENVX)):
                    continue
                yield f"{name(x)} to {name(y)}", check_conversion, (ENVX, a, b)
    for n, sh in enumerate(dedupe(wide_shapes())):
        dims = base_dims(spec(sh), WIDE)
        a = spec((("lb", "lg", "ln", "log")[n % 4], sh))
        yield f"wide logarithmic {name(sh)} to base", check_conversion, (WIDE, a, monomial(dims, Num("f1")))
        yield f"wide logarithmic {name(sh)} from base", check_conversion, (WIDE, monomial(dims), a)
        yield f"wide logarithmic {name(sh)} to another", check_conversion, (WIDE, a, rename(spec(("lg", sh)), "b"))
