"""C03: offset units convert with their origin in both directions."""
from ..convert import check_conversion
from ..shapes import *

RULE = (
    "Abstract interpretation of UnitSystem.unit and Converter on units whose outermost operation is a shift by an "
    "opaque number (literal, nested and by name), in every combination with shifted and unshifted units of the same "
    "dimensionality; the term derived for convert(v) must be the oracle's (v + c) of U, and the subtraction of c on "
    "the way back. One obligation per ordered pair of shapes and partition."
)
ASSUMPTIONS = ["shapes are bounded: the unit under the shift has operator depth at most 2 plus named definitions"]
FLOOR = 60

ENVX = dict(DEFS)
ENVX.update(
    {
        "cc": Def(Shift(Id("c"), Num("ccn"))),  # F = C @ x
        "ci": Def(Shift(Mul(Num("cim"), M), Num("cin", "int"))),
        "e": Def(Id("c")),  # another name of c
        "cr": Def(Shift(R, Num("crn"))),
        "cv": Def(Shift(Div(M, S), Num("cvn"))),
        "cd": Def(Shift(Id("d"), Num("cdn"))),
    }
)


def family(tier):
    metre = ["m", "km", "d", ("*", "n", "m"), ("/", "m", "n"), "c", "cc", "ci", "e", "cd", ("@", "m"), ("@", "d"), ("@", "km"),
             ("@", ("*", "n", "m")), ("@", ("@", "m")), ("@", "c"), ("@", "m", "i"), ("@", "m", 0), ("@", ("/", "m", "n"))]
    speed = [("/", "m", "s"), "cv", ("@", ("/", "d", "s")), ("@", ("@", ("/", "m", "s"))), ("@", "cv")]
    less = ["n", "r", "cr", ("@", "n"), ("@", "r"), ("@", ("/", "m", "m")), ("@", "cr")]
    if tier == "thorough":
        metre += [("@", ("@", ("@", "m"))), ("@", "cc"), ("@", "e"), ("@", ("@", "c")), ("@", ("*", ("*", "n", "m"), "r")), ("@", ("*", "d", "z")),
                  ("@", ("^", "m", 1)), ("@", ("/", ("*", "m", "s"), "s")), ("@", "cd", "i"), ("@", ("@", "d"), "i"), ("*", "n", "d"),
                  ("@", ("*", "m", ("/", "n", "n"))), ("@", ("/", ("*", "n", "d"), "a"))]
        speed += [("@", ("*", "m", "w")), ("@", ("/", ("*", "n", "m"), ("*", "n", "s"))), ("@", ("/", "km", "s")), ("/", "d", "s"),
                  ("@", ("/", "c", "s")), ("@", ("*", "m", ("^", "s", -1)))]
        less += [("@", ("@", "n")), ("@", "a"), ("@", "z"), ("@", ("/", "d", "m")), ("@", ("^", "m", 0))]
    return [metre, speed, less]


def tasks(tier):
    shifted = {"c", "cc", "ci", "e", "cr", "cv", "cd"}
    for fam in family(tier):
        for x in fam:
            for y in fam:
                if not any(isinstance(s, tuple) and s[0] == "@" or s in shifted for s in (x, y)):
                    continue
                a, b = spec(x), rename(spec(y), "b")
                yield f"{name(x)} to {name(y)}", check_conversion, (ENVX, a, b)
    # squares, where the name of a shifted unit is used inside an expression: the origin has no influence
    for x in [("^", "c", 2), ("*", "c", "s"), ("/", "cc", "s"), ("/", "s", "ci")]:
        a = spec(x)
        yield f"inner {name(x)}", check_conversion, (ENVX, a, monomial(base_dims(a, ENVX)))
    for sh in dedupe(wide_shapes()):
        dims = base_dims(spec(sh), WIDE)
        if dims != {"s": 1}:  # (a date)
            a, b = spec(("@", sh)), rename(spec(("@", sh)), "b")
            yield f"wide shifted {name(sh)} renamed", check_conversion, (WIDE, a, b)
            yield f"wide shifted {name(sh)} to base", check_conversion, (WIDE, a, monomial(dims, Num("f1")))
            yield f"wide shifted {name(sh)} from base", check_conversion, (WIDE, monomial(dims), b)
