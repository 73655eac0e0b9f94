"""C05: units of inverse dimensionality convert through the reciprocal."""
from ..convert import check_conversion
from ..shapes import *

RULE = (
    "Abstract interpretation of UnitSystem.unit and Converter on pairs of units of inverse dimensionality with opaque "
    "names, numbers and exponents (plain, shifted and logarithmic units on either side), and on pairs which are both "
    "equal and inverse (dimensionless); the term derived for convert(v) must be the value in B of the reciprocal of v A. "
    "One obligation per ordered pair and partition."
)
ASSUMPTIONS = ["shapes are bounded (operator depth 3 plus named definitions)"]
FLOOR = 40

ENVX = dict(DEFS)
ENVX.update(
    {
        "cv": Def(Shift(Div(M, S), Num("cvn"))),
        "iv": Def(Div(Mul(Num("ivn"), S), M)),
        "lv": Def(Log("lg", Div(M, S))),
    }
)


def tasks(tier):
    up = [("/", "m", "s"), ("/", "d", "s"), ("/", "km", "s"), ("*", "n", ("/", "m", "s")), ("@", ("/", "m", "s")), "cv", ("lg", ("/", "m", "s")),
          "lv", ("*", "m", "w"), ("*", ("/", "m", "s"), "r"), ("ln", ("*", "n", ("/", "m", "s")))]
    down = [("/", "s", "m"), "iv", ("/", "s", "d"), ("^", ("/", "m", "s"), -1), ("@", ("/", "s", "m")), ("lb", ("/", "s", "m")), ("/", "n", ("/", "m", "s")),
            ("^", "up", -1)]
    down[-1] = ("^", ("*", "n", ("/", "d", "s")), -1)
    if tier == "thorough":
        up += [("@", ("@", ("/", "m", "s"))), ("/", ("*", "n", "m"), ("*", "n", "s")), ("/", "a", "iv"), ("^", "iv", -1), ("@", ("lg", ("/", "m", "s"))),
               ("log", ("lg", ("/", "m", "s"))), ("/", "c", "s"), ("@", ("^", "iv", -1))]
        down += [("/", "r", ("/", "m", "s")), ("/", "s", "km"), ("@", "iv"), ("ln", "iv"), ("@", ("@", ("/", "s", "m"))), ("/", "s", "c"), ("*", "s", ("^", "d", -1)),
                 ("@", ("log", ("/", "s", "m")))]
    for x in up:
        for y in down:
            a, b = spec(x), rename(spec(y), "b")
            yield f"{name(x)} to {name(y)}", check_conversion, (ENVX, a, b)
            yield f"{name(y)} to {name(x)}", check_conversion, (ENVX, b, a)
    for x, y in [("s", "w"), ("w", "s"), ("w", ("*", "n", "s")), ("m", ("/", "n", "m")), ("km", ("^", "m", -1)), ("q", ("^", "q", -1)),
                 (("^", "m", 2), ("^", "d", -2)), (("^", "m", -3), ("^", "km", 3)), ("c", ("/", 1, "m")), (("/", 1, "d"), "c")]:
        a, b = spec(x), rename(spec(y), "b")
        yield f"{name(x)} to {name(y)}", check_conversion, (ENVX, a, b)
    # equal and inverse at once: the direct conversion
    less = ["n", "r", "a", "z", ("/", "m", "d"), ("@", "n"), ("lg", "n"), ("*", "s", "w"), ("^", "m", 0)]
    for x in less:
        for y in less:
            a, b = spec(x), rename(spec(y), "b")
            yield f"dimensionless {name(x)} to {name(y)}", check_conversion, (ENVX, a, b)
    # exponents which the analysis does not know
    for x, y in [(("^", "m"), ("^", "m")), (("^", "d"), ("^", ("*", "n", "m"))), (("^", ("/", "m", "s")), ("/", "s", "m")), (("^", ("/", "m", "s")), ("^", ("/", "s", "m")))]:
        a, b = spec(x), rename(spec(y), "b", True)
        yield f"free exponents {name(x)} to {name(y)}", check_conversion, (ENVX, a, b)
    for sh in dedupe(wide_shapes()):
        a = spec(sh)
        inv = monomial({b: -e for b, e in base_dims(a, WIDE).items()}, Num("f1"))
        yield f"wide {name(sh)} to the inverse", check_conversion, (WIDE, a, inv)
        yield f"wide inverse to {name(sh)}", check_conversion, (WIDE, inv, a)
