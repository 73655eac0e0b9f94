"""C02: multiplicative conversion applies the exact ratio of scale factors."""
from ..world import Empty
from ..convert import check_conversion
from ..shapes import *

RULE = (
    "Abstract interpretation of UnitSystem.unit, Unit, Converter and the expression visitors on families of unit "
    "expressions whose names and numbers are opaque; the term derived for Converter.convert(v) must equal "
    "v*factor(A)/factor(B) of the checker's own definition of the factor, in every partition of the guards. "
    "One obligation per pair of expression shapes and partition; a shape counts once."
)
ASSUMPTIONS = [
    "expression shapes are bounded (operator depth 2 quick, 3 thorough, plus named definitions)",
    "shapes with a logarithm, an outermost shift or a shifted unit times a bare number are outside this property",
]
FLOOR = 60


def shapes(tier):
    leaves = ["m", "n", "km", "r", "d", "c", "z", "q", "a", "kd", "i"]
    d1 = grow(leaves, leaves, ("*", "/", "^"))
    d1 += [("^", x, p) for x in leaves for p in (0, 1, 2, -1, -2)]
    small = grow(["m", "n", "c"], ["s", "n", "c"], ("*", "/")) + [("^", "m"), ("^", "m", -2), ("^", "n", 2), ("@", "m")]
    d2 = grow(small, ["m", "s", "n", "c"], ("*", "/")) + grow(["m", "s", "n", "c"], small, ("*", "/"))
    d2 += [("^", x) for x in small] + [("^", x, p) for x in small for p in (0, 2, -1)]
    out = leaves + d1 + d2
    if tier == "thorough":
        mid = d1[:: 3] + small
        d3 = grow(small, mid, ("*", "/")) + grow(mid, small, ("*", "/"))
        d3 += [("^", x, p) for x in d2[:: 2] for p in (2, -1)] + [("^", x) for x in d2]
        d3 += [("*", ("^", x), "s") for x in small] + grow(d2[::7], d2[::11], ("*", "/"))
        d3 += [("@", ("@", "m")), ("*", ("@", ("@", "m")), "s"), ("^", ("*", ("@", "m"), "s"), 2)]
        out += d3
    return dedupe(out)


def tasks(tier):
    seen = set()
    for sh in shapes(tier):
        a = spec(sh)
        if not multiplicative(a, DEFS):
            continue
        nm = name(sh)
        pairs = [("renamed", a, rename(a, "b"))]
        if not symbolic_exponent(a):
            dims = base_dims(a, DEFS)
            pairs.append(("to base", a, monomial(dims, Num("f1") if has(sh, "n") else None)))
            pairs.append(("from base", monomial(dims), a))
        for what, x, y in pairs:
            k = f"{nm} {what}"
            if k not in seen:
                seen.add(k)
                yield k, check_conversion, (DEFS, x, y)
    yield "free exponents", check_conversion, (DEFS, spec(("^", "m")), rename(spec(("^", "m")), "b", True))
    yield "free exponents of a quotient", check_conversion, (
        DEFS, spec(("^", ("/", "d", "s"))), rename(spec(("^", ("/", "m", "s"))), "b", True))
    for sh in dedupe(wide_shapes()):
        a = spec(sh)
        dims = base_dims(a, WIDE)
        for what, x, y in (
            ("to base", a, monomial(dims)),
            ("from base", monomial(dims, Num("f1")), a),
            ("renamed", a, rename(a, "b")),
        ):
            yield f"wide {name(sh)} {what}", check_conversion, (WIDE, x, y)
    env = dict(DEFS, o=Def(Empty()), oo=Def(Mul(Id("o"), Num("ofactor"))))
    o, oo, n, m = Id("o"), Id("oo"), Num("n1"), M
    for a, b in ((Empty(), n), (Empty(), Num(1, "int")), (Empty(), o), (o, n), (o, Num(1, "int")), (oo, n), (oo, o), (oo, Empty()), (Id("o", prefix="k"), n), (Mul(o, m), m), (Div(m, o), m), (Pow(o, Num("p1", "int")), n), (Empty(), R)):
        yield f"empty: {a} to {b}", check_conversion, (env, a, b)
        yield f"empty: {b} to {a}", check_conversion, (env, b, a)
