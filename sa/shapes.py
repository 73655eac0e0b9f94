"""Families of expression shapes."""
from __future__ import annotations

from .world import Base, Def, Div, ENV, Id, Log, Mul, Num, Pow, Pre, Shift

M, S, G, R = Id("m"), Id("s"), Id("g"), Id("r")
KM = Id("m", prefix="k")


class Fresh:
    """Numbers with fresh names."""

    def __init__(self):
        self.n = 0

    def num(self, ty="Decimal"):
        self.n += 1
        return Num(f"n{self.n}", ty)

    def exp(self):
        self.n += 1
        return Num(f"p{self.n}", "int")


def subst_leaves(shape, fr):
    """A shape is nested tuples; turn it into a spec with fresh numbers.
    leaves: 'm' 's' 'g' 'r' 'km' 'n' (number) 'i' (integer); operators '*' '/' '^' '@'
    and functions 'lg' ...; ('^', x) has a fresh exponent, ('^', x, 2) a given one;
    ('@', x) a fresh shift."""
    if isinstance(shape, str):
        if shape == "n":
            return fr.num()
        if shape == "i":
            return fr.num("int")
        if shape == "km":
            return KM
        return Id(shape)
    if isinstance(shape, int):
        return Num(shape)
    op = shape[0]
    if op == "*":
        return Mul(subst_leaves(shape[1], fr), subst_leaves(shape[2], fr))
    if op == "/":
        return Div(subst_leaves(shape[1], fr), subst_leaves(shape[2], fr))
    if op == "^":
        a = subst_leaves(shape[1], fr)
        return Pow(a, fr.exp() if len(shape) == 2 else Num(shape[2], "int"))
    if op == "@":
        a = subst_leaves(shape[1], fr)
        if len(shape) == 2:
            return Shift(a, fr.num())
        c = shape[2]
        return Shift(a, Num(c, "int") if isinstance(c, int) else fr.num("int"))
    return Log(op, subst_leaves(shape[1], fr))


def spec(shape, fr=None):
    return subst_leaves(shape, fr or Fresh())


def has(shape, *ops):
    if not isinstance(shape, tuple):
        return shape in ops
    return shape[0] in ops or any(has(x, *ops) for x in shape[1:])


def name(shape):
    if isinstance(shape, tuple):
        if shape[0] in "*/":
            return f"({name(shape[1])}{shape[0]}{name(shape[2])})"
        if shape[0] == "^":
            return f"{name(shape[1])}^{shape[2] if len(shape) > 2 else 'p'}"
        if shape[0] == "@":
            return f"({name(shape[1])}@{'c' if len(shape) < 3 else shape[2]})"
        return f"{shape[0]}({name(shape[1])})"
    return str(shape)


def level0(leaves=("m", "s", "n", "r", "km")):
    return list(leaves)


def grow(xs, ys, ops=("*", "/", "^", "@")):
    """Shapes whose operands come from xs and ys."""
    out = []
    for x in xs:
        for y in ys:
            for o in ops:
                if o in "*/":
                    out.append((o, x, y))
        for o in ops:
            if o == "^" or o == "@":
                out.append((o, x))
            elif o not in "*/":
                out.append((o, x))
    return out


def dedupe(xs):
    seen, out = set(), []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


#: A world with definitions: d = number*m, c = m @ origin, z = number,
#: q = (d/s)^2, a = number*r (an angle), w = s^-1 (an inverse time).
DEFS = dict(ENV)
DEFS.update(
    {
        "d": Def(Mul(Num("dn"), M)),
        "c": Def(Shift(M, Num("cn"))),
        "z": Def(Num("zn")),
        "q": Def(Pow(Div(Id("d"), S), Num(2, "int"))),
        "a": Def(Mul(Num("an"), R)),
        "w": Def(Pow(S, Num(-1, "int"))),
        "kd": Def(Mul(Num("en", "int"), Id("d", prefix="k"))),
    }
)


def transforms(s, env):
    """Does the value of this unit pass through a shift or a logarithm?"""
    if isinstance(s, (Shift, Log)):
        return True
    if isinstance(s, Id):
        d = env[s.name]
        return isinstance(d, Def) and transforms(d.spec, env)
    return any(transforms(c, env) for c in s.children())


def has_log(s, env):
    if isinstance(s, Log):
        return True
    if isinstance(s, Id):
        d = env[s.name]
        return isinstance(d, Def) and has_log(d.spec, env)
    return any(has_log(c, env) for c in s.children())


def bare_number(s, env):
    if isinstance(s, Num):
        return True
    if isinstance(s, Shift):
        return bare_number(s.a, env)
    if isinstance(s, Id) and not s.prefix:
        d = env[s.name]
        return isinstance(d, Def) and bare_number(d.spec, env)
    return False


def multiplicative(s, env, root=True):
    """In the scope of C02: no logarithm, no outermost shift, and no shifted
    unit multiplied by a bare number."""
    if has_log(s, env):
        return False
    if root:
        r = s
        while isinstance(r, Id) and not r.prefix and isinstance(env[r.name], Def):
            r = env[r.name].spec
        if isinstance(r, Shift):
            return False
    if isinstance(s, Id):
        d = env[s.name]
        if not isinstance(d, Def):
            return True
        if s.prefix and transforms(d.spec, env):
            return False
        return multiplicative(d.spec, env, False)
    if isinstance(s, Mul):
        for x, y in ((s.a, s.b), (s.b, s.a)):
            if transforms(x, env) and bare_number(y, env):
                return False
    return all(multiplicative(c, env, False) for c in s.children())


def rename(s, suffix, exponents=False):
    """The same shape with other numbers."""
    if isinstance(s, Num):
        if isinstance(s.name, int):
            return s
        return Num(s.name + suffix, s.ty)
    if isinstance(s, Pow):
        return Pow(rename(s.a, suffix, exponents), rename(s.n, suffix) if exponents else s.n)
    if isinstance(s, (Mul, Div)):
        return type(s)(rename(s.a, suffix, exponents), rename(s.b, suffix, exponents))
    if isinstance(s, Log):
        return Log(s.fn, rename(s.a, suffix, exponents))
    if isinstance(s, Shift):
        return Shift(rename(s.a, suffix, exponents), rename(s.c, suffix))
    return s


def symbolic_exponent(s):
    return any(isinstance(x, Pow) and not isinstance(x.n.name, int) for x in s.walk())


def base_dims(s, env):
    """{base: int} for a spec with concrete exponents."""
    from .world import Oracle

    o = Oracle(env, lambda t: 1.0)
    return {b: int(round(e)) for b, e in o.dims(s).items()}


def monomial(dims, factor=None):
    """A unit of base units with these dimensions."""
    out = factor
    for b, e in sorted(dims.items()):
        x = Id(b) if e == 1 else Pow(Id(b), Num(e, "int"))
        out = x if out is None else Mul(out, x)
    return out if out is not None else Num(1, "int")


# -- many base units, many factors ------------------------------------------

#: Five base units, and definitions which refer to definitions.
WIDE = {x: d for x, d in ENV.items()}
WIDE.update(
    {
        "b4": Base(),
        "b5": Base(),
        "d": Def(Mul(Num("dn"), M)),
        "e1": Def(Mul(Num("en"), Mul(Id("d"), S))),
        "e2": Def(Div(Id("e1"), Mul(G, Id("b4")))),
        "e3": Def(Mul(Num("fn"), Pow(Id("e2", prefix="k"), Num(2, "int")))),
        "e4": Def(Div(Mul(Id("b5"), Id("e3")), Id("e1"))),
    }
)


def prod(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = ("*", out, x)
    return out


def prod_right(*xs):
    out = xs[-1]
    for x in xs[-2::-1]:
        out = ("*", x, out)
    return out


def over(x, *ys):
    for y in ys:
        x = ("/", x, y)
    return x


def over_right(*xs):
    out = xs[-1]
    for x in xs[-2::-1]:
        out = ("/", x, out)
    return out


def wide_shapes():
    five = ("m", "s", "g", "b4", "b5")
    for n in (3, 4, 5):
        for xs in (five[:n], five[:n][::-1], five[-n:]):
            yield prod(*xs)
        yield prod_right(*five[:n])
        yield over(*five[:n])
        yield over_right(*five[:n])
        yield ("/", prod(*five[: n // 2]), prod(*five[n // 2 : n]))
        yield ("^", prod(*five[:n]), -1)
        yield ("^", over(*five[:n]), 2)
        yield prod(*(("^", x, p) for x, p in zip(five[:n], (2, -1, 3, -2, 1))))
        yield prod(*(("^", x, p) for x, p in zip(five[:n], (-5, 4, -3, 7, -1))))
        yield prod("n", *five[:n])
        yield ("*", prod("n", *five[:n]), "n")
        yield prod(*(x for y in five[:n] for x in ("n", y)))
        yield prod(*("d", "d", "m", "m", "m")[:n])
        yield prod(*["m"] * n)
        yield over(*["m"] * (n + 1))
        yield prod(*["n"] * n, "s")
        yield over(*["n"] * n, "s")
        yield prod(*["km"] * n)
        yield prod(*["r"] * n, "m")
        yield ("*", prod(*five[:n]), over("n", *five[:n]))
    for e in ("e1", "e2", "e3", "e4"):
        yield e
        yield ("^", e, -1)
        yield ("^", e, 3)
        yield over("e4", e, "m")
        yield prod("n", e, e, "b5")
    for p in (3, 4, 7, 12, -3, -7, -11):
        yield ("^", "m", p)
        yield ("^", ("/", "d", "s"), p)
        yield ("*", ("^", "m", p), ("^", "s", -p))


def others(a, env):
    """(what, a unit related to one with concrete exponents): with the
    dimension written anew, with the inverse of it, and with what is not far
    from it."""
    dims = base_dims(a, env)
    yield "the same", monomial(dims)
    yield "the inverse", monomial({b: -e for b, e in dims.items()})
    for b in sorted(dims):
        yield f"another exponent of {b}", monomial({**dims, b: dims[b] + 1})
        yield f"the sign of {b} turned", monomial({**dims, b: -dims[b]})
        yield f"without {b}", monomial({x: e for x, e in dims.items() if x != b})
    for b in ("m", "s", "g", "b4", "b5"):
        if b not in dims:
            yield f"with {b}", monomial({**dims, b: 1})
            yield f"the inverse with {b}", monomial({**{x: -e for x, e in dims.items()}, b: 1})
            break
