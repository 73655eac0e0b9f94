"""C01: dimensional analysis is exact exponent algebra."""
import ast

from .. import terms
from ..core import Ob, guards, path_of
from ..shapes import *
from ..values import ADict, show
from ..world import Oracle, World, exc_name, explore, opaque, program, spec_leaves, critical

RULE = (
    "Abstract interpretation of UnitSystem.unit and Unit.dimensionality/is_dimensionless/is_time_unit on families of "
    "unit expressions with opaque names, numbers and exponents; the derived map of base units to exponent terms must "
    "equal the sum of exponents over the resolved definition, at generic points of every partition of the guards "
    "(and so at exponents which cancel). One obligation per shape and partition."
)
ASSUMPTIONS = [
    "expression shapes are bounded (operator depth 2 quick, 3 thorough, plus named definitions)",
    "a product of a logarithmic unit with a unit of a dimension (which UDUNITS-2 refuses) is checked on four shapes only",
]
FLOOR = 60

ENVX = dict(DEFS)
ENVX.update(
    {
        "l": Def(Log("lg", Mul(Num("ln"), M))),
        "x": Base(symbol=True),
        "y": Def(Div(Id("x"), Id("w"))),
    }
)


def scope(s, env):
    if isinstance(s, Id):
        d = env[s.name]
        if s.prefix and isinstance(d, Def) and has_log(d.spec, env):
            return True
        return not isinstance(d, Def) or scope(d.spec, env)
    if isinstance(s, (Mul, Div)):
        for x, y in ((s.a, s.b), (s.b, s.a)):
            if has_log(x, env):
                if transforms(y, env):
                    return False
                if isinstance(s, Mul) and Oracle(env, lambda t: 2.0).dims(y):
                    return False
    return all(scope(c, env) for c in s.children())


def check(key, env, a):
    def scenario(ip):
        w = World(ip, env)
        u = w.unit(a)
        d = w.m(u, "dimensionality")
        items = [tuple(ip.iterate(x)) for x in ip.iterate(w.m(d, "items"))]
        back = {id(o): n for n, o in w.basis.items()}
        res = []
        for b, e in items:
            res.append((back[id(b)] if id(b) in back else show(b), e))
        return res, w.m(u, "is_dimensionless"), w.m(u, "is_time_unit"), w.m(d, "__len__")

    obs = []
    outs = explore(program(), scenario, 48)
    leaves = spec_leaves(a, env=env)
    special = critical(env, a)
    for n, o in enumerate(outs):
        k = key if len(outs) == 1 else f"{key}#{n}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
            continue
        envs = terms.sample_envs(o.assumptions, leaves, n=5) + terms.critical_envs(o.assumptions, special, leaves)
        bad, good = None, 0
        for e in envs:
            orc = Oracle(env, e)
            want = orc.dims(a)
            if o.kind == "raise":
                bad = f"raises {exc_name(o.value)} {show(o.value)[:150]}"
                break
            items, dimless, time, length = o.value
            try:
                got = {}
                for b, x in items:
                    x = terms.lift(x)
                    if x is None:
                        raise terms.EvalError("not a number")
                    if b in got:
                        bad = f"base unit {b} is listed twice"
                    got[b] = terms.evaluate(x, e)
            except terms.EvalError:
                continue
            if not Oracle.same(got, want):
                shown = {b: terms.show(terms.lift(x)) for b, x in items}
                bad = f"the dimensionality is {shown}, at a generic point {got} instead of {want}"
            elif dimless is not (not want):
                bad = f"is_dimensionless is {show(dimless)} for {want}"
            elif time is not (len(want) == 1 and all(isinstance(env[b], Base) and env[b].time and abs(v - 1) < 1e-9 for b, v in want.items())):
                bad = f"is_time_unit is {show(time)} for {want}"
            elif length != len(want):
                bad = f"len() of the dimensionality is {show(length)} for {want}"
            if bad:
                break
            good += 1
        if bad:
            obs.append(Ob(key, "violation", f"{a}{guards(o)}: {bad}", where))
        elif not good:
            obs.append(Ob(k, "undecided", "no sample point" + guards(o), where))
        else:
            obs.append(Ob(k, "ok", f"{a}{guards(o)}: {dict((b, show(x)) for b, x in o.value[0])}", where))
    return obs


def check_views(key, env, a, b):
    """A dimensionality as a mapping: views, comparison, reciprocal."""
    ints = lambda d: {n: int(round(e)) for n, e in d.items()}  # noqa: E731
    orc = Oracle(env, lambda t: 2.5)
    da, db = ints(orc.dims(a)), ints(orc.dims(b))

    def scenario(ip):
        w = World(ip, env)
        x, y = (w.m(w.unit(u), "dimensionality") for u in (a, b))
        name = {id(o): n for n, o in w.basis.items()}
        named = lambda it: [(name.get(id(k), show(k)), e) for k, e in (tuple(ip.iterate(i)) for i in ip.iterate(it))]  # noqa: E731

        def plain(d):
            r = ADict()
            for n, e in d.items():
                ip.dict_set(r, opaque(n), e)
            return r

        def ask(u, v):
            return ip.truth(ip.compare(ast.Eq(), u, v))

        alone = []  # the same unit, asked for by its name
        for u in (a, b):
            if isinstance(u, Id) and not u.prefix:
                v = w.m(w.system, "unit_by_name_or_symbol", opaque(u.name))
                dv = w.m(v, "dimensionality")
                alone.append((named(w.m(dv, "items")), w.m(v, "is_dimensionless"), ints(orc.dims(u)), [
                    ask(dv, w.m(w.unit(u), "dimensionality")), ask(w.m(w.unit(u), "dimensionality"), dv), ask(dv, plain(ints(orc.dims(u)))),
                    ask(w.m(w.m(dv, "inverted"), "inverted"), dv), w.m(v, "is_convertible_to", w.unit(u)), w.m(w.unit(u), "is_convertible_to", v)]))
        res = {
            "alone": alone,
            "items": named(w.m(x, "items")),
            "keys": [name.get(id(k), show(k)) for k in ip.iterate(w.m(x, "keys"))],
            "values": list(ip.iterate(w.m(x, "values"))),
            "inverted": named(w.m(w.m(x, "inverted"), "items")),
            "twice inverted": ask(w.m(w.m(x, "inverted"), "inverted"), x),
            "a == b": ask(x, y), "b == a": ask(y, x), "a != b": ip.truth(ip.compare(ast.NotEq(), x, y)),
            "a == its names": ask(x, plain(da)), "a == the names of b": ask(x, plain(db)), "a == its reciprocal names": ask(x, plain({n: -e for n, e in da.items()})),
            "a == a string": ask(x, "m"), "a == None": ask(x, None),
        }
        res["alone"] = [([(n, concrete(e)) for n, e in x], *rest) for x, *rest in res["alone"]]
        return {k: [(n, concrete(e)) for n, e in v] if k in ("items", "inverted") else [concrete(e) for e in v] if k == "values" else v for k, v in res.items()}

    def concrete(e):
        t = terms.lift(e)
        if t is not None and not terms.leaves(t):
            return terms.evaluate(t, lambda s: None)
        return show(e)

    same = da == db
    obs = []
    for o in explore(program(), scenario, 16):
        where = path_of(o)
        if o.kind != "ok":
            kind = "violation" if o.kind == "raise" else "undecided"
            obs.append(Ob(key, kind, f"the dimensionality of {a} as a mapping: {exc_name(o.value) if o.kind == 'raise' else o.value}", where))
            continue
        r, bad = o.value, []
        for k, want in (("items", da), ("inverted", {n: -e for n, e in da.items()})):
            if sorted(r[k], key=str) != sorted([(n, float(e)) for n, e in want.items()], key=str):
                if sorted(r[k]) != sorted(want.items()):
                    bad.append(f"{k} is {r[k]} and not {want}")
        for got, z, want, views in r["alone"]:
            if sorted(got) != sorted(want.items()) or z is not (not want) or views != [True] * 6:
                bad.append(f"asked for by its name a unit of {want} has {got}, is_dimensionless {show(z)}, compares {show(views)}")
        if r["keys"] != [n for n, _ in r["items"]] or r["values"] != [e for _, e in r["items"]]:
            bad.append(f"keys {r['keys']} and values {r['values']} are not those of {r['items']}")
        for k, want in (("twice inverted", True), ("a == b", same), ("b == a", same), ("a != b", not same), ("a == its names", True), ("a == the names of b", same),
                        ("a == its reciprocal names", not da), ("a == a string", False), ("a == None", False)):
            if r[k] is not want:
                bad.append(f"{k} is {show(r[k])}")
        obs.append(Ob(key, "violation" if bad else "ok", f"dimensionalities {da} of {a} and {db} of {b}" + "".join(f"; {x}" for x in bad), where))
    return obs


def shapes(tier):
    leaves = ["m", "s", "n", "km", "r", "d", "c", "z", "q", "w", "l", "x", "y"]
    d1 = grow(leaves, leaves, ("*", "/", "^", "@", "lg"))
    d1 += [("^", x, p) for x in leaves for p in (0, 1, -2)]
    small = grow(["m", "n"], ["s", "m", "n"], ("*", "/")) + [("^", "m"), ("^", "s", 0), ("@", "m"), ("ln", "m"), ("lb", "s")]
    un = ("^", "@", "lg")
    d2 = grow(small, ["m", "s", "n", "r"], ("*", "/")) + grow(["m", "s", "n", "r"], small, ("*", "/"))
    for x in small:
        d2 += [("^", x), ("@", x), ("lg", x), ("^", x, -1), ("^", x, 0)]
    out = leaves + d1 + d2
    if tier == "thorough":
        mid = d1[::4] + small
        out += grow(small, mid, ("*", "/")) + grow(mid, small, ("*", "/"))
        for x in d2:
            out += [("^", x), ("@", x), ("log", x), ("^", x, 2)]
        out += grow(d2[::9], d2[::13], ("*", "/"))
    return dedupe(out)


EXTRA = [("*", ("lg", "m"), "s"), ("*", "s", ("ln", "m")), ("*", "l", "s"), ("*", ("lb", "m"), ("/", "m", "s"))]


def fits(a):
    from ..world import Stamp

    # a shift of a time unit is a date
    for x in a.walk():
        if isinstance(x, Shift) and Oracle(ENVX, lambda t: 2.0).dims(x.a) == {"s": 1.0}:
            return False
        if isinstance(x, Shift) and symbolic_exponent(x.a) and "s" in Oracle(ENVX, lambda t: 1.5).dims(x.a):
            return False
    return True


def tasks(tier):
    for sh in shapes(tier):
        a = spec(sh)
        if scope(a, ENVX) and fits(a):
            yield name(sh), check, (ENVX, a)
    for sh in EXTRA:
        yield "logarithmic " + name(sh), check, (ENVX, spec(sh))
    for sh in dedupe(wide_shapes()):
        yield "wide " + name(sh), check, (WIDE, spec(sh))
    few = [spec(x) for x in ("m", "n", "r", "d", "s", ("^", "m", 2), ("^", "m", -1), ("/", "m", "s"), ("/", "s", "m"), ("*", "m", "s"), ("*", "s", "m"), ("*", "m", ("^", "s", -1)), ("^", ("/", "m", "s"), 2), ("*", "m", "r"), ("^", ("/", "m", "s"), -1), ("*", ("^", "s", -2), "m"))]
    for i, a in enumerate(few):
        for j, b in enumerate(few):
            yield f"mapping {a}, {b}", check_views, (ENVX, a, b)
