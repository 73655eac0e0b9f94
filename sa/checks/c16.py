"""C16: names resolve by fixed precedence and prefixes multiply."""
import itertools

from ..core import Ob, path_of
from ..registry import Model, Prefix, System, Unit, verdict
from ..world import explore, program

RULE = (
    "Abstract interpretation of UnitSystem.unit_by_name_or_symbol and UnitSystem.unit on unit systems whose registered "
    "names are opaque texts and concatenations of opaque texts, with every kind of collision between names, plurals, "
    "symbols, aliases, prefix names, prefix symbols and prefixed readings, in several orders of registration and for each "
    "kind of unit object. Each reference must resolve as the precedence prescribes, a prefixed one to prefix value times "
    "unit (read off the expanded form, where every prefix and unit has an opaque factor of its own), any other reference must "
    "raise UnresolvableUnitException. One obligation per system and reference."
)
ASSUMPTIONS = ["where several prefixes of the same kind fit, any of them is allowed"]
FLOOR = 150


def U(uid, **k):
    return Unit(uid, **k)


def systems(tier):
    kinds = ("lazy", "named", "basis")
    for kind in kinds:
        full = U("u", name="a", plural="b", symbols=("c", "d"), aliases=("e", ("f", "g")), asyms=("h", "i"), kind=kind)
        P = [Prefix("p", "k", ("j", "l")), Prefix("q", "m")]
        refs = list("abcdefghi") + [f"{p}.{u}" for p in "kjlm" for u in "abcdefghi"]
        bad = ["k", "j", "n", "k.k", "k.j", "k.k.a", "a.k", "a.a", "a.b", "n.a", "a.n", "k.n", "k.a.n", "j.m.c"]
        yield f"every kind of reference, {kind}", P + [full], refs + bad
        yield f"prefixes last, {kind}", [full] + P, refs + bad
    # the same spelling for references of two units
    slots = {
        "name": dict(name="x"), "plural": dict(name="o", plural="x"), "symbol": dict(symbols=("x",)), "second symbol": dict(symbols=("o", "x")),
        "alias": dict(name="w", aliases=("x",)), "alias plural": dict(name="w", aliases=(("o", "x"),)), "alias symbol": dict(name="w", asyms=("x",)),
    }
    names, syms = ("name", "plural", "alias", "alias plural"), ("symbol", "second symbol", "alias symbol")
    for s1, s2 in itertools.permutations(slots, 2):
        if (s1 in names) == (s2 in names):
            continue  # refused
        a = dict(slots[s1])
        b = {k: tuple("v" if x == "o" else x for x in v) if isinstance(v, tuple) and not isinstance(v[0], tuple) else "v" if v in ("o", "w") else v for k, v in slots[s2].items()}
        if b.get("aliases") and isinstance(slots[s2]["aliases"][0], tuple):
            b["aliases"] = (("r", "x"),)
        for kind in ("lazy", "basis") if tier == "thorough" else ("lazy",):
            yield f"x is {s1} of one and {s2} of the other unit, {kind}", [Prefix("p", "k", ("j",)), U("u", **a, kind=kind), U("t", **b, kind=kind)], ["x", "k.x", "j.x", "n.x"]
    # primary before alias, by replacement
    for one, two, refs in [
        (dict(name="x"), dict(name="w", aliases=("x",)), ["x", "w", "k.x"]),
        (dict(name="w", aliases=("x",)), dict(name="x"), ["x", "w", "k.x"]),
        (dict(symbols=("x",)), dict(symbols=("w",), asyms=("x",)), ["x", "w", "j.x"]),
        (dict(symbols=("w",), asyms=("x",)), dict(symbols=("x",)), ["x", "w", "j.x"]),
    ]:
        yield f"{U('u', **one)} then {U('t', **two)} replaces", [Prefix("p", "k", ("j",)), U("u", **one), ("replace", U("t", **two))], refs
    # a registered reference which has a prefixed reading
    for slot, kw in [("name", dict(name="k.x")), ("plural", dict(name="w", plural="k.x")), ("symbol", dict(symbols=("k.x",))), ("alias", dict(name="w", aliases=("k.x",))), ("alias symbol", dict(name="w", asyms=("k.x",)))]:
        for pre in (Prefix("p", "k"), Prefix("p", "o", ("k",))):
            ops = [pre, U("u", name="x"), U("t", **kw)]
            for n, order in enumerate(itertools.permutations(ops)):
                if n in (0, 5) or tier == "thorough":
                    yield f"{slot} k·x beside {pre} and x, order {n}", list(order), ["k.x", "x", "k.k.x"]
    # the spelling of a prefix and of a unit
    m = [Prefix("p", "o", ("x",)), U("u", symbols=("x",))]
    for ops in (m, m[::-1]):
        yield f"prefix symbol and unit symbol alike, {ops[0]} first", ops, ["x", "x.x", "o.x", "x.x.x", "x.o"]
    m = [Prefix("p", "x"), U("u", name="x", plural="y2")]
    for ops in (m, m[::-1]):
        yield f"prefix name and unit name alike, {ops[0]} first", ops, ["x", "x.x", "x.y2", "x.x.x", "x.x.y2"]
    for kind in ("named", "basis"):
        yield f"prefix symbol and unit symbol alike, {kind}", [Prefix("p", "o", ("x",)), U("u", symbols=("x",), kind=kind)], ["x", "x.x", "o.x"]
    # prefix name before prefix symbol
    for n, ops in enumerate(itertools.permutations([Prefix("p", "k"), Prefix("q", "o", ("k",)), U("u", name="a", symbols=("c",))])):
        yield f"k is a prefix name and a prefix symbol, order {n}", list(ops), ["k.a", "k.c", "o.a", "o.c"]
    # several splits
    for n, ops in enumerate(itertools.permutations([Prefix("p", "k"), Prefix("q", "k.d"), U("u", name="x")])):
        yield f"prefixes k and k·d, order {n}", list(ops), ["k.d.x", "k.x", "d.x"]
    for n, ops in enumerate(itertools.permutations([Prefix("p", "o", ("k",)), Prefix("q", "w", ("k.d",)), U("u", symbols=("x",))])):
        yield f"prefix symbols k and k·d, order {n}", list(ops), ["k.d.x", "k.x", "d.x", "w.x", "o.d.x"]
    for n, ops in enumerate(itertools.permutations([Prefix("p", "k"), Prefix("q", "k.d"), U("u", name="x"), U("t", name="d.x")])):
        if n % 5 == 0 or tier == "thorough":
            yield f"prefixes k and k·d, units x and d·x, order {n}", list(ops), ["k.d.x", "k.x", "d.x", "k.k.d.x", "k.d.d.x"]
    for n, ops in enumerate(itertools.permutations([Prefix("p", "o", ("k",)), Prefix("q", "k.d"), U("u", name="x"), U("t", name="d.x")])):
        if n % 5 == 1 or tier == "thorough":
            yield f"prefix symbol k and prefix name k·d, order {n}", list(ops), ["k.d.x", "k.x", "d.x", "o.x", "o.d.x", "k.d.d.x"]
    # the remainder follows the same precedence
    for n, ops in enumerate(itertools.permutations([Prefix("p", "k"), U("u", name="x"), U("t", symbols=("x",), name="w")])):
        yield f"remainder is name and symbol, order {n}", list(ops), ["k.x", "x", "k.w"]
    # a prefix whose first reading has no unit
    yield "a prefix name fits, but only the symbol has a remainder", [Prefix("p", "k"), Prefix("q", "o", ("k.d",)), U("u", name="x")], ["k.d.x", "k.x", "k.d"]
    yield "no units", [Prefix("p", "k", ("j",))], ["k", "j", "x", "k.x"]
    yield "no prefixes", [U("u", name="a", symbols=("c",))], ["a", "c", "x", "a.c", "k.a"]
    yield "many prefixes", [Prefix(f"p{i}", f"k{i}", (f"j{i}", f"l{i}")) for i in range(4)] + [U("u", name="a", plural="b", symbols=("c",))], [f"{p}{i}.{u}" for p in "kjl" for i in range(4) for u in "abc"] + ["k0.k1.a", "k0.j1.c"]
    # units defined by others
    yield "a unit of a unit", [Prefix("p", "k"), U("u", name="a", plural="b", symbols=("c",)), U("t", name="d", base="c", via="u")], ["d", "k.d", "c", "k.c"]


def letters(x):
    return ".".join(x)


def spelled():
    """Systems of concrete names whose spellings overlap."""
    def u(uid, name=None, symbols=(), plural=None):
        return Unit(uid, name=name and letters(name), plural=plural and letters(plural), symbols=[letters(x) for x in symbols])

    def p(pid, name, symbols=()):
        return Prefix(pid, letters(name), [letters(x) for x in symbols])

    pre = [p("kilo", "kilo", ["k"]), p("deci", "deci", ["d"]), p("deca", "deca", ["da"]), p("milli", "milli", ["m"]), p("mega", "mega", ["M"]), p("yocto", "yocto", ["y"])]
    un = [u("kat", "katal", ["kat"]), u("at", "at"), u("rad", "radian", ["rad"]), u("m", "metre", ["m"]), u("min", "minute", ["min"]), u("in", "inch", ["in"]),
          u("Pa", "pascal", ["Pa"]), u("pa", "pa"), u("ch", "chain", ["ch"]), u("kk", "kk"), u("lom", "lometre")]
    refs = ["kat", "kkat", "at", "dat", "xrad", "xkat", "drad", "radk", "radd", "mrad", "mm", "mmm", "m", "min", "mmin", "minin", "millimin", "kilominute", "kinch", "min ", " m", "inm",
            "MPa", "mPa", "MPA", "Mpa", "mpa", "PA", "PASCAL", "Kat", "KM", "kM", "dam", "dm", "kdm", "damin", "kilometre", "kilometres", "kilolometre", "kilokilometre", "katal", "katalk",
            "megapascal", "Megapascal", "megaPa", "Mpascal", "ykat", "ych", "inch", "minch", "mch", "k", "kilo", "da", "d", "kkk", "kk", "kkkk", "metrek", "lometre", "klometre"]
    for n, (a, b) in enumerate([(pre, un), (un, pre), (pre[::-1], un[::-1])]):
        yield f"overlapping spellings {n}", a + b, [letters(r) for r in refs]
    # texts which differ a little from a registered one
    pre = [p("kilo", "kilo", ["k"]), p("micro", "micro", ["µ", "u"]), p("deka", "deka")]
    un = [u("metre", "metre", ["m"], "metres"), u("foot", "international_foot", ["ft"], "international_feet"), u("siemens", "siemens", ["S"]), u("second", "second", ["s", "sec"]), u("lux", "lux", ["lx"], "luxes"),
          u("henry", "henry", ["H"], "henries"), u("one", symbols=["°"]), u("ohm", "ohm", ["Ω", "R_"]), u("under", "_x_")]
    for x in un + pre:
        known = [r.replace(".", "") for r in ([x.name] + list(x.symbols) if isinstance(x, Prefix) else x.refs())]
        refs = []
        for r in known:
            near = near_misses(r)
            refs += near + ["k" + y for y in near] + ["micro" + y for y in near]
        refs = [r for r in dict.fromkeys(refs) if r]
        for i in range(0, len(refs), 60):
            yield f"near {x} {i // 60}", pre + un, [letters(r) for r in refs[i:i + 60]]


def near_misses(r):
    """Texts which something that is not exact could take for r."""
    import unicodedata

    out = [r, r + "s", r + "es", r + r[-1], r[0] + r, r[:-1], r[1:], r[::-1], r.upper(), r.lower(), r.capitalize(), r.swapcase(), r.title(), r + "_", "_" + r, r.replace("_", ""), r.strip("_"), r.replace("_", " "), r.replace("_", "-"),
           " " + r, r + " ", r + "\n", "\u200b" + r, r + ".", r + "1", r + "'", unicodedata.normalize("NFKC", r), unicodedata.normalize("NFD", r), r.casefold(), "".join(chr(ord(c) + 0xFEE0) if "!" <= c <= "~" else c for c in r), r.rstrip("s"), r.rstrip("es"), r[:-3] + "y",
           r.replace("re", "er"), r.replace("µ", "μ"), r.replace("Ω", "Ω"), "k" + r + "s", r[:3], r[:4], r[-3:], r * 2]
    return [x for x in out if "." not in x] + [r[: len(r) // 2]]


def check(key, ops, refs, concrete, how):
    def scenario(ip):
        s = System(ip, concrete)
        m = Model()
        for op in ops:
            if isinstance(op, Prefix):
                s.prefix(op)
                m.prefix(op)
            else:
                u = op[1] if isinstance(op, tuple) else op
                r = s.add(u, isinstance(op, tuple))
                if r is not True:
                    return f"{u} is refused", None
                m.add(u)
        return "", [(r, verdict(s, m, r, s.ask(r, how))) for r in refs]

    obs = []
    for n, o in enumerate(explore(program(), scenario, 40)):
        where = path_of(o)
        if o.kind != "ok":
            obs.append(Ob(key, "undecided" if o.kind == "undecided" else "violation", f"{o.kind}: {o.value}", where))
            continue
        why, res = o.value
        if res is None:
            obs.append(Ob(key, "undecided", why, where))
            continue
        for r, (ok, text) in res:
            obs.append(Ob(f"{key}: {r}" + (f"#{n}" if n else ""), {True: "ok", False: "violation", None: "undecided"}[ok], text, where))
    return obs


def tasks(tier):
    for name, ops, refs in systems(tier):
        for how in ("lookup", "unit"):
            for concrete in (False, True):
                if how == "unit" and concrete and tier == "quick":
                    continue
                yield f"{name}, {how}{', spelled' if concrete else ''}", check, (ops, refs, concrete, how)
    for name, ops, refs in spelled():
        for how in ("lookup", "unit"):
            yield f"{name}, {how}", check, (ops, refs, "chars", how)
