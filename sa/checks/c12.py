"""C12: literals keep their exact value."""
import itertools

from ..core import Ob, guards, path_of
from ..trees import *
from ..trees import SUP, L, R
from ..world import exc_is, exc_name, explore, program

RULE = (
    "Abstract interpretation of parse() and the tree visitor on every token that carries a value, in every place of the "
    "grammar where it can stand: opaque integer and decimal literals (the derived value must be the exact int, or Decimal, "
    "of that text), a list of spellings with concrete text, every superscript exponent up to the bound, opaque and "
    "concrete identifiers and timestamps (the derived text must be the text of the token). One obligation per token, text and place."
)
ASSUMPTIONS = ["superscript exponents of up to 2 (quick) or 3 (thorough) characters"]
FLOOR = 300

INT_TEXTS = ["0", "1", "007", "42", "100", "12345678901234567890123456789012345", "2147483648"]
SIGNED_TEXTS = ["+1", "-1", "-0", "+007", "-42", "-12345678901234567890123456789012345", "+10"]
FLOAT_TEXTS = ["1.", "1.0", ".5", "-.5e-3", "1e5", "1E+5", "1e-20", "0.10000000000000000555111512312578270", "-2.e4", "+1.5", "1.50", "0.0", "-0.1",
               "9.80665", "1e0", "299792458.0", "1.60217653e-19", "123456789012345678901234567890.5", "0.1", "1E-30", "00.5", "2.5e3", "3.e-2", ".25E2"]
IDS = ["m", "MeV", "Pa", "kg", "µm", "μ", "°", "°C", "Ω", "π", "Å", "_x", "x_y", "K", "E", "e", "per", "PER", "re", "since_", "Ångström", "é", "UTC", "log", "Lg", "inf", "nan", "True", "ﬁ"]
STAMPS = [
    [L("DATE", "1990-01-02")], [L("DATE", "1990-1-1")], [L("DATE", "+1990-1")], [L("DATE", "-0001-12-31")],
    [L("DATE", "1990-01-02"), L("WS", " "), R("signed_clock", [L("HOUR_MINUTE_SECOND", "10:11:12.5000")])],
    [L("DATE", "1990-01-02"), L("T", "T"), R("signed_clock", [L("HOUR_MINUTE", "+1:2")]), L("WS", " "), L("TIMEZONE", "UTC")],
    [L("TIMESTAMP", "19900101T1900")], [L("DATE", "2000-01-01"), L("WS", " "), R("signed_clock", [L("HOUR_MINUTE", "00:00")]), L("WS", " "), R("timezone_offset", [L("HOUR_MINUTE", "-06:30")])],
    [L("DATE", "2000-01-01"), L("WS", " "), R("signed_clock", [L("HOUR_MINUTE", "00:00")]), L("WS", " "), R("timezone_offset", [R("integer", [L("SIGNED_INT", "+0100")])])],
    [L("DATE", "2000-01-01"), L("WS", " "), L("TZ", "TZ")],
    [L("DATE", "2000-01-01"), L("WS", " "), R("signed_clock", [R("integer", [L("INT", "0012")])])],
]


def places(text, tok):
    """Units with the literal in every place the grammar allows."""
    num = lambda: number(text, tok)  # noqa: E731
    yield "alone", unit(shift(prod(power(log(basic(num()))))))
    yield "first factor", unit(shift(prod(power(log(basic(num()))), ("MULTIPLY", "*"), simple("u"))))
    yield "last factor", unit(shift(prod(simple("u"), 1, power(log(basic(num()))))))
    yield "divisor", unit(shift(prod(simple("u"), ("DIVIDE", "/"), power(log(basic(num()))))))
    yield "dividend", unit(shift(prod(power(log(basic(num()))), ("DIVIDE", "/"), simple("u"))))
    yield "in brackets", unit(shift(prod(power(log(basic(shift(prod(power(log(basic(num())))))))))))
    yield "in a logarithm", unit(shift(prod(power(logref("lg(re ", "lg", shift(prod(power(log(basic(num()))), 1, simple("u"))))))))
    yield "base of a power", unit(shift(prod(power(log(basic(num())), integer("e"), "^"))))
    yield "origin", unit(shift(prod(simple("u")), "@", num(), 1, 1))
    yield "inner origin", unit(shift(prod(power(log(basic(shift(prod(simple("u")), "from", num(), 1, 1)))))))
    if tok != "FLOAT":
        i = lambda: integer(text, tok)  # noqa: E731
        yield "exponent", unit(shift(prod(simple("u", i()))))
        yield "raised exponent", unit(shift(prod(simple("u", i(), "^"))))
        yield "raised exponent **", unit(shift(prod(simple("u", i(), "**"))))
        yield "exponent of brackets", unit(shift(prod(power(log(basic(shift(prod(simple("u"))))), i()))))
        yield "exponent of a logarithm", unit(shift(prod(power(logref("lb(re ", "lb", shift(prod(simple("u")))), i()))))


def cases(tier):
    for tok, texts in (("INT", INT_TEXTS), ("SIGNED_INT", SIGNED_TEXTS), ("FLOAT", FLOAT_TEXTS)):
        for k, t in places("lit", tok):
            yield f"any {tok} {k}", t, False
        for text in texts:
            for k, t in places(text, tok):
                yield f"{tok} {text} {k}", t, False
    chars = "⁻⁺¹²³⁴⁵⁶⁷⁸⁹⁰"
    for n in range(1, 4 if tier == "thorough" else 3):
        for cs in itertools.product(chars, repeat=n):
            text = "".join(cs)
            yield f"superscript {text}", unit(shift(prod(simple("u", L("UNICODE_EXPONENT", text))))), bad_sup(text)
    for text in ("⁻¹²³", "¹²³⁴⁵⁶⁷⁸⁹⁰¹²³⁴⁵⁶⁷⁸⁹⁰", "⁺⁰⁰⁷"):
        for k, t in (
            ("of brackets", unit(shift(prod(power(log(basic(shift(prod(simple("u"))))), L("UNICODE_EXPONENT", text)))))),
            ("in a quotient", unit(shift(prod(simple("a"), ("DIVIDE", "/"), simple("u", L("UNICODE_EXPONENT", text)), 1, simple("b"))))),
            ("of a number", unit(shift(prod(power(log(basic(number("lit", "FLOAT"))), L("UNICODE_EXPONENT", text)))))),
        ):
            yield f"superscript {text} {k}", t, False
    for name in IDS:
        i = R("basic_spec", [L("ID", name)], ("id", name))
        yield f"identifier {name}", unit(shift(prod(power(log(i))))), False
        yield f"identifier {name} in a product", unit(shift(prod(simple("u"), ("DIVIDE", " per "), power(log(i), integer("e"))))), False
        yield f"identifier {name} in a logarithm", unit(shift(prod(power(logref("lg (re:", "lg", shift(prod(power(log(i))))))))), False
        yield f"identifier {name} shifted", unit(shift(prod(power(log(i))), "@", number("lit", "INT"), 1, 1)), False
    for n, kids in enumerate(STAMPS):
        for op in ("since", "@"):
            yield f"timestamp {n} {op}", unit(shift(prod(simple("u")), op, stamp(*kids), 1, 1)), False
    for t in timestamps():
        yield f"timestamp {t.shape()}", unit(shift(prod(simple("u")), "since", t, 1, 1)), False


def bad_sup(text):
    try:
        int(text.translate(SUP))
        return False
    except ValueError:
        return True


def check(key, tree, bad):
    def scenario(ip):
        return Parser(ip, tree).parse()

    obs = []
    outs = explore(program(), scenario, 16)
    for n, o in enumerate(outs):
        k = key if len(outs) == 1 else f"{key}#{n}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
        elif o.kind == "raise":
            ok = bad and exc_is(o.value, "SyntaxError", "ValueError")
            obs.append(Ob(k, "ok" if ok else "violation", f"parsing {str(tree)!r} raises {exc_name(o.value)}{guards(o)}", where))
        elif bad:
            obs.append(Ob(k, "violation", f"{str(tree)!r} is not a number but becomes {brief(o.value)}{guards(o)}", where))
        else:
            ok, why = matches(o.interp, o.value, tree.den)
            obs.append(Ob(k, {True: "ok", False: "violation", None: "undecided"}[ok],
                          f"{str(tree)!r} becomes {brief(o.value)}" + (f": {why}{guards(o)}" if why else ""), where))
    return obs


def tasks(tier):
    for key, t, bad in cases(tier):
        yield key, check, (t, bad)
