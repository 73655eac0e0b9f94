"""C19: the XML database loads into exactly the units it describes."""
import itertools
import string

from ..documents import Doc, El, judge, load
from ..values import show
from ..world import exc_name
from .c18 import run

RULE = (
    "Abstract interpretation of UnitSystem.from_udunits2_xml on unit-system documents whose texts are opaque: every form of prefix "
    "and unit element (name with given, declared-absent and formed plural; symbols; alias names and symbols in each interleaving; "
    "base, dimensionless and defined units; each order of the child elements; with and without namespace, white space and comments; "
    "several elements in each order). Every reference of an element must resolve to its definition, its prefix to its value, its "
    "base unit to itself with the declared dimension, and no other text of the document to anything. The plural rule is analysed "
    "for names of an opaque stem with every two-letter ending. One obligation per document."
)
ASSUMPTIONS = [
    "the XML parser is modelled by its documented tree interface",
    "plurals of one-letter names are left open",
]
FLOOR = 300

EN = ".'en"  # a name which forms its plural with an s


def auto(stem):
    return (stem + EN, stem + ".'ens", "auto")


def given(stem):
    return (stem + EN, stem + "p", "given")


def no(stem):
    return (stem + EN, None, "no")


FORMS = {"formed": auto, "given": given, "none": no}


def absent(doc, *triples):
    """Plurals which must not exist."""
    for s, p, mode in triples:
        if mode != "auto":
            doc.absent.append(s[:-len(EN)] + ".'ens")
            doc.absent.append(s[:-len(EN)] + ".'enes")
    return doc


def check(key, make, **kw):
    def scenario(ip):
        doc = make()
        s, e = load(ip, doc, **kw)
        if s is None:
            return [(False, f"loading raises {exc_name(e)} {show(e)[:200]}")]
        return judge(s, doc)

    obs = run(key, scenario)
    for o in obs:
        if o.status == "violation":
            o.detail = f"{''.join(e.show() for e in make().items[1:])[:500]}: {o.detail}"
    return obs


def documents(tier):
    # prefixes
    for n in range(4):
        syms = tuple(f"k{i}" for i in range(n))
        for order in itertools.permutations(range(3)):
            yield f"prefix with {n} symbols, order {order}", lambda syms=syms, order=order: Doc().prefix("k", "k", syms, order).unit("a", auto("a"), ("b",))
    yield "two prefixes", lambda: Doc().prefix("k", "k", ("l",)).prefix("h", "h", ("i", "j")).unit("a", auto("a"), ("b",))
    yield "prefix after units", lambda: Doc().unit("a", auto("a"), ("b",)).prefix("k", "k", ("l",)).unit("c", auto("c")).prefix("h", "h", ("i",))
    # names
    for kind in ("lazy", "basis", "dimensionless"):
        kw = dict(kind="basis" if kind != "lazy" else "lazy", dimless=kind == "dimensionless")
        for fname, f in FORMS.items():
            for rev in (False, True):
                yield f"{kind} unit with a name, plural {fname}{', reversed' if rev else ''}", lambda f=f, kw=kw, rev=rev: absent(Doc().prefix("k", "k").unit("a", f("a"), reverse=rev, **kw), f("a"))
            for ns in range(3):
                syms = tuple(f"s{i}" for i in range(ns))
                for al in ALIASES:
                    yield f"{kind} unit, name plural {fname}, {ns} symbols, aliases {say(al)}", lambda f=f, kw=kw, syms=syms, al=al: with_absent(Doc().prefix("k", "k", ("l",)).unit("a", f("a"), syms, aliases(al), **kw), f("a"), al)
        for ns in range(4):
            if kind != "lazy" and not ns:
                continue
            syms = tuple(f"s{i}" for i in range(ns))
            for al in ALIASES:
                if ns or al:
                    yield f"{kind} unit without name, {ns} symbols, aliases {say(al)}", lambda kw=kw, syms=syms, al=al: with_absent(Doc().prefix("k", "k", ("l",)).unit("a", None, syms, aliases(al), **kw), None, al)
        for order in itertools.permutations(range(5)):
            if tier == "thorough" or order[0] < 2 or order[-1] < 2:
                yield f"{kind} unit, children in order {order}", lambda kw=kw, order=order: Doc().prefix("k", "k").unit("a", given("a"), ("s0", "s1"), aliases(("formed", "symbol")), order=order, **kw)
    # one spelling in several places
    a = "a" + EN
    same = {
        "symbol like the name": (given("a"), (a,), ()),
        "symbol like the formed plural": (auto("a"), ("a.'ens",), ()),
        "symbol like the given plural": (given("a"), ("ap",), ()),
        "alias name like the symbol": (None, (a,), (given("a"),)),
        "alias plural like the symbol": (given("b"), ("ap",), (given("a"),)),
        "alias name like the name, with another plural": (given("a"), (), ((a, "aq", "given"),)),
        "alias name like the name, with a formed plural": (given("a"), (), (auto("a"),)),
        "alias name like the name, without plural": (given("a"), (), (no("a"), "s")),
        "alias name like the plural": (given("a"), (), (("ap", "aq", "given"),)),
        "alias symbol like the name": (given("a"), ("s",), (a, given("x"))),
        "alias symbol like the symbol": (given("a"), ("s",), ("s", "t")),
        "alias symbol like the plural": (auto("a"), ("s",), ("a.'ens", "t")),
        "symbol twice": (given("a"), ("s", "s", "t"), ()),
        "alias symbol twice": (given("a"), (), ("s", "s", "t")),
        "alias name twice, with other plurals": (given("b"), (), (given("a"), (a, "aq", "given"))),
        "alias symbol like an alias name": (given("b"), (), (given("a"), a, "t")),
        "plural like the singular": (("a", "a", "given"), ("s",), ()),
        "alias plural like the singular": (given("a"), ("s",), (("b", "b", "given"), "t")),
    }
    for k, (nm, syms, al) in same.items():
        for kind in ("lazy", "basis"):
            yield f"{kind} unit, {k}", lambda nm=nm, syms=syms, al=al, kind=kind: Doc().prefix("k", "k", ("l",)).unit("a", nm, syms, al, kind=kind)
    yield "symbol like the name of an earlier unit", lambda: Doc().unit("a", given("a"), ("s",)).unit("b", given("b"), (a, "t"))
    yield "symbol like the name of a later unit", lambda: Doc().unit("b", given("b"), (a, "t")).unit("a", given("a"), ("s",))
    yield "prefix like a unit", lambda: Doc().prefix("k", a, ("l",)).unit("a", given("a"), ("l",)).unit("b", given("b"), ("t",))
    yield "prefix symbol like its name", lambda: Doc().prefix("k", "k", ("k", "l")).unit("a", given("a"), ("s",))
    yield "prefix symbol twice", lambda: Doc().prefix("k", "k", ("l", "l", "m")).unit("a", given("a"), ("s",))
    # time
    second = ("'second", "'seconds", "auto")
    yield "the base unit second", lambda: Doc().unit("a", second, ("s",), aliases(("formed", "symbol")), kind="basis", time=True).unit("b", auto("b"), ("c",), kind="basis")
    yield "the base unit second and its symbol", lambda: Doc().unit("a", second, ("s",), kind="basis", time=True).unit("b", None, ("'sec",), kind="basis")
    yield "a base unit with the alias second", lambda: Doc().unit("a", auto("a"), ("s",), (second,), kind="basis")
    yield "a base unit with the symbol s", lambda: Doc().unit("a", auto("a"), ("'s",), kind="basis")
    yield "a base unit with the symbol second", lambda: Doc().unit("a", auto("a"), ("'second",), kind="basis")
    yield "a base unit with the plural seconds", lambda: Doc().unit("a", ("a" + EN, "'seconds", "given"), kind="basis")
    yield "a base unit whose name ends in second", lambda: Doc().unit("a", ("a.'second", "a.'seconds", "auto"), kind="basis")
    yield "a base unit whose name starts with second", lambda: Doc().unit("a", ("'second.a" + EN, "'second.a.'ens", "auto"), kind="basis")
    yield "a defined unit second", lambda: Doc().unit("a", second, ("s",))
    # several units
    for n, kinds in enumerate(itertools.product(("lazy", "basis"), repeat=3)):
        def make(kinds=kinds, n=n):
            d = Doc()
            for i, k in enumerate(kinds):
                t = "abc"[i]
                f = list(FORMS.values())[(i + n) % 3]
                d.unit(t, f(t) if (i + n) % 4 else None, (t + "s",), aliases(ALIASES[(3 * i + n) % len(ALIASES)], t), kind=k)
                if i == 1:
                    d.prefix("k", "k", ("l",))
            return d

        yield f"three units {kinds} {n}", make
    yield "a unit defined by a later unit", lambda: Doc().prefix("k", "k").unit("a", no("a"), base="b").unit("b", ("b", None, "no"), ("c",))
    yield "a unit defined by an earlier unit", lambda: Doc().prefix("k", "k").unit("b", ("b", None, "no"), ("c",)).unit("a", no("a"), base="b")


ALIASES = [()] + [a for n in (1, 2) for a in itertools.product(("formed", "given", "none", "symbol"), repeat=n)] + [
    ("formed", "symbol", "given"), ("symbol", "formed", "symbol"), ("none", "formed", "given"), ("symbol", "symbol", "formed"), ("symbol",) * 3, ("formed",) * 3, ("formed", "none", "symbol", "given", "symbol")
]


def say(al):
    return "+".join(al) or "none"


def aliases(al, tag="x"):
    return tuple(f"{tag}{i}s" if a == "symbol" else FORMS[a](f"{tag}{i}") for i, a in enumerate(al))


def with_absent(doc, name, al):
    if name:
        absent(doc, name)
    absent(doc, *[a for a in aliases(al) if not isinstance(a, str)])
    doc.absent += [f"{a}.'s" for a in aliases(al) if isinstance(a, str)]
    doc.absent += [f"{s}.'s" for u in doc.units for s in u.symbols]
    return doc


def plural(ending):
    """UDUNITS2's formPlural"""
    if ending.endswith("y"):
        return ending + "s" if ending[-2] in "aeiou" else ending[:-1] + "ies"
    if ending.endswith(("s", "x", "z", "ch", "sh")):
        return ending + "es"
    return ending + "s"


def check_plural(key, endings, alias, literal):
    """The formed plural of names with the given endings."""

    def make():
        d = Doc()
        for n, e in enumerate(endings):
            stem = f"'st{n}" if literal else f"a{n}"
            stem = stem if not literal else "'" + "bcdfghklmnpqrtvw"[n % 16] * (1 + n // 16) + "o"
            if literal == "long":
                stem += "rbl"
            elif literal == "short":
                stem = "'"
            t = (f"{stem}.'{e}", f"{stem}.'{plural(e)}", "auto")
            d.unit(f"u{n}", None if alias else t, aliases=(t,) if alias else (), extra=False)
            for other in {e + "s", e + "es", e[:-1] + "ies"} - {plural(e)}:
                d.absent.append(f"{stem}.'{other}")
        return d

    return check(key, make)


def tasks(tier):
    n = 0
    for name, make in documents(tier):
        n += 1
        yield name, check, (make,)
        if n % 7 == 0 or tier == "thorough":
            yield f"{name}, padded", lambda k, m: check(k, m, pad=True), (make,)
            yield f"{name}, without namespace", lambda k, m: check(k, m, ns=""), (make,)
            yield f"{name}, with comments", lambda k, m: check(k, m, comments=True), (make,)
    letters = string.ascii_lowercase + "_" + ("SXZHY9é°" if tier == "thorough" else "SYé")
    for last in letters:
        ends = [p + last for p in letters if not (p + last)[-2:].isdigit()]
        yield f"formed plurals of names which end in {last}", check_plural, (ends, False, False)
        yield f"formed plurals of alias names which end in {last}", check_plural, (ends, True, False)
        if last in "yshxzeYSé_":
            yield f"formed plurals of spelled names which end in {last}", check_plural, (ends, False, True)
        if last in "yshxz":
            yield f"formed plurals of long names which end in {last}", check_plural, (ends, False, "long")
            yield f"formed plurals of short names which end in {last}", check_plural, ([e for e in ends if e.isalpha()], False, "short")
