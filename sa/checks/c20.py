"""C20: unknown XML content is ignored by default and refused when strict."""
from ..documents import Doc, El, judge, load, name_el
from ..values import show
from ..world import exc_is, exc_name
from . import c19
from .c18 import run
from .c19 import ALIASES, EN, aliases, auto, given, no

RULE = (
    "Abstract interpretation of the default and the strict loader on unit-system documents with opaque texts into which an unknown "
    "element (foreign, or known elsewhere in the format; empty, with text, or with a whole unit or prefix inside) is inserted at "
    "every position of every element, or attributes at every element. The default loader must yield exactly the system of the "
    "document without the insertion; the strict one must raise ValueError when the element is in a unit, prefix, name, alias list "
    "or at top level, and must accept documents without. One obligation per document and loader."
)
ASSUMPTIONS = [
    "whether the strict loader looks into texts (such as a symbol or a definition) and at attributes is left open",
    "the XML parser is modelled by its documented tree interface",
]
FLOOR = 300

KNOWN = {
    "unit-system": {"prefix", "unit"},
    "unit": {"base", "dimensionless", "def", "name", "symbol", "aliases", "comment", "definition"},
    "prefix": {"name", "value", "symbol"},
    "name": {"singular", "plural", "noplural"},
    "aliases": {"name", "symbol", "noplural"},
}
#: tags which are known in some other element (comment and definition, which are
#: harmless anywhere, are left out)
ELSEWHERE = ["value", "def", "name", "symbol", "singular", "plural", "aliases", "base", "dimensionless", "prefix", "unit", "noplural"]


def lazy():
    return Doc().prefix("k", "k", ("l", "j")).unit("a", given("a"), ("s0", "s1"), aliases(("formed", "symbol", "given", "none", "symbol")), base="z").unit("d", auto("d"), ("e",), base="a" + EN, via="a")


def bare():
    return Doc().prefix("k", "k").unit("a", no("a"), extra=False).unit("b", None, ("s",), kind="basis", extra=False).unit("c", None, (), aliases(("formed",)), extra=False)


def basis():
    return Doc().unit("a", no("a"), ("s0",), aliases(("symbol", "formed")), kind="basis").prefix("k", "k", ("l",)).unit("b", auto("b"), ("t0", "t1"), kind="basis", dimless=True, reverse=True).unit("c", None, ("c",), kind="basis", dimless=True, aliases=aliases(("none",), "w"))


DOCS = {"defined units": lazy, "bare units": bare, "base units": basis}


def content(tag, what):
    """An element which the loader does not know in this place."""
    if what == "empty":
        return El(tag)
    if what == "text":
        return El(tag, "q1")
    if what == "attributes":
        return El(tag, None, name="q1", value="1")
    if what == "nested":
        return El(tag, "q1", El("note", "q2", El("symbol", "q3")), El("singular", "q4.'en"), El("symbol", "q5"))
    if what == "unit":
        return El(tag, None, El("unit", None, El("base"), name_el("q1", "q2", "given"), El("symbol", "q3"), El("aliases", None, name_el("q4.'en", None, "auto"), El("symbol", "q5"))))
    if what == "prefix":
        return El(tag, None, El("prefix", None, El("name", "q1"), El("value", ("value", "q")), El("symbol", "q2")))
    if what == "parts of a unit":
        return El(tag, None, El("base"), name_el("q1", "q2", "given"), El("symbol", "q3"), El("def", ("definition", "q")))
    if what == "parts of a prefix":
        return El(tag, None, El("name", "q1"), El("value", ("value", "q")), El("symbol", "q3"))
    raise AssertionError(what)


CONTENT = ["empty", "text", "attributes", "nested", "unit", "prefix", "parts of a unit", "parts of a prefix"]
ABSENT = ["q1", "q2", "q3", "q4.'en", "q4.'ens", "q5", "q1.'s", "q1.a" + EN, "q2.a" + EN]


def say(root, path):
    out, e = [], root
    for n in path:
        e = e.kids[n]
        out.append(e.tag)
    return "/".join(out)


def insert(make, inserts, attribs=()):
    doc = make()
    root = doc.root()
    doc.absent += ABSENT
    for path, index, e in inserts:
        root.at(path).kids.insert(index, e)
    for path, at in attribs:
        root.at(path).attrib = dict(at)
    return doc, root


def check_default(key, make, inserts, attribs=(), **kw):
    def scenario(ip):
        doc, root = insert(make, inserts, attribs)
        s, e = load(ip, doc, root, **kw)
        if s is None:
            return [(False, f"loading raises {exc_name(e)} {show(e)[:200]}")]
        return judge(s, doc, quick=True)

    return run(key, scenario)


def check_strict(key, make, inserts, must, attribs=(), **kw):
    """must: True raise, False accept, None either"""

    def scenario(ip):
        doc, root = insert(make, inserts, attribs)
        s, e = load(ip, doc, root, strict=True, **kw)
        if s is None:
            if not exc_is(e, "ValueError") or exc_is(e, "UnresolvableUnitException"):
                return [(False, f"the strict loader raises {exc_name(e)} {show(e)[:200]}")]
            if must is False:
                return [(False, f"the strict loader refuses it with {exc_name(e)} {show(e)[:200]}")]
            return [(True, f"raises {exc_name(e)}")]
        if must:
            return [(False, "the strict loader accepts it")]
        return judge(s, doc, quick=True)

    return run(key, scenario)


def check_clean(key, make, **kw):
    return check_strict(key, make, (), False, (), **kw)


def tasks(tier):
    n = 0
    for dname, make in DOCS.items():
        root = make().root()
        for path, e in root.walk():
            leaf = e.tag not in KNOWN and e.tag != "udunits-2"
            inside = e.tag in KNOWN
            for index in range(len(e.kids) + 1):
                where = f"{dname}: {say(root, path) or 'root'} #{index}"
                tags = ["note"] if e.tag not in KNOWN else ["note"] + [t for t in ELSEWHERE if t not in KNOWN[e.tag]] + [x for t in sorted(KNOWN[e.tag]) for x in (t.capitalize(), t + "s")][n % 3 :: 3]
                for t in tags:
                    kinds = CONTENT if tier == "thorough" else [CONTENT[(n + k * 3) % len(CONTENT)] for k in range(3 if t == "note" else 1)]
                    for what in kinds:
                        n += 1
                        x = content(t, what)
                        yield f"default loader, {where}: <{t}> ({what})", check_default, (make, [(path, index, x)])
                        # what is outside of the unit system is not read at all
                        must = True if inside else None
                        yield f"strict loader, {where}: <{t}> ({what})", check_strict, (make, [(path, index, x)], must)
            yield f"attributes of {dname}: {say(root, path) or 'root'}", check_default, (make, (), [(path, {"name": "q1", "value": "q2", "noplural": "q3", "{u}base": "q5"})])
        every = [p for p, _ in root.walk()]
        for k, kw in {"": {}, ", padded": {"pad": True}, ", without namespace": {"ns": ""}, ", with comments": {"comments": True}}.items():
            # unknown elements everywhere at once
            x = [(p, len(root.at(p).kids), content("note", CONTENT[i % 8])) for i, p in enumerate(every)][::-1]
            yield f"default loader, {dname}{k}: unknown elements everywhere", _kw(check_default, kw), (make, x)
            yield f"default loader, {dname}{k}: attributes everywhere", _kw(check_default, kw), (make, (), [(p, {"id": "q1"}) for p in every])
            yield f"strict loader, {dname}{k}: unknown elements everywhere", _kw(check_strict, kw), (make, x, True)
            yield f"strict loader, {dname}{k}: no unknown elements", _kw(check_clean, kw), (make,)
    for m, (name, make) in enumerate(c19.documents(tier)):
        if tier == "thorough" or m % 5 == 0:
            yield f"strict loader, {name}", check_clean, (make,)


def _kw(f, kw):
    return lambda key, *a: f(key, *a, **kw)
