"""Abstract unit-system documents, and what the loader must make of them.

Texts of a document are opaque, written as dotted references (see registry);
a piece which starts with an apostrophe is literal, so that "a.'en" stands for
every name which ends in "en"."""
from __future__ import annotations

from . import libs, terms
from .interp import AbsRaise, Undecided
from .registry import Model, Prefix, System, Unit, _Node, verdict
from .values import Atom, is_str, mkstr, opaque, show
from .world import World, exc_is, exc_name

NS = "{http://www.unidata.ucar.edu/x}"


class El:
    """An element of the document: mutable, so that scenarios can insert."""

    def __init__(self, tag, text=None, *kids, **attrib):
        self.tag, self.text, self.kids, self.attrib, self.tail = tag, text, list(kids), attrib, None

    def copy(self):
        e = El(self.tag, self.text, *[k.copy() for k in self.kids], **self.attrib)
        e.tail = self.tail
        return e

    def walk(self, path=()):
        yield path, self
        for n, k in enumerate(self.kids):
            yield from k.walk(path + (n,))

    def at(self, path):
        e = self
        for n in path:
            e = e.kids[n]
        return e

    def show(self):
        t = f"{self.text}" if self.text else ""
        return f"<{self.tag}>{t}{''.join(k.show() for k in self.kids)}</{self.tag}>"


def name_el(singular, plural, mode, order=0):
    kids = [El("singular", singular)]
    if mode == "given":
        kids.append(El("plural", plural))
    elif mode == "no":
        kids.append(El("noplural"))
    return El("name", None, *(kids[::-1] if order else kids))


class Doc:
    """units: [(Unit, options)], prefixes.  A name is (singular, plural, mode)."""

    def __init__(self):
        self.items = []  # El
        self.units, self.prefixes, self.absent = [], [], []
        self.dimless, self.time = set(), set()
        self.unit("z", name=("z", None, "no"), kind="basis")

    def prefix(self, pid, name, symbols=(), order=(0, 1, 2)):
        p = Prefix(pid, name, symbols)
        groups = [[El("name", name)], [El("value", ("value", pid))], [El("symbol", s) for s in symbols]]
        self.items.append(El("prefix", None, *(e for n in order for e in groups[n])))
        self.prefixes.append(p)
        self.items[-1].what = p
        return self

    def unit(self, uid, name=None, symbols=(), aliases=(), kind="lazy", base="z", order=(0, 1, 2, 3, 4), dimless=False, time=False, extra=True, reverse=False, via=None):
        """aliases: names (triples) and symbols (strings) as they follow one another"""
        groups = [[], [], [], [], []]
        groups[0] = [El("dimensionless" if dimless else "base")] if kind == "basis" else [El("def", ("definition", uid))]
        if name:
            groups[1] = [name_el(*name, order=reverse)]
        groups[2] = [El("symbol", s) for s in symbols]
        if aliases:
            groups[3] = [El("aliases", None, *(El("symbol", a) if isinstance(a, str) else name_el(*a, order=reverse) for a in aliases))]
        if extra:
            groups[4] = [El("comment", ("note", f"comment {uid}")), El("definition", ("note", f"description {uid}"))]
        e = El("unit", None, *(k for n in order for k in groups[n]))
        self.items.append(e)
        al = [a for a in aliases if not isinstance(a, str)]
        u = Unit(uid, name=name[0] if name else None, plural=name[1] if name else None, symbols=symbols, aliases=tuple((a[0], a[1]) for a in al), asyms=tuple(a for a in aliases if isinstance(a, str)), kind=kind, base=base, via=via or (None if base == "z" else base))
        if uid != "z":
            self.units.append(u)
        e.what = u
        if dimless:
            self.dimless.add(uid)
        if time:
            self.time.add(uid)
        return self

    def root(self, wrap=True):
        us = El("unit-system", None, *self.items)
        return El("udunits-2", None, us) if wrap else us


class Loaded(System):
    """The unit system which the loader makes of a document."""

    def __init__(self, ip, doc, root, strict=False, ns=NS, pad=False, comments=False, w=None):
        self.ip = ip
        self.w = w or World(ip, {})
        self.concrete = False
        self.words, self.units, self.obj = {}, {}, {}
        self.zref = "z"
        self.pad = pad
        for u in doc.units:
            self.units[u.uid] = u
            t = self.value(("definition", u.uid))
            self.w.specs[t] = _Node(lambda u=u: self.w.call(self.w.g("Multiply"), self.w.node(_num(u)), self.ident(u.base)))
        ip.extern["document"] = {"root": lambda i: self.build(root, ns, comments), "opened": []}
        if strict:
            cls = self.w.attr("._udunits2_xml_parser", "UnhandledContentDisallowed")
            self.us = self.w.m(cls, "parse_file", libs.path_of("document"))
        else:
            self.us = self.w.m(self.w.attr("", "UnitSystem"), "from_udunits2_xml")
        self.w.system = self.us

    def word(self, piece):
        return piece[1:] if piece.startswith("'") else opaque(piece)

    def value(self, t):
        if t is None or t == "":
            return t
        if isinstance(t, tuple):
            kind, name = t
            if kind == "value":
                return opaque(f"value of {name}", "declit")
            if kind == "definition":
                return opaque(f"definition of {name}", "text")
            if kind == "literal":
                return name
            return opaque(name, "text")
        return self.text(t)

    def build(self, e, ns, comments):
        t = self.value(e.text)
        if self.pad and e.tag not in ("base", "dimensionless", "noplural"):
            t = mkstr("\n    ", t, "\t ") if t is not None else "\n  "
        kids = [self.build(k, ns, comments) for k in e.kids]
        if comments and e.kids:
            # a comment's tag is a function
            kids = [k for x in kids for k in (libs.element(libs._ET["Comment"], " a comment "), x)]
        return libs.element(e.tag, t, kids, e.attrib, ns, e.tail if not self.pad else "\n  ")

    def find(self, ref, how="lookup"):
        t = ref if not isinstance(ref, str) else None
        if t is None:
            return super().find(ref, how)
        try:
            return self.w.m(self.us, "unit_by_name_or_symbol", self.value(t)), None
        except AbsRaise as e:
            return None, e.exc


def _num(u):
    from .world import Num

    return Num(f"n_{u.uid}")


def model(doc):
    m = Model()
    m.names["z"] = "z"
    for p in doc.prefixes:
        m.prefix(p)
    for u in doc.units:
        m.add(u)
    return m


def load(ip, doc, root=None, **kw):
    """(Loaded, None) or (None, exception)"""
    try:
        return Loaded(ip, doc, root or doc.root(), **kw), None
    except AbsRaise as e:
        return None, e.exc


def judge(s, doc, quick=False):
    """[(ok, text)]: the loaded system against the document."""
    m = model(doc)
    res = []
    refs = [r for u in doc.units for r in u.refs()]
    pre = [x for p in doc.prefixes for x in (p.name, *p.symbols)]
    for r in refs:
        res.append(verdict(s, m, r, s.ask(r)))
    if not quick:
        for r in refs[:3]:
            res.append(verdict(s, m, r, s.ask(r, "unit")))
    for p in pre:
        for r in refs if not quick else refs[:1]:
            res.append(verdict(s, m, f"{p}.{r}", s.ask(f"{p}.{r}")))
    # nothing else
    for t in doc.absent + [t for u in doc.units for t in (("definition", u.uid), ("note", f"comment {u.uid}"), ("note", f"description {u.uid}"))] + [("value", p.pid) for p in doc.prefixes]:
        if isinstance(t, str) and m.lookup(t):
            continue
        u, e = s.find(t)
        if u is not None:
            res.append((False, f"{t if isinstance(t, str) else ' '.join(t)} became a unit"))
        elif not exc_is(e, "UnresolvableUnitException"):
            res.append((False, f"{t} raises {exc_name(e)}"))
    for p in pre:
        u, e = s.find(p)
        if not m.lookup(p):
            res.append((u is None, f"the prefix {p} is{'' if u is not None else ' not'} a unit"))
    # what the registered objects carry, where they can be seen
    for u in doc.units:
        got = carried(s, u)
        if got is not None:
            want = wanted(s, u)
            res.append((got == want, f"{u} carries {show(got)}, not {show(want)}"))
    for p in doc.prefixes:
        got = carried_prefix(s, p)
        if got is not None:
            want = (s.text(p.name), s.value(("value", p.pid)), tuple(s.text(x) for x in p.symbols))
            res.append((got == want, f"{p} carries {show(got)}, not {show(want)}"))
    # base units
    for u in doc.units + [_Z]:
        if u.kind != "basis":
            continue
        o, e = s.find((u.names() + list(u.symbols))[0])
        if o is None:
            res.append((False, f"{u} raises {exc_name(e)}"))
            continue
        text = s.w.m(o, "expanded")
        res.append((text == s.text((u.names() + list(u.symbols))[0]), f"the base unit {u} is written {show(text)}"))
        free = s.ip.truth(s.w.m(o, "is_dimensionless"))
        res.append((free == (u.uid in doc.dimless), f"is_dimensionless of {u} is {show(free)}"))
        time = s.ip.truth(s.w.m(o, "is_time_unit"))
        res.append((time == (u.uid in doc.time), f"is_time_unit of {u} is {show(time)}"))
    return res


_Z = Unit("z", name="z", kind="basis")


def seen(s, o, path):
    try:
        for a in path.split("."):
            o = s.ip.getattr(o, a)
        return o
    except (AbsRaise, Undecided):
        return _NONE


_NONE = object()


def carried(s, u):
    """The references which the unit object holds, as a tuple; None when it keeps them elsewhere"""
    if not u.refs():
        return None
    o, e = s.find(u.refs()[0])
    ref = seen(s, o, "_names") if o is not None else _NONE
    parts = [seen(s, ref, a) if ref is not _NONE else _NONE for a in ("name", "symbols", "alias_names", "alias_symbols")]
    if any(p is _NONE for p in parts):
        return None
    nm = lambda n: None if n is None else (seen(s, n, "singular"), seen(s, n, "plural"))  # noqa: E731
    if not all(isinstance(p, (tuple, list)) for p in parts[1:]):
        return None
    return (nm(parts[0]), tuple(parts[1]), tuple(nm(n) for n in parts[2]), tuple(parts[3]))


def wanted(s, u):
    nm = lambda a, b: (s.text(a), s.text(b) if b else None)  # noqa: E731
    return (nm(u.name, u.plural) if u.name else None, tuple(s.text(x) for x in u.symbols), tuple(nm(a, b) for a, b in u.aliases), tuple(s.text(x) for x in u.asyms))


def carried_prefix(s, p):
    from .values import ADict

    d = seen(s, s.us, "_prefix_names")
    if not isinstance(d, ADict):
        return None
    o = next((v for k, v in d.live() if k == s.text(p.name)), None)
    parts = [seen(s, o, a) if o is not None else _NONE for a in ("name", "value", "symbols")]
    if any(x is _NONE for x in parts) or not isinstance(parts[2], (tuple, list)):
        return None
    return (parts[0], parts[1], tuple(parts[2]))
