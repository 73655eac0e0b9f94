"""Unit databases as data: the bundled one and the official UDUNITS-2 one."""
from __future__ import annotations

import functools
import os
import re
import xml.etree.ElementTree as ET
from fractions import Fraction

from . import refparse
from .core import HERE
from .interp import Program

OFFICIAL = ["prefixes", "base", "derived", "accepted", "common"]


def local(tag):
    return tag.rpartition("}")[2] if isinstance(tag, str) else ""


def plural(s):
    """UDUNITS-2's formPlural"""
    if len(s) == 1:
        return s + "s"
    if s[-1] == "y":
        return s + "s" if s[-2] in "aeiou" else s[:-1] + "ies"
    if s[-1] in "sxz" or s[-2:] in ("ch", "sh"):
        return s + "es"
    return s + "s"


class Entry:
    def __init__(self, e, where):
        self.where = where
        self.kind = local(e.tag)
        text = lambda x: (x.text or "").strip()  # noqa: E731
        kids = lambda x, *t: [c for c in x if local(c.tag) in t]  # noqa: E731
        self.problems = []
        self.names, self.symbols, self.anames, self.asyms = [], [text(c) for c in kids(e, "symbol")], [], []
        if self.kind == "prefix":
            self.names = [(text(c), None) for c in kids(e, "name")]
            self.value = [text(c) for c in kids(e, "value")]
        else:
            self.names = [self.name(c) for c in kids(e, "name")]
            for a in kids(e, "aliases"):
                for c in a:
                    if local(c.tag) == "name":
                        self.anames.append(self.name(c))
                    elif local(c.tag) == "symbol":
                        self.asyms.append(text(c))
            self.defs = [text(c) for c in kids(e, "def")]
            self.status = [local(c.tag) for c in kids(e, "base", "dimensionless")] + (["def"] if self.defs else [])

    def name(self, e):
        d = {}
        for c in e:
            d.setdefault(local(c.tag), (c.text or "").strip())
        s = d.get("singular", "")
        return s, (d["plural"] if d.get("plural") else None if "noplural" in d else plural(s) if s else None)

    def refs(self):
        """[(role, reference)]"""
        out = []
        for role, ns in (("name", self.names), ("alias", self.anames)):
            for s, p in ns:
                out.append((role, s))
                if p:
                    out.append((f"{role} plural" if p != s else role, p))
        return list(dict.fromkeys(out + [("symbol", s) for s in self.symbols] + [("alias symbol", s) for s in self.asyms]))

    def __str__(self):
        r = self.refs()
        return f"{self.kind} {r[0][1] if r else '?'}"


class Database:
    """lenient: references which the grammar cannot express count as words in
    definitions, too (as they do in UDUNITS-2)"""

    def __init__(self, entries, lenient=True):
        self.entries = entries
        self.lenient = lenient
        self.meanings = {}
        self.prefixes = [e for e in entries if e.kind == "prefix"]
        self.units = [e for e in entries if e.kind == "unit"]
        self.table = {}  # role -> {ref: entry}
        for e in self.units:
            for role, r in e.refs():
                self.table.setdefault(role.replace(" plural", ""), {}).setdefault(r, e)

    def exact(self, ref):
        for role in ("name", "alias", "symbol", "alias symbol"):
            e = self.table.get(role, {}).get(ref)
            if e is not None:
                return e
        return None

    def lookup(self, ref):
        """[(prefix or None, unit)]: every reading of the best kind"""
        e = self.exact(ref)
        if e is not None:
            return [(None, e)]
        for names in (True, False):
            out = []
            for p in self.prefixes:
                for t in [n for n, _ in p.names] if names else p.symbols:
                    if t and ref.startswith(t) and self.exact(ref[len(t):]) is not None:
                        out.append((p, self.exact(ref[len(t):])))
            if out:
                return out
        return []

    def read(self, text):
        if self.lenient:
            for n, r in enumerate(self.odd()):
                text = re.sub(rf"(?<![^\W_]){re.escape(r)}(?![^\W_])" if r[-1].isalnum() else re.escape(r), f"wordx{'abcdefghij'[n // 10]}{'abcdefghij'[n % 10]}", text)
        d = refparse.read(text)
        return d and self.back(d)

    def back(self, d):
        if d[0] == "id" and re.fullmatch("wordx[a-j][a-j]", d[1]):
            n = "abcdefghij".index(d[1][5]) * 10 + "abcdefghij".index(d[1][6])
            return ("id", self.odd()[n])
        return tuple(self.back(c) if isinstance(c, tuple) else c for c in d)

    def odd(self):
        if not hasattr(self, "_odd"):
            refs = {r for e in self.units for _, r in e.refs()}
            self._odd = sorted((r for r in refs if refparse.read(r) != ("id", r)), key=lambda r: (-len(r), r))[:100]
        return self._odd

    # -- full resolution: (factor, ((atom, exponent), ...))
    def meaning(self, entry, stack=()):
        if entry in stack:
            raise Problem(f"circular: {' → '.join(map(str, stack[stack.index(entry):] + (entry,)))}")
        if entry not in self.meanings:
            if "def" in entry.status:
                d = self.read(entry.defs[0]) if entry.defs[0] else ("num", "1", "int")
                if d is None:
                    raise Problem(f"the definition {entry.defs[0]!r} of {entry} is no unit text")
                self.meanings[entry] = self.resolve(d, stack + (entry,))
            else:
                self.meanings[entry] = (Fraction(1), ((("base", self.base_name(entry)), 1),))
        return self.meanings[entry]

    def base_name(self, entry):
        return (entry.status[0], entry.names[0][0] if entry.names else entry.symbols[0])

    def resolve(self, d, stack):
        k = d[0]
        if k == "num":
            return (Fraction(refparse.value(d[1], d[2])), ())
        if k == "id":
            rs = self.lookup(d[1])
            if not rs:
                raise Problem(f"{d[1]!r} is not in the database")
            ms = []
            for p, u in rs:
                f, a = self.meaning(u, stack)
                ms.append((f * Fraction(p.value[0]) if p is not None else f, a))
            if len(set(ms)) > 1:
                raise Problem(f"{d[1]!r} is ambiguous")
            return ms[0]
        if k in "*/":
            f1, a1 = self.resolve(d[1], stack)
            f2, a2 = self.resolve(d[2], stack)
            s = 1 if k == "*" else -1
            return (f1 * f2**s, norm(a1 + tuple((x, s * n) for x, n in a2)))
        if k == "^":
            f, a = self.resolve(d[1], stack)
            n = int(refparse.value(d[2][1], d[2][2]))
            return (f**n, norm(tuple((x, m * n) for x, m in a)))
        if k == "log":
            return (Fraction(1), ((("log", {"log": "lg"}.get(d[1], d[1]), self.resolve(d[2], stack)), 1),))
        if k == "@" and d[2][0] == "num":
            return (Fraction(1), ((("shift", self.resolve(d[1], stack), Fraction(refparse.value(d[2][1], d[2][2]))), 1),))
        raise Problem(f"{refparse.show(d)} is no definition")


class Problem(Exception):
    pass


def norm(atoms):
    out = {}
    for x, n in atoms:
        out[x] = out.get(x, 0) + n
    return tuple(sorted(((x, n) for x, n in out.items() if n), key=repr))


def show_meaning(m):
    f, a = m
    t = str(f) if len(str(f)) < 40 else f"{float(f):.17g}"
    for x, n in a:
        s = x[1][1] if x[0] == "base" else f"{x[1]}(re {show_meaning(x[2])})" if x[0] == "log" else f"({show_meaning(x[1])} @ {float(x[2])!r})"
        t += f" {s}" + (f"^{n}" if n != 1 else "")
    return t


def read(path):
    root = ET.parse(path).getroot()
    out = []
    lines = _lines(path)
    n = 0
    for us in root.iter():
        if local(us.tag) == "unit-system":
            for e in us:
                if local(e.tag) in ("prefix", "unit"):
                    out.append(Entry(e, f"{os.path.basename(path)}:{lines[n] if n < len(lines) else '?'}"))
                    n += 1
    return out


def _lines(path):
    """The line of each prefix and unit element which is directly in a unit-system."""
    import xml.parsers.expat

    stack, out = [], []
    p = xml.parsers.expat.ParserCreate()

    def start(tag, attrs):
        t = tag.rpartition(":")[2]
        if stack and stack[-1] == "unit-system" and t in ("prefix", "unit"):
            out.append(p.CurrentLineNumber)
        stack.append(t)

    p.StartElementHandler = start
    p.EndElementHandler = lambda tag: stack.pop()
    with open(path, "rb") as fh:
        p.ParseFile(fh)
    return out


@functools.lru_cache(maxsize=None)
def official():
    return Database([e for f in OFFICIAL for e in read(os.path.join(HERE, "data", f"udunits2-{f}.xml"))])


def bundled_path():
    root = os.environ.get("VERIF_REPO", "/repo")
    return os.path.join(root, "pyudunits2", "udunits2_combined.xml")


@functools.lru_cache(maxsize=None)
def bundled(lenient=True):
    return Database(read(bundled_path()), lenient)
