"""Histories of registrations and lookups on an abstract unit system, and the
model which the properties C16, C17 and C18 give to them.

A reference is written as a dotted string of pieces, e.g. "k.m": the
concatenation of the opaque texts k and m.  Pieces are in general position."""
from __future__ import annotations

import itertools

from . import refparse, terms
from .interp import AbsRaise
from .libs import LITERALS
from .values import Atom, SStr, is_str, mkstr, opaque, show
from .world import Id, Mul, Num, World, exc_is, exc_name

#: concrete spellings for the second pass: mixed case, various lengths
WORDS = ["kel", "ast", "Rom", "pOd", "tic", "hux", "bel", "Fyn", "sul", "Ogg", "wem", "irk", "Lod", "Peg", "dAb", "Tup", "nix", "cuE", "hob", "ply", "Yot", "u", "meTer", "Bq", "is", "zed", "ohm", "Wa", "pIxel", "gon", "x", "Ne", "var", "cyc", "lUx", "hEn", "jo", "quad", "era", "fat"]


def long_word(n):
    """Words of one length which differ in the case of letters only (and are longer than any word of the package)."""
    return "".join(c.upper() if n >> k & 1 else c for k, c in zip((9, 8, 3, 0, 7, 1, 4, 2, 5, 6), "hypotenuse")) * 4


class Unit:
    """A unit of the scenario: id, references, how it is registered."""

    def __init__(self, uid, name=None, plural=None, symbols=(), aliases=(), asyms=(), kind="lazy", base="z", via=None):
        self.uid, self.name, self.plural = uid, name, plural
        self.symbols, self.aliases, self.asyms = tuple(symbols), tuple(aliases), tuple(asyms)
        self.kind, self.base, self.via = kind, base, via

    def names(self):
        return [n for n in (self.name, self.plural) if n]

    def alias_names(self):
        return [n for a in self.aliases for n in (a if isinstance(a, tuple) else (a,)) if n]

    def refs(self):
        return self.names() + list(self.symbols) + self.alias_names() + list(self.asyms)

    def __str__(self):
        p = []
        if self.name:
            p.append(f"name {self.name}" + (f"/{self.plural}" if self.plural else ""))
        if self.symbols:
            p.append("symbol " + ",".join(self.symbols))
        if self.aliases:
            p.append("alias " + ",".join(a if isinstance(a, str) else "/".join(map(str, a)) for a in self.aliases))
        if self.asyms:
            p.append("alias symbol " + ",".join(self.asyms))
        return f"{self.uid}[{'; '.join(p)}]"


class Prefix:
    def __init__(self, pid, name, symbols=()):
        self.pid, self.name, self.symbols = pid, name, tuple(symbols)

    def __str__(self):
        return f"{self.pid}[prefix {self.name}{'; ' + ','.join(self.symbols) if self.symbols else ''}]"


class Model:
    """What the registrations made so far mean."""

    def __init__(self):
        self.names, self.anames, self.syms, self.asyms = {}, {}, {}, {}
        self.pnames, self.psyms = {}, {}

    def copy(self):
        m = Model()
        for k, v in self.__dict__.items():
            setattr(m, k, dict(v))
        return m

    def taken(self, u):
        """References of u taken in their own name space; in the other one."""
        own = any(n in self.names or n in self.anames for n in u.names() + u.alias_names()) or any(s in self.syms or s in self.asyms for s in u.symbols + u.asyms)
        other = any(n in self.syms or n in self.asyms for n in u.names() + u.alias_names()) or any(s in self.names or s in self.anames for s in u.symbols + u.asyms)
        return own, other

    def add(self, u):
        for n in u.names():
            self.names[n] = u.uid
        for n in u.alias_names():
            self.anames[n] = u.uid
        for s in u.symbols:
            self.syms[s] = u.uid
        for s in u.asyms:
            self.asyms[s] = u.uid

    def prefix(self, p):
        self.pnames[p.name] = p.pid
        for s in p.symbols:
            self.psyms[s] = p.pid

    def exact(self, ref):
        for t in (self.names, self.anames, self.syms, self.asyms):
            if ref in t:
                return t[ref]
        return None

    def lookup(self, ref):
        """The allowed readings: [(prefix or None, unit)]; [] when unresolvable."""
        u = self.exact(ref)
        if u is not None:
            return [(None, u)]
        ps = ref.split(".")
        for table in (self.pnames, self.psyms):
            out = []
            for i in range(1, len(ps)):
                p, rest = ".".join(ps[:i]), ".".join(ps[i:])
                if p in table and self.exact(rest) is not None:
                    out.append((table[p], self.exact(rest)))
            if out:
                return out
        return []


class System:
    """The analysed program's side of a history."""

    def __init__(self, ip, concrete=False, w=None):
        self.ip = ip
        self.w = w or World(ip, {})
        self.concrete = concrete
        self.words = {}
        self.us = self.w.call(self.w.attr("", "UnitSystem"))
        self.w.system = self.us
        self.units = {}
        self.obj = {}
        self.zref = "z0" if concrete == "chars" else "z"
        z = self.w.call(self.w.attr("", "BasisUnit"), names=self.reference(Unit("z", name=self.zref)))
        self.z = z
        self.w.m(self.us, "add_unit", z)

    def word(self, piece):
        if len(piece) > 1 and piece.startswith("'") and self.concrete != "chars":
            return piece[1:]  # these very letters
        if self.concrete == "chars":
            return "base" if piece == "z0" else piece
        if piece in ("z", "y"):
            return {"z": "base", "y": "basetwo"}[piece] if self.concrete else opaque(piece)
        if not self.concrete:
            return opaque(piece)
        if piece not in self.words:
            self.words[piece] = long_word(len(self.words) + 1) if self.concrete == "case" else WORDS[len(self.words)]
        return self.words[piece]

    def text(self, ref):
        return mkstr(*(self.word(p) for p in ref.split(".")))

    def reference(self, u):
        R = self.w.attr("._unit_reference", "UnitReference")
        N = self.w.attr("._unit_reference", "Name")
        t = self.text

        def nm(a):
            if isinstance(a, str):
                return self.w.call(N, singular=t(a))
            return self.w.call(N, singular=t(a[0]), plural=t(a[1]))

        kw = {}
        if u.name:
            kw["name"] = self.w.call(N, singular=t(u.name), **({"plural": t(u.plural)} if u.plural else {}))
        if u.symbols:
            kw["symbols"] = tuple(t(s) for s in u.symbols)
        if u.aliases:
            kw["alias_names"] = tuple(nm(a) for a in u.aliases)
        if u.asyms:
            kw["alias_symbols"] = tuple(t(s) for s in u.asyms)
        return self.w.call(R, **kw)

    def spec(self, u):
        return Mul(Num(f"n_{u.uid}"), Id(u.base))

    def make(self, u):
        ref = self.reference(u)
        if u.kind == "basis":
            return self.w.call(self.w.attr("", "BasisUnit"), names=ref)
        if u.kind == "named":
            node = self.w.call(self.w.g("Multiply"), self.w.node(Num(f"n_{u.uid}")), self.ident(self.zref if u.base == 'z' else u.base))
            base = self.z if u.base == "z" else self.w.m(self.us, "unit_by_name_or_symbol", self.text(u.base))
            return self.w.call(self.w.attr("", "NamedUnit"), definition=node, identifier_references=self.ip_dict({self.ident(self.zref if u.base == 'z' else u.base): base}), names=ref)
        t = opaque(f"definition of {u.uid}", "text")
        self.w.specs[t] = _Node(lambda: self.w.call(self.w.g("Multiply"), self.w.node(Num(f"n_{u.uid}")), self.ident(self.zref if u.base == 'z' else u.base)))
        return self.w.call(self.w.attr("._unit_system", "LazilyDefinedUnit"), unit_system=self.us, definition=t, names=ref)

    def ident(self, ref):
        return self.w.call(self.w.g("Identifier"), self.text(ref))

    def ip_dict(self, d):
        from .values import ADict

        out = ADict()
        for k, v in d.items():
            self.ip.dict_set(out, k, v)
        return out

    # -- operations
    def add(self, u, replace=False):
        """True, or the exception."""
        try:
            o = self.make(u)
            if replace:
                self.w.m(self.us, "add_unit", o, replace=True)
            else:
                self.w.m(self.us, "add_unit", o)
        except AbsRaise as e:
            return e.exc
        self.units[u.uid] = u
        self.obj[u.uid] = o
        return True

    def prefix(self, p):
        P = self.w.attr("._unit_reference", "Prefix")
        o = self.w.call(P, self.text(p.name), opaque(f"value of {p.pid}", "declit"), tuple(self.text(s) for s in p.symbols))
        self.w.m(self.us, "add_prefix", o)

    def find(self, ref, how="lookup"):
        """The unit, or the exception."""
        try:
            if how == "lookup":
                return self.w.m(self.us, "unit_by_name_or_symbol", self.text(ref)), None
            t = self.text(ref) if how == "text" else opaque(f"unit text {ref}", "text")
            if how != "text":
                self.w.specs[t] = _Node(lambda: self.ident(ref))
            return self.w.m(self.us, "unit", t), None
        except AbsRaise as e:
            return None, e.exc

    def ask(self, ref, how="lookup"):
        """The text of the expanded unit, or the exception."""
        u, e = self.find(ref, how)
        if e is not None:
            return ("raise", e)
        try:
            return ("ok", self.w.m(u, "expanded"))
        except AbsRaise as e:
            return ("raise", e.exc)


class _Node:
    """A spec whose node is made by a function."""

    def __init__(self, fn):
        self.fn = fn


def expected_factors(reading, units, sysm):
    """Canonical product of a reading (prefix, unit)."""
    p, u = reading
    fs = []
    if p is not None:
        fs.append(("value", p))
    while True:
        if u == "z":
            fs.append(("base", "z"))
            break
        d = units[u]
        if d.kind == "basis":
            fs.append(("base", u))
            break
        fs.append(("n", u))
        u = d.via or "z"
    return fs


def same_number(t, ip):
    """The leaf which a term is equal to for every literal; with a literal where it is not."""
    ls = list(terms.leaves(t))
    if len(ls) != 1 or not terms.show(ls[0]).startswith("val("):
        return None, None
    name = terms.show(ls[0])[len("val("):-1]
    tried = 0
    for lit in next((v for a, v in ip.literals.items() if a.name == name), LITERALS["declit"]):
        x = float(lit)
        try:
            y = terms.evaluate(t, lambda s: x)
        except terms.EvalError:
            return None, None
        tried += 1
        if abs(x - y) > 1e-9 * abs(x):
            return None, f"{name} {lit!r} becomes {y:g}"
    return (ls[0], None) if tried else (None, None)


class Bad(Exception):
    pass


def factors(sysm, text):
    """The expanded text as factors: [("value", prefix) | ("n", unit) | ("base", unit)], or None"""
    if not is_str(text):
        return None
    # every opaque number gets a number of its own, every name its spelling
    nums, out, names = {}, [], {}
    for p in text.parts if isinstance(text, SStr) else (text,):
        if isinstance(p, str):
            out.append(p)
        elif p.kind == "num" and p.payload is not None:
            t = p.payload[0]
            if isinstance(t, terms.T) and t.op != "sym":
                leaf, wrong = same_number(t, sysm.w.ip)
                if wrong:
                    raise Bad(wrong)
                t = leaf if leaf is not None else t
            k = terms.show(t)
            nums.setdefault(k, str(1000003 + 2 * len(nums)))
            out.append(nums[k])
        else:
            names.setdefault(p.name, "v" + "abcdefghijklmnopqrstuvwxyz"[len(names) % 26] * (1 + len(names) // 26))
            out.append(names[p.name])
    d = refparse.read("".join(out))
    if d is None:
        return None
    back_n = {v: k for k, v in nums.items()}
    # the spelling of each base unit under the same assignment
    back_i = {}
    for uid, u in sysm.units.items():
        if u.kind == "basis":
            for ref in u.refs():
                back_i[_spelled(sysm, ref, names)] = uid
    c = refparse.canon(d)
    fs = c[1] if c[0] == "prod" else ((1, c),)
    res = []
    for sign, f in fs:
        if sign != 1:
            return None
        if f[0] == "num":
            v = str(f[1] * 10 ** f[2]) if f[2] >= 0 else "?"
            k = back_n.get(v)
            if k is None:
                return None
            if k.startswith("val(value of "):
                res.append(("value", k[len("val(value of "):-1]))
            elif k.startswith("n_"):
                res.append(("n", k[2:]))
            else:
                return None
        elif f[0] == "id":
            if f[1] in back_i:
                res.append(("base", back_i[f[1]]))
            elif f[1] == "base" or f[1] == names.get("z"):
                res.append(("base", "z"))
            else:
                return None
        else:
            return None
    return res


def _spelled(sysm, ref, names):
    t = sysm.text(ref)
    return "".join(p if isinstance(p, str) else names.get(p.name, "?") for p in (t.parts if isinstance(t, SStr) else (t,)))


def say(reading):
    return " × ".join(f"{'prefix ' if k == 'value' else ''}{v}" for k, v in reading if not (k == "base" and v == "z")) or "z"


def verdict(sysm, model, ref, answer):
    """(ok, text): ok None when not decided."""
    kind, v = answer
    want = model.lookup(ref)
    if kind == "raise":
        if want:
            return False, f"{ref} raises {exc_name(v)} {show(v)[:120]}, but means {' or '.join(say(expected_factors(r, sysm.units, sysm)) for r in want)}"
        if exc_is(v, "UnresolvableUnitException"):
            return True, f"{ref} is unresolvable"
        return False, f"{ref} raises {exc_name(v)} {show(v)[:120]} and not UnresolvableUnitException"
    try:
        got = factors(sysm, v)
    except Bad as e:
        return False, f"{ref} expands to {show(v)}: {e}"
    if got is None:
        return None, f"{ref} expands to {show(v)}"
    if not want:
        return False, f"{ref} becomes {say(got)}, but nothing of this name is registered"
    exp = [expected_factors(r, sysm.units, sysm) for r in want]
    if sorted(got) in [sorted(e) for e in exp]:
        return True, f"{ref} is {say(got)}"
    return False, f"{ref} becomes {say(got)}, but means {' or '.join(say(e) for e in exp)}"
