"""Abstract parse trees: the derivations of the published grammar, built from the
generated context classes and the vendored tree runtime, with the expression
each of them denotes."""
from __future__ import annotations

import itertools

from . import terms, values
from .interp import Undecided
from .values import Atom, Obj, SStr, mkstr, opaque, show

P = "._grammar.parser.udunits2Parser"
RT = "._grammar._antlr4_runtime"


class R:
    """A rule node."""

    __slots__ = ("rule", "kids", "den")

    def __init__(self, rule, kids, den=None):
        self.rule, self.kids, self.den = rule, tuple(kids), den

    def __str__(self):
        return "".join(str(k) for k in self.kids)

    def shape(self):
        return f"{self.rule}({','.join(k.shape() for k in self.kids)})"


class L:
    """A token; text is a str or abstract text."""

    __slots__ = ("tok", "text")

    def __init__(self, tok, text):
        self.tok, self.text = tok, text

    def __str__(self):
        return "" if self.tok == "EOF" else show_text(self.text)

    def shape(self):
        return self.tok


def show_text(t):
    if isinstance(t, str):
        return t
    return "".join(p if isinstance(p, str) else p.name for p in t.parts)


# --- denotations: ("num", text) ("id", text) ("*", a, b) ("/", a, b) ("^", a, n)
# ("log", fn, a) ("@", a, b) ("raw", text)

INTS = ("INT", "SIGNED_INT")


def ident(n):
    """An identifier: opaque, or literal after an apostrophe."""
    t = n[1:] if n[:1] == "'" else opaque(n)
    return R("basic_spec", [L("ID", t)], ("id", t))


def integer(n, tok="INT"):
    t = n if isinstance(n, str) and n[:1] in "+-0123456789" else opaque(n, "intlit")
    return R("integer", [L(tok, t)], ("num", t, "int"))


def number(n, tok="INT"):
    if tok == "FLOAT":
        t = n if isinstance(n, str) and n[:1] in "+-.0123456789" else opaque(n, "declit")
        return R("number", [L(tok, t)], ("num", t, "dec"))
    i = integer(n, tok)
    return R("number", [i], i.den)


def basic(x):
    if x.rule == "number":
        return R("basic_spec", [x], x.den)
    assert x.rule == "shift_spec"
    return R("basic_spec", [L("OPEN_PAREN", "("), x, L("CLOSE_PAREN", ")")], x.den)


def log(b):
    return R("logarithm", [b], b.den)


def logref(text, fn, s):
    return R("logarithm", [L("LOG", text), s, L("CLOSE_PAREN", ")")], ("log", fn, s.den))


def power(lg, e=None, op=None):
    if e is None:
        return R("power", [lg], lg.den)
    if isinstance(e, L):  # superscript
        return R("power", [lg, e], ("^", lg.den, ("num", e.text, "sup")))
    if op is None:
        return R("power", [lg, e], ("^", lg.den, e.den))
    return R("power", [lg, L("RAISE", op), e], ("^", lg.den, e.den))


def prod(*xs):
    """power (op power)*: op is None, or (token, text) or a list of WS."""
    t = R("product", [xs[0]], xs[0].den)
    for op, p in zip(xs[1::2], xs[2::2]):
        if op is None:
            t = R("product", [t, p], ("*", t.den, p.den))
        elif isinstance(op, int):
            t = R("product", [t] + [L("WS", " ")] * op + [p], ("*", t.den, p.den))
        else:
            t = R("product", [t, L(*op), p], ("/" if op[0] == "DIVIDE" else "*", t.den, p.den))
    return t


def shift(p, op=None, by=None, w1=0, w2=0):
    if op is None:
        return R("shift_spec", [p], p.den)
    kids = [p] + [L("WS", " ")] * w1 + [L("SHIFT_OP", op)] + [L("WS", " ")] * w2 + [by]
    return R("shift_spec", kids, ("@", p.den, by.den))


def text_of(x):
    if isinstance(x, L):
        return x.text
    return mkstr(*(text_of(k) for k in x.kids)) if x.kids else ""


def stamp(*kids):
    t = R("timestamp", kids)
    t.den = ("raw", text_of(t))
    return t


def unit(s=None):
    if s is None:
        return R("unit_spec", [L("EOF", "<EOF>")], ("raw", ""))
    return R("unit_spec", [s, L("EOF", "<EOF>")], s.den)


def simple(n, *rest):
    return power(log(ident(n)), *rest)


# --- timestamps ---------------------------------------------------------------


def timestamps(full=False):
    """All alternatives of the rule, with opaque texts for the tokens."""

    def tk(tok, text):
        return lambda: L(tok, opaque(text, "text"))

    date = [lambda: L("DATE", opaque("date", "text")), lambda: integer("y"), lambda: integer("y", "SIGNED_INT")]
    clock = [
        lambda: R("signed_clock", [L("HOUR_MINUTE_SECOND", opaque("hms", "text"))]),
        lambda: R("signed_clock", [L("HOUR_MINUTE", opaque("hm", "text"))]),
        lambda: R("signed_clock", [integer("c")]),
        lambda: R("signed_clock", [integer("c", "SIGNED_INT")]),
    ]
    ws = lambda: L("WS", " ")  # noqa: E731
    tz = [
        lambda: R("timezone_offset", [L("HOUR_MINUTE", opaque("tzhm", "text"))]),
        lambda: R("timezone_offset", [integer("tzi")]),
        lambda: R("timezone_offset", [integer("tzi", "SIGNED_INT")]),
        tk("TIMEZONE", "zone"),
    ]
    sep = [[], [ws], [lambda: L("T", "T")]]
    tail = [[]] + [[ws]] + [[z] for z in tz] + [[ws, z] for z in tz]
    out = [[d] for d in date]
    out += [[d, *s, c, *t] for d in date for s in sep for c in clock for t in tail]
    out += [[d, *t] for d in date[1:] for t in [[]] + [[z] for z in tz]]
    out += [[tk("TIMESTAMP", "ts"), *t] for t in tail]
    out += [[d, *w, z] for d in date for w in ([], [ws]) for z in (tk("TIMEZONE", "zone"), tk("TZ", "TZ"))]
    seen = set()
    for kids in out:
        t = stamp(*(k() for k in kids))
        if t.shape() not in seen:
            seen.add(t.shape())
            yield t


# --- the program side ---------------------------------------------------------


class Parser:
    """parse() of the analysed package with the vendored runtime replaced by an
    abstract tree; records the order of the calls into the runtime."""

    def __init__(self, ip, tree):
        self.ip = ip
        self.events = []
        self.tree = tree
        fi = ip.from_import
        self.pcls = fi("pyudunits2" + P, "udunits2Parser")
        self.lcls = fi("pyudunits2._grammar.parser.udunits2Lexer", "udunits2Lexer")
        rt = "pyudunits2._grammar._antlr4_runtime"
        self.token = fi(rt + ".Token", "CommonToken")
        self.term = fi(rt + ".tree.Tree", "TerminalNodeImpl")
        self._hook(fi(rt + ".InputStream", "InputStream"), "__init__", "InputStream")
        self._hook(fi(rt + ".CommonTokenStream", "CommonTokenStream"), "__init__", "CommonTokenStream")
        self._hook(self.pcls, "__init__", "Parser")
        self._hook(self.lcls, "__init__", "Lexer")
        rec = fi(rt + ".Recognizer", "Recognizer")
        self._hook(rec, "removeErrorListeners", "removeErrorListeners")
        self._hook(rec, "addErrorListener", "addErrorListener")
        for rule in ip.getattr(self.pcls, "ruleNames"):
            self._hook(self.pcls, rule, "rule " + rule, self._rule)

    def _hook(self, cls, name, event, fn=None):
        f = self.ip.getattr(cls, name)
        node = getattr(f, "node", None)
        if node is None:
            raise Undecided(f"{name} of {cls.name} is not a function")

        def hook(ip, f, args, kw, event=event):
            self.events.append((event, args, kw))
            return fn(event, args) if fn else None

        self.ip.hooks[id(node)] = hook

    def _rule(self, event, args):
        if event != "rule unit_spec":
            raise Undecided(f"parse() starts at {event}")
        return self.build(self.tree)

    def build(self, x, parent=None):
        ip = self.ip
        if isinstance(x, L):
            tok = ip.call(self.token, [], {})
            ip.setattr(tok, "type", ip.getattr(self.pcls, x.tok))
            ip.setattr(tok, "_text", x.text)
            node = ip.call(self.term, [tok], {})
            ip.setattr(node, "parentCtx", parent)
            return node
        cls = ip.getattr(self.pcls, x.rule[0].upper() + x.rule[1:] + "Context")
        ctx = ip.call(cls, [None, parent, -1], {})
        for k in x.kids:
            ip.call(ip.getattr(ctx, "addChild"), [self.build(k, ctx)], {})
        return ctx

    def parse(self, text=None):
        f = self.ip.from_import("pyudunits2._grammar", "parse")
        return self.ip.call(f, [opaque("input", "text") if text is None else text], {})


SUP = str.maketrans("⁻⁺⁰¹²³⁴⁵⁶⁷⁸⁹", "-+0123456789")


def matches(ip, node, den):
    """The expression node denotes den: (True/False/None, why)"""
    kind = den[0]
    want = {"num": "Number", "id": "Identifier", "*": "Multiply", "/": "Divide", "^": "Raise", "log": "Logarithm", "@": "Shift", "raw": "Unhandled"}[kind]
    if not isinstance(node, Obj):
        return False, f"{show(node)} where {want} is expected"
    name = node.cls.name
    if name != want:
        return False, f"{name} {brief(node)} where {want} is expected"
    f = node.fields
    if kind in ("*", "/", "^"):
        kids = [f["lhs"], f["rhs"]]
        for k, d in zip(kids, den[1:]):
            r = matches(ip, k, d)
            if r[0] is not True:
                return r
        return True, ""
    if kind == "log":
        if f["function"] != den[1]:
            return False, f"logarithm function {show(f['function'])}, written {den[1]}"
        return matches(ip, f["term"], den[2])
    if kind == "@":
        r = matches(ip, f["unit"], den[1])
        return r if r[0] is not True else matches(ip, f["shift_from"], den[2])
    if kind == "id":
        got = f["name"]
        if got == den[1]:
            return True, ""
        return (False, f"identifier {show(got)}, written {show(den[1])}") if values.is_str(got) else (None, "identifier not known")
    if kind == "raw":
        got = f["raw_content"]
        if got == den[1]:
            return True, ""
        return (False, f"text {show(got)}, written {show(den[1])}") if values.is_str(got) else (None, "text not known")
    return number_matches(f["value"], den[1], den[2])


def number_matches(got, text, ty):
    import decimal

    if isinstance(text, str):
        want = int(text.translate(SUP)) if ty in ("int", "sup") else decimal.Decimal(text)
        if isinstance(got, terms.T):
            return None, f"value {got}"
        if type(got) is not type(want):
            return False, f"the value of {text} is {got!r} of type {type(got).__name__}"
        if got != want:
            return False, f"the value of {text} is {got!r}"
        return True, ""
    atom = text.parts[0]
    want = terms.sym(f"val({atom.name})", "int" if ty == "int" else "Decimal")
    if isinstance(got, terms.T):
        if got == want:
            return True, ""
        return False, f"the value of {show(text)} is {got}"
    return None, f"value {show(got)}"


def brief(node):
    if not isinstance(node, Obj):
        return show(node)
    return f"{node.cls.name}({', '.join(brief(v) for k, v in node.fields.items() if k != 'raw_content' or node.cls.name == 'Unhandled')})"
