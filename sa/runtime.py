"""The vendored ANTLR runtime under the generated parser and lexer, interpreted
abstractly: tokens with a known type and opaque text, or characters."""
from __future__ import annotations

import functools
import itertools

from . import refparse, terms
from .interp import AbsRaise
from .trees import brief, matches
from .values import SStr, mkstr, opaque
from .world import exc_is, exc_name

RT = "pyudunits2._grammar._antlr4_runtime"
LITERAL = {
    "OPEN_PAREN": "(", "CLOSE_PAREN": ")", "SEMICOLON": ";", "PLUS": "+", "PERIOD": ".", "MULTIPLY": "*", "DIVIDE": "/",
    "RAISE": "^", "UNICODE_EXPONENT": "²", "WS": " ", "LOG": "lg(re ", "SHIFT_OP": "since", "ERRORCHARACTER": "!", "T": "T", "TZ": "TZ",
}


def text_of(tok, n):
    if tok in LITERAL:
        return LITERAL[tok]
    return opaque(f"t{n}", {"INT": "intlit", "SIGNED_INT": "intlit", "FLOAT": "declit"}.get(tok, "text"))


class Reader(refparse.Reader):
    """The reading of the published grammar, of abstract tokens."""

    def timestamp(self, i):
        def join(d):
            return ("raw", mkstr(*(self.t[k][1] for k in range(*d))))

        for j, d in Spans(self.t).timestamp(i):
            yield j, join(d)


class Spans(refparse.Reader):
    """Timestamps as (first, last) token."""

    def __init__(self, toks):
        super().__init__([(t, Mark(k)) for k, (t, _) in enumerate(toks)])

    def timestamp(self, i):
        for j, d in super().timestamp(i):
            yield j, (i, j)


class Mark(str):
    def __new__(cls, k):
        return str.__new__(cls, f"<{k}>")


def reading(toks):
    """The denotation of a sequence of (type, text), or None."""
    return Reader(list(toks)).unit()


@functools.lru_cache(maxsize=None)
def is_sentence(types):
    return reading([(t, LITERAL.get(t, "x")) for t in types]) is not None


class Machine:
    """parse() on the tokens given; the runtime's state is kept between calls."""

    def __init__(self, ip):
        self.ip = ip
        ip.MAX_STEPS = 10**9
        fi = ip.from_import
        self.pcls = fi("pyudunits2._grammar.parser.udunits2Parser", "udunits2Parser")
        lcls = fi("pyudunits2._grammar.parser.udunits2Lexer", "udunits2Lexer")
        self.token = fi(RT + ".Token", "CommonToken")
        self.f = fi("pyudunits2._grammar", "parse")
        self.toks = []
        self.pos = 0
        for cls, name, fn in (
            (fi(RT + ".InputStream", "InputStream"), "__init__", lambda i, f, a, k: None),
            (lcls, "__init__", lambda i, f, a, k: None),
            (fi(RT + ".Lexer", "Lexer"), "nextToken", lambda i, f, a, k: self.next_token()),
        ):
            ip.hooks[id(ip.getattr(cls, name).node)] = fn

    def next_token(self):
        ip = self.ip
        n = self.pos
        self.pos += 1
        ty, text = self.toks[n] if n < len(self.toks) else ("EOF", "<EOF>")
        t = ip.call(self.token, [], {})
        for k, v in (("type", -1 if ty == "EOF" else ip.getattr(self.pcls, ty)), ("_text", text), ("line", 1), ("column", n), ("channel", 0), ("start", n), ("stop", n)):
            ip.setattr(t, k, v)
        return t

    def parse(self, types):
        """(status, what happens)"""
        self.toks = [(t, text_of(t, n)) for n, t in enumerate(types)]
        self.pos = 0
        den = reading(self.toks)
        shown = " ".join(types) or "no token"
        try:
            node = self.ip.call(self.f, [opaque("input", "text")], {})
        except AbsRaise as e:
            if den is None:
                ok = exc_is(e.exc, "SyntaxError")
                return ok, f"{shown}: {exc_name(e.exc)}"
            return False, f"{shown} is a sentence of the grammar; parsing raises {exc_name(e.exc)}"
        if den is None:
            return False, f"{shown} is no sentence of the grammar; it becomes {brief(node)}"
        ok, why = matches(self.ip, node, den)
        return ok, f"{shown} becomes {brief(node)}" + (f": {why}" if why else "")


class Scanner:
    """The generated lexer and the token stream on a text."""

    def __init__(self, ip, whole=True):
        self.ip = ip
        #: let a character behind ASCII stand for its class
        self.whole = whole
        ip.MAX_STEPS = 10**9
        fi = ip.from_import
        self.lexer = fi("pyudunits2._grammar.parser.udunits2Lexer", "udunits2Lexer")
        self.chars = fi(RT + ".InputStream", "InputStream")
        self.stream = fi(RT + ".CommonTokenStream", "CommonTokenStream")
        modes, _ = refparse._modes()
        self.classes = sorted({c for d in modes.values() for c in d.cls})

    def unknown(self, chars, text):
        """Characters behind ASCII become unknowns of their class."""
        data = self.ip.getattr(chars, "data")
        if not isinstance(data, list) or data != [ord(c) for c in text]:
            return
        for k, c in enumerate(text):
            if ord(c) > 127:
                # the narrowest class, of all modes
                lo = max(a for a, b in self.classes if a <= ord(c) <= b)
                hi = min(b for a, b in self.classes if a <= ord(c) <= b)
                x = terms.sym(f"char{len(self.ip.interval)}", "int")
                self.ip.interval[x] = (lo, hi)
                data[k] = x

    def expected(self, text):
        i, line, col = 0, 1, 0
        for ty, t in refparse.lex(text):
            yield ty, t, i, i + len(t) - 1, line, col
            i += len(t)
            for c in t:
                line, col = (line + 1, 0) if c == "\n" else (line, col + 1)
        yield "EOF", "<EOF>", i, i - 1, line, col

    def scan(self, text):
        """(status, what happens)"""
        ip = self.ip
        try:
            chars = ip.call(self.chars, [text], {})
            if self.whole:
                self.unknown(chars, text)
            stream = ip.call(self.stream, [ip.call(self.lexer, [chars], {})], {})
            ip.call(ip.getattr(stream, "fill"), [], {})
            toks = ip.getattr(stream, "tokens")
            got = [[ip.getattr(t, a) for a in ("type", "text", "start", "stop", "line", "column")] for t in toks]
        except AbsRaise as e:
            return False, f"{text!a}: reading the tokens raises {exc_name(e.exc)}"
        want = []
        for ty, *rest in self.expected(text):
            want.append([-1 if ty == "EOF" else ip.getattr(self.lexer, ty), *rest])
        if got == want:
            return True, f"{text!a}: {len(got)} tokens"
        k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return False, f"{text!a}: token {k} (type, text, start, stop, line, column) is {got[k:k + 1]}, not {want[k:k + 1]}"
