"""The checker's own reading of unit text: a lexer made from the published lexer
grammar and a parser written from the published parser grammar (ordered
alternatives, the first one which reads the whole text), giving denotations as
in trees.py.  Used on texts which the analysis derived; never runs the program."""
from __future__ import annotations

import decimal
import functools

from . import antlr

SUP = str.maketrans("⁻⁺⁰¹²³⁴⁵⁶⁷⁸⁹", "-+0123456789")


@functools.lru_cache(maxsize=None)
def _modes(built=False):
    from .checks import c14

    lex, _ = c14.grammars()
    out = {}
    if built:
        t = c14.tables()["Lexer"]
        atn = antlr.ATN(t["atn"])
        for i, m in enumerate(t["modeNames"][: len(atn.modes)]):
            n, s = antlr.atn_mode(atn, i, t["symbolicNames"], t["modeNames"], t["ruleNames"])
            out[m] = antlr.DFA(n, s, antlr.classes(n))
        return out, next(iter(out))
    for m in dict.fromkeys(r[2] for r in lex.rules):
        n, s = antlr.g4_mode(lex, m)
        out[m] = antlr.DFA(n, s, antlr.classes(n))
    return out, next(iter(out))


@functools.lru_cache(maxsize=200000)
def lex(text, built=False):
    """((token, text), ...), by the published grammar or by the generated lexer's automaton"""
    modes, mode = _modes(built)
    stack = []
    out = []
    i = 0
    while i < len(text):
        dfa = modes[mode]
        q, best, j = dfa.start, None, i
        while j < len(text):
            q = dfa.step(q, text[j])
            if q is None:
                break
            j += 1
            lab = dfa.label(q)
            if lab is not None:
                best = (j, lab)
        if best is None:
            out.append(("?", text[i]))
            i += 1
            continue
        j, (_, tok, eff, _) = best
        for c, a in eff:
            if c == "mode":
                mode = a
            elif c == "pushMode":
                stack.append(mode)
                mode = a
            elif c == "popMode":
                mode = stack.pop()
        out.append((tok, text[i:j]))
        i = j
    return tuple(out)


class Reader:
    def __init__(self, toks):
        self.t = toks
        self.memo = {}

    def tok(self, i, *names):
        return i < len(self.t) and self.t[i][0] in names

    def ws(self, i):
        """Optional WS, taken first."""
        if self.tok(i, "WS"):
            yield i + 1
        yield i

    def unit(self):
        n = len(self.t)
        for j, d in self.shift(0):
            if j == n:
                return d
        return ("raw", "") if n == 0 else None

    def cached(self, rule, i):
        k = (rule, i)
        if k not in self.memo:
            seen, out = set(), []
            for j, d in getattr(self, "_" + rule)(i):
                # (what follows depends on the end only, so the first is taken)
                if j not in seen:
                    seen.add(j)
                    out.append((j, d))
            self.memo[k] = out
        return self.memo[k]

    def shift(self, i):
        return self.cached("shift", i)

    def _shift(self, i):
        ps = list(self.product(i))
        for j, d in ps:
            yield j, d
        for what in ("number", "timestamp"):
            for j, d in ps:
                for k in self.ws(j):
                    if self.tok(k, "SHIFT_OP"):
                        for k2 in self.ws(k + 1):
                            for e, by in getattr(self, what)(k2):
                                yield e, ("@", d, by)

    def product(self, i):
        return self.cached("product", i)

    def _product(self, i):
        done = set()

        def more(j, d):
            if j in done:
                return
            done.add(j)
            # the loop of the rule is greedy: another factor before the end
            for k, p in self.power(j):
                yield from more(k, ("*", d, p))
            if self.tok(j, "MULTIPLY", "DIVIDE"):
                op = "/" if self.t[j][0] == "DIVIDE" else "*"
                for k, p in self.power(j + 1):
                    yield from more(k, (op, d, p))
            k = j
            while self.tok(k, "WS"):
                k += 1
            if k > j:
                for e, p in self.power(k):
                    yield from more(e, ("*", d, p))
            yield j, d

        for j, d in self.power(i):
            yield from more(j, d)

    def power(self, i):
        return self.cached("power", i)

    def _power(self, i):
        ls = list(self.logarithm(i))
        for j, d in ls:
            for k, n in self.integer(j):
                yield k, ("^", d, n)
        yield from ls
        for j, d in ls:
            if self.tok(j, "RAISE"):
                for k, n in self.integer(j + 1):
                    yield k, ("^", d, n)
        for j, d in ls:
            if self.tok(j, "UNICODE_EXPONENT"):
                yield j + 1, ("^", d, ("num", self.t[j][1], "sup"))

    def logarithm(self, i):
        yield from self.basic(i)
        if self.tok(i, "LOG"):
            fn = self.t[i][1].split("(")[0].strip(" ")
            for j, d in self.shift(i + 1):
                if self.tok(j, "CLOSE_PAREN"):
                    yield j + 1, ("log", fn, d)

    def basic(self, i):
        if self.tok(i, "ID"):
            yield i + 1, ("id", self.t[i][1])
        if self.tok(i, "OPEN_PAREN"):
            for j, d in self.shift(i + 1):
                if self.tok(j, "CLOSE_PAREN"):
                    yield j + 1, d
        yield from self.number(i)

    def integer(self, i):
        if self.tok(i, "INT", "SIGNED_INT"):
            yield i + 1, ("num", self.t[i][1], "int")

    def number(self, i):
        yield from self.integer(i)
        if self.tok(i, "FLOAT"):
            yield i + 1, ("num", self.t[i][1], "dec")

    def timestamp(self, i):
        text = lambda j: ("raw", "".join(x for _, x in self.t[i:j]))  # noqa: E731

        def zone(j, *names):
            if self.tok(j, *names):
                yield j + 1

        day = [i + 1] if self.tok(i, "DATE", "INT", "SIGNED_INT") else []
        for j in day:
            yield j, text(j)
        for j in day:
            seps = ([j + 1] if self.tok(j, "WS", "T") else []) + [j]
            for k in seps:
                if self.tok(k, "HOUR_MINUTE_SECOND", "HOUR_MINUTE", "INT", "SIGNED_INT"):
                    for e in self.ws(k + 1):
                        for z in zone(e, "HOUR_MINUTE", "INT", "SIGNED_INT", "TIMEZONE"):
                            yield z, text(z)
                        yield e, text(e)
        if self.tok(i, "INT", "SIGNED_INT"):
            for z in zone(i + 1, "HOUR_MINUTE", "INT", "SIGNED_INT", "TIMEZONE"):
                yield z, text(z)
        if self.tok(i, "TIMESTAMP"):
            for e in self.ws(i + 1):
                for z in zone(e, "HOUR_MINUTE", "INT", "SIGNED_INT", "TIMEZONE"):
                    yield z, text(z)
                yield e, text(e)
        for j in day:
            for e in self.ws(j):
                for z in zone(e, "TIMEZONE", "TZ"):
                    yield z, text(z)


@functools.lru_cache(maxsize=200000)
def read(text):
    """The denotation of the text, or None where the grammar does not derive it."""
    text = text.strip()
    return Reader(lex(text)).unit()


# --- meaning up to regrouping ---------------------------------------------------


def value(text, ty):
    if ty == "sup":
        return decimal.Decimal(int(text.translate(SUP)))
    return decimal.Decimal(text)


def canon(d):
    """Canonical form: products and quotients flattened in order, exact values."""
    k = d[0]
    if k == "num":
        v = d[1] if isinstance(d[1], decimal.Decimal) else value(d[1], d[2])
        sign, digits, exp = v.as_tuple()
        n = int("".join(map(str, digits)))
        while n and n % 10 == 0:
            n //= 10
            exp += 1
        return ("num", -n if sign else n, exp if n else 0)
    if k in ("id", "raw"):
        return d
    if k in "*/":
        fs = flat(d, 1)
        return ("prod", tuple(fs))
    if k == "^":
        return ("^", canon(d[1]), canon(d[2]))
    if k == "log":
        return ("log", d[1], canon(d[2]))
    return ("@", canon(d[1]), canon(d[2]))


def flat(d, sign):
    if d[0] == "*":
        return flat(d[1], sign) + flat(d[2], sign)
    if d[0] == "/":
        return flat(d[1], sign) + flat(d[2], -sign)
    return [(sign, canon(d))]


def show(d):
    k = d[0]
    if k in ("num", "id", "raw"):
        return str(d[1])
    if k in "*/^@":
        return f"({show(d[1])} {k} {show(d[2])})"
    return f"{d[1]}({show(d[2])})"
