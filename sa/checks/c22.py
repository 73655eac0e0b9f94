"""C22: the bundled database is closed, acyclic and reachable."""
from .. import db, refparse
from ..core import Ob

RULE = (
    "Lint of the bundled XML file: every definition is read with the checker's own lexer (from the published lexer grammar) and "
    "parser; every identifier in it must resolve within the file, the graph of definitions must have no cycle and end in base "
    "units; every reference must be claimed by one element only and must be a spelling which the lexer reads as one identifier, and "
    "so must each prefix in front of a unit, with the published grammar and with the automaton of the generated lexer alike; every "
    "element must be complete. One obligation per element and rule, and per reference."
)
ASSUMPTIONS = ["C14: the generated lexer and parser implement the grammar"]
FLOOR = 800


def tasks(tier):
    for n, e in enumerate(db.bundled(lenient=False).entries):
        yield f"{n} {e}", check, (n,)
    yield "time", time, ()
    b = db.bundled(lenient=False)
    yield "tokens", tokens, (sorted({r for e in b.units for _, r in e.refs()} | {r + "m" for e in b.prefixes for _, r in e.refs()} | {t for e in b.units for t in e.defs}),)


def check(key, n):
    b = db.bundled(lenient=False)
    e = b.entries[n]
    where = f"{e.where} ({e})"
    out = []

    def ob(k, ok, text):
        out.append(Ob(k, "ok" if ok else "violation", text, where))

    if e.kind == "prefix":
        ob(f"{e}: elements", len(e.names) == 1 and len(e.value) == 1, f"{len(e.names)} names, {len(e.value)} values")
        d = refparse.read(e.value[0]) if e.value else None
        ok = False
        try:
            ok = db.Fraction(e.value[0]) > 0
        except (ValueError, IndexError):
            pass
        ob(f"{e}: value", ok and d is not None and d[0] == "num", f"the value of {e} is {e.value}")
        for role, r in e.refs():
            ob(f"prefix {role} {r}: spelling", refparse.read(r + "m") == ("id", r + "m"), f"{r!r} before a unit is {'' if refparse.read(r + 'm') == ('id', r + 'm') else 'not '}one identifier")
            others = [p for p in b.prefixes if p is not e and any(x == r for _, x in p.refs())]
            ob(f"prefix {role} {r}: claimed once", not others, f"{r} is also of {', '.join(map(str, others))}" if others else "one prefix")
        return out
    ob(f"{n} {e}: elements", len(e.status) == 1 and len(e.names) <= 1 and bool(e.refs()), f"{e} is {'+'.join(e.status) or 'undefined'} with {len(e.refs())} references")
    if len(e.status) == 1:
        try:
            m = b.meaning(e)
            ob(f"{e}: definition", all(base_only(x) for x in [m]), f"{e} is {db.show_meaning(m)}")
        except db.Problem as p:
            ob(f"{e}: definition", False, str(p))
        for t in e.defs:
            d = refparse.read(t)
            for i in sorted(set(ids(d))) if d else ():
                ob(f"{e}: {i} in its definition", bool(b.lookup(i)), f"{i} is {'' if b.lookup(i) else 'not '}in the database")
    for role, r in e.refs():
        ob(f"{role} {r}: spelling", refparse.read(r) == ("id", r), f"{r!r} is {'one identifier' if refparse.read(r) == ('id', r) else 'no identifier of the grammar'}")
        others = [(u, x) for u in b.units if u is not e for x, y in u.refs() if y == r]
        ob(f"{role} {r}: claimed once", not others, f"{r} is also {', '.join(f'{x} of {u} ({u.where})' for u, x in others)}" if others else "one unit")
    return out


def tokens(key, texts):
    """The automaton of the generated lexer reads the database's texts as the grammar does."""
    out = []
    for t in texts:
        a, b = refparse.lex(t), refparse.lex(t, True)
        out.append(Ob(f"tokens of {t!r}", "ok" if a == b else "violation", f"{t!r} is {' '.join(k for k, _ in b)} in the generated lexer, {' '.join(k for k, _ in a)} in the grammar", "udunits2Lexer.serializedATN"))
    return out


def base_only(m):
    return all(x[0] == "base" or base_only(x[2] if x[0] == "log" else x[1]) for x, _ in m[1])


def ids(d):
    if d[0] == "id":
        yield d[1]
    for c in d[1:]:
        if isinstance(c, tuple):
            yield from ids(c)


def time(key):
    b = db.bundled(lenient=False)
    s = [e for e in b.units if "base" in e.status and any(x == "second" for x, _ in e.names)]
    return [Ob("the time base unit", "ok" if len(s) == 1 else "violation", f"{len(s)} base units with the name second")]
