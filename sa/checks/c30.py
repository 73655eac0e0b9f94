"""C30: the vendored parser runtime executes the generated parser correctly."""
import itertools

from ..core import Ob, guards, path_of
from ..runtime import Machine, is_sentence
from ..world import explore, program
from . import c14

RULE = (
    "Abstract interpretation of parse() with the generated parser and the vendored ANTLR runtime in place (token stream, "
    "deserializer, adaptive prediction, error strategy, tree construction), on sequences of tokens of every type with opaque "
    "text, delivered where the lexer would. A sentence of the published grammar must become the expression of its derivation, "
    "anything else must raise SyntaxError. The sequences of one partition are parsed one after the other, in two orders, so "
    "that the runtime's caches are shared between them. One obligation per sequence and order."
)
ASSUMPTIONS = [
    "token sequences are bounded: all of up to two tokens (three in thorough), all sentences of up to five (six) tokens over "
    "one token type per role, longer ones from templates; texts of tokens are opaque",
    "the runtime's abstract hashes do not collide",
]
FLOOR = 800
BUDGET = None

ROLES = ["ID", "INT", "OPEN_PAREN", "CLOSE_PAREN", "DIVIDE", "WS", "RAISE", "LOG", "SHIFT_OP"]
CHUNK = 60


def names():
    return [x for x in c14.tables()["Parser"]["symbolicNames"] if x != "<INVALID>"]


def sentences(alphabet, n):
    return [s for s in itertools.product(alphabet, repeat=n) if is_sentence(s)]


def stamps():
    """All timestamps, behind 'ID since'."""
    N = ["SIGNED_INT", "INT", "HOUR_MINUTE", "HOUR_MINUTE_SECOND", "DATE", "TIMESTAMP", "TIMEZONE", "TZ", "T", "WS"]
    for n in (1, 2, 3, 4, 5):
        for s in itertools.product(N, repeat=n):
            if s[0] == "WS" or "WS WS" in " ".join(s):
                continue
            t = ("ID", "SHIFT_OP") + s
            if is_sentence(t):
                yield t


def long_ones(deep):
    p = lambda s: tuple(s.split())  # noqa: E731
    for n in (6, 12) if deep else (5,):
        for op in ("DIVIDE", "MULTIPLY", "WS", "WS WS", "RAISE INT WS", "INT", "UNICODE_EXPONENT"):
            yield p(f"ID {op} " * n + "ID")
            yield p(f"ID {op} " * n + "ID CLOSE_PAREN")
            yield p(f"ID {op} " * n)
        yield p("OPEN_PAREN " * n + "ID" + " CLOSE_PAREN" * n)
        yield p("OPEN_PAREN " * n + "ID" + " CLOSE_PAREN" * (n - 1))
        yield p("OPEN_PAREN " * n + "ID" + " CLOSE_PAREN" * (n + 1))
        yield p("LOG " * n + "ID" + " CLOSE_PAREN" * n)
        yield p("LOG " * n + "ID DIVIDE ID" + " CLOSE_PAREN INT" * n)
        yield p("LOG OPEN_PAREN " * n + "ID" + " CLOSE_PAREN CLOSE_PAREN" * (n - 1) + " CLOSE_PAREN")
        yield p("OPEN_PAREN " * n + "ID" + " SHIFT_OP INT CLOSE_PAREN" * n)
        yield p("OPEN_PAREN " * n + "ID" + " SHIFT_OP INT CLOSE_PAREN" * (n - 1) + " SHIFT_OP CLOSE_PAREN")
        yield p("ID DIVIDE OPEN_PAREN " * n + "ID" + " CLOSE_PAREN" * n)
        yield p("OPEN_PAREN " * n + "ID" + " CLOSE_PAREN SIGNED_INT DIVIDE INT" * n + " WS SHIFT_OP WS DATE WS HOUR_MINUTE")
        yield p("ID " * n + "SHIFT_OP DATE")
        yield p("INT WS " * n + "ID SHIFT_OP FLOAT")
        yield p("INT " * n)
        yield p("SIGNED_INT " * n)
        yield p("FLOAT " * n)


def neighbours(s, alphabet, step):
    """Sequences one token away, every step-th."""
    out = []
    for i in range(len(s) + 1):
        for a in alphabet:
            out.append(s[:i] + (a,) + s[i:])
            if i < len(s) and a != s[i]:
                out.append(s[:i] + (a,) + s[i + 1:])
        if i < len(s):
            out.append(s[:i] + s[i + 1:])
        if i + 1 < len(s):
            out.append(s[:i] + (s[i + 1], s[i]) + s[i + 2:])
    return out[step[0]::step[1]]


def sequences(tier):
    N = names()
    deep = tier == "thorough"
    out = [()]
    for n in (1, 2):
        out += list(itertools.product(N, repeat=n))
    out += sentences(N, 3)
    if deep:
        out += list(itertools.product(N, repeat=3))[::11]
    four, five = sentences(ROLES, 4), sentences(ROLES, 5)
    out += four
    out += five if deep else five[::4]
    out += sentences(ROLES, 6)[::3] if deep else []
    ts = list(stamps())
    out += ts if deep else ts[::5]
    longs = list(long_ones(deep))
    out += longs
    for k, s in enumerate(four + ts[:: 4 if deep else 16] + longs[:20]):
        out += neighbours(s, N, (k % 7, 37 if deep else 141))
    for k, s in enumerate(five):
        out += neighbours(s, N, (k % 5, 151 if deep else 700))
    return list(dict.fromkeys(out))


def check(key, seqs):
    def scenario(ip):
        m = Machine(ip)
        return [(s, m.parse(s)) for s in seqs]

    obs = []
    for n, o in enumerate(explore(program(), scenario, 4)):
        where = path_of(o)
        if o.kind != "ok":
            obs.append(Ob(key, "undecided" if o.kind == "undecided" else "violation", f"{o.kind}: {o.value}", where))
            continue
        for s, (ok, why) in o.value:
            k = f"{' '.join(s) or 'no token'} ({key.split()[0]})" + (f"#{n}" if n else "")
            obs.append(Ob(k, {True: "ok", False: "violation", None: "undecided"}[ok], why + (guards(o) if ok is not True else ""), where))
    return obs


def tasks(tier):
    seqs = sequences(tier)
    n = -(-len(seqs) // CHUNK)
    # every chunk mixes short and long, valid and not
    for k in range(n):
        part = seqs[k::n]
        yield f"forward {k}", check, (part,)
        if k % (3 if tier == "thorough" else 6) == 0:
            yield f"backward {k}", check, (part[::-1],)
