"""C31: the vendored lexer runtime executes the generated lexer correctly."""
import bisect
import random

from .. import refparse
from ..core import Ob, guards, path_of
from ..runtime import Scanner
from ..world import explore, program

RULE = (
    "Abstract interpretation of the vendored ANTLR runtime (character stream, lexer, adaptive lexer simulation, token stream) "
    "under the generated lexer. The texts are made from the automaton of the published lexer grammar: together they take every "
    "edge of every state in every mode, and meet the characters on which a state has no edge. Characters behind ASCII are "
    "unknowns of which the character class is all that is known. Types, texts and places of the tokens must be those of the "
    "longest match, first rule. The texts of one partition are read one after the other, so that the runtime's caches are "
    "shared between them. One obligation per text."
)
ASSUMPTIONS = [
    "an ASCII character stands for its class where the class is wider (letters, control characters): another one of them at "
    "every edge",
    "the runtime's abstract hashes do not collide",
]
FLOOR = 100
BUDGET = None

CHUNK = 12
LONG = 48


class Walk:
    """Scanning a text by the automaton, one character at a time."""

    def __init__(self, modes, mode):
        self.modes = modes
        self.mode = mode
        self.stack = []
        self.text = ""

    def scan(self, text, seen=None):
        """The mode behind the text; adds (mode, state, class) to seen."""
        mode, stack, i = self.mode, list(self.stack), 0
        while i < len(text):
            dfa = self.modes[mode]
            q, best, j = dfa.start, None, i
            while j < len(text):
                c = bisect.bisect_right(dfa.lo, ord(text[j])) - 1
                if seen is not None:
                    seen.add((mode, q, c))
                q = dfa.row(q).get(c)
                if q is None:
                    break
                j += 1
                lab = dfa.label(q)
                if lab is not None:
                    best = (j, lab)
            if best is None:
                return None
            i, (_, _, eff, _) = best
            for c, a in eff:
                if c == "mode":
                    mode = a
                elif c == "pushMode":
                    stack.append(mode)
                    mode = a
                elif c == "popMode":
                    mode = stack.pop()
        return mode


def access(dfa):
    """state -> classes which lead to it"""
    out = {dfa.start: ()}
    todo = [dfa.start]
    for q in todo:
        for c, t in sorted(dfa.row(q).items()):
            if t not in out:
                out[t] = out[q] + (c,)
                todo.append(t)
    return out


def texts(tier):
    modes, first = refparse._modes()
    rnd = random.Random(5)
    deep = tier == "thorough"
    want, ways = {}, {}
    for m, dfa in modes.items():
        ways[m] = access(dfa)
        edges = [(m, q, c) for q in ways[m] for c in dfa.row(q)]
        gaps = [(m, q, c) for q in ways[m] for c in range(len(dfa.cls)) if c not in dfa.row(q)]
        rnd.shuffle(gaps)
        edges += gaps if deep else gaps[::9]
        rnd.shuffle(edges)
        want[m] = dict.fromkeys(edges)

    def char(dfa, c):
        lo, hi = dfa.cls[c]
        return chr(rnd.randint(lo, hi) if hi < 128 else lo if 0xD800 > lo or lo > 0xDFFF else hi)

    def member(target):
        m, q, c = target
        return "".join(char(modes[m], x) for x in ways[m][q] + (c,))

    out = []
    # the ways into the modes
    lead = {first: ""}
    for t in ("m", "m since ", "m @ ", "since ", "m) "):
        lead.setdefault(Walk(modes, first).scan(t), t)
    walk = Walk(modes, first)
    for m in modes:
        if m not in lead:
            continue
        while want[m]:
            seen, text = set(), lead[m]
            tries = 0
            while len(text) < LONG and tries < 8:
                now = walk.scan(text)
                left = want.get(now)
                if not left:
                    break
                target = next(iter(left))
                del left[target]
                more = text + member(target)
                seen = set()
                if walk.scan(more, seen) is None or target not in seen:
                    # (not from here: behind a text which it continues)
                    more = text + ")" + member(target)
                    seen = set()
                    if walk.scan(more, seen) is None or target not in seen:
                        tries += 1
                        out.append(lead[m] + member(target))
                        continue
                for t in seen:
                    want[t[0]].pop(t, None)
                text = more
            out.append(text)
    return list(dict.fromkeys(out))


def check(key, part, whole=True):
    def scenario(ip):
        m = Scanner(ip, whole)
        return [(t, m.scan(t)) for t in part]

    obs = []
    for n, o in enumerate(explore(program(), scenario, 6)):
        where = path_of(o)
        if o.kind != "ok":
            if o.kind == "undecided" and whole:
                # with one character for every class
                return check(key, part, False)
            obs.append(Ob(key, "undecided" if o.kind == "undecided" else "violation", f"{o.kind}: {o.value}", where))
            continue
        for t, (ok, why) in o.value:
            obs.append(Ob(ascii(t) + (f"#{n}" if n else ""), {True: "ok", False: "violation", None: "undecided"}[ok], why + (guards(o) if ok is not True else ""), where))
    return obs


def tasks(tier):
    ts = texts(tier)
    n = -(-len(ts) // CHUNK)
    for k in range(n):
        yield f"texts {k}", check, (ts[k::n],)
