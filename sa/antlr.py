"""Grammar sources, serialized automata and generated rule methods.

* a reader of the .g4 sources (with the token loops of the lexer template),
* a reader of the serialized ATN,
* lexer automata (per mode) and their equivalence,
* parser rule graphs and their ordered bisimulation,
* look-ahead sets, and the simulation of a generated rule method against the ATN.
"""
from __future__ import annotations

import os
import re
from collections import deque

from .values import Undecided

GRAMMAR = "pyudunits2/_grammar"
MAXC = 0x10FFFF


class GrammarError(Exception):
    pass


# --- g4 sources ---------------------------------------------------------------


def expand_template(text):
    """The loops of the lexer template: for TOKEN in tokens['MODE'] [if TOKEN not in [...]]."""
    mode, tokens = "DEFAULT_MODE", {}
    for line in text.split("\n"):
        m = re.match(r"mode ([A-Z_]+)\;", line)
        if m:
            mode = m.group(1)
        m = re.match(r"([A-Z_]+) ?\:.*", line)
        if m:
            tokens.setdefault(mode, []).append(m.group(1))

    def loop(m):
        var, which, cond, body = m.group(1), m.group(2), m.group(3), m.group(4)
        skip = re.findall(r"['\"](\w+)['\"]", cond or "")
        out = []
        for t in tokens.get(which, []):
            if t not in skip:
                out.append(re.sub(r"\{\{\s*" + var + r"\s*\}\}", t, body))
        return "".join(out)

    text = re.sub(
        r"\{%-?\s*for\s+(\w+)\s+in\s+tokens\[['\"](\w+)['\"]\]\s*(?:if\s+\w+\s+not\s+in\s+\[([^\]]*)\])?\s*-?%\}(.*?)\{%-?\s*endfor\s*-?%\}",
        loop,
        text,
        flags=re.S,
    )
    if "{%" in text or "{{" in text:
        raise GrammarError("template construct which is not a token loop")
    return text


TOKEN = re.compile(
    r"""(?P<ws>\s+|//[^\n]*|/\*.*?\*/)|(?P<lit>'(?:\\u[0-9A-Fa-f]{4}|\\.|[^'\\])+')|(?P<set>\[(?:\\.|[^\]\\])*\])"""
    r"""|(?P<arrow>->)|(?P<dots>\.\.)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<op>[:;|()?*+.,~={}])""",
    re.S | re.X,
)


def tokenize(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise GrammarError(f"grammar text {text[pos:pos + 30]!r}")
        pos = m.end()
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group()))
    return out


def unescape(s):
    def one(m):
        if m.group(1):
            return chr(int(m.group(1), 16))
        return {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f"}.get(m.group(2), m.group(2))

    return re.sub(r"\\u([0-9A-Fa-f]{4})|\\(.)", one, s, flags=re.S)


class G4:
    """rules: ordered [(name, fragment, mode, [(expr, commands)])]"""

    def __init__(self, text):
        self.toks = tokenize(text)
        self.i = 0
        self.kind = "combined"
        self.options = {}
        self.rules = []
        mode = "DEFAULT_MODE"
        while self.i < len(self.toks):
            k, t = self.peek()
            if t in ("lexer", "parser") and self.toks[self.i + 1][1] == "grammar":
                self.kind = t
                self.i += 2
                self.take()
                self.expect(";")
            elif t == "grammar":
                self.i += 2
                self.expect(";")
            elif t == "options":
                self.take()
                self.expect("{")
                while self.peek()[1] != "}":
                    n = self.take()[1]
                    self.expect("=")
                    self.options[n] = self.take()[1]
                    self.expect(";")
                self.expect("}")
            elif t == "mode":
                self.take()
                mode = self.take()[1]
                self.expect(";")
            else:
                frag = t == "fragment"
                if frag:
                    self.take()
                name = self.take()[1]
                self.expect(":")
                alts = self.alts()
                self.expect(";")
                self.rules.append((name, frag, mode, alts))
        self.by_name = {r[0]: r for r in self.rules}

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ("eof", "")

    def take(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, text):
        if self.peek()[1] != text:
            raise GrammarError(f"{text!r} expected before {self.toks[self.i:self.i + 4]}")
        self.i += 1

    def alts(self):
        out = []
        while True:
            seq = []
            while self.peek()[1] not in ("|", ";", ")", "->") and self.peek()[0] != "eof":
                seq.append(self.suffix(self.atom()))
            cmds = []
            if self.peek()[1] == "->":
                self.take()
                while True:
                    n, arg = self.take()[1], None
                    if self.peek()[1] == "(":
                        self.take()
                        arg = self.take()[1]
                        self.expect(")")
                    cmds.append((n, arg))
                    if self.peek()[1] != ",":
                        break
                    self.take()
            out.append((("seq", seq), cmds))
            if self.peek()[1] != "|":
                return out
            self.take()

    def suffix(self, e):
        while self.peek()[1] in ("?", "*", "+"):
            op = self.take()[1]
            if self.peek()[1] == "?":
                raise GrammarError("non-greedy operator")
            e = ({"?": "opt", "*": "star", "+": "plus"}[op], e)
        return e

    def atom(self):
        k, t = self.take()
        if t == "(":
            a = self.alts()
            self.expect(")")
            if any(c for _, c in a):
                raise GrammarError("command inside a block")
            return ("alt", [x for x, _ in a]) if len(a) > 1 else a[0][0]
        if t == "~":
            e = self.atom()
            return ("not", e)
        if k == "lit":
            s = unescape(t[1:-1])
            if self.peek()[0] == "dots":
                self.take()
                hi = unescape(self.take()[1][1:-1])
                return ("set", ((ord(s), ord(hi)),))
            return ("lit", s)
        if k == "set":
            return ("set", charset(t[1:-1]))
        if t == ".":
            return ("set", ((0, MAXC),))
        if k == "id":
            return ("ref", t)
        raise GrammarError(f"unexpected {t!r}")


def charset(body):
    cs, i = [], 0
    while i < len(body):
        if body[i] == "\\":
            if body[i + 1] == "u":
                c, i = chr(int(body[i + 2 : i + 6], 16)), i + 6
            else:
                c, i = unescape(body[i : i + 2]), i + 2
        else:
            c, i = body[i], i + 1
        cs.append(c if c != "-" or body[i - 1] == "\\" else ("-",))
    out, i = [], 0
    while i < len(cs):
        c = cs[i] if isinstance(cs[i], str) else "-"
        if i + 2 < len(cs) and cs[i + 1] == ("-",):
            out.append((ord(c), ord(cs[i + 2] if isinstance(cs[i + 2], str) else "-")))
            i += 3
        else:
            out.append((ord(c), ord(c)))
            i += 1
    return tuple(out)


# --- serialized ATN -------------------------------------------------------------

EPS, RANGE, RULE, PRED, ATOM, ACTION, SET, NOT_SET, WILD, PREC = range(1, 11)
S_RULE_STOP, S_BLOCK_END, S_LOOP_END = 7, 8, 12
ACTIONS = {0: "channel", 1: "custom", 2: "mode", 3: "more", 4: "popMode", 5: "pushMode", 6: "skip", 7: "type"}


class ATN:
    def __init__(self, data):
        it = iter(data)
        rd = lambda: next(it)  # noqa: E731
        if rd() != 4:
            raise GrammarError("serialized ATN of another version")
        self.lexer = rd() == 0
        self.max_token = rd()
        self.types, self.rule_of = [], []
        for _ in range(rd()):
            t = rd()
            self.types.append(t)
            if t == 0:
                self.rule_of.append(None)
                continue
            self.rule_of.append(rd())
            if t == S_LOOP_END or t in (3, 4, 5):
                rd()
        self.nongreedy = [rd() for _ in range(rd())]
        self.precedence = [rd() for _ in range(rd())]
        self.rule_start, self.rule_type = [], []
        for _ in range(rd()):
            self.rule_start.append(rd())
            self.rule_type.append(rd() if self.lexer else None)
        self.modes = [rd() for _ in range(rd())]
        self.sets = []
        for _ in range(rd()):
            n = rd()
            s = [(-1, -1)] if rd() else []
            s += [(rd(), rd()) for _ in range(n)]
            self.sets.append(tuple(s))
        self.edges = [[] for _ in self.types]
        for _ in range(rd()):
            src, trg, ty, a1, a2, a3 = (rd() for _ in range(6))
            self.edges[src].append((ty, trg, a1, a2, a3))
        self.decisions = [rd() for _ in range(rd())]
        self.actions = [(ACTIONS[rd()], rd(), rd()) for _ in range(rd())] if self.lexer else []
        if next(it, None) is not None:
            raise GrammarError("trailing data in the serialized ATN")

    def intervals(self, edge):
        ty, _, a1, a2, a3 = edge
        if ty == ATOM:
            return ((-1, -1),) if a3 else ((a1, a1),)
        if ty == RANGE:
            return (((-1 if a3 else a1), a2),)
        if ty == SET:
            return self.sets[a1]
        if ty == NOT_SET:
            return complement(self.sets[a1])
        if ty == WILD:
            return ((0, MAXC),)
        raise GrammarError(f"edge {edge}")


def complement(iv):
    out, lo = [], 0
    for a, b in sorted(iv):
        if a > lo:
            out.append((lo, a - 1))
        lo = max(lo, b + 1)
    if lo <= MAXC:
        out.append((lo, MAXC))
    return tuple(out)


# --- lexer automata -------------------------------------------------------------


class NFA:
    def __init__(self):
        self.eps, self.trans = [], []
        self.acc = {}

    def new(self):
        self.eps.append([])
        self.trans.append([])
        return len(self.eps) - 1


def nfa_of_expr(n, g, e, s, seen=()):
    """Add e from state s; returns the end state."""
    k = e[0]
    if k == "seq":
        for x in e[1]:
            s = nfa_of_expr(n, g, x, s, seen)
        return s
    if k == "lit":
        for c in e[1]:
            t = n.new()
            n.trans[s].append((((ord(c), ord(c)),), t))
            s = t
        return s
    if k == "set":
        t = n.new()
        n.trans[s].append((e[1], t))
        return t
    if k == "not":
        iv = sets_of(g, e[1])
        t = n.new()
        n.trans[s].append((complement(iv), t))
        return t
    if k == "alt":
        end = n.new()
        for x in e[1]:
            a = n.new()
            n.eps[s].append(a)
            n.eps[nfa_of_expr(n, g, x, a, seen)].append(end)
        return end
    if k == "opt":
        end = n.new()
        a = n.new()
        n.eps[s] += [a, end]
        n.eps[nfa_of_expr(n, g, e[1], a, seen)].append(end)
        return end
    if k in ("star", "plus"):
        a, end = n.new(), n.new()
        n.eps[s].append(a)
        z = nfa_of_expr(n, g, e[1], a, seen)
        n.eps[z] += [a, end]
        if k == "star":
            n.eps[s].append(end)
        return end
    if k == "ref":
        if e[1] == "EOF":
            raise GrammarError("EOF in a lexer rule")
        if e[1] in seen:
            raise GrammarError(f"recursive lexer rule {e[1]}")
        if e[1] not in g.by_name:
            raise GrammarError(f"no lexer rule {e[1]}")
        return nfa_of_expr(n, g, ("alt", [x for x, _ in g.by_name[e[1]][3]]), s, seen + (e[1],))
    raise GrammarError(f"expression {k}")


def sets_of(g, e):
    if e[0] == "set":
        return e[1]
    if e[0] == "lit" and len(e[1]) == 1:
        return ((ord(e[1]), ord(e[1])),)
    if e[0] == "alt":
        return tuple(i for x in e[1] for i in sets_of(g, x))
    if e[0] == "seq" and len(e[1]) == 1:
        return sets_of(g, e[1][0])
    if e[0] == "ref":
        return tuple(i for x, _ in g.by_name[e[1]][3] for i in sets_of(g, x))
    raise GrammarError("complement of something which is not a set")


def g4_mode(g, mode):
    """NFA of a lexer mode; accepting states labelled (priority, token, effects)."""
    n = NFA()
    start = n.new()
    order = 0
    for name, frag, m, alts in g.rules:
        if frag or m != mode:
            continue
        for expr, cmds in alts:
            s = n.new()
            n.eps[start].append(s)
            end = nfa_of_expr(n, g, expr, s, (name,))
            tok = name
            eff = []
            for c, a in cmds:
                if c == "type":
                    tok = a
                else:
                    eff.append((c, a))
            n.acc[end] = (order, tok, tuple(eff), name)
        order += 1
    return n, start


def atn_mode(atn, mode, names, mode_names, rule_names):
    n = NFA()
    start = n.new()
    if atn.nongreedy:
        raise GrammarError("non-greedy lexer decision")

    def inline(rule, s, top, seen=()):
        """Copies the rule; returns its end state(s) as {(state, actions)}."""
        if rule in seen:
            raise GrammarError("recursive lexer rule")
        ends = []
        memo = {}
        todo = []

        def at(st, acts):
            if (st, acts) not in memo:
                memo[(st, acts)] = n.new()
                todo.append((st, acts))
            return memo[(st, acts)]

        memo[(atn.rule_start[rule], ())] = s
        todo.append((atn.rule_start[rule], ()))
        while todo:
            st, acts = todo.pop()
            here = memo[(st, acts)]
            if atn.types[st] == S_RULE_STOP:
                ends.append((here, acts))
                continue
            for e in atn.edges[st]:
                ty, trg, a1, a2, a3 = e
                if ty == EPS:
                    n.eps[here].append(at(trg, acts))
                elif ty == RULE:
                    sub = n.new()
                    n.eps[here].append(sub)
                    t = at(trg, acts)
                    for end, _ in inline(atn.rule_of[a1], sub, False, seen + (rule,)):
                        n.eps[end].append(t)
                elif ty == ACTION:
                    n.eps[here].append(at(trg, acts + ((a2,) if top else ())))
                elif ty in (PRED, PREC):
                    raise GrammarError("predicate in a lexer rule")
                else:
                    n.trans[here].append((atn.intervals(e), at(trg, acts)))
        return ends

    for order, e in enumerate(atn.edges[atn.modes[mode]]):
        rule = atn.rule_of[e[1]]
        s = n.new()
        n.eps[start].append(s)
        for end, acts in inline(rule, s, True):
            ty = atn.rule_type[rule]
            tok = names[ty] if 0 < ty < len(names) else f"type {ty}"
            eff = []
            for a in acts:
                k, d1, d2 = atn.actions[a]
                if k == "type":
                    tok = names[d1] if 0 < d1 < len(names) else f"type {d1}"
                elif k in ("mode", "pushMode"):
                    eff.append((k, mode_names[d1] if d1 < len(mode_names) else f"mode {d1}"))
                elif k in ("more", "skip", "popMode"):
                    eff.append((k, None))
                else:
                    eff.append((k, str(d1)))
            n.acc[end] = (order, tok, tuple(eff), rule_names[rule])
    return n, start


def classes(*nfas):
    cuts = {0, MAXC + 1}
    for n in nfas:
        for ts in n.trans:
            for iv, _ in ts:
                for a, b in iv:
                    cuts.add(a)
                    cuts.add(b + 1)
    cs = sorted(cuts)
    return [(cs[i], cs[i + 1] - 1) for i in range(len(cs) - 1)]


class DFA:
    def __init__(self, n, start, cls):
        self.cls = cls
        self.n = n
        idx = {a: i for i, (a, _) in enumerate(cls)}
        self.idx = idx
        self.lo = [a for a, _ in cls]
        self.states, self.delta = [], []
        self.ids = {}
        self.start = self.state(self.closure({start}))

    def state(self, s):
        if s not in self.ids:
            self.ids[s] = len(self.states)
            self.states.append(s)
            self.delta.append(None)
        return self.ids[s]

    def closure(self, s):
        s = set(s)
        todo = list(s)
        while todo:
            x = todo.pop()
            for y in self.n.eps[x]:
                if y not in s:
                    s.add(y)
                    todo.append(y)
        return frozenset(s)

    def row(self, q):
        if self.delta[q] is None:
            move = {}
            for x in self.states[q]:
                for iv, t in self.n.trans[x]:
                    for a, b in iv:
                        i = self.idx[a]
                        while i < len(self.cls) and self.cls[i][0] <= b:
                            move.setdefault(i, set()).add(t)
                            i += 1
            self.delta[q] = {i: self.state(self.closure(t)) for i, t in move.items()}
        return self.delta[q]

    def label(self, q):
        acc = [self.n.acc[x] for x in self.states[q] if x in self.n.acc]
        return min(acc, key=lambda a: a[0]) if acc else None

    def step(self, q, ch):
        import bisect

        i = bisect.bisect_right(self.lo, ord(ch)) - 1
        return self.row(q).get(i)


def sample_char(c):
    a, b = c
    for x in range(a, min(b, a + 200) + 1):
        if chr(x).isprintable():
            return chr(x)
    return chr(a)


def mode_difference(n1, s1, n2, s2, limit=4000):
    """(difference or None, states compared). A difference is (word, label1, label2)."""
    cls = classes(n1, n2)
    d1, d2 = DFA(n1, s1, cls), DFA(n2, s2, cls)
    seen = {(d1.start, d2.start): ""}
    todo = deque(seen)
    while todo:
        p = todo.popleft()
        q1, q2 = p
        l1 = d1.label(q1) if q1 is not None else None
        l2 = d2.label(q2) if q2 is not None else None
        if (l1 and l1[1:3]) != (l2 and l2[1:3]):
            return (seen[p], l1, l2), len(seen)
        r1 = d1.row(q1) if q1 is not None else {}
        r2 = d2.row(q2) if q2 is not None else {}
        for i in sorted(set(r1) | set(r2)):
            t = (r1.get(i), r2.get(i))
            if t not in seen:
                seen[t] = seen[p] + sample_char(cls[i])
                todo.append(t)
        if len(seen) > limit:
            raise GrammarError("automata too large")
    return None, len(seen)


# --- parser rules -----------------------------------------------------------------


class Node:
    """A vertex of a rule graph: kind dec (ordered successors), sym (one), stop."""

    __slots__ = ("kind", "sym", "succ", "at")

    def __init__(self, kind, sym=None, succ=None, at=None):
        self.kind, self.sym, self.succ, self.at = kind, sym, succ if succ is not None else [], at


class RuleGraphs:
    """Ordered rule graphs of a parser grammar, as ANTLR constructs them."""

    def __init__(self, g, literals):
        self.g = g
        self.literals = literals
        self.names = {r[0] for r in g.rules}

    def token(self, e):
        """The token of an expression which is one token, or None"""
        if e[0] == "seq" and len(e[1]) == 1:
            return self.token(e[1][0])
        if e[0] == "lit":
            if e[1] not in self.literals:
                raise GrammarError(f"literal {e[1]!r} is no token")
            return self.literals[e[1]]
        if e[0] == "ref" and e[1] not in self.names:
            return e[1]
        return None

    def alternatives(self, e):
        """Successor expressions of a block; a block of tokens only is a set."""
        while e[0] == "seq" and len(e[1]) == 1 and e[1][0][0] in ("alt", "seq"):
            e = e[1][0]
        alts = e[1] if e[0] == "alt" else [e]
        toks = [self.token(a) for a in alts]
        if len(alts) > 1 and all(toks):
            return [("tokset", frozenset(toks))]
        return alts

    def build(self, e, nxt, rule, prec=None):
        k = e[0]
        if k == "tokset":
            return Node("sym", ("tok", e[1]), [nxt])
        if k == "seq":
            for i, x in reversed(list(enumerate(e[1]))):
                tail = i == len(e[1]) - 1
                nxt = self.build(x, nxt, rule, prec if tail else None)
            return nxt
        t = self.token(e)
        if t is not None:
            return Node("sym", ("tok", frozenset([t])), [nxt])
        if k == "ref":
            p = 0
            if e[1] == rule and prec is not None:
                p = prec + 1
            return Node("sym", ("rule", e[1], p if self.left_recursive(e[1]) else 0), [nxt])
        if k == "alt":
            return self.decide([self.build(a, nxt, rule) for a in self.alternatives(e)])
        if k == "opt":
            return self.decide([self.build(a, nxt, rule) for a in self.alternatives(e[1])] + [nxt])
        if k == "star":
            d = Node("dec")
            d.succ = [self.decide([self.build(a, d, rule) for a in self.alternatives(e[1])]), nxt]
            return d
        if k == "plus":
            d = Node("dec")
            body = self.decide([self.build(a, d, rule) for a in self.alternatives(e[1])])
            d.succ = [body, nxt]
            return body
        raise GrammarError(f"parser expression {k}")

    @staticmethod
    def decide(succ):
        return succ[0] if len(succ) == 1 else Node("dec", None, succ)

    def left_recursive(self, name):
        return any(a[1] and a[1][0] == ("ref", name) for a, _ in self.g.by_name[name][3])

    def rule(self, name):
        stop = Node("stop")
        alts = [a for a, _ in self.g.by_name[name][3]]
        if not self.left_recursive(name):
            return self.decide([self.build(a, stop, name) for a in self.alternatives(("alt", alts) if len(alts) > 1 else alts[0])])
        prim = [a for a in alts if not (a[1] and a[1][0] == ("ref", name))]
        loop = Node("dec")
        ops = []
        for i, a in enumerate(alts, 1):
            if a in prim:
                continue
            p = len(alts) - i + 1
            ops.append(Node("sym", ("prec", p), [self.build(("seq", a[1][1:]), loop, name, p)]))
        loop.succ = [self.decide(ops), stop]
        return self.decide([self.build(a, loop, name) for a in self.alternatives(("alt", prim) if len(prim) > 1 else prim[0])])


def atn_graph(atn, rule, tok_names, rule_names):
    memo = {}

    def at(s):
        chain = []
        while True:
            if s in memo:
                return memo[s]
            if atn.types[s] == S_RULE_STOP:
                memo[s] = Node("stop", at=s)
                return memo[s]
            es = atn.edges[s]
            if len(es) == 1 and es[0][0] in (EPS, ACTION):
                if s in chain:
                    raise GrammarError("epsilon cycle")
                chain.append(s)
                s = es[0][1]
                continue
            break
        n = memo[s] = Node("dec", at=s)
        es = atn.edges[s]
        if len(es) > 1:
            if any(e[0] != EPS for e in es):
                raise GrammarError("decision with a labelled edge")
            n.succ = [at(e[1]) for e in es]
            return n
        if not es:
            raise GrammarError(f"state {s} has no successor")
        e = es[0]
        n.kind = "sym"
        if e[0] == RULE:
            n.sym = ("rule", rule_names[e[3]], e[4])
        elif e[0] == PREC:
            n.sym = ("prec", e[2])
        elif e[0] in (ATOM, SET, RANGE):
            n.sym = ("tok", frozenset(tok_names(t) for a, b in atn.intervals(e) for t in range(a, b + 1)))
        else:
            raise GrammarError(f"edge of type {e[0]} in a parser rule")
        n.succ = [at(e[1])]
        return n

    return at(atn.rule_start[rule])


def graph_difference(a, b):
    """None, or (path, what the first has, what the second has)."""
    seen = set()
    todo = [(a, b, ())]
    while todo:
        x, y, path = todo.pop()
        if (id(x), id(y)) in seen:
            continue
        seen.add((id(x), id(y)))
        dx, dy = describe(x), describe(y)
        if dx != dy:
            return path, dx, dy
        for i, (p, q) in enumerate(zip(x.succ, y.succ), 1):
            step = f"alternative {i}" if x.kind == "dec" else describe(x)
            todo.append((p, q, path + (step,)))
    return None


def describe(n):
    if n.kind == "dec":
        return f"a decision between {len(n.succ)} alternatives"
    if n.kind == "stop":
        return "the end of the rule"
    k = n.sym
    if k[0] == "tok":
        return "token " + " or ".join(sorted(k[1]))
    if k[0] == "rule":
        return f"rule {k[1]}" + (f" at precedence {k[2]}" if k[2] else "")
    return f"precedence {k[1]}"


# --- look-ahead -------------------------------------------------------------------


class Look:
    """Token look-ahead of parser ATN states (rule ends use the global follow set)."""

    def __init__(self, atn):
        self.atn = atn
        n = len(atn.rule_start)
        self.follow = [set() for _ in range(n)]
        self.nullable = [False] * n
        changed = True
        while changed:
            changed = False
            for r in range(n):
                if not self.nullable[r] and self._reach(atn.rule_start[r])[1]:
                    self.nullable[r] = changed = True
        changed = True
        while changed:
            changed = False
            for s, es in enumerate(atn.edges):
                for e in es:
                    if e[0] == RULE:
                        toks, end = self._reach(e[1])
                        if end:
                            toks = toks | self.follow[atn.rule_of[s]]
                        tgt = self.follow[e[3]]
                        if not toks <= tgt:
                            tgt |= toks
                            changed = True

    def _reach(self, s):
        """(tokens, end of rule reachable)"""
        toks, end, seen, todo = set(), False, set(), [s]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.atn.types[x] == S_RULE_STOP:
                end = True
                continue
            for e in self.atn.edges[x]:
                if e[0] in (EPS, PREC, PRED, ACTION):
                    todo.append(e[1])
                elif e[0] == RULE:
                    t, _ = self._first(e[3])
                    toks |= t
                    if self.nullable[e[3]]:
                        todo.append(e[1])
                else:
                    for a, b in self.atn.intervals(e):
                        toks |= set(range(a, b + 1))
        return toks, end

    _busy: set = set()

    def _first(self, rule):
        if rule in self._busy:
            return set(), False
        self._busy.add(rule)
        try:
            return self._reach(self.atn.rule_start[rule])
        finally:
            self._busy.discard(rule)

    def first(self, rule):
        return self._first(rule)[0]

    def look(self, states):
        out = set()
        for s in states:
            t, end = self._reach(s)
            out |= t
            if end:
                out |= self.follow[self.atn.rule_of[s]]
        return out

    def closure(self, states):
        seen, todo = set(), list(states)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for e in self.atn.edges[x]:
                if e[0] in (EPS, ACTION):
                    todo.append(e[1])
        return seen
