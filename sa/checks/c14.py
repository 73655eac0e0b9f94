"""C14: the generated parser and lexer implement the published grammar."""
import os

from .. import antlr, methods
from ..antlr import ATN, G4, GrammarError, Look, RuleGraphs
from ..core import Ob
from ..interp import Interp, Program, Undecided
from ..values import Native, Obj
from ..world import explore, program

RULE = (
    "Reads the grammar sources (expanding the token loops of the lexer template), the serialized automata which the "
    "generated classes hand to the runtime, and the generated methods. Lexer: for each mode the automaton of the grammar and "
    "the serialized one are determinised over a common partition of Unicode and compared as a product; every reachable pair "
    "must have the same winning rule (token type, mode actions). Parser: the ordered rule graph of each rule must be "
    "bisimilar to the serialized one (alternatives in order, precedences, rule calls, token sets). Tables: token, rule and "
    "mode names and numbers agree. Methods: abstract interpretation of every generated rule method against the ATN, for "
    "every decision alternative and every look-ahead token; the tokens consumed, rules called (with the right invoking "
    "state) and contexts made must be those of the automaton."
)
ASSUMPTIONS = ["the vendored runtime interprets the automata as ANTLR specifies (C30, C31)", "loops of the rule methods are followed for a bounded number of rounds"]
FLOOR = 60
GEN = "pyudunits2._grammar.parser."


def gdir():
    return os.path.join(program().root, "pyudunits2", "_grammar")


def source(name):
    with open(os.path.join(gdir(), name), encoding="utf-8") as fh:
        return fh.read()


_CACHE = {}


def tables():
    """What the generated classes hold, derived by interpretation."""
    if "t" in _CACHE:
        return _CACHE["t"]

    def scenario(ip):
        out = {}
        seen = {}
        des = ip.from_import("pyudunits2._grammar._antlr4_runtime.atn.ATNDeserializer", "ATNDeserializer")
        m = ip.getattr(des, "deserialize")
        ip.hooks[id(m.node)] = lambda i, f, a, k: seen.__setitem__("data", a[1])
        for which in ("Lexer", "Parser"):
            cls = ip.from_import(GEN + f"udunits2{which}", f"udunits2{which}")
            seen.clear()
            ip.getattr(cls, "atn")
            if not isinstance(seen.get("data"), list) or not all(type(x) is int for x in seen["data"]):
                raise Undecided("the automaton is not a list of integers")
            d = {"atn": list(seen["data"])}
            for n in ("symbolicNames", "ruleNames", "literalNames") + (("modeNames",) if which == "Lexer" else ()):
                d[n] = list(ip.getattr(cls, n))
            d["const"] = {}
            names = set(d["symbolicNames"]) | {f"RULE_{r}" for r in d["ruleNames"]} | set(d.get("modeNames", ())) | {"EOF"}
            for n in names:
                try:
                    d["const"][n] = ip.getattr(cls, n)
                except Exception:
                    pass
            out[which] = d
        return out

    o = explore(program(), scenario, 4)[0]
    if o.kind != "ok":
        raise Undecided(f"tables of the generated classes: {o.value}")
    _CACHE["t"] = o.value
    return o.value


def grammars():
    if "g" not in _CACHE:
        lex = G4(antlr.expand_template(source("udunits2Lexer.g4.jinja")))
        par = G4(source("udunits2Parser.g4"))
        _CACHE["g"] = lex, par
    return _CACHE["g"]


def token_names(lex):
    """Names of the token types in the order ANTLR numbers them."""
    out = []
    for name, frag, mode, alts in lex.rules:
        if not frag and not any(c == "type" for _, cmds in alts for c, _ in cmds) and name not in out:
            out.append(name)
    return out


def literals(lex):
    out = {}
    for name, frag, mode, alts in lex.rules:
        if not frag and len(alts) == 1 and not alts[0][1]:
            e = alts[0][0]
            if e[0] == "seq" and len(e[1]) == 1 and e[1][0][0] == "lit":
                out.setdefault(e[1][0][1], name)
    return out


def check_tables(key):
    t = tables()
    lex, par = grammars()
    obs = []

    def ob(k, ok, detail, where):
        obs.append(Ob(f"tables {k}", "ok" if ok else "violation", detail, where))

    want = ["<INVALID>"] + token_names(lex)
    lx, px = t["Lexer"], t["Parser"]
    ob("lexer token names", lx["symbolicNames"] == want, diff(want, lx["symbolicNames"]), "udunits2Lexer.symbolicNames")
    ob("parser token names", px["symbolicNames"] == want, diff(want, px["symbolicNames"]), "udunits2Parser.symbolicNames")
    for which, d in t.items():
        for i, n in enumerate(want[1:], 1):
            ob(f"{which} constant {n}", d["const"].get(n) == i, f"{n} = {d['const'].get(n)}, the token has number {i}", f"udunits2{which}.{n}")
    ob("parser EOF", px["const"].get("EOF") == -1, f"EOF = {px['const'].get('EOF')}", "udunits2Parser.EOF")
    ob("lexer rule names", lx["ruleNames"] == [r[0] for r in lex.rules], diff([r[0] for r in lex.rules], lx["ruleNames"]), "udunits2Lexer.ruleNames")
    ob("parser rule names", px["ruleNames"] == [r[0] for r in par.rules], diff([r[0] for r in par.rules], px["ruleNames"]), "udunits2Parser.ruleNames")
    modes = list(dict.fromkeys(r[2] for r in lex.rules))
    ob("lexer modes", lx["modeNames"] == modes, diff(modes, lx["modeNames"]), "udunits2Lexer.modeNames")
    for i, r in enumerate(px["ruleNames"]):
        ob(f"parser constant RULE_{r}", px["const"].get(f"RULE_{r}") == i, f"RULE_{r} = {px['const'].get(f'RULE_{r}')}", f"udunits2Parser.RULE_{r}")
    used = sorted({e[1] for e in refs(par)} - {r[0] for r in par.rules} - {"EOF"})
    ob("parser tokens exist", set(used) <= set(want), f"tokens of the parser grammar: {', '.join(used)}", "udunits2Parser.g4")
    return obs


def refs(par):
    todo = [a for r in par.rules for a, _ in r[3]]
    while todo:
        e = todo.pop()
        if e[0] == "ref":
            yield e
        elif e[0] in ("seq", "alt"):
            todo += e[1]
        elif e[0] in ("opt", "star", "plus", "not"):
            todo.append(e[1])


def diff(want, got):
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return f"entry {i} is {b}, the grammar has {a}"
    return f"{len(got)} entries, the grammar has {len(want)}"


def check_mode(key, i, mode):
    t = tables()["Lexer"]
    atn = ATN(t["atn"])
    lex, _ = grammars()
    if i >= len(atn.modes):
        return [Ob(key, "violation", f"the automaton has no mode {i} ({mode})", "udunits2Lexer.serializedATN")]
    d, n = antlr.mode_difference(*antlr.g4_mode(lex, mode), *antlr.atn_mode(atn, i, t["symbolicNames"], t["modeNames"], t["ruleNames"]))
    if d is None:
        return [Ob(key, "ok", f"{n} pairs of states, the same winning rule in each", "udunits2Lexer.serializedATN")]
    w, a, b = d
    return [Ob(key, "violation", f"in {mode} the text {w!r} is {say(a)} in the grammar and {say(b)} in the generated lexer", "udunits2Lexer.serializedATN")]


def say(l):
    if l is None:
        return "no token"
    return f"{l[1]}" + "".join(f", {c}({a or ''})" for c, a in l[2]) + f" (rule {l[3]})"


def check_rule(key, i, name):
    t = tables()["Parser"]
    atn = ATN(t["atn"])
    lex, par = grammars()
    sym = t["symbolicNames"]
    rg = RuleGraphs(par, literals(lex))
    got = antlr.atn_graph(atn, i, lambda x: "EOF" if x == -1 else sym[x] if x < len(sym) else str(x), t["ruleNames"])
    d = antlr.graph_difference(rg.rule(name), got)
    prec = (atn.rule_start[i] in atn.precedence) == rg.left_recursive(name)
    if d is None and prec:
        return [Ob(key, "ok", "the rule graphs agree", "udunits2Parser.serializedATN")]
    if d is None:
        return [Ob(key, "violation", "the rule is marked as a precedence rule in one of grammar and automaton only", "udunits2Parser.serializedATN")]
    path, a, b = d
    return [Ob(key, "violation", f"after {', '.join(path) or 'the start'} the grammar has {a}, the automaton {b}", "udunits2Parser.serializedATN")]


def check_method(key, i, name):
    t = tables()["Parser"]
    atn = ATN(t["atn"])
    look = Look(atn)
    precs = [None]
    if atn.rule_start[i] in atn.precedence:
        precs = sorted({e[4] for es in atn.edges for e in es if e[0] == antlr.RULE and e[3] == i})
    counts = {"ok": 0, "violation": 0, "undecided": 0}
    obs = []
    for p in precs:
        todo = [[]]
        runs = 0
        while todo and runs < 4000:
            script = todo.pop()
            runs += 1
            res = {}

            def scenario(ip):
                res["r"] = methods.run_method(ip, atn, look, t["ruleNames"], t["symbolicNames"], i, p, script)

            o = explore(program(), scenario, 1)[0]
            if "r" not in res:
                obs.append(Ob(f"{key} run {script}", "undecided", str(o.value), f"udunits2Parser.{name}"))
                counts["undecided"] += 1
                if counts["undecided"] > 20:
                    return obs
                continue
            ch, st, text = res["r"]
            counts[st] += 1
            if st != "ok":
                obs.append(Ob(f"{key}: {text}", st, text, f"udunits2Parser.{name}"))
                if counts["violation"] > 5:
                    return obs
            todo.extend(ch.next_scripts())
    if not counts["violation"]:
        obs.append(Ob(key, "ok", f"{counts['ok']} runs of the method, each a path of the automaton", f"udunits2Parser.{name}"))
    return obs


def tasks(tier):
    yield "tables", check_tables, ()
    try:
        lex, par = grammars()
    except (GrammarError, OSError) as e:
        yield "grammar", lambda key: [Ob(key, "undecided", str(e), "grammar sources")], ()
        return
    for i, m in enumerate(dict.fromkeys(r[2] for r in lex.rules)):
        yield f"lexer mode {m}", check_mode, (i, m)
    for i, r in enumerate(par.rules):
        yield f"parser rule {r[0]}", check_rule, (i, r[0])
        yield f"method {r[0]}", check_method, (i, r[0])
