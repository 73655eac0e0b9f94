"""C13: text outside the grammar always raises SyntaxError."""
from .. import antlr, methods, trees
from ..antlr import ATN, GrammarError, Look
from ..core import Ob, guards, path_of
from ..interp import AbsRaise, Undecided
from ..trees import *
from ..values import ExtClass, ExtObj, Native, Obj, Top, is_str, opaque, show
from ..world import World, exc_is, exc_name, explore, program
from . import c14

RULE = (
    "parse() is interpreted abstractly with the vendored error path in place and every kind of recognition error injected "
    "where the first token would be consumed: each must leave parse(), normalize() and unit() as a SyntaxError, for every "
    "message, token, line and column; the text handed to the lexer must be the complete stripped text; the parser must read "
    "the tokens of that lexer and start at the rule which ends with EOF, and every path of that rule and of its generated "
    "method must consume EOF; text parsed before, valid or not, must not change this. Serialized lexer automaton: in every mode every code point starts a token and no rule skips, "
    "hides or joins characters (the lexer has no raising listener). Each generated rule method must report (or re-raise) a "
    "recognition error raised by any runtime call it makes."
)
ASSUMPTIONS = ["the vendored error strategy detects the errors (C30); its reporting functions are analysed"]
FLOOR = 60
RT = "pyudunits2._grammar._antlr4_runtime"
TEXTS = ["m", " m", "m ", "  m s \t", "m\n", "\r\nm\r\n", "", "   ", "\t", "m;", "m.", ",m", "(m", "m)", "m\ns", "m  s", "m # s", "m @ 2 ", " s since 1990-01-01 00:00 ", "m\x00", "\u00a0m\u00a0", "µm ", "m s", "m!", "é",
         "\u2003m", "M", "m^ 2", "lg(re  m)", "ﬁ", "m−2", "Å"]


class Real(trees.Parser):
    """parse() with the real listener registration and error strategy."""

    def __init__(self, ip, tree, inject):
        self.inject = inject
        super().__init__(ip, tree)
        for k in ("removeErrorListeners", "addErrorListener"):
            rec = ip.from_import(RT + ".Recognizer", "Recognizer")
            ip.hooks.pop(id(ip.getattr(rec, k).node))
        init = ip.getattr(self.pcls, "__init__")
        rec_init = ip.hooks.pop(id(init.node))

        des = ip.from_import(RT + ".atn.ATNDeserializer", "ATNDeserializer")
        ext = ExtClass("ATN")
        ip.hooks[id(ip.getattr(des, "deserialize").node)] = lambda i, f, a, k: ExtObj(ext, decisionToState=[], states=[])
        sim = ip.from_import(RT + ".atn.ParserATNSimulator", "ParserATNSimulator")
        ip.hooks[id(ip.getattr(sim, "__init__").node)] = lambda i, f, a, k: None
        base = ip.from_import(RT + ".Parser", "Parser")

        def base_init(i, f, a, k):
            self.events.append(("Parser", a, k))
            del ip.hooks[id(f.node)]
            try:
                return ip.call_func(f, a, k)
            finally:
                ip.hooks[id(f.node)] = base_init

        ip.hooks[id(ip.getattr(base, "__init__").node)] = base_init
        self.base = base

    def _rule(self, event, args):
        self.events.append((event, args, {}))
        if self.inject is not None:
            self.inject(self, args[0])
        return super()._rule(event, args)


def make_token(p, ty, text):
    ip = p.ip
    t = ip.call(p.token, [], {})
    for k, v in (("type", ty), ("_text", text), ("line", Top("line")), ("column", Top("column"))):
        ip.setattr(t, k, v)
    return t


def injections():
    """Ways in which the runtime reports an error: name -> fn(p, parser)."""

    def prepare(p, tok):
        ip = p.ip
        ext = ExtClass("IntervalSet")
        expected = ExtObj(ext, toString=Native("toString", lambda i, a, k: opaque("expected tokens", "text")))
        ip.hooks[id(ip.getattr(p.base, "getCurrentToken").node)] = lambda i, f, a, k: tok
        ip.hooks[id(ip.getattr(p.base, "getExpectedTokens").node)] = lambda i, f, a, k: expected
        rec = ip.from_import(RT + ".error.Errors", "RecognitionException")
        ip.hooks[id(ip.getattr(rec, "getExpectedTokens").node)] = lambda i, f, a, k: expected
        stream = ExtObj(ExtClass("stream"), getText=Native("getText", lambda i, a, k: opaque("text", "text")))
        ip.hooks[id(ip.getattr(p.base, "getTokenStream").node)] = lambda i, f, a, k: stream

    def err(p, cls, tok):
        ip = p.ip
        c = ip.from_import(RT + ".error.Errors", cls)
        e = Obj(c)
        for k, v in (("message", opaque("message", "text")), ("offendingToken", tok), ("startToken", tok), ("recognizer", None), ("input", None), ("ctx", None), ("offendingState", 1), ("deadEndConfigs", None)):
            ip.setattr(e, k, v)
        return e

    toks = [("a token", 16, opaque("tok", "text")), ("the end of the text", -1, "<EOF>"), ("an error character", 19, "!"), ("white space", 18, " ")]
    for tn, ty, text in toks:
        for with_e in (False, True):
            def notify(p, parser, ty=ty, text=text, with_e=with_e):
                t = make_token(p, ty, text)
                prepare(p, t)
                e = err(p, "InputMismatchException", t) if with_e else None
                p.ip.call(p.ip.getattr(parser, "notifyErrorListeners"), [opaque("message", "text"), t, e], {})

            yield f"error at {tn}{' with exception' if with_e else ''}", notify
        for cls in ("NoViableAltException", "InputMismatchException", "FailedPredicateException"):
            def report(p, parser, ty=ty, text=text, cls=cls):
                t = make_token(p, ty, text)
                prepare(p, t)
                ctx = p.ip.call(p.ip.getattr(p.pcls, "Unit_specContext"), [parser, None, -1], {})
                p.ip.setattr(parser, "_ctx", ctx)
                h = p.ip.getattr(parser, "_errHandler")
                p.ip.call(p.ip.getattr(h, "reportError"), [parser, err(p, cls, t)], {})

            yield f"{cls} at {tn}", report
        for fn in ("reportUnwantedToken", "reportMissingToken"):
            def report2(p, parser, ty=ty, text=text, fn=fn):
                t = make_token(p, ty, text)
                prepare(p, t)
                h = p.ip.getattr(parser, "_errHandler")
                p.ip.hooks[id(p.ip.getattr(h, "getExpectedTokens").func.node)] = lambda i, f, a, k: p.ip.call(p.ip.getattr(parser, "getExpectedTokens"), [], {})
                p.ip.call(p.ip.getattr(h, fn), [parser], {})

            yield f"{fn} at {tn}", report2


TREE = None


def tree():
    return unit(shift(prod(simple("a"), ("MULTIPLY", "*"), simple("b"))))


def check_error(key, n, entry):
    inject = list(injections())[n][1]

    def scenario(ip):
        reached = []

        def inj(p, parser):
            reached.append(1)
            inject(p, parser)
            reached.append(2)

        p = Real(ip, tree(), inj)
        if entry == "parse":
            return reached, p.parse()
        if entry == "normalize":
            return reached, ip.call(ip.from_import("pyudunits2._grammar", "normalize"), [opaque("input", "text")], {})
        w = World(ip, {})
        parse = w.attr("._grammar", "parse")
        ip.hooks.pop(id(parse.node))
        w.build()
        return reached, w.m(w.system, "unit", opaque("input", "text"))

    obs = []
    for i, o in enumerate(explore(program(), scenario, 32)):
        k = key if i == 0 else f"{key}#{i}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
        elif o.kind == "raise":
            ok = exc_is(o.value, "SyntaxError")
            obs.append(Ob(k, "ok" if ok else "violation", f"leaves {entry}() as {exc_name(o.value)}{guards(o)}", where))
        elif not o.value[0]:
            obs.append(Ob(k, "violation", f"{entry}() returns {show(o.value[1])[:200]} without parsing the text{guards(o)}", where))
        else:
            obs.append(Ob(k, "violation", f"the error does not leave {entry}(), which returns {show(o.value[1])[:200]}{guards(o)}", where))
    return obs


#: unit text, and text outside the grammar which is easily taken for it
PAIRS = [
    ("a*b", "a*b)"), ("a*b", "(a*b"), ("a*b", "a*b!"), ("a*b", "a*b/"), ("a*b", "a**b"), ("a*b", "a*b#"), ("a*b", "a,b"), ("a*b", "a;b"), ("a*b", "a*b*"), ("a*b", "a*b%"), ("a b", "a & b"), ("a*b", "*a*b"), ("a*b", "a*/b"),
    ("hypotenuse*hypotenuse*hypotenuse*b", "hypotenuse*hypotenuse*hypotenuse*b)"), ("hypotenuse*hypotenuse*hypotenuse*b", "hypotenuse*hypotenuse*hypotenuse**b"), ("a b-2", "a b - 2"), ("a*b", "a*b\x00"),
    ("lg(re a b)", "lg(re a b"), ("lg(re a b)", "lg(re)"), ("a b @ 2", "a b @"), ("a b @ 2", "@ 2"), ("a b @ 2", "a b @ x"), ("a^2", "a^"), ("a^2", "a^b"), ("a^2", "a^2.5"), ("a^2", "^2"), ("1.5", "1.5.5/"),
]


def check_after(key, good, bad):
    """Unit text parsed before does not make other text valid, nor the reverse."""
    inject = list(injections())[0][1]

    def scenario(ip):
        p = Real(ip, tree(), None)
        res = []

        def attempt(text, fails):
            p.inject = inject if fails else None
            try:
                got = p.parse(text)
            except AbsRaise as e:
                res.append((exc_is(e.exc, "SyntaxError") if fails else False, f"parsing {text!r} after {' and '.join(repr(t) for t in done) or 'nothing'} raises {exc_name(e.exc)}"))
            else:
                res.append((not fails, f"parsing {text!r} after {' and '.join(repr(t) for t in done) or 'nothing'} returns {show(got)[:160]}"))
            done.append(text)

        for first in (good, bad):
            done = []
            for t in (first, bad, bad, good, bad):
                attempt(t, t == bad)
        return res

    from .c18 import run

    return run(key, scenario)


def check_text(key, text):
    """The whole stripped text goes through lexer, token stream and parser."""

    def scenario(ip):
        p = Real(ip, tree() if text.strip() else unit(), None)
        p.parse(text)
        return p.events

    obs = []
    for i, o in enumerate(explore(program(), scenario, 16)):
        k = key if i == 0 else f"{key}#{i}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
            continue
        if o.kind == "raise":
            ok = exc_is(o.value, "SyntaxError")
            obs.append(Ob(k, "undecided" if ok else "violation", f"raises {exc_name(o.value)} before the text is read", where))
            continue
        ev = {}
        for e, a, kw in o.value:
            ev.setdefault(e, (a, kw))
        if "rule unit_spec" not in ev:
            st = "ok" if not text.strip() else "violation"
            obs.append(Ob(k, st, f"{text!r} is answered without parsing", where))
            continue
        given = text_arg(ev.get("InputStream"))
        if not is_str(given):
            obs.append(Ob(k, "undecided", f"input of the lexer {show(given)}", where))
            continue
        chain = [("Lexer", "InputStream", "input"), ("CommonTokenStream", "Lexer", "lexer"), ("Parser", "CommonTokenStream", "input")]
        broken = next((f"{e} does not read from {src}" for e, src, kwname in chain
                       if e not in ev or src not in ev or not any(x is ev[src][0][0] for x in list(ev[e][0][1:]) + list(ev[e][1].values()))), None)
        if given != text.strip():
            obs.append(Ob(k, "violation", f"of {text!r} the lexer reads {show(given)}", where))
        elif broken:
            obs.append(Ob(k, "violation", broken, where))
        elif ev["rule unit_spec"][0][0] is not ev["Parser"][0][0]:
            obs.append(Ob(k, "violation", "the parsed tree comes from another parser", where))
        else:
            obs.append(Ob(k, "ok", f"of {text!r} the lexer reads {given!r}", where))
    return obs


def text_arg(ev):
    if ev is None:
        return None
    a, kw = ev
    return a[1] if len(a) > 1 else kw.get("data")


def check_unit_text(key, text):
    """unit() hands the complete text to the parser."""

    def scenario(ip):
        w = World(ip, {})
        parse = w.attr("._grammar", "parse")
        got = []

        def hook(i, f, a, k):
            got.append(a[0] if a else next(iter(k.values())))
            return w.call(w.g("Number"), 1, raw_content="1")

        ip.hooks[id(parse.node)] = hook
        w.build()
        w.m(w.system, "unit", text)
        return got

    obs = []
    for i, o in enumerate(explore(program(), scenario, 16)):
        k = key if i == 0 else f"{key}#{i}"
        where = path_of(o)
        if o.kind != "ok":
            obs.append(Ob(k, "undecided", str(o.value), where))
        elif not o.value:
            obs.append(Ob(k, "violation" if text.strip() else "ok", f"unit({text!r}) does not parse the text", where))
        elif isinstance(o.value[0], str):
            ok = o.value[0].strip() == text.strip()
            obs.append(Ob(k, "ok" if ok else "violation", f"unit({text!r}) parses {o.value[0]!r}", where))
        else:
            obs.append(Ob(k, "undecided", show(o.value[0]), where))
    return obs


def lexer_listener():
    """Does parse() give the lexer a raising listener?"""

    def scenario(ip):
        p = trees.Parser(ip, tree())
        p.parse()
        return [(e, a) for e, a, _ in p.events], p

    o = explore(program(), scenario, 4)[0]
    if o.kind != "ok":
        return None
    ev, p = o.value
    return any(e == "addErrorListener" and isinstance(a[0], Obj) and a[0].cls is p.lcls for e, a in ev)


def check_lexer(key, i, mode):
    t = c14.tables()["Lexer"]
    atn = ATN(t["atn"])
    n, s = antlr.atn_mode(atn, i, t["symbolicNames"], t["modeNames"], t["ruleNames"])
    cls = antlr.classes(n)
    d = antlr.DFA(n, s, cls)
    row = d.row(d.start)
    obs = []
    holes = []
    for j, (a, b) in enumerate(cls):
        q = row.get(j)
        if q is None or d.label(q) is None:
            holes.append((a, b))
    if holes and not lexer_listener():
        a, b = holes[0]
        obs.append(Ob(f"{key} totality", "violation", f"in {mode} the characters U+{a:04X}..U+{b:04X} match no rule and are dropped by the lexer", "udunits2Lexer.serializedATN"))
    else:
        obs.append(Ob(f"{key} totality", "ok", f"in {mode} each of the {len(cls)} character classes is a token by itself", "udunits2Lexer.serializedATN"))
    for st, lab in n.acc.items():
        bad = [c for c, _ in lab[2] if c in ("skip", "channel", "more")]
        obs.append(Ob(f"{key} rule {lab[3]}", "violation" if bad else "ok",
                      f"in {mode} rule {lab[3]} makes a {lab[1]} token" + (f" which is lost ({', '.join(bad)})" if bad else ""), "udunits2Lexer.serializedATN"))
    return obs


def check_eof(key):
    """Every path through the start rule ends with EOF."""
    t = c14.tables()["Parser"]
    atn = ATN(t["atn"])
    i = t["ruleNames"].index("unit_spec")
    seen, todo, bad = set(), [(atn.rule_start[i], False)], False
    while todo:
        s, eof = todo.pop()
        if (s, eof) in seen:
            continue
        seen.add((s, eof))
        if atn.types[s] == antlr.S_RULE_STOP:
            bad |= not eof
            continue
        for e in atn.edges[s]:
            hit = e[0] in (antlr.ATOM, antlr.SET, antlr.RANGE) and any(a <= -1 <= b for a, b in atn.intervals(e))
            todo.append((e[1], eof or hit))
    return [Ob(key, "violation" if bad else "ok", f"{len(seen)} states of rule unit_spec; every path consumes EOF" if not bad else "a path through unit_spec does not consume EOF", "udunits2Parser.serializedATN")]


def check_handler(key, i, name):
    """A recognition error in the rule is reported or leaves the method."""
    t = c14.tables()["Parser"]
    atn = ATN(t["atn"])
    obs = []
    base = t["ruleNames"]
    for what in ("match", "rule", "predict", "sync", "inline"):
        def scenario(ip):
            cls = ip.from_import("pyudunits2._grammar.parser.udunits2Parser", "udunits2Parser")
            exc = ip.from_import(RT + ".error.Errors", "InputMismatchException")
            rec = ip.from_import(RT + ".error.Errors", "RecognitionException")
            obj = Obj(cls)
            ext = ExtClass("runtime")
            log = []
            e = Obj(exc)
            for k in ("message", "offendingToken", "ctx", "input", "recognizer"):
                e.fields[k] = None

            def boom(*a):
                log.append("raised")
                from ..values import AbsRaise

                raise AbsRaise(e)

            count = [0]

            def la(i, a, k):
                count[0] += 1
                if count[0] > 6:
                    raise Undecided("bound")
                return Top("token type") if what != "inline" else 0

            f = obj.fields
            f["_input"] = ExtObj(ext, LA=Native("LA", la), LT=Native("LT", lambda i, a, k: Top("token")))
            npred = [0]

            def predict(i, a, k):
                if what == "predict":
                    boom()
                npred[0] += 1
                if npred[0] > 3:
                    return 2
                return 1

            f["_interp"] = ExtObj(ext, adaptivePredict=Native("adaptivePredict", predict))
            f["_ctx"] = ExtObj(ext)
            f["_parseListeners"] = None
            ip.setattr(obj, "state", -1)
            h = ExtObj(
                ext, sync=Native("sync", lambda i, a, k: boom() if what == "sync" else None),
                reportError=Native("reportError", lambda i, a, k: log.append("reported")),
                recover=Native("recover", lambda i, a, k: log.append("recover")),
                recoverInline=Native("recoverInline", lambda i, a, k: boom() if what == "inline" else log.append("inline")),
                reportMatch=Native("reportMatch", lambda i, a, k: None),
            )
            f["_errHandler"] = h

            def hook(n, fn):
                ip.hooks[id(ip.getattr(cls, n).node)] = fn

            none = lambda i, fn, a, k: None  # noqa: E731
            for n in ("enterRule", "exitRule", "enterOuterAlt", "enterRecursionRule", "pushNewRecursionContext", "unrollRecursionContexts", "triggerExitRuleEvent"):
                hook(n, none)
            hook("precpred", lambda i, fn, a, k: True)
            hook("consume", lambda i, fn, a, k: ExtObj(ext))
            hook("match", lambda i, fn, a, k: boom() if what == "match" else ExtObj(ext))
            for n in base:
                if n != name:
                    hook(n, lambda i, fn, a, k: boom() if what == "rule" else ExtObj(ext))
            args = [obj] + ([0] if atn.rule_start[i] in atn.precedence else [])
            ip.call(ip.getattr(cls, name), args, {})
            return log

        bad, n_raised, undecided = None, 0, 0
        for o in explore(program(), scenario, 48):
            if o.kind == "ok":
                if "raised" in o.value:
                    n_raised += 1
                    if "reported" not in o.value:
                        bad = o
            elif o.kind == "raise":
                n_raised += 1
            else:
                undecided += 1
        k = f"{key} {what}"
        if bad is not None:
            obs.append(Ob(k, "violation", f"a recognition error of {what} in {name}() is neither reported nor raised", f"udunits2Parser.{name}"))
        elif n_raised:
            obs.append(Ob(k, "ok", f"{n_raised} paths with an error of {what} report it", f"udunits2Parser.{name}"))
    if not obs:
        obs.append(Ob(key, "undecided", "no error path found", f"udunits2Parser.{name}"))
    return obs


def tasks(tier):
    for n, (name, _) in enumerate(injections()):
        for entry in ("parse", "normalize", "unit"):
            yield f"{name}: {entry}", check_error, (n, entry)
    for t in TEXTS:
        yield f"text {t!r}", check_text, (t,)
        yield f"unit text {t!r}", check_unit_text, (t,)
    for good, bad in PAIRS:
        yield f"{bad!r} after {good!r}", check_after, (good, bad)
    t = c14.tables()
    for i, m in enumerate(t["Lexer"]["modeNames"]):
        yield f"lexer {m}", check_lexer, (i, m)
    yield "unit_spec ends with EOF", check_eof, ()
    for i, r in enumerate(t["Parser"]["ruleNames"]):
        yield f"errors in {r}", check_handler, (i, r)
        if r == "unit_spec":
            yield f"method {r}", c14.check_method, (i, r)
