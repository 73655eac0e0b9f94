"""The generated rule methods against the ATN: abstract interpretation of each
method with the runtime replaced by an oracle which follows the automaton."""
from __future__ import annotations

from .antlr import ATOM, PREC, RULE, SET, RANGE, S_RULE_STOP, GrammarError
from .interp import AbsRaise, Undecided
from .values import ExtClass, ExtObj, Native, Obj, Top, show

RT = "pyudunits2._grammar._antlr4_runtime"


class Mismatch(Exception):
    pass


class Stop(Exception):
    """The run ends here (an error was signalled, or the bound is reached)."""


class Choices:
    def __init__(self, script):
        self.script, self.made = list(script), []

    def pick(self, options):
        i = len(self.made)
        k = self.script[i] if i < len(self.script) else 0
        self.made.append((k, len(options)))
        return options[k]

    def next_scripts(self):
        base = len(self.script)
        for i in range(base, len(self.made)):
            for k in range(1, self.made[i][1]):
                yield [m[0] for m in self.made[:i]] + [k]


class Run:
    """One run of a rule method."""

    def __init__(self, ip, atn, look, names, rule, choices, bound=13):
        self.ip, self.atn, self.lk, self.names = ip, atn, look, names  # names: rule names
        self.rule, self.ch, self.bound = rule, choices, bound
        self.sym = ()
        self.obj = None
        self.at = {atn.rule_start[rule]}
        self.la = None
        self.events = []

    # tokens
    def tok(self, t):
        return "EOF" if t == -1 else self.sym[t] if 0 <= t < len(self.sym) else str(t)

    def log(self, e):
        self.events.append(e)
        if len(self.events) > self.bound:
            raise Stop()

    def edges(self, *types):
        for s in sorted(self.lk.closure(self.at)):
            for e in self.atn.edges[s]:
                if e[0] in types:
                    yield s, e

    def consumable(self):
        return {t for _, e in self.edges(ATOM, SET, RANGE) for a, b in self.atn.intervals(e) for t in range(a, b + 1)}

    def advance(self, t, how):
        if self.la is not None and self.la != t:
            if self.la in self.lk.look(self.at) and how == "match":
                raise Mismatch(f"next token {self.tok(self.la)} is allowed but the method insists on {self.tok(t)}")
            raise Stop()
        nxt = {e[1] for _, e in self.edges(ATOM, SET, RANGE) if any(a <= t <= b for a, b in self.atn.intervals(e))}
        if not nxt:
            raise Mismatch(f"the method consumes {self.tok(t)} where the automaton has {self.expect()}")
        self.at = nxt
        self.la = None
        self.log(f"consume {self.tok(t)}")

    def expect(self):
        xs = [self.tok(t) for t in sorted(self.consumable())] + [f"rule {self.names[e[3]]}" for _, e in self.edges(RULE)]
        return " or ".join(xs) or "the end of the rule"

    # runtime calls
    def LA(self, i, args, kw):
        if args and args[0] != 1:
            raise Undecided(f"LA({show(args[0])})")
        if self.la is None:
            look = sorted(self.lk.look(self.at))
            bad = [t for t in [-1] + list(range(1, self.atn.max_token + 1)) if t not in look]
            self.la = self.ch.pick(look + bad[:1] + bad[-1:])
            self.log(f"next token {self.tok(self.la)}")
        return self.la

    def predict(self, i, args, kw):
        d = args[1]
        if not isinstance(d, int) or not 0 <= d < len(self.atn.decisions):
            raise Mismatch(f"prediction of decision {show(d)}")
        s = self.atn.decisions[d]
        if s not in self.lk.closure(self.at):
            raise Mismatch(f"the method predicts decision {d} (state {s}) which the automaton has not reached")
        alts = list(range(1, len(self.atn.edges[s]) + 1))
        if self.la is not None:
            alts = [k for k in alts if self.la in self.lk.look({self.atn.edges[s][k - 1][1]})]
            if not alts:
                raise Stop()
        k = self.ch.pick(alts)
        self.at = {self.atn.edges[s][k - 1][1]}
        self.log(f"decision {d} alternative {k}")
        return k

    def sync(self, i, args, kw):
        n = self.state()
        if n is not None and n not in self.lk.closure(self.at) and not any(n in self.lk.closure({x}) for x in self.at):
            # error recovery would look at the wrong place
            raise Mismatch(f"sync in state {n} while the automaton is at {self.expect()}")
        return None

    def state(self):
        n = self.obj.fields.get("_stateNumber", self.obj.fields.get("state"))
        return n if isinstance(n, int) else None

    def call(self, rule, prec):
        n = self.state()
        ok = [(s, e) for s, e in self.edges(RULE) if e[3] == rule and e[4] == prec]
        if not ok:
            raise Mismatch(f"the method calls {self.names[rule]}({prec or ''}) where the automaton has {self.expect()}")
        if n not in [s for s, _ in ok]:
            raise Mismatch(f"the method calls {self.names[rule]} in state {n}, the automaton in {ok[0][0]}")
        if self.la is not None:
            first = self.lk.look({self.atn.rule_start[rule]})
            inside = self.lk.look({s for s, _ in ok})
            if self.la not in first and self.la not in inside:
                if self.la in self.lk.look(self.at):
                    raise Mismatch(f"next token {self.tok(self.la)} is allowed but the method calls {self.names[rule]}")
                raise Stop()
        self.at = {e[1] for _, e in ok}
        self.la = None
        self.log(f"call {self.names[rule]}")

    def precpred(self, args):
        n = args[-1]
        nxt = {e[1] for _, e in self.edges(PREC) if e[2] == n}
        if not nxt:
            raise Mismatch(f"the method tests precedence {show(n)} which the automaton does not have here")
        self.at = nxt
        self.log(f"precedence {n}")
        return True

    def finish(self):
        end = any(self.atn.types[s] == S_RULE_STOP for s in self.lk.closure(self.at))
        if not end:
            if self.la is not None and self.la not in self.lk.look(self.at):
                raise Mismatch(f"the method ends with next token {self.tok(self.la)} where the automaton has {self.expect()}")
            raise Mismatch(f"the method ends where the automaton has {self.expect()}")
        if self.la is not None:
            inside = set()
            for s in self.lk.closure(self.at):
                if self.atn.types[s] != S_RULE_STOP:
                    t, _ = self.lk._reach(s)
                    inside |= t
            if self.la in inside and self.la not in self.lk.follow[self.rule]:
                raise Mismatch(f"the method ends though next token {self.tok(self.la)} continues the rule")


def run_method(ip, atn, look, names, sym, rule, prec, script):
    """(choices made, status, text): status ok, violation, undecided"""
    ch = Choices(script)
    r = Run(ip, atn, look, names, rule, ch)
    r.sym = sym
    cls = ip.from_import("pyudunits2._grammar.parser.udunits2Parser", "udunits2Parser")
    obj = Obj(cls)
    r.obj = obj
    N = Native
    ext = ExtClass("runtime")
    f = obj.fields
    f["_input"] = ExtObj(ext, LA=N("LA", r.LA), LT=N("LT", lambda i, a, k: Top("token")))
    f["_interp"] = ExtObj(ext, adaptivePredict=N("adaptivePredict", r.predict))
    ctx0 = ExtObj(ext)
    f["_ctx"] = ctx0
    f["_parseListeners"] = None
    f["_precedenceStack"] = [0]
    ip.setattr(obj, "state", -1)

    def fail(i, a, k):
        if r.la is not None and r.la in r.lk.look(r.at):
            raise Mismatch(f"the method rejects the token {r.tok(r.la)} which the automaton allows")
        raise Stop()

    def inline(i, a, k):
        if r.la in r.consumable():
            raise Mismatch(f"the method rejects the token {r.tok(r.la)} which the automaton allows")
        raise Stop()

    def report_match(i, a, k):
        return None

    f["_errHandler"] = ExtObj(
        ext, sync=N("sync", r.sync), reportError=N("reportError", fail), recover=N("recover", fail), recoverInline=N("recoverInline", inline),
        reportMatch=N("reportMatch", report_match), inErrorRecoveryMode=N("inErrorRecoveryMode", lambda i, a, k: False),
    )
    contexts = []

    def hook(name, fn, owner=None):
        m = ip.getattr(owner or cls, name)
        ip.hooks[id(m.node)] = fn

    hook("match", lambda i, fn, a, k: r.advance(a[1], "match") or ExtObj(ext))
    hook("consume", lambda i, fn, a, k: r.advance(r.la if r.la is not None else r.LA(i, [1], {}), "consume") or ExtObj(ext))
    hook("matchWildcard", lambda i, fn, a, k: fail(i, a, k))
    hook("enterRule", lambda i, fn, a, k: contexts.append(("enter", a[1], a[3])))
    hook("exitRule", lambda i, fn, a, k: contexts.append(("exit",)))
    hook("enterOuterAlt", lambda i, fn, a, k: None)
    hook("enterRecursionRule", lambda i, fn, a, k: contexts.append(("enterrec", a[1], a[3], a[4])))
    hook("pushNewRecursionContext", lambda i, fn, a, k: contexts.append(("push", a[1], a[3])))
    hook("unrollRecursionContexts", lambda i, fn, a, k: contexts.append(("unroll",)))
    hook("triggerExitRuleEvent", lambda i, fn, a, k: None)
    hook("precpred", lambda i, fn, a, k: r.precpred(a))
    for n, name in enumerate(names):
        m = ip.getattr(cls, name)

        def h(i, fn, a, k, n=n):
            p = a[1] if len(a) > 1 else k.get("_p", 0)
            r.call(n, p)
            return ExtObj(ext)

        if n != rule:
            ip.hooks[id(m.node)] = h
    me = ip.getattr(cls, names[rule])

    args = [obj] + ([prec] if prec is not None else [])
    try:
        res = ip.call(me, args, {})
        r.finish()
        want = names[rule][0].upper() + names[rule][1:] + "Context"
        if isinstance(res, Obj) and res.cls.name != want:
            raise Mismatch(f"the method returns a {res.cls.name}")
        pushes = [c for c in contexts if c[0] == "push"]
        rec = [c for c in contexts if c[0] == "enterrec"]
        n_prec = sum(1 for e in r.events if e.startswith("precedence"))
        if len(pushes) != n_prec:
            raise Mismatch(f"{n_prec} operators but {len(pushes)} nested contexts")
        if rec and rec[0][3] != prec:
            raise Mismatch(f"precedence {rec[0][3]} entered, {prec} given")
        for c in contexts:
            if c[0] in ("enter", "enterrec", "push") and c[2] != rule:
                raise Mismatch(f"context of rule {c[2]} in method of rule {rule}")
            if c[0] in ("enter", "enterrec", "push") and isinstance(c[1], Obj) and c[1].cls.name != want:
                raise Mismatch(f"context {c[1].cls.name} in the method of {names[rule]}")
        st = "ok", " ".join(r.events)
    except Stop:
        st = "ok", " ".join(r.events) + " …"
    except Mismatch as e:
        st = "violation", f"{e} (after: {', '.join(r.events) or 'entry'})"
    except AbsRaise as e:
        from .world import exc_name

        la_ok = r.la is None or r.la in r.lk.look(r.at)
        bad = la_ok and exc_name(e.exc) != "FailedPredicateException"
        st = ("violation" if bad else "ok"), f"the method raises {exc_name(e.exc)} (after: {', '.join(r.events) or 'entry'})"
    return ch, st[0], st[1]
