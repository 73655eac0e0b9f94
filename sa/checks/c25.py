"""C25: the command line reports the library's answer and exit status."""
from .. import cli, libs
from ..core import Ob, guards, path_of
from ..documents import NS, El, name_el
from ..interp import PKG, AbsRaise, Frame, Module
from ..shapes import *  # noqa: F403
from ..values import ExcVal, is_str, mkstr, opaque, show
from ..world import Base, Def, Div, Id, Log, Mul, Num, Pow, Shift, Stamp, World, exc_is, exc_name, explore, program

RULE = (
    "Abstract interpretation of main() with opaque unit texts as arguments, through a model of argparse and the loading of a "
    "database document. What is printed must contain, as lines, what the library itself answers for the same texts in the same "
    "order: the expression of Converter(first, second); a message naming both units and exit status 1 when the library refuses "
    "with IncompatibleUnitsError; the text, the expanded form and the dimensionality of a unit; help on stderr, nothing on "
    "stdout and status 1 without a subcommand; a refused unit text must not end with status 0. One obligation per command line."
)
ASSUMPTIONS = ["the model of argparse (sa/cli.py)", "opaque numbers are in general position", "opaque arguments do not begin with a dash"]
FLOOR = 60

ENV = {
    "m": Base(), "s": Base(time=True), "r": Base(dimless=True), "k": Pre(),  # noqa: F405
    # two names which differ by their case only
    "Qx": Base(), "qx": Def(Mul(Num("qn"), M)), "QX": Def(Mul(Num("Qn"), S)),  # noqa: F405
    "d": Def(Mul(Num("dn"), M)), "c": Def(Shift(M, Num("cn"))), "h": Def(Mul(Num("hn"), S)), "L": Def(Log("lg", Mul(Num("Ln"), M))), "f": Def(Pow(S, Num(-1, "int"))),  # noqa: F405
}
#: 'second' is the time base of a document
SECOND = "second"
LITERAL = ("Qx", "qx", "QX")


class CliWorld(World):
    """A world whose system is loaded from a document."""

    def load(self):
        def build(i):
            us = libs.element("unit-system", None, [self.element(n, d) for n, d in ENV.items()], {}, NS)
            return libs.element("udunits-2", None, [us], {}, NS)

        self.ip.extern["document"] = {"root": build, "opened": []}

    def word(self, n):
        return SECOND if n == "s" else n if n in LITERAL else opaque(n)

    def ident(self, s):
        return mkstr(opaque(s.prefix), self.word(s.name)) if s.prefix else self.word(s.name)

    def element(self, n, d):
        def el(tag, text=None, *kids):
            return libs.element(tag, text, list(kids), {}, NS)

        if isinstance(d, Pre):  # noqa: F405
            return el("prefix", None, el("name", self.word(n)), el("value", opaque(f"value of {n}", "declit")))
        nm = el("name", None, el("singular", self.word(n)), el("noplural"))
        if isinstance(d, Base):
            return el("unit", None, el("dimensionless" if d.dimless else "base"), nm)
        return el("unit", None, el("def", self.text(d.spec)), nm)

    def library(self):
        self.system = self.m(self.attr("", "UnitSystem"), "from_udunits2_xml")


def as_module(ip):
    """python -m pyudunits2"""
    name = PKG + ".__main__"
    ip.import_module(PKG)
    tree, is_pkg, path = ip.program.load(name)
    m = Module(name, tree, is_pkg, path)
    m.globals.update({"__name__": "__main__", "__file__": libs.path_of(path), "__doc__": None, "__package__": PKG})
    fr = Frame(m)
    fr.vars = m.globals
    m.executed = True
    ip.exec_block(tree.body, fr)


def run(ip, argv, module=False):
    """(kind, status, stdout, stderr)"""
    ip.generic = True
    w = CliWorld(ip, ENV)
    w.load()
    ip.extern["sys"] = {"argv": ["the program", *(x if isinstance(x, str) else x.name if isinstance(x, Id) and x.name in LITERAL else w.text(x) for x in argv)]}
    w.specs["the program"] = Id("the program")
    for x in LITERAL:
        w.specs[x] = Id(x)
    main = w.attr(".__main__", "main")
    ip.output.clear()
    ip.stderr.clear()
    try:
        r = as_module(ip) if module else w.call(main)
        status = ("ended", 0 if r is None else r)
    except AbsRaise as e:
        status = ("ended", _status(e.exc)) if isinstance(e.exc, ExcVal) and e.exc.cls is SystemExit else ("raise", e.exc)
    out, err = cli.text(ip.output), cli.text(ip.stderr)
    return w, status, out, err


def _status(e):
    v = e.args[0] if e.args else None
    return 0 if v is None else int(v) if isinstance(v, (bool, int)) else 1


def lines(text):
    """A text as lines, each a tuple of its parts"""
    out, cur = [], []
    for p in getattr(text, "parts", (text,)):
        if isinstance(p, str):
            for n, x in enumerate(p.split("\n")):
                if n:
                    out.append(mkstr(*cur) if cur else "")
                    cur = []
                if x:
                    cur.append(x)
        else:
            cur.append(p)
    return out + ([mkstr(*cur)] if cur else [])


def parts(t):
    return list(getattr(t, "parts", (t,)))


def contains(line, t):
    """Does the line contain the text? Opaque parts match whole."""
    return _flat(t) in _flat(line)


def _flat(t):
    return "".join(p if isinstance(p, str) else f"\0{p.kind}:{p.name}\0" for p in parts(t))


def shown(ip, t):
    return show(t)[:160]


def judge(key, argv, fn):
    module = key.startswith("python -m: ")

    def scenario(ip):
        w, status, out, err = run(ip, argv, module)
        w.library()
        return fn(ip, w, status, out, err), out, err, status

    obs = []
    say = "the program " + " ".join(x if isinstance(x, str) else f"'{x}'" for x in argv)
    for n, o in enumerate(explore(program(), scenario, 8)):
        where = path_of(o)
        k = key if not n else f"{key}#{n}"
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
        elif o.kind == "raise":
            obs.append(Ob(k, "undecided", f"the library raises {exc_name(o.value)} {show(o.value)[:150]}", where))
        else:
            bad, out, err, status = o.value
            if bad is None:
                obs.append(Ob(k, "undecided", f"{say}: prints {show(out)[:200]}", where))
            elif bad:
                obs.append(Ob(key, "violation", f"{say}{guards(o)}: {bad}", where))
            else:
                obs.append(Ob(k, "ok", f"{say}: {'status ' + str(status[1]) if status[0] == 'ended' else exc_name(status[1])}, prints {show(out)[:200]}", where))
    return obs


def check_expr(key, a, b):
    def fn(ip, w, status, out, err):
        ua, ub = w.unit(a), w.unit(b)
        try:
            want = ip.str(ip.getattr(w.converter(ua, ub), "expression"))
        except AbsRaise as e:
            if not exc_is(e.exc, "IncompatibleUnitsError"):
                return None
            want = None
        if status[0] == "raise":
            return f"raises {exc_name(status[1])} {show(status[1])[:150]}"
        ls = lines(out)
        if want is None:
            if status[1] != 1:
                return f"ends with status {show(status[1])} for inconvertible units"
            text = mkstr(out, err)
            if not contains(text, ip.str(ua)) or not contains(text, ip.str(ub)):
                return f"prints {show(text)[:200]}, which does not name both units"
            return ""
        if status[1] != 0:
            return f"ends with status {show(status[1])} for convertible units"
        if any(p for p in parts(want) if not isinstance(p, str) and p.kind == "unknown"):
            return None
        if not any(contains(x, want) for x in ls):
            return f"prints {show(out)[:300]}, which does not contain the expression {show(want)}"
        # the first unit is named before the second
        flat, fa, fb = _flat(out), _flat(ip.str(ua)), _flat(ip.str(ub))
        if fa in flat and fb in flat and fa not in fb and fb not in fa and flat.index(fa) > flat.index(fb):
            return f"prints {show(out)[:300]}, which names the units in the other order"
        return ""

    return judge(key, ["conversion-expr", a, b], fn)


def check_explain(key, a):
    def fn(ip, w, status, out, err):
        try:
            u = w.unit(a)
            want = {"text": ip.str(u), "expanded form": w.m(u, "expanded"), "dimensionality": ip.str(w.m(u, "dimensionality"))}
        except AbsRaise as e:
            # the library refuses
            if status == ("ended", 0):
                return f"ends with status 0, but the library raises {exc_name(e.exc)}"
            return ""
        if status[0] == "raise":
            return f"raises {exc_name(status[1])} {show(status[1])[:150]}"
        if status[1] != 0:
            return f"ends with status {show(status[1])}"
        ls = lines(out)
        for what, t in want.items():
            if not any(contains(x, t) for x in ls):
                return f"prints {show(out)[:300]}, which does not contain the {what} {show(t)}"
        # each on a line of its own, in this order
        pos = []
        used = set()
        for t in want.values():
            n = next((n for n, x in enumerate(ls) if n not in used and contains(x, t)), None)
            if n is None:
                return f"prints {show(out)[:300]}, which does not give text, expanded form and dimensionality"
            used.add(n)
            pos.append(n)
        return ""

    return judge(key, ["explain-unit", a], fn)


def check_bad(key, argv):
    """A unit text which the library refuses"""

    def fn(ip, w, status, out, err):
        if status == ("ended", 0):
            return f"ends with status 0 and prints {show(out)[:200]}"
        return ""

    return judge(key, argv, fn)


def check_none(key, argv):
    def fn(ip, w, status, out, err):
        if status[0] == "raise":
            return f"raises {exc_name(status[1])} {show(status[1])[:150]}"
        if status[1] != 1:
            return f"ends with status {show(status[1])}"
        if out != "":
            return f"prints {show(out)[:200]} to stdout"
        if not is_str(err) or "help" not in _flat(err):
            return f"prints {show(err)[:200]} and no help to stderr"
        return ""

    return judge(key, argv, fn)


def check_usage(key, argv):
    """Too few, too many arguments or an unknown command: refused as usage errors"""

    def fn(ip, w, status, out, err):
        if status == ("ended", 0):
            return f"ends with status 0 and prints {show(out)[:200]}"
        return ""

    return judge(key, argv, fn)


def check_convert(key, a, b):
    def fn(ip, w, status, out, err):
        if status[0] == "raise":
            return f"raises {exc_name(status[1])}"
        return "" if status[1] == 0 and out != "" else None

    return judge(key, ["convert", "4", a, b], fn)


def check_debug(key, a):
    """The debugging of the parser is about the text given, and explains no unit"""
    seen = []

    def scenario(ip):
        w = CliWorld(ip, ENV)
        f = w.attr("._grammar", "_debug_tokens")
        del seen[:]

        def hook(i, fn, args, kw):
            seen.append((args + list(kw.values()))[0])
            i.output.append("tokens\n")

        ip.hooks[id(f.node)] = hook
        w, status, out, err = run(ip, ["debug-parser", a])
        return w.text(a), status, out, list(seen)

    obs = []
    for o in explore(program(), scenario, 8):
        where = path_of(o)
        if o.kind != "ok":
            obs.append(Ob(key, "undecided", show(o.value), where))
            continue
        t, status, out, got = o.value
        if got == [t] and status == ("ended", 0):
            obs.append(Ob(key, "ok", f"debug-parser '{a}' shows the tokens of its text", where))
        elif got and got != [t]:
            obs.append(Ob(key, "violation", f"debug-parser '{a}' shows the tokens of {show(got)}", where))
        elif isinstance(status, tuple) and status[0] == "ended" and isinstance(status[1], int) and (status[1] != 0 or not got and out == ""):
            obs.append(Ob(key, "violation", f"debug-parser '{a}' ends with status {status[1]} and prints {show(out)[:200]}", where))
        elif not got and contains(out, "In basis form"):
            obs.append(Ob(key, "violation", f"debug-parser '{a}' prints {show(out)[:200]}", where))
        else:
            obs.append(Ob(key, "undecided", f"status {show(status)}, prints {show(out)[:200]}", where))
    return obs


UNITS = {
    "Qx": Id("Qx"), "qx": Id("qx"),  # noqa: F405
    "m": M, "s": S, "d": Id("d"), "kd": Id("d", prefix="k"), "c": Id("c"), "h": Id("h"), "L": Id("L"), "f": Id("f"), "r": R, "n*m": Mul(Num("n1"), M), "m/s": Div(M, S), "s/m": Div(S, M),  # noqa: F405
    "m@n": Shift(M, Num("n2")), "lg(d)": Log("lg", Id("d")), "d*h": Mul(Id("d"), Id("h")), "n": Num("n3"), "date": Shift(S, Stamp("stamp")), "date of h": Shift(Id("h"), Stamp("stamp")),  # noqa: F405
}


def tasks(tier):
    for n, u in UNITS.items():
        yield f"explain-unit {n}", check_explain, (u,)
    names = list(UNITS)
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if a != b:
                yield f"conversion-expr {a} {b}", check_expr, (UNITS[a], UNITS[b])
    bad = {"unknown": Id("unknown"), "n*unknown": Mul(Num("n1"), Id("unknown")), "m(s@t)": Mul(M, Shift(S, Stamp("t")))}  # noqa: F405
    for n, u in bad.items():
        yield f"explain-unit {n}", check_bad, (["explain-unit", u],)
        yield f"conversion-expr {n} m", check_bad, (["conversion-expr", u, M],)  # noqa: F405
        yield f"conversion-expr m {n}", check_bad, (["conversion-expr", M, u],)  # noqa: F405
    yield "no subcommand", check_none, ([],)
    yield "python -m: no subcommand", check_none, ([],)
    for a, b in (("m", "d"), ("d", "kd"), ("m", "s"), ("c", "L"), ("m/s", "s/m")):
        yield f"python -m: conversion-expr {a} {b}", check_expr, (UNITS[a], UNITS[b])
        yield f"python -m: explain-unit {b}", check_explain, (UNITS[b],)
    for argv in (["explain-unit"], ["conversion-expr"], ["conversion-expr", M], ["explain-unit", M, S], ["conversion-expr", M, S, M], ["no-such-command"], ["no-such-command", M], [M], ["debug-parser"]):  # noqa: F405
        yield f"usage {' '.join(map(str, argv))}", check_usage, (argv,)
    for n in ("m", "kd", "n*m"):
        yield f"debug-parser {n}", check_debug, (UNITS[n],)
    yield "convert", check_convert, (M, Id("d"))  # noqa: F405
