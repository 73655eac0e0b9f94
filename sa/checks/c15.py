"""C15: the text of an expression reads back as the same expression."""
import decimal
import itertools

from .. import refparse, terms
from ..core import Ob, path_of
from ..shapes import *  # noqa: F403
from ..trees import Parser, basic, log, logref, number, power, prod, shift, simple, unit
from ..values import Atom, Top, SStr, is_str, mkstr, opaque, parts_of, show
from ..world import Oracle, Stamp, World, exc_name, explore, program
from . import c11

RULE = (
    "Abstract interpretation derives the text of every expression as a template over opaque names and literals: "
    "str() and normalize() of the parse of each derivation of the published grammar (the derivations of C11), and str() "
    "and expanded() of units over the expression shapes with definitions and prefixes. Each template is instantiated with "
    "spellings from every lexical class of names and literals and read by the checker's own reader, made from the published "
    "grammar; the reading must be the derivation's expression, with exact values, up to regrouping of products. One "
    "obligation per derivation and kind of spelling."
)
ASSUMPTIONS = [
    "the reader is made from the published grammar; the package's parser implements that grammar (C14, C30, C31)",
    "names and literals are instantiated from finitely many lexical classes",
]
FLOOR = 400

#: spellings of names: one per lexical class
NAMES = {
    "plain": ["abc", "qx", "Km", "vw", "yy", "uf"],
    "odd": ["e", "E", "µ", "per", "lg", "re", "_x", "°C", "π", "sinceref", "d"],
    "zone": ["T", "Z", "UTC", "GMT", "TZ"],
}
INTS = ["2", "-3", "7", "+5", "0", "1", "-1", "04", "12345678901234567890123456789012345"]
SIGNED = ["-3", "+5", "-1", "+02"]
UNSIGNED = ["2", "0", "1", "13", "04", "1990"]
DECS = ["1.5", ".25", "4.", "1e3", "-2.5E-7", "+3.25e+5", "-0.1234567890123456789012345678901234567", "1e-30", "0.0", "100.0", "2.50"]
DATES = ["1990-01-01", "1990-1-2 10:11", "1990-01-02T10:11:12 UTC", "2001-12-31 23:59:59.999 +6", "19900101T1010"]


class NoRep(Exception):
    pass


def number_text(t, spec, lits):
    """The text the program gives to a number, for the given literals."""

    def val(t):
        if not isinstance(t, terms.T):
            return t
        if t.op == "sym":
            v = lits.get(t)
            if v is None:
                raise NoRep(str(t))
            return {"int": int, "Decimal": decimal.Decimal, "float": float}.get(t.ty, decimal.Decimal)(v)
        if t.op == "float_of":
            return float(val(t.args[0]))
        if t.op == "const":
            f = t.args[0]
            return int(f) if t.ty == "int" else float(f) if t.ty == "float" else decimal.Decimal(f.numerator) / f.denominator
        if t.op in ("add", "mul", "pow"):
            xs = [val(a) for a in t.args]
            if any(isinstance(x, float) for x in xs):
                xs = [float(x) for x in xs]
            r = xs[0]
            for x in xs[1:]:
                r = r + x if t.op == "add" else r * x if t.op == "mul" else r**x
            return r
        raise NoRep(terms.show(t))

    try:
        v = val(t)
        if t.ty == "float":
            v = float(v)
        return format(v, spec) if spec else str(v)
    except (ArithmeticError, ValueError) as e:
        raise NoRep(str(e))


def instance(text, names, lits):
    out = []
    for p in parts_of(text):
        if isinstance(p, str):
            out.append(p)
        elif p.kind == "num":
            out.append(number_text(p.payload[0], p.payload[1], lits))
        elif p.name in names:
            out.append(names[p.name])
        else:
            raise NoRep(p.name)
    return "".join(out)


def leaves_of(den, out):
    if den[0] in ("num", "id", "raw"):
        if not isinstance(den[1], str):
            for a in parts_of(den[1]):
                if isinstance(a, Atom):
                    out.setdefault(a.name, (a.kind, den[2] if den[0] == "num" else den[0], a))
        return
    for d in den[1:]:
        if isinstance(d, tuple):
            leaves_of(d, out)


def fill(den, names):
    if den[0] in ("num", "id", "raw"):
        t = den[1] if isinstance(den[1], str) else "".join(p if isinstance(p, str) else names[p.name] for p in den[1].parts)
        return (den[0], t) + den[2:]
    return (den[0],) + tuple(fill(d, names) if isinstance(d, tuple) else d for d in den[1:])


def tokens(tree, out):
    """token class of each opaque literal of a derivation"""
    if hasattr(tree, "tok"):
        if not isinstance(tree.text, str):
            for a in tree.text.parts:
                if isinstance(a, Atom):
                    out[a.name] = tree.tok
        return
    for k in tree.kids:
        tokens(k, out)


def assignments(leaf, toks, kind, n=5):
    """Spellings for the leaves: {name: text}"""
    pools = {}
    for i, (name, (k, what, a)) in enumerate(leaf.items()):
        if what == "id":
            pool = NAMES[kind]
        elif what == "raw":
            pool = DATES
        elif what == "dec":
            pool = DECS
        else:
            tok = toks.get(name)
            pool = SIGNED if tok == "SIGNED_INT" else UNSIGNED if tok == "INT" else INTS
        pools[name] = (i, pool)
    for r in range(n):
        yield {m: pool[(r * (1 + i % 3) + i) % len(pool)] for m, (i, pool) in pools.items()}


def lits_of(names, leaf):
    lits = {}
    for m, t in names.items():
        k, what, a = leaf[m]
        if what in ("int", "dec", "sup"):
            for ty in ("int", "Decimal"):
                lits[terms.sym(f"val({m})", ty)] = t
            lits[terms.sym(m, "int" if what == "int" else "Decimal")] = t
    return lits


def applies(o, names, lits):
    """Do the spellings satisfy the guards of the partition?"""
    def env(s):
        if s not in lits:
            raise terms.EvalError(str(s))
        return float(decimal.Decimal(lits[s]))

    if not terms.satisfies(o.assumptions, env):
        return False
    for (op, text, arg), val in o.texts.items():
        try:
            t, a = instance(text, names, lits), instance(arg, names, lits)
            r = {"startswith": t.startswith, "endswith": t.endswith, "in": lambda x: x in t, "contains": lambda x: x in t, "==": t.__eq__}[op](a)
        except (NoRep, KeyError, AttributeError, TypeError):
            continue
        if bool(r) != val:
            return False
    return True


def judge(key, o, what, template, den, leaf, toks, kind, source=None):
    """The obligation for one template and one kind of spellings."""
    where = path_of(o)
    if not is_str(template):
        return Ob(key, "undecided" if isinstance(template, Top) else "violation", f"{what} is {show(template)} and no text", where)
    good, lost, instances = 0, "", 0
    for names in assignments(leaf, toks, kind, 8 if kind != "zone" else 5):
        lits = lits_of(names, leaf)
        if not applies(o, names, lits):
            continue
        want = fill(den, names)
        if source is not None:
            written = instance(source, names, lits)
            got = refparse.read(written)
            if got is None or refparse.canon(got) != refparse.canon(want):
                continue  # not spellings of this derivation
            instances += 1
        # a name which does not belong there is a name all the same
        other = {p.name: f"zq{'abcdefghij'[n % 10]}" for n, p in enumerate(parts_of(template)) if isinstance(p, Atom) and p.kind == "ident" and p.payload is None and p.name not in names}
        try:
            text = instance(template, names | other, lits)
        except NoRep as e:
            lost = f"the text contains {e}"
            continue
        got = refparse.read(text)
        frm = f"{what} of {written!r}" if source is not None else f"{what} of {refparse.show(want)}"
        if got is None:
            return Ob(key, "violation", f"{frm} is {text!r}, which is no unit text", where)
        if refparse.canon(got) != refparse.canon(want):
            return Ob(key, "violation", f"{frm} is {text!r}, which reads {refparse.show(got)}", where)
        good += 1
    if good:
        return Ob(key, "ok", f"{what} is {show(template)}; {good} spellings read back", where)
    if source is not None and not instances and not o.assumptions and not o.texts:
        return Ob(key, "info", "no text has this derivation", where)
    return Ob(key, "undecided", lost or "no spelling applies", where)


def spelling(tree):
    """The text of a derivation; a multiplication sign which needs no name before it."""
    if hasattr(tree, "tok"):
        return "" if tree.tok == "EOF" else "*" if tree.tok == "MULTIPLY" else tree.text
    return mkstr(*(spelling(k) for k in tree.kids)) if tree.kids else ""


def check(key, tree, kinds, normalize):
    def scenario(ip):
        if normalize:
            p = Parser(ip, tree)
            return ip.call(ip.from_import("pyudunits2._grammar", "normalize"), [opaque("input", "text")], {})
        return ip.str(Parser(ip, tree).parse())

    obs = []
    leaf, toks = {}, {}
    leaves_of(tree.den, leaf)
    tokens(tree, toks)
    for m, tok in toks.items():
        leaf.setdefault(m, ("text", "raw", None))
    outs = explore(program(), scenario, 16)
    what = "normalize()" if normalize else "the text"
    for o in outs:
        if o.kind == "undecided":
            obs.append(Ob(key, "undecided", str(o.value), path_of(o)))
            continue
        if o.kind == "raise":
            obs.append(Ob(key, "violation", f"{what} of {str(tree)!r} raises {exc_name(o.value)}", path_of(o)))
            continue
        for kind in kinds:
            if kind != "plain" and not any(w == "id" for _, w, _ in leaf.values()):
                continue
            obs.append(judge(f"{key}: {kind} names" if kind != "plain" else key, o, what, o.value, tree.den, leaf, toks, kind, spelling(tree)))
    return merge(obs)


def merge(obs):
    """One obligation per key over the partitions: spellings which apply to no
    partition are not lost if they apply to another."""
    by = {}
    rank = {"violation": 2, "ok": 1, "undecided": 0, "info": 0}
    for o in obs:
        if o.key not in by or rank[o.status] > rank[by[o.key].status]:
            by[o.key] = o
    return list(by.values())


def check_one(key, tree, kind):
    obs = check(key, tree, (kind,), False)
    for o in obs:
        o.key = key
    return obs


def touching():
    """A shift written without space, and what follows it."""
    n = lambda: number("c", "INT")  # noqa: E731
    for op, w1, w2 in (("@", 0, 0), ("@", 1, 0), ("since", 1, 1)):
        sh = lambda: shift(prod(simple("a")), op, n(), w1, w2)  # noqa: E731
        at = f"a{' ' * w1}{op}{' ' * w2}n"
        yield f"({at})*b", unit(shift(prod(power(log(basic(sh()))), ("MULTIPLY", "*"), simple("b"))))
        yield f"({at}) b", unit(shift(prod(power(log(basic(sh()))), 1, simple("b"))))
        yield f"({at})/b", unit(shift(prod(power(log(basic(sh()))), ("DIVIDE", "/"), simple("b"))))
        yield f"lg({at})/b", unit(shift(prod(power(logref("lg(re ", "lg", sh())), ("DIVIDE", "/"), simple("b"))))
        yield f"({at})*(b@n)", unit(shift(prod(power(log(basic(sh()))), ("MULTIPLY", "*"), power(log(basic(shift(prod(simple("b")), "@", number("c2"))))))))
        yield f"({at})@n", unit(shift(prod(power(log(basic(sh())))), "@", number("c2", "FLOAT")))


# --- units ---------------------------------------------------------------------


def den_of(s, env=None):
    """The denotation of a spec; with env, of its expanded form."""
    if isinstance(s, Num):
        if isinstance(s.name, int):
            return ("num", str(s.name), "int")
        return ("num", SStr((Atom(s.name, "lit"),)), "int" if s.ty == "int" else "dec")
    if isinstance(s, Id):
        if env is None:
            return ("id", SStr(tuple(Atom(x) for x in ((s.prefix, s.name) if s.prefix else (s.name,)))))
        d = env[s.name]
        r = ("id", SStr((Atom(s.name),))) if isinstance(d, Base) else den_of(d.spec, env)
        if s.prefix:
            r = ("*", ("num", SStr((Atom(f"value of {s.prefix}", "lit"),)), "dec"), r)
        return r
    if isinstance(s, (Mul, Div)):
        return ("*" if isinstance(s, Mul) else "/", den_of(s.a, env), den_of(s.b, env))
    if isinstance(s, Pow):
        return ("^", den_of(s.a, env), den_of(s.n, env))
    if isinstance(s, Log):
        return ("log", s.fn, den_of(s.a, env))
    if isinstance(s, Stamp):
        return ("raw", SStr((Atom(s.name, "text"),)))
    return ("@", den_of(s.a, env), den_of(s.c, env))


def check_unit(key, env, s, expanded):
    def scenario(ip):
        w = World(ip, env)
        u = w.unit(s)
        return w.m(u, "expanded") if expanded else ip.str(u)

    den = den_of(s, env if expanded else None)
    leaf = {}
    leaves_of(den, leaf)
    obs = []
    what = "expanded()" if expanded else "str()"
    for o in explore(program(), scenario, 32):
        if o.kind == "undecided":
            obs.append(Ob(key, "undecided", str(o.value), path_of(o)))
        elif o.kind == "raise":
            # which units are refused is the business of C10 and C23
            continue
        else:
            for kind in ("plain", "odd"):
                obs.append(judge(key if kind == "plain" else f"{key}: odd names", o, what, o.value, den, leaf, {}, kind))
    return merge(obs)


def units(tier):
    fr = Fresh
    leaf = ["m", "n", "km", "d", "c", "z", "q", "kd", "i", "r"]
    one = dedupe(grow(leaf, leaf[:7]))
    few = [("*", "m", "s"), ("/", "m", "s"), ("^", "m"), ("^", ("*", "m", "s")), ("/", "d", "s"), ("@", "m"), ("lg", "m"), ("ln", ("/", "d", "s")), "q", "c", "n"]
    two = dedupe(grow(few, few) + grow(few, leaf) + grow(leaf, few))
    three = []
    for x in grow(few[:6], few[:6]):
        three += [("/", "m", x), ("*", x, "m"), ("^", x), ("lg", x), ("@", x)]
    shapes = leaf + one + [("lg", x) for x in one] + two + three
    if tier == "thorough":
        t2 = dedupe(grow(few, few))
        shapes += [y for x in t2 for y in (("/", "q", x), ("/", x, x), ("ln", x), ("^", x, -1), ("@", x), ("*", "c", x))]
    return dedupe(shapes)


def dates():
    st = Stamp("stamp")
    for u in (S, Id("s", prefix="k"), Mul(Num("n1"), S), Div(Mul(S, M), M), Mul(Div(M, M), S), Pow(S, Num(1)), Div(S, Pow(M, Num(0)))):
        for c in (st, Num("c1"), Num("c2", "int")):
            yield Shift(u, c)


def tasks(tier):
    for key, t in c11.derivations(tier):
        simple_one = len(key) < 16 or tier == "thorough"
        kinds = ("plain", "odd", "zone") if simple_one else ("plain",)
        yield key, check, (t, kinds, False)
        if key in ("empty", "id", "id sup", "(a@n)", "a @ n", "id^int") or (tier == "thorough" and simple_one):
            yield f"normalize {key}", check, (t, ("plain",), True)
    for key, t in touching():
        for kind in ("plain", "odd", "zone"):
            yield f"touching {key}: {kind}", check_one, (t, kind)
    for sh in units(tier):
        s = spec(sh)
        for ex in (False, True):
            yield f"{'expanded' if ex else 'str'} {name(sh)}", check_unit, (DEFS, s, ex)
    for s in dates():
        for ex in (False, True):
            yield f"{'expanded' if ex else 'str'} date {s}", check_unit, (DEFS, s, ex)
