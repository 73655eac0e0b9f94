"""C17: looking up units never changes the unit system."""
import ast
import decimal
import itertools
import re

from ..core import Ob, path_of
from ..interp import AbsRaise
from ..registry import Model, Prefix, System, Unit, verdict
from ..values import opaque, show
from ..world import exc_name, explore, program

RULE = (
    "Abstract interpretation of histories: sequences of registrations (prefixes, units, replacements, units defined by other "
    "units) on a unit system with opaque names, with lookups of every reference, failing lookups, conversions, comparisons and "
    "string forms inserted after each subset of the registrations. Texts are opaque, or spelled, or spelled alike but for the case of letters; a history "
    "may run on two unit systems which give the same references different meanings. The answers at the end must be those which the registrations "
    "alone prescribe, with the same answer for the history without lookups, and asking twice must answer the same. One "
    "obligation per history."
)
ASSUMPTIONS = ["histories are bounded: up to five registrations"]
FLOOR = 60


def R(u):
    return ("replace", u)


def histories():
    u = lambda uid, **k: Unit(uid, **k)  # noqa: E731
    P = Prefix("p", "k", ("j",))
    A = u("a", name="a", plural="b", symbols=("c",), aliases=(("e", "f"),), asyms=("h",))
    refs = ["a", "b", "c", "e", "f", "h", "k.a", "j.c", "k.h", "x"]
    yield "a unit", [P, A], refs
    yield "a unit before its prefix", [A, P], refs
    yield "two prefixes", [A, P, Prefix("q", "x", ("k.a",))], refs + ["x.a"]
    for kind in ("lazy", "named", "basis"):
        # a definition which refers to another unit
        B = u("d", name="d", symbols=("g",), base="a", via="a")
        yield f"a dependent unit, {kind}", [P, u("a", name="a", kind=kind), B], ["d", "g", "a", "k.d", "j.g"]
        yield f"a dependent unit of a replaced unit, {kind}", [u("a", name="a"), B, P, R(u("t", name="a", kind=kind))], ["a", "k.a"]
        yield f"a unit is replaced, {kind}", [P, A, R(u("t", name="a", kind=kind))], refs
        yield f"a symbol is replaced, {kind}", [P, A, R(u("t", symbols=("c",), kind=kind))], refs
        yield f"a plural is replaced, {kind}", [P, A, R(u("t", name="w", plural="b", kind=kind))], refs + ["w"]
        yield f"a shadowed prefixed reading, {kind}", [P, A, u("t", name="k.a", kind=kind)], refs + ["k.k.a"]
        yield f"a shadowed prefixed symbol reading, {kind}", [P, A, u("t", symbols=("j.c",), kind=kind)], refs + ["k.j.c"]
        yield f"a failing lookup becomes good, {kind}", [P, A, u("t", name="x", kind=kind)], refs + ["k.x", "j.x"]
        yield f"a failing prefixed lookup becomes good, {kind}", [A, u("t", symbols=("x",), kind=kind), P], refs + ["k.x", "j.x"]
        yield f"a name over a symbol, {kind}", [P, u("a", symbols=("x",)), u("t", name="x", kind=kind)], ["x", "k.x"]
        yield f"a name over a symbol of a dependent unit, {kind}", [u("a", symbols=("x",)), u("t", name="x", kind=kind)], ["x"]
    yield "a prefix name over a prefix symbol", [Prefix("q", "o", ("k",)), A, Prefix("p", "k")], ["k.a", "k.c", "o.a"]
    yield "a longer unit", [Prefix("p", "k"), Prefix("q", "k.d"), u("a", name="x"), u("t", name="d.x")], ["k.d.x", "d.x", "x", "k.x"][1:]
    # replaced units which others refer to; what the dependent means afterwards
    dep = u("d", name="d", base="a", via=None)
    yield "the unit of a definition is replaced", [u("a", name="a"), dep, R(u("t", name="a"))], [("d", ["d", "t"]), "a"]
    yield "the unit of a definition is replaced, prefixed", [P, u("a", name="a"), u("d", name="d", symbols=("g",), base="k.a"), R(u("t", name="a"))], [("d", ["d", ("value", "p"), "t"]), ("g", ["d", ("value", "p"), "t"]), ("k.d", ["d", ("value", "p"), ("value", "p"), "t"]), "a"]
    yield "the unit of a definition of a definition is replaced", [u("a", name="a"), u("d", name="d", base="a"), u("e", name="e", base="d"), R(u("t", name="a"))], [("e", ["e", "d", "t"]), ("d", ["d", "t"]), "a"]
    yield "the middle of a chain is replaced", [u("a", name="a"), u("d", name="d", base="a"), u("e", name="e", base="d"), R(u("t", name="d", base="a"))], [("e", ["e", "t", "a"]), ("d", ["t", "a"]), "a"]
    yield "a forward reference", [u("d", name="d", base="a"), u("a", name="a")], [("d", ["d", "a"]), "a"]
    yield "a forward reference, replaced", [u("d", name="d", base="a"), u("a", name="a"), R(u("t", name="a"))], [("d", ["d", "t"]), "a"]
    yield "a forward prefix", [u("d", name="d", base="k.a"), u("a", name="a"), P], [("d", ["d", ("value", "p"), "a"]), "a"]
    later = [("d", ["d", ("value", "p"), "a"]), "k.a", "a"]
    yield "the prefix of a definition is shadowed", [Prefix("q", "o", ("k",)), u("a", name="a"), u("d", name="d", base="k.a"), Prefix("p", "k")], later
    yield "the prefix of a definition is registered again", [Prefix("q", "k"), u("a", name="a"), u("d", name="d", base="k.a"), Prefix("p", "k")], later
    yield "the reading of a definition is shadowed", [P, u("a", name="a"), u("d", name="d", base="k.a"), u("t", name="k.a")], [("d", ["d", "t"]), "k.a", "a"]
    yield "a definition's symbol gets a name", [u("a", symbols=("x",)), u("d", name="d", base="x"), u("t", name="x")], [("d", ["d", "t"]), "x"]


def expected(s, want):
    out = []
    for w in want:
        out.append(w if isinstance(w, tuple) else ("n", w))
    return sorted(out + [("base", "z")])


def queries(s, refs):
    """Everything which may be asked, over all references."""
    ip, w = s.ip, s.w
    units = []
    for r in refs:
        for how in ("lookup", "unit"):
            u, e = s.find(r, how)
            if u is not None:
                units.append(u)

    def quiet(f):
        try:
            f()
        except AbsRaise:
            pass

    for u in units:
        for q in ("dimensionality", "is_dimensionless", "is_time_unit", "expanded"):
            quiet(lambda: w.m(u, q))
        quiet(lambda: ip.str(u))
        quiet(lambda: ip.repr(u))
        quiet(lambda: ip.hash_of(u))
    conv = w.attr("", "Converter")
    for a, b in zip(units[:4], units[1:5]):
        quiet(lambda: w.m(a, "is_convertible_to", b))
        quiet(lambda: ip.truth(ip.compare(ast.Eq(), a, b)))
        quiet(lambda: w.m(w.call(conv, a, b), "convert", opaque_number(w)))


def opaque_number(w):
    from .. import terms

    return terms.sym("asked", "Decimal")


def apply(s, m, op):
    if isinstance(op, Prefix):
        s.prefix(op)
        m.prefix(op)
        return None
    rep = isinstance(op, tuple)
    u = op[1] if rep else op
    r = s.add(u, rep)
    if r is not True:
        return f"{u} is refused with {exc_name(r)} {show(r)[:120]}"
    m.add(u)
    return None


def answers(s, m, refs, hows=("lookup", "unit"), rename=lambda uid: uid):
    from ..registry import factors, say

    res = []
    for how in hows:
        for r in refs:
            if not isinstance(r, tuple):
                res.append(verdict(s, m, r, s.ask(r, how)))
                continue
            kind, v = s.ask(r[0], how)
            if kind == "raise":
                res.append((False, f"{r[0]} raises {exc_name(v)}"))
                continue
            got = factors(s, v)
            want = expected(s, [(w[0], rename(w[1])) if isinstance(w, tuple) else rename(w) for w in r[1]])
            res.append((None if got is None else sorted(got) == want, f"{r[0]} is {say(got) if got is not None else show(v)}, prescribed is {say(want)}"))
    return res


def plain(refs):
    return [r[0] if isinstance(r, tuple) else r for r in refs]


def check(key, ops, refs, when, deep, concrete=False):
    hows = ("lookup", "unit", "text") if concrete else ("lookup", "unit")

    def scenario(ip):
        s = System(ip, concrete)
        m = Model()
        for i, op in enumerate(ops):
            why = apply(s, m, op)
            if why:
                return [(False if when else None, why)]
            if i in when:
                if deep:
                    queries(s, plain(refs) + ["y9", "k.y9"])
                else:
                    for r in plain(refs) + ["y9", "k.y9"]:
                        s.ask(r)
                        if concrete:
                            s.ask(r, "text")
        return answers(s, m, refs, hows) + answers(s, m, refs, hows)

    from .c18 import run

    obs = run(key, scenario)
    for o in obs:
        if o.status == "violation":
            o.detail = f"lookups after registration {', '.join(str(i + 1) for i in when) or 'none'} of {'; '.join(str(x if not isinstance(x, tuple) else f'replace {x[1]}') for x in ops)}: {o.detail}"
    return obs


def other(op):
    """The same registration with another meaning; definitions by other units
    are the same texts."""
    if isinstance(op, Prefix):
        return Prefix(op.pid + "2", op.name, op.symbols)
    if isinstance(op, tuple):
        return (op[0], other(op[1]))
    u = Unit.__new__(Unit)
    u.__dict__.update(op.__dict__)
    if u.base == "z":
        u.uid += "2"
    u.via = u.via and u.via + "2"  # (the units of histories are defined by plain units)
    return u


def uid(op):
    return op.pid if isinstance(op, Prefix) else op[1].uid if isinstance(op, tuple) else op.uid


def check_two(key, ops, refs, concrete, behind):
    """Two unit systems with the same references of different meaning; the
    second one is some registrations behind the first."""
    hows = ("lookup", "unit", "text") if concrete else ("lookup", "unit")

    def scenario(ip):
        s1 = System(ip, concrete)
        s2 = System(ip, concrete, s1.w)
        s2.words = s1.words
        m1, m2 = Model(), Model()
        todo = [other(o) for o in ops]
        same = {uid(o): uid(t) for o, t in zip(ops, todo)}
        for i in range(len(ops) + behind):
            if i < len(ops):
                why = apply(s1, m1, ops[i])
                if why:
                    return [(None, why)]
            for s in (s1, s2):
                for r in plain(refs):
                    for how in hows:
                        s.ask(r, how)
            if i >= behind:
                why = apply(s2, m2, todo[i - behind])
                if why:
                    return [(None, why)]
        return answers(s1, m1, refs, hows) + answers(s2, m2, refs, hows, same.get) + answers(s1, m1, refs, hows)

    from .c18 import run

    obs = run(key, scenario)
    for o in obs:
        if o.status == "violation":
            o.detail = f"two unit systems with {'; '.join(str(x if not isinstance(x, tuple) else f'replace {x[1]}') for x in ops)} each: {o.detail}"
    return obs


#: texts which are easily taken for one another
TEXTS = [
    "pod", "Pod", "POD", " pod", "pod\t", "podtic", "pod tic", "pod.tic", "pod-tic", "pod*tic", "tic pod", "pod/tic", "tic/pod", "pod/tic pod", "pod/(tic pod)", "(pod/tic) pod",
    "pod2", "pod 2", "2 pod", "2pod", "2.0 pod", "02 pod", "2e0 pod", "pod^2", "pod**2", "pod\u00b2", "pod-2", "pod - 2", "pod^-2", "pod\u207b\u00b2", "pod+2", "(pod)2", "(pod tic)2", "pod tic2", "pod2 tic", "(2 pod)2", "2 pod2",
    "pod@2", "pod @ 2", "pod @ 2.0", "pod @ -2", "pod from 2", "pod after 2", "pod @ 20", "2 pod @ 2", "lg(re pod)", "ln(re pod)", "lb(re pod)", "log(re pod)", "lg(re 2 pod)", "lg(re: pod)", "LG(re pod)",
    "kpod", "k pod", "k.pod", "kPod", "Kpod", "kktic", "ktic", "Ktic", "1 pod", "pod1", "pod0", "1e2 pod", "1E2 pod", "1e-2 pod", "100 pod", "1.00 pod", "10 pod", "0.1e3 pod",
    "sec @ 2000-01-01", "sec @ 2000-01-01 00:00", "sec @ 2000-01-01T00:00", "sec@2000-01-01", "sec since 2000-01-01", "sec @ 2000-01-02", "sec @ 20000101", "2 sec @ 2000-01-01", "pod @ 2000-01-01",
    "", "1", "2", "nothing", "pod nothing", "pod tic nothing", "pod)", "pod pod pod tic tic tic pod pod", "pod pod pod tic tic tic pod tic", "pod5 tic", "pod4 tic",
]


def texts_system(ip):
    s = System(ip, "chars")
    for op in [Prefix("p", "k", ("j",)), Prefix("q", "K"), Unit("a", name="pod", plural="pods", symbols=("P",)), Unit("b", name="Pod"), Unit("d", name="tic", symbols=("t",)), Unit("e", name="ktic", base="tic")]:
        s.prefix(op) if isinstance(op, Prefix) else s.add(op)
    sec = s.w.call(s.w.attr("", "BasisUnit"), names=s.reference(Unit("s", name="sec")), is_time_unit=True)
    s.w.m(s.us, "add_unit", sec)
    return s


def answer(s, text):
    w = s.w
    try:
        u = w.m(s.us, "unit", text)
    except AbsRaise as e:
        return f"raises {exc_name(e.exc)}"
    out = [type_name(s.ip, u)]
    for q in (lambda: s.ip.str(u), lambda: w.m(u, "expanded"), lambda: s.ip.repr(w.m(u, "dimensionality")), lambda: w.m(u, "is_time_unit")):
        try:
            out.append(show(q()))
        except AbsRaise as e:
            out.append(f"raises {exc_name(e.exc)}")
    return re.sub(r"\d+(\.\d+)?(E[+-]?\d+)?", lambda m: format(decimal.Decimal(m.group()).normalize(), "f"), "; ".join(out))


def type_name(ip, u):
    return show(ip.type_of(u))


def check_texts(key, order):
    """What a text means does not depend on the texts before it."""
    from .c18 import run

    alone = {}
    for t in TEXTS:
        rs = [o.value if o.kind == "ok" else None for o in explore(program(), lambda ip: answer(texts_system(ip), t), 16)]
        alone[t] = rs[0] if len(rs) == 1 else None

    def scenario(ip):
        s = texts_system(ip)
        res = []
        for t in order:
            got = answer(s, t)
            res.append((None if alone[t] is None else got == alone[t], f"{t!r} is ({got}), and before the other texts ({alone[t]})"))
        return res

    return run(key, scenario)


def check_refused(key, taken, deep):
    """A refused registration between lookups changes nothing."""

    def scenario(ip):
        s = System(ip)
        m = Model()
        P = Prefix("p", "k", ("j",))
        for op in [P, Unit("a", name="a", symbols=("c",)), Unit("d", name="d", base="a", via="a")]:
            apply(s, m, op)
        refs = ["a", "c", "d", "k.a", "j.c", "k.d", "w", "v", "k.w"]
        (queries if deep else lambda s, r: [s.ask(x) for x in r])(s, refs)
        bad = Unit("t", **{"name": "w", "symbols": ("v",), **taken})
        r = s.add(bad)
        if r is True:
            return [(None, f"{bad} is accepted")]
        return [verdict(s, m, x, s.ask(x, how)) for how in ("lookup", "unit") for x in refs]

    from .c18 import run

    return run(key, scenario)


def check_old(key, ops, ref):
    """A unit obtained earlier keeps answering as it did."""

    def scenario(ip):
        s = System(ip)
        m = Model()
        for op in ops[:-1]:
            apply(s, m, op)
        u, e = s.find(ref)
        if u is None:
            return []  # nothing to hold on to
        before = [ip.str(u), s.w.m(u, "expanded")]
        d = s.w.m(u, "dimensionality")
        apply(s, m, ops[-1])
        s.ask(ref)
        after = [ip.str(u), s.w.m(u, "expanded")]
        same = ip.truth(ip.compare(ast.Eq(), d, s.w.m(u, "dimensionality")))
        return [(before == after and same, f"a unit obtained before reads {show(before)} and then {show(after)}")]

    from .c18 import run

    return run(key, scenario)


def tasks(tier):
    for name, ops, refs in histories():
        n = len(ops)
        whens = [()] + [(i,) for i in range(n)] + [tuple(range(n))]
        if tier == "thorough":
            whens = [w for k in range(n + 1) for w in itertools.combinations(range(n), k)]
        for w in whens:
            yield f"{name}, lookups after {w}", check, (ops, refs, w, False)
            if w and (len(w) == n or tier == "thorough"):
                yield f"{name}, all queries after {w}", check, (ops, refs, w, True)
                yield f"{name}, lookups after {w}, spelled", check, (ops, refs, w, False, True)
                yield f"{name}, lookups after {w}, spelled alike", check, (ops, refs, w, False, "case")
        for behind in (0, n) if tier == "quick" else range(n + 1):
            yield f"two systems, {name}, {behind} behind", check_two, (ops, refs, False, behind)
            if behind == n or tier == "thorough":
                yield f"two systems, {name}, {behind} behind, spelled", check_two, (ops, refs, True, behind)
    yield "texts", check_texts, (TEXTS + TEXTS,)
    yield "texts, backwards", check_texts, ((TEXTS + TEXTS)[::-1],)
    for n, t in enumerate([{"name": "a"}, {"plural": "a"}, {"symbols": ("c",)}, {"symbols": ("v", "c")}, {"aliases": ("a",)}, {"aliases": (("x", "d"),)}, {"asyms": ("c",)}, {"asyms": ("w2", "c")}]):
        for deep in (False, True):
            yield f"a refused registration {t}{', all queries' if deep else ''}", check_refused, (t, deep)
    for name, ops, refs in histories():
        if len(ops) > 1:
            r = refs[0]
            yield f"an earlier unit: {name}", check_old, (ops, r[0] if isinstance(r, tuple) else r)
