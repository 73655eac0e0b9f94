"""C11: parse trees become the expression the grammar denotes."""
import itertools

from ..core import Ob, guards, path_of
from ..interp import AbsRaise
from ..trees import *
from ..trees import L, R
from ..world import exc_is, exc_name, explore, program

RULE = (
    "Abstract interpretation of parse() and the tree visitor over the derivations of the published grammar: every "
    "alternative of every rule, nested to the bound, as an abstract tree of the generated context classes with opaque "
    "identifiers, literals and timestamps. Texts which are easily taken for one another are also parsed one after the other. The expression derived must have exactly the structure of the derivation "
    "(operators, operand order, associativity, function name, shift). One obligation per derivation."
)
ASSUMPTIONS = [
    "the vendored runtime builds the tree of the derivation (C30); the derivations are those of the published grammar (C14)",
    "derivations are bounded: products of three factors (quick) or four (thorough), brackets and functions nested two (three) deep",
]
FLOOR = 400

OPS = [None, ("MULTIPLY", "*"), ("DIVIDE", "/"), 1, 2]
MORE_OPS = [("MULTIPLY", "."), ("MULTIPLY", "-"), ("MULTIPLY", "·"), ("DIVIDE", " per "), ("DIVIDE", " PER "), ("DIVIDE", " / "), ("DIVIDE", "  /"), 3]
SHIFTS = ["@", "after", "from", "since", "ref"]
LOGS = [("lg(re ", "lg"), ("ln(re:", "ln"), ("log (RE ", "log"), ("lb(re: ", "lb"), ("lg  ( re:  ", "lg")]


def powers(n, deep=True):
    """Factors with one identifier (or number) called n."""
    i = lambda: log(ident(n))  # noqa: E731
    yield "id", power(i())
    yield "id int", power(i(), integer(n + "e"))
    yield "id^int", power(i(), integer(n + "e"), "^")
    yield "id**sint", power(i(), integer(n + "e", "SIGNED_INT"), "**")
    yield "id sint", power(i(), integer(n + "e", "SIGNED_INT"))
    yield "id sup", power(i(), L("UNICODE_EXPONENT", "⁻²"))
    for tok in ("INT", "SIGNED_INT", "FLOAT"):
        yield tok, power(log(basic(number(n + "v", tok))))
    yield "float^int", power(log(basic(number(n + "v", "FLOAT"))), integer(n + "e"), "^")
    if deep:
        for k, s in specs(n):
            yield f"({k})", power(log(basic(s)))
            yield f"log({k})", power(logref("lg(re ", "lg", s))
        s = dict(specs(n))["a*b"]
        yield "(a*b) int", power(log(basic(s)), integer(n + "e"))
        yield "(a*b)^int", power(log(basic(s)), integer(n + "e"), "^")
        yield "log(a*b)^int", power(logref("ln(re:", "ln", s), integer(n + "e"), "^")
        yield "log(a*b) sup", power(logref("lb (RE ", "lb", s), L("UNICODE_EXPONENT", "³"))


def specs(n):
    a, b = n + "a", n + "b"
    yield "a", shift(prod(simple(a)))
    yield "a*b", shift(prod(simple(a), ("MULTIPLY", "*"), simple(b)))
    yield "a/b", shift(prod(simple(a), ("DIVIDE", "/"), simple(b)))
    yield "a@n", shift(prod(simple(a)), "@", number(b, "INT"), 1, 1)
    yield "a^n", shift(prod(simple(a, integer(b), "^")))


def small(n):
    yield "id", simple(n)
    yield "id int", simple(n, integer(n + "e"))
    yield "n", power(log(basic(number(n + "v", "FLOAT"))))
    s = dict(specs(n))
    yield "(a/b)", power(log(basic(s["a/b"])))
    yield "lg(a*b)", power(logref("lg(re ", "lg", s["a*b"]))


def derivations(tier):
    deep = tier == "thorough"
    yield "empty", unit()
    P = dict(powers("p"))
    for k, p in P.items():
        yield f"{k}", unit(shift(prod(p)))
    # one pair of brackets more
    for k, s in list(specs("q")):
        for k2, wrap in [("(..)", lambda x: log(basic(x))), ("log(..)", lambda x: logref("log(re ", "log", x))]:
            inner = shift(prod(power(wrap(s)), ("MULTIPLY", "."), simple("z")))
            yield f"{k2} {k} in brackets", unit(shift(prod(power(log(basic(inner))))))
            yield f"{k2} {k} in a logarithm", unit(shift(prod(power(logref("ln (re ", "ln", inner)))))
            yield f"{k2} {k} shifted in brackets", unit(shift(prod(power(log(basic(shift(prod(power(wrap(s))), "from", number("o"), 1, 1)))))))
    for text, fn in LOGS + [(f"{f}{w}(RE:", f) for f in ("log", "lg", "ln", "lb") for w in ("", " ")]:
        yield f"{text}..)", unit(shift(prod(power(logref(text, fn, shift(prod(simple("a"))))))))
    # products of two
    Q = dict(powers("q"))
    for (k1, p), (k2, q) in itertools.product(P.items(), Q.items()):
        for op in OPS:
            if (k1 not in ("id", "id int", "(a/b)", "FLOAT") and k2 not in ("id", "(a/b)", "id^int", "INT")) and not deep and op != ("DIVIDE", "/"):
                continue
            yield f"{k1} {op} {k2}", unit(shift(prod(p, op, q)))
    for op in MORE_OPS:
        yield f"two {op}", unit(shift(prod(simple("p"), op, simple("q"))))
    # products of three and four
    sm = [dict(small(n)) for n in "pqr"]
    for o1, o2 in itertools.product(OPS + MORE_OPS, repeat=2):
        yield f"three {o1} {o2}", unit(shift(prod(simple("p"), o1, simple("q"), o2, simple("r"))))
    for ks in itertools.product(sm[0], sm[1], sm[2]):
        for o1, o2 in itertools.product(OPS if deep else OPS[1:4], repeat=2):
            if not deep and sum(k != "id" for k in ks) > 2:
                continue
            yield f"three {ks[0]} {o1} {ks[1]} {o2} {ks[2]}", unit(shift(prod(sm[0][ks[0]], o1, sm[1][ks[1]], o2, sm[2][ks[2]])))
    for os in itertools.product(OPS if deep else OPS[1:4], repeat=3):
        yield f"four {os}", unit(shift(prod(simple("p"), os[0], simple("q"), os[1], simple("r"), os[2], simple("t", integer("te")))))
    for os in itertools.product(OPS[1:4], repeat=4):
        yield f"five {os}", unit(shift(prod(simple("p"), os[0], simple("q"), os[1], simple("r"), os[2], simple("t"), os[3], simple("u"))))
    # shifts
    for op, w1, w2 in itertools.product(SHIFTS, (0, 1), (0, 1)):
        for tok in ("INT", "SIGNED_INT", "FLOAT"):
            yield f"a{' ' * w1}{op}{' ' * w2}{tok}", unit(shift(prod(simple("a")), op, number("c", tok), w1, w2))
        yield f"a{' ' * w1}{op}{' ' * w2}date", unit(shift(prod(simple("a")), op, stamp(L("DATE", "1990-01-02")), w1, w2))
    for k, p in P.items():
        yield f"{k} @ n", unit(shift(prod(p), "@", number("c", "FLOAT"), 1, 1))
        yield f"{k} since date", unit(shift(prod(p), "since", stamp(L("DATE", "1990-1-1")), 1, 1))
    for op in OPS:
        yield f"a {op} b @ n", unit(shift(prod(simple("a"), op, simple("b")), "@", number("c", "INT"), 1, 0))
    # shifts inside
    for op in OPS:
        s = shift(prod(simple("a"), op, simple("b")), "@", number("c", "INT"), 0, 1)
        t = shift(prod(simple("a"), op, simple("b")), "since", stamp(integer("y"), L("WS", " "), R("signed_clock", [L("HOUR_MINUTE", "10:11")])), 1, 1)
        for k, x in (("n", s), ("date", t)):
            yield f"(a {op} b @ {k})", unit(shift(prod(power(log(basic(x))))))
            yield f"(a {op} b @ {k})^e", unit(shift(prod(power(log(basic(x)), integer("e"), "^"))))
            yield f"log(a {op} b @ {k})", unit(shift(prod(power(logref("log(re ", "log", x)))))
            yield f"z / (a {op} b @ {k})", unit(shift(prod(simple("z"), ("DIVIDE", "/"), power(log(basic(x))))))
            yield f"(a {op} b @ {k}) @ m", unit(shift(prod(power(log(basic(x)))), "@", number("d", "INT"), 1, 1))
    # timestamps
    for n, t in enumerate(timestamps()):
        yield f"timestamp {t.shape()}", unit(shift(prod(simple("a")), "since", t, 1, 1))


def equal_parts():
    """Derivations in which a simplification could be tempting."""
    i = lambda n, *e: simple("'" + n, *e)  # noqa: E731
    n = lambda v, tok="INT": power(log(basic(number(v, tok))))  # noqa: E731
    e = lambda v, tok="INT": integer(v, tok)  # noqa: E731
    br = lambda s, *x: power(log(basic(s)), *x)  # noqa: E731
    fns = ("lg", "ln", "lb", "log")
    lg = lambda fn, s, *x: power(logref(fn + "(re ", fn, s), *x)  # noqa: E731
    S = lambda *x: shift(prod(*x))  # noqa: E731
    star, over = ("MULTIPLY", "*"), ("DIVIDE", "/")
    for f, g in itertools.product(fns, repeat=2):
        yield f"{f} of {g}", S(lg(f, S(lg(g, S(i("pod"))))))
        yield f"{f} of ({g})", S(lg(f, S(br(S(lg(g, S(i("pod"))))))))
        yield f"{f} * {g}", S(lg(f, S(i("pod"))), star, lg(g, S(i("pod"))))
        yield f"{f} / {g}", S(lg(f, S(i("pod"))), over, lg(g, S(i("pod"))))
        yield f"{f} of 2 {g}", S(lg(f, S(n("2"), 1, lg(g, S(i("pod"))))))
        for h in fns:
            yield f"{f} of {g} of {h}", S(lg(f, S(lg(g, S(lg(h, S(i("pod"))))))))
    for f in fns:
        yield f"{f} of 1", S(lg(f, S(n("1"))))
        yield f"{f} of 1 pod", S(lg(f, S(n("1"), 1, i("pod"))))
        yield f"{f} squared", S(lg(f, S(i("pod")), e("2")))
        yield f"{f} of a square", S(lg(f, S(i("pod", e("2")))))
        yield f"{f} to the 1", S(lg(f, S(i("pod")), e("1"), "^"))
        yield f"{f} of an origin", S(lg(f, shift(prod(i("pod")), "@", number("1", "INT"), 1, 1)))
        yield f"1 {f}", S(n("1"), 1, lg(f, S(i("pod"))))
        yield f"1.0 {f}", S(n("1.0", "FLOAT"), 1, lg(f, S(i("pod"))))
        yield f"{f} from 0", shift(prod(lg(f, S(i("pod")))), "from", number("0", "INT"), 1, 1)
    pods = {"pod": i("pod"), "1": n("1"), "1.0": n("1.0", "FLOAT"), "0": n("0"), "-1": n("-1", "SIGNED_INT"), "2": n("2"), "(pod)": br(S(i("pod"))), "pod2": i("pod", e("2")), "pod^-1": i("pod", e("-1", "SIGNED_INT"), "^"),
            "pod^0": i("pod", e("0"), "^"), "pod^1": i("pod", e("1"), "^"), "(pod/pod)": br(S(i("pod"), over, i("pod"))), "(pod@0)": br(shift(prod(i("pod")), "@", number("0", "INT"), 1, 1)),
            "(1)": br(S(n("1"))), "((pod))": br(S(br(S(i("pod"))))), "(1 pod)": br(S(n("1"), 1, i("pod"))), "(pod^2)^-2": br(S(i("pod", e("2"), "^")), e("-2", "SIGNED_INT"), "^"), "2^3": power(log(basic(number("2", "INT"))), e("3"), "^"),
            "1^5": power(log(basic(number("1", "INT"))), e("5"), "^"), "(pod tic)^2": br(S(i("pod"), 1, i("tic")), e("2"), "^"), "(2 pod)^2": br(S(n("2"), 1, i("pod")), e("2"), "^"), "(pod)1": br(S(i("pod")), e("1")), "(pod)0": br(S(i("pod")), e("0"))}
    for k, p in pods.items():
        yield k, S(p)
        yield f"({k})^1", S(br(S(p), e("1"), "^"))
        yield f"({k})^0", S(br(S(p), e("0"), "^"))
        for v, tok in (("0", "INT"), ("1", "INT"), ("0.0", "FLOAT"), ("-0", "SIGNED_INT"), ("+0", "SIGNED_INT")):
            yield f"{k} from {v}", shift(prod(p), "from", number(v, tok), 1, 1)
            yield f"({k} from {v})", S(br(shift(prod(p), "from", number(v, tok), 1, 1)))
            yield f"({k} from {v}) from {v}", shift(prod(br(shift(prod(p), "from", number(v, tok), 1, 1))), "from", number(v, tok), 1, 1)
        for k2, q in pods.items():
            for op in (1, star, over, ("DIVIDE", " per ")):
                yield f"{k} {op} {k2}", S(p, op, q)
        for op, op2 in itertools.product((star, over, 1), repeat=2):
            yield f"{k} {op} pod {op2} {k}", S(p, op, i("pod"), op2, p)


def check(key, tree):
    def scenario(ip):
        return Parser(ip, tree).parse()

    obs = []
    outs = explore(program(), scenario, 16)
    for n, o in enumerate(outs):
        k = key if len(outs) == 1 else f"{key}#{n}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
        elif o.kind == "raise":
            obs.append(Ob(k, "violation", f"parsing {str(tree)!r} raises {exc_name(o.value)}{guards(o)}", where))
        else:
            ok, why = matches(o.interp, o.value, tree.den)
            obs.append(Ob(k, {True: "ok", False: "violation", None: "undecided"}[ok],
                          f"{str(tree)!r} becomes {brief(o.value)}" + (f": {why}{guards(o)}" if why else ""), where))
    return obs


def literal_texts():
    """Derivations of texts which are easily taken for one another."""
    i = lambda n, *e: simple("'" + n, *e)  # noqa: E731
    n = lambda v, tok="INT": power(log(basic(number(v, tok))))  # noqa: E731
    e = lambda v, tok="INT": integer(v, tok)  # noqa: E731
    star, dot, minus, over = ("MULTIPLY", "*"), ("MULTIPLY", "."), ("MULTIPLY", "-"), ("DIVIDE", "/")
    ps = [
        prod(i("pod")), prod(i("Pod")), prod(i("POD")), prod(i("podtic")), prod(i("pod"), 1, i("tic")), prod(i("pod"), dot, i("tic")), prod(i("pod"), star, i("tic")),
        prod(i("tic"), 1, i("pod")), prod(i("pod"), over, i("tic")), prod(i("tic"), over, i("pod")), prod(i("pod"), ("DIVIDE", " per "), i("tic")), prod(i("pod"), 1, i("per")),
        prod(i("pod", e("2"))), prod(i("pod"), 1, n("2")), prod(n("2"), 1, i("pod")), prod(n("2"), None, i("pod")), prod(n("02"), 1, i("pod")), prod(n("2.0", "FLOAT"), 1, i("pod")), prod(n("20"), 1, i("pod")),
        prod(i("pod", e("2"), "^")), prod(i("pod", e("2"), "**")), prod(i("pod", L("UNICODE_EXPONENT", "²"))), prod(i("pod", L("UNICODE_EXPONENT", "³"))), prod(i("pod", e("-2", "SIGNED_INT"))), prod(i("pod", e("+2", "SIGNED_INT"))),
        prod(i("pod"), 1, i("tic", e("2"))), prod(i("pod", e("2")), 1, i("tic")), prod(power(log(basic(shift(prod(i("pod"), 1, i("tic"))))), e("2"))),
        prod(i("pod"), over, i("tic"), 1, i("pod")), prod(i("pod"), over, power(log(basic(shift(prod(i("tic"), 1, i("pod"))))))), prod(power(log(basic(shift(prod(i("pod"), over, i("tic")))))), 1, i("pod")),
        prod(i("hypotenuse"), 1, i("hypotenuse"), 1, i("hypotenuse"), 1, i("hypotenuse"), 1, i("pod")), prod(i("hypotenuse"), 1, i("hypotenuse"), 1, i("hypotenuse"), 1, i("hypotenuse"), 1, i("tic")),
        prod(i("hypotenuse"), 1, i("Hypotenuse"), 1, i("hypotenuse"), 1, i("hypotenuse"), 1, i("tic")),
    ]
    for p in ps:
        yield unit(shift(p))
    for fn in ("lg", "ln", "lb", "log"):
        yield unit(shift(prod(power(logref(fn + "(re ", fn, shift(prod(i("pod"))))))))
    for v, tok in (("2", "INT"), ("20", "INT"), ("-2", "SIGNED_INT"), ("2.0", "FLOAT")):
        yield unit(shift(prod(i("pod")), "@", number(v, tok), 1, 1))
        yield unit(shift(prod(i("pod")), "@", number(v, tok)))
        yield unit(shift(prod(i("pod")), "from", number(v, tok), 1, 1))
    for d in ("2000-01-01", "2000-01-02"):
        yield unit(shift(prod(i("pod")), "since", stamp(L("DATE", d)), 1, 1))
        yield unit(shift(prod(i("pod")), "@", stamp(L("DATE", d)), 1, 1))
    yield unit()


def check_texts(key, back):
    """What a text becomes does not depend on the texts parsed before."""
    trees = list(literal_texts()) * 2
    if back:
        trees.reverse()

    def scenario(ip):
        p = Parser(ip, None)
        res = []
        for t in trees:
            p.tree = t
            text = str(t)
            try:
                node = p.parse(text)
            except AbsRaise as e:
                res.append((False, f"parsing {text!r} raises {exc_name(e.exc)}"))
                continue
            ok, why = matches(ip, node, t.den)
            res.append((ok, f"{text!r} becomes {brief(node)} after other texts: {why}"))
        return res

    from .c18 import run

    return run(key, scenario)


def tasks(tier):
    yield "texts one after the other", check_texts, (False,)
    yield "texts one after the other, backwards", check_texts, (True,)
    for key, t in derivations(tier):
        yield key, check, (t,)
    for key, s in equal_parts():
        yield f"equal parts: {key}", check, (unit(s),)
