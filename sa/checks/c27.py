"""C27: results do not depend on hash order."""
import ast

from .. import cli, libs, terms
from ..convert import V
from ..core import Ob, path_of
from ..documents import Doc, load
from ..interp import PKG, AbsRaise
from ..registry import Model, Prefix, System, Unit
from ..shapes import *  # noqa: F403
from ..terms import T
from ..values import ADict, ASet, ExcVal, Obj, SStr, View, is_str, opaque, show
from ..world import Div, Empty, Id, Log, Mul, Num, Pow, Shift, Stamp, World, exc_name, explore, program
from . import c16, c19, c25
from .c15 import units as text_units
from .c29 import DEFS as REFS, RefWorld, rf

RULE = (
    "Abstract interpretation of the same scenario under several iteration orders of every set whose elements hash by seed or "
    "address (as built, reversed, rotated, and orders drawn from the contents), with the results of hash() and id() unknown. "
    "Everything observable must be the same under each: what a unit system resolves, and to which reading; texts, repr, expanded "
    "forms, dimensionalities, conversions and comparisons of units; errors and their messages; loaded documents; the output of "
    "the command line. One obligation per scenario; the sites at which the order of a set was chosen are reported."
)
ASSUMPTIONS = ["sets of numbers have a fixed order", "dictionaries keep their insertion order"]
FLOOR = 150

ORDERS = {"quick": (False, True, "rotate", 1), "thorough": (False, True, "rotate", 1, 2, 3, 4, 5)}


def plain(ip, v, depth=0):
    """A comparable form of a result."""
    if depth > 8:
        return "…"
    if isinstance(v, (list, tuple)):
        return ("list" if isinstance(v, list) else "tuple",) + tuple(plain(ip, x, depth + 1) for x in v)
    if isinstance(v, ADict):
        return ("dict",) + tuple((plain(ip, k, depth + 1), plain(ip, x, depth + 1)) for k, x in v.live())
    if isinstance(v, View):
        return ("view",) + tuple(plain(ip, x, depth + 1) for x in v.list())
    if isinstance(v, ASet):
        return ("set", frozenset(plain(ip, x, depth + 1) for x in v.items()))
    if isinstance(v, (T, str, SStr, bool, int, float, type(None))):
        return v
    if isinstance(v, ExcVal):
        return ("exc", v.cls.__name__) + tuple(plain(ip, x, depth + 1) for x in v.args)
    if isinstance(v, Obj):
        return ("obj", v.cls.name, ip.repr(v))
    return show(v)


def same(a, b, assumptions):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, assumptions) for x, y in zip(a, b))
    if isinstance(a, T) and isinstance(b, T):
        return a == b or terms.differ(a, b, assumptions) is not True
    return a == b


def by_seed(t):
    return isinstance(t, T) and (t.op in ("hash", "id") or any(by_seed(x) for x in t.args))


def compatible(p, q):
    """Can one input be in both partitions?  (Guards on hashes are the seed's.)"""
    for k, v in p.texts.items():
        if q.texts.get(k, v) != v:
            return False
    gs = [g for g in p.assumptions + q.assumptions if not (by_seed(g[1]) or by_seed(g[2]))]
    for i, g in enumerate(gs):
        for h in gs[:i]:
            if g[:3] == h[:3] and g[3] != h[3]:
                return False
    return not gs or bool(terms.sample_envs(gs, [], n=1))


def describe(v):
    if isinstance(v, tuple):
        return "(" + ", ".join(describe(x) for x in v) + ")"
    return show(v)


def difference(a, b, assumptions, limit=160):
    """The first place where two results differ"""
    while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if not same(x, y, assumptions):
                a, b = x, y
                break
        else:
            break
    return f"{describe(a)[:limit]} or {describe(b)[:limit]}"


def check(key, scenario, tier, cap=24):
    first, sites = None, set()
    lost = ""
    n = 0
    for order in ORDERS[tier]:
        def go(ip):
            return plain(ip, scenario(ip))

        outs = explore(program(), go, cap, reverse_sets=order)
        for o in outs:
            sites |= o.interp.set_sites
            if o.kind == "raise":
                try:
                    o.value = ("raises", exc_name(o.value), message(o.interp, o.value))
                except Exception:  # noqa: BLE001
                    o.value = ("raises", exc_name(o.value))
            elif o.kind == "undecided":
                lost = str(o.value)
        outs = [o for o in outs if o.kind != "undecided"]
        if first is None:
            first = outs
            # a guard on a hash within one order
            pairs = [(p, q) for i, p in enumerate(outs) for q in outs[:i] if any(by_seed(g[1]) or by_seed(g[2]) for g in p.assumptions + q.assumptions)]
        else:
            pairs = [(p, q) for p in first for q in outs]
        for p, q in pairs:
            n += 1
            if (p.kind != q.kind or not same(p.value, q.value, p.assumptions)) and compatible(p, q):
                d = difference(p.value, q.value, p.assumptions) if p.kind == q.kind else f"{describe(p.value)[:160]} or {describe(q.value)[:160]}"
                return [Ob(key, "violation", f"the result depends on the iteration order of a set ({', '.join(sorted(sites)) or 'by hash'}): {d}", path_of(q))]
        if not sites and order is not False:
            break  # no set was ever iterated
    if lost or not first:
        return [Ob(key, "undecided", lost or "no partition", "")]
    return [Ob(key, "ok", f"{n} pairs of partitions agree; sets iterated in {', '.join(sorted(sites)) or 'no place'}", ", ".join(sorted(sites)))]


def message(ip, e):
    t = ip.str(e)
    return t


def tried(fn):
    """The result, or the exception"""
    try:
        return fn()
    except AbsRaise as e:
        return e


def settle(ip, x):
    if isinstance(x, AbsRaise):
        return ("raises", exc_name(x.exc), tried_text(ip, x.exc))
    return x


def tried_text(ip, e):
    try:
        return ip.str(e)
    except AbsRaise:
        return ""


# --- scenarios -----------------------------------------------------------------


def registry(ops, refs):
    def scenario(ip):
        sysm = System(ip)
        out = []
        for op in ops:
            if isinstance(op, Prefix):
                out.append(settle(ip, tried(lambda: sysm.prefix(op))))
            elif isinstance(op, tuple):
                r = sysm.add(op[1], replace=True)
                out.append(r if r is True else ("raises", exc_name(r), tried_text(ip, r)))
            else:
                r = sysm.add(op)
                out.append(r if r is True else ("raises", exc_name(r), tried_text(ip, r)))
        for r in refs:
            for how in ("lookup", "unit"):
                u, e = sysm.find(r, how)
                if e is not None:
                    out.append((r, "raises", exc_name(e), tried_text(ip, e)))
                else:
                    out.append((r, ip.str(u), settle(ip, tried(lambda: sysm.w.m(u, "expanded")))))
        return out

    return scenario


def queries(w, u):
    ip = w.ip
    out = [ip.str(u), ip.repr(u)]
    for q in ("expanded", "dimensionality", "is_dimensionless", "is_time_unit"):
        x = settle(ip, tried(lambda: w.m(u, q)))
        if q == "dimensionality" and isinstance(x, Obj):
            x = [settle(ip, tried(lambda: ip.str(x))), settle(ip, tried(lambda: list(ip.iterate(ip.call(ip.getattr(x, "items"), [], {})))))]
            x = [x[0], [tuple(ip.str(y) if isinstance(y, Obj) else y for y in t) if isinstance(t, tuple) else t for t in (x[1] if isinstance(x[1], list) else [])]]
        out.append(x)
    return out


def unit_scenario(env, s, other=None):
    def scenario(ip):
        ip.generic = True
        w = World(ip, env)
        u = tried(lambda: w.unit(s))
        if isinstance(u, AbsRaise):
            return settle(ip, u)
        out = queries(w, u)
        if other is not None:
            v = w.unit(other)
            out.append(settle(ip, tried(lambda: ip.truth(w.m(u, "is_convertible_to", v)))))
            out.append(settle(ip, tried(lambda: ip.truth(ip.compare(ast.Eq(), u, v)))))
            out.append(settle(ip, tried(lambda: [w.m(w.converter(u, v), "convert", V), ip.str(ip.getattr(w.converter(u, v), "expression"))])))
        return out

    return scenario


def ref_scenario(s):
    def scenario(ip):
        ip.generic = True
        w = RefWorld(ip, REFS)
        w.build()
        u = tried(lambda: w.unit(s))
        return settle(ip, u) if isinstance(u, AbsRaise) else queries(w, u)

    return scenario


def unknown_scenario(s):
    """Units with several references which are unknown, or broken each in its own way"""

    def scenario(ip):
        ip.generic = True
        w = World(ip, DEFS)  # noqa: F405
        w.build()
        # a unit whose definition cannot be resolved, one which is a date, two which refer to each other
        for n, d in (("bad", Mul(Num("bn"), Id("nowhere"))), ("date", Shift(S, Stamp("stamp"))), ("worse", Div(M, Id("nowhere2")))):  # noqa: F405
            w.m(w.system, "add_unit", w.call(w.attr("._unit_system", "LazilyDefinedUnit"), unit_system=w.system, definition=w.text(d), names=w.ref(n)))
        u = tried(lambda: w.unit(s))
        return settle(ip, u) if isinstance(u, AbsRaise) else queries(w, u)

    return scenario


def document(make, **kw):
    def scenario(ip):
        doc = make()
        s, e = load(ip, doc, **kw)
        if s is None:
            return ("raises", exc_name(e), tried_text(ip, e))
        out = []
        refs = [r for u in doc.units for r in u.refs()]
        pre = [x for p in doc.prefixes for x in (p.name, *p.symbols)]
        for r in refs + [f"{p}.{r}" for p in pre for r in refs] + pre + [x for x in doc.absent if isinstance(x, str)]:
            u, e = s.find(r)
            out.append((r, "raises", exc_name(e), tried_text(ip, e)) if e is not None else (r, ip.str(u), settle(ip, tried(lambda: s.w.m(u, "expanded")))))
        # what the tables hold, in their order
        for t in ("_names", "_symbols", "_alias_names", "_alias_symbols", "_prefix_names", "_prefix_symbols"):
            d = tried(lambda: ip.getattr(s.us, t))
            if isinstance(d, ADict):
                out.append([k for k, _ in d.live()])
        return out

    return scenario


def command(argv):
    def scenario(ip):
        ip.generic = True
        w = c25.CliWorld(ip, c25.ENV)
        w.load()
        args = ["pyudunits2"]
        for a in argv:
            args.append(a if isinstance(a, str) else w.text(a))
        ip.extern["sys"] = {"argv": args}
        r = tried(lambda: ip.call(ip.from_import(f"{PKG}.__main__", "main"), [], {}))
        return [settle(ip, r), "".join(map(show, ip.output)), "".join(map(show, ip.stderr))]

    return scenario


def expressions():
    a, b, c, d = (Id(x) for x in "msgr")
    yield Mul(a, b)
    yield Div(Mul(a, b), c)
    yield Mul(Mul(a, b), Mul(c, d))
    yield Div(Mul(Id("d"), Id("q")), Mul(Id("z"), Id("a")))
    yield Mul(Pow(Id("d"), Num("p1", "int")), Pow(Id("w"), Num("p2", "int")))
    yield Mul(Id("d", prefix="k"), Id("m", prefix="k"))
    yield Div(Id("kd"), Mul(Id("d"), Id("s", prefix="k")))
    yield Log("lg", Mul(Div(a, b), c))
    yield Shift(Mul(Div(a, b), c), Num("c1"))
    yield Shift(Div(Mul(b, a), a), Stamp("stamp"))
    yield Mul(a, a)
    yield Mul(Num("n1"), Div(Mul(c, b), Mul(b, a)))


def tasks(tier):
    n = 0
    for text, ops, refs in c16.systems(tier):
        n += 1
        if tier == "thorough" or n % 2 == 0 or len(ops) > 2:
            yield f"system: {text}", check, (registry(ops, refs[:24] if tier == "quick" else refs), tier)
    first = [Unit("u", name="a", plural="b", symbols=("c", "d"), aliases=("e", ("f", "g")), asyms=("h", "i"))]
    for kw in (
        dict(symbols=("c", "d")), dict(symbols=("d", "h", "i")), dict(name="a", plural="b"), dict(name="e", plural="g"), dict(name="x", aliases=("a", "e")),
        dict(name="x", aliases=(("f", "b"), ("a", "g"))), dict(symbols=("x",), asyms=("c", "i", "d")), dict(name="a", plural="b", symbols=("c", "d"), aliases=("e", "f"), asyms=("h", "i")),
    ):
        t = Unit("t", **kw)
        yield f"system: {first[0]} then {t}", check, (registry(first + [t], list("abcdefghix")), tier)
        yield f"system: {first[0]} then {t}, replaced", check, (registry(first + [("replace", t)], list("abcdefghix")), tier)
    # references with several readings as prefix and unit
    for k, field in enumerate(("symbols", "name")):
        def pre(pid, x, field=field):
            return Prefix(pid, x) if field == "name" else Prefix(pid, f"{pid}n", (x,))

        def un(uid, x, field=field):
            return Unit(uid, name=x) if field == "name" else Unit(uid, symbols=(x,))

        two = [un("u", "t"), un("v", "a.t"), pre("P", "d"), pre("Q", "d.a")]
        three = [un("u", "t"), un("v", "b.t"), un("w", "a.b.t"), pre("P", "d"), pre("Q", "d.a"), pre("R", "d.a.b")]
        mixed = [un("u", "t"), Unit("v", name="a.t"), Unit("w", symbols=("c.a.t",)), pre("P", "d"), Prefix("Q", "d.a", ("e", "e.c", "d.c")), Prefix("R", "Rn", ("d.c.a",))]
        for text, ops, refs in (("two readings", two, ("d.a.t", "d.t", "d.a.a.t")), ("three readings", three, ("d.a.b.t", "d.b.t", "d.a.t")), ("readings of several kinds", mixed, ("d.a.t", "d.c.a.t", "e.c.a.t", "e.c.t"))):
            for way in (1, -1):
                yield f"system: {text} by {field}{'' if way == 1 else ', other order'}", check, (registry(ops[::way], refs), tier)
    xs = list(expressions())
    for s in xs:
        yield f"unit {s}", check, (unit_scenario(DEFS, s), tier)  # noqa: F405
    for i, s in enumerate(xs):
        for j, t in enumerate(xs):
            if i != j and not isinstance(s, Shift) and not isinstance(t, Shift) and (tier == "thorough" or (i + j) % 3 == 0):
                yield f"units {s} and {t}", check, (unit_scenario(DEFS, s, t), tier)  # noqa: F405
        yield f"units {s} and the same twice", check, (unit_scenario(DEFS, s, Mul(Num("n9"), s) if not isinstance(s, Shift) else s), tier)  # noqa: F405
    step = 1 if tier == "thorough" else 6
    for k, sh in enumerate(text_units("quick")):
        if k % step == 0:
            yield f"unit {name(sh)}", check, (unit_scenario(DEFS, spec(sh)), tier)  # noqa: F405
    for s in (rf("e"), rf("j_s"), rf("a_ap", "k"), Mul(rf("e_s"), Div(rf("j"), rf("q_b"))), Mul(Mul(rf("m"), rf("m_s")), Mul(rf("y_s"), rf("d_ap", "h")))):
        yield f"references {s}", check, (ref_scenario(s), tier)
    bad = [
        Mul(Id("u1"), Id("u2")), Mul(Mul(Id("u1"), M), Id("u2")), Div(Id("bad"), Id("u1")), Mul(Id("date"), Id("u1")), Mul(Id("bad"), Id("worse")), Mul(Id("date"), Id("bad")),  # noqa: F405
        Mul(Id("date"), M), Log("lg", Mul(Id("u1"), Id("u2"))), Mul(Mul(Id("u1"), Id("u2")), Id("u3")), Pow(Mul(Id("u1"), Id("u2")), Num(2, "int")), Id("u1"), Mul(M, Id("worse")),  # noqa: F405
    ]
    for s in bad:
        yield f"broken {s}", check, (unknown_scenario(s), tier)
    n = 0
    for text, make in c19.documents("quick"):
        n += 1
        if tier == "thorough" or n % 12 == 0 or text.startswith(("prefix with", "three", "a unit")):
            yield f"document: {text}", check, (document(make), tier)
    for argv in (("explain-unit", Mul(M, S)), ("explain-unit", Div(Id("d"), S)), ("conversion-expr", Mul(Id("d"), S), Mul(M, S)), ("conversion-expr", Mul(Id("d"), S), M), ("explain-unit", Mul(Id("u1"), Id("u2")))):  # noqa: F405
        yield f"command {' '.join(map(str, argv))}", check, (command(argv), tier)
