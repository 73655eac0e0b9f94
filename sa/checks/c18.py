"""C18: registering a unit is complete, exclusive and all-or-nothing."""
import itertools

from ..core import Ob, path_of
from ..registry import Model, Prefix, System, Unit, verdict
from ..values import show
from ..world import exc_is, exc_name, explore, program

RULE = (
    "Abstract interpretation of UnitSystem.add_unit and add_prefix on unit systems with opaque names: a unit with every kind "
    "of reference, and pairs of units which share a reference in each combination of name, plural, symbol, alias name, alias "
    "plural and alias symbol, with and without replace. A conflicting registration must raise ValueError and leave every "
    "reference as before, an accepted one must make every reference resolve to the new unit. One obligation per history."
)
ASSUMPTIONS = [
    "a name which equals a symbol of another unit may be refused or accepted (then the precedence of C16 applies); the same holds for two equal references of one unit",
    "with replace, an alias which equals a primary name or symbol of the replaced unit may resolve to either",
]
FLOOR = 60

SLOTS = ["name", "plural", "symbol", "symbol 2", "alias", "alias plural", "alias 2", "alias 2 plural", "alias symbol", "alias symbol 2"]


def unit(uid, slots, tag, kind):
    """A unit whose given slots hold the given references, the others fresh ones."""

    def at(slot):
        return slots.get(slot) or f"{tag}{SLOTS.index(slot)}"

    return Unit(
        uid, name=at("name"), plural=at("plural"), symbols=(at("symbol"), at("symbol 2")),
        aliases=((at("alias"), at("alias plural")), (at("alias 2"), at("alias 2 plural"))), asyms=(at("alias symbol"), at("alias symbol 2")), kind=kind,
    )


def small(uid, slot, ref, tag, kind):
    """A unit with little more than the reference."""
    o = f"{tag}o"
    return {
        "name": lambda: Unit(uid, name=ref, kind=kind), "plural": lambda: Unit(uid, name=o, plural=ref, kind=kind), "symbol": lambda: Unit(uid, symbols=(ref,), kind=kind),
        "symbol 2": lambda: Unit(uid, symbols=(o, ref), kind=kind), "alias": lambda: Unit(uid, name=o, aliases=(ref,), kind=kind), "alias plural": lambda: Unit(uid, name=o, aliases=((o + "2", ref),), kind=kind),
        "alias symbol": lambda: Unit(uid, symbols=(o,), asyms=(ref,), kind=kind),
    }.get(slot, lambda: None)()


ENDINGS = (("", "'s"), ("'y", "'ies"), ("'s", "'ses"), ("", "'S"), ("", "'es"))


def regular(uid, slot, ref, tag, kind, ending):
    """A unit whose plurals are spelled like its names."""
    one, many = ending
    slots = {slot: ref}
    for x, y in (("name", "plural"), ("alias", "alias plural"), ("alias 2", "alias 2 plural")):
        stem = slots.get(x) or slots.get(y) or f"{tag}{SLOTS.index(x)}"
        slots[x], slots[y] = (f"{stem}.{one}" if one else stem), f"{stem}.{many}"
    return unit(uid, slots, tag, kind)


def run(key, scenario):
    """scenario(ip) -> [(ok, text)]"""
    obs = []
    for o in explore(program(), scenario, 64):
        where = path_of(o)
        if o.kind != "ok":
            obs.append(Ob(key, "undecided" if o.kind == "undecided" else "violation", f"{o.kind}: {show(o.value)}", where))
            continue
        bad = [t for ok, t in o.value if ok is False]
        lost = [t for ok, t in o.value if ok is None]
        if bad:
            obs.append(Ob(key, "violation", "; ".join(bad[:3]), where))
        elif lost:
            obs.append(Ob(key, "undecided", lost[0], where))
        else:
            obs.append(Ob(key, "ok", f"{len(o.value)} references as prescribed", where))
    return obs


def check(key, first, second, replace, concrete, pre=(), probe=()):
    def scenario(ip):
        s = System(ip, concrete)
        m = Model()
        res = []
        for p in pre:
            s.prefix(p)
            m.prefix(p)
        for u in first:
            r = s.add(u)
            if r is not True:
                return [(False, f"{u} is refused with {exc_name(r)} though none of its references is taken")]
            m.add(u)
            for ref in u.refs():
                res.append(verdict(s, m, ref, s.ask(ref)))
        u = second
        own, other = m.taken(u)
        refs = list(dict.fromkeys([x for f in first for x in f.refs()] + u.refs() + list(probe)))
        r = s.add(u, replace)
        if replace:
            if r is not True:
                return res + [(False, f"{u} is refused with {exc_name(r)} although it replaces")]
            m.add(u)
            soft = {x for x in u.alias_names() + list(u.asyms)}
        else:
            if own and r is True:
                return res + [(False, f"{u} is accepted although a reference is taken ({', '.join(map(str, first))})")]
            if r is not True:
                if not (own or other or len(set(u.refs())) < len(u.refs())):
                    return res + [(False, f"{u} is refused with {exc_name(r)} though none of its references is taken")]
                if not exc_is(r, "ValueError"):
                    return res + [(False, f"{u} is refused with {exc_name(r)} and not with ValueError")]
                s.units[u.uid] = u
            else:
                m.add(u)
            soft = ()
        for ref in refs:
            ok, text = verdict(s, m, ref, s.ask(ref))
            if ok is False and ref in soft and m.names.get(ref, m.syms.get(ref)) is not None:
                alt = m.copy()
                for t in (alt.names, alt.syms):
                    t.pop(ref, None)
                ok, text = verdict(s, alt, ref, s.ask(ref))
            done = "refused" if r is not True else "replacing" if replace else "accepted"
            res.append((ok, f"after {u} {done}: {text}"))
        return res

    return run(key, scenario)


def check_prefix(key, p, order, concrete):
    def scenario(ip):
        s = System(ip, concrete)
        m = Model()
        us = [Unit("u", name="a", plural="b", symbols=("c",)), Unit("t", name="d")]
        for op in [x for w in order for x in ([p] if w == "p" else us)]:
            if op is p:
                s.prefix(p)
                m.prefix(p)
            else:
                r = s.add(op)
                if r is not True:
                    return [(False, f"{op} is refused with {exc_name(r)}")]
                m.add(op)
        return [verdict(s, m, f"{x}.{u}", s.ask(f"{x}.{u}")) for x in (p.name,) + p.symbols for u in "abcd"]

    return run(key, scenario)


def tasks(tier):
    for kind in ("lazy", "named", "basis"):
        for conc in (False, True):
            yield f"complete, {kind}{', spelled' if conc else ''}", check, ([], unit("u", {}, "a", kind), False, conc)
            yield f"complete with replace, {kind}{', spelled' if conc else ''}", check, ([], unit("u", {}, "a", kind), True, conc)
    for s1, s2 in itertools.product(SLOTS, repeat=2):
        a, b = unit("u", {s1: "x"}, "a", "lazy"), unit("t", {s2: "x"}, "b", "lazy")
        yield f"{s1} taken by {s2}", check, ([b], a, False, False)
        yield f"{s1} replaces {s2}", check, ([b], a, True, False)
        if tier == "thorough":
            for k1, k2 in itertools.product(("lazy", "named", "basis"), repeat=2):
                yield f"{s1} of {k1} taken by {s2} of {k2}", check, ([unit("t", {s2: "x"}, "b", k2)], unit("u", {s1: "x"}, "a", k1), False, True)
                yield f"{s1} of {k1} replaces {s2} of {k2}", check, ([unit("t", {s2: "x"}, "b", k2)], unit("u", {s1: "x"}, "a", k1), True, True)
        p, q = small("u", s1, "x", "a", "lazy"), small("t", s2, "x", "b", "lazy")
        if p and q:
            yield f"only {s1} taken by only {s2}", check, ([q], p, False, True)
            yield f"only {s1} replaces only {s2}", check, ([q], p, True, True)
    # regular plurals
    nouns = [x for x in SLOTS if "symbol" not in x and "plural" not in x]
    for s1, s2 in itertools.product(nouns, repeat=2):
        for n, end in enumerate(ENDINGS if tier == "thorough" or s1 == s2 else ENDINGS[:1]):
            for kind in ("lazy", "named", "basis") if tier == "thorough" else ("lazy",):
                a, b = regular("u", s1, "x", "a", kind, end), regular("t", s2, "x", "b", kind, end)
                yield f"{s1} with a regular plural {n} taken by {s2}, {kind}", check, ([b], a, False, False)
                yield f"{s1} with a regular plural {n} replaces {s2}, {kind}", check, ([b], a, True, False)
    # several conflicts; a third unit; the same unit again
    full = unit("t", {}, "b", "lazy")
    for kind in ("lazy", "named", "basis"):
        yield f"the same references again, {kind}", check, ([full], unit("u", {x: f"b{i}" for i, x in enumerate(SLOTS)}, "a", kind), False, False)
        yield f"the same references replaced, {kind}", check, ([full], unit("u", {x: f"b{i}" for i, x in enumerate(SLOTS)}, "a", kind), True, False)
    for s1 in SLOTS:
        other = unit("v", {}, "c", "lazy")
        names = [x for x in SLOTS if "symbol" not in x]
        s2 = "name" if s1 in names else "symbol"
        t2 = "alias plural" if s1 in names else "alias symbol 2"
        yield f"{s1} taken, with a third unit", check, ([other, unit("t", {s2: "x"}, "b", "lazy")], unit("u", {s1: "x"}, "a", "lazy"), False, False)
        yield f"{s1} taken as {t2}, with a third unit", check, ([unit("t", {t2: "x"}, "b", "named"), other], unit("u", {s1: "x"}, "a", "named"), False, False)
    # a refused reference keeps its prefixed reading, an accepted one loses it
    for s1 in SLOTS:
        pre = [Prefix("p", "k", ("j",))]
        yield f"{s1} k·x is accepted over a prefixed reading", check, ([Unit("t", name="x")], unit("u", {s1: "k.x"}, "a", "lazy"), False, False, pre, ["j.x", "k.k.x"])
        late = "alias symbol 2"
        yield f"{s1} k·x of a refused unit keeps its prefixed reading", check, ([Unit("t", name="x", symbols=("y3",))], unit("u", {**({s1: "k.x"} if s1 != late else {"name": "k.x"}), late: "y3"}, "a", "lazy"), False, False, pre, ["j.x"])
    # equal references within a unit
    for n, u in enumerate([Unit("u", name="a", plural="a"), Unit("u", name="a", symbols=("a",)), Unit("u", symbols=("a", "a")), Unit("u", name="a", aliases=("a",)), Unit("u", name="a", aliases=(("b", "b"),)), Unit("u", symbols=("a",), asyms=("a",))]):
        yield f"equal references within a unit {n}", check, ([], u, False, False)
    for n, p in enumerate([Prefix("p", "k"), Prefix("p", "k", ("j",)), Prefix("p", "k", ("j", "l", "m")), Prefix("p", "k", ("k",))]):
        for order in ("pu", "up"):
            for conc in (False, True):
                yield f"prefix {n} usable, {order}{', spelled' if conc else ''}", check_prefix, (p, order, conc)
