"""C09: equal values have equal hashes and value objects are frozen."""
import ast

from .. import terms
from ..core import Ob, path_of
from ..interp import AbsRaise, ClassInfo
from ..values import Obj, SStr, mkstr, opaque, show
from ..world import World, exc_is, exc_name, explore, program

RULE = (
    "Every class of the package which defines equality is enumerated from the source; for each value type the analysis "
    "builds instances with opaque fields and interprets __eq__, __hash__, __init__ and attribute assignment: instances "
    "with the same fields are equal with the same hash term, instances which differ in one meaningful field (or in their "
    "class) are unequal, equal instances built from different names, symbols or flags (base units) have the same hash, "
    "assignment to and deletion of a field is refused. One obligation per class and field."
)
FLOOR = 60

MODULES = ("._expr.graph", "._datetime", "._unit_reference", "._unit", "._unit_system", "._expr.normaliser", "._expr.dimensionality", "._expr.split",
           "._expr.substitute", "._expr.atoms", "._expr.sympy")
#: fields whose part in the equality the property leaves open
OPEN = {"raw_content", "description"}
VALUE_TYPES = {
    "Unhandled", "Number", "Identifier", "Raise", "Multiply", "Divide", "Shift", "Logarithm", "Prefix", "Name", "UnitReference", "Time", "DateTime",
}


def number(n, i, ty):
    """Opaque; number 1 and 2 differ."""
    x = terms.sym(n, ty)
    return x if i == 1 else terms.add(x, terms.const(i, "int"))


def fill(w, cls, f, i):
    """An opaque value number i for a field."""
    node = w.attr("._expr.graph", "Identifier")
    n = f.name
    ann = cls
    if n in ("lhs", "rhs", "unit", "shift_from", "term"):
        return w.call(node, opaque(f"{n}{i}"))
    if n in ("symbols", "alias_symbols"):
        return (opaque(f"{n}{i}"), opaque(f"{n}{i}b"))
    if n == "alias_names":
        return (w.call(w.attr("._unit_reference", "Name"), opaque(f"{n}{i}")),)
    if n == "name" and cls.name == "UnitReference":
        return w.call(w.attr("._unit_reference", "Name"), opaque(f"{n}{i}"))
    if n == "time":
        return w.call(w.attr("._datetime", "Time"), number("h", i, "int"), number("m", i, "int"))
    if n == "value" and cls.name == "Number":
        return number(n, i, "Decimal")
    if n in ("hour", "minute", "second", "microseconds", "year", "month", "day"):
        return number(n, i, "int")
    return opaque(f"{n}{i}", "text")


def dataclass_of(cls):
    return next((k for k in cls.mro if isinstance(k, ClassInfo) and k.dc_fields is not None), None)


def fields_of(cls):
    return [f for f in dataclass_of(cls).dc_fields if getattr(f, "init", True) is not False]


def make(w, cls, which):
    return w.ip.call(cls, [], {f.name: fill(w, cls, f, which.get(f.name, 1)) for f in fields_of(cls)})


def eqs(ip, a, b):
    return ip.truth(ip.compare(ast.Eq(), a, b)), ip.truth(ip.compare(ast.Eq(), b, a)), ip.truth(ip.compare(ast.NotEq(), a, b))


def same_hash(ip, a, b):
    x, y = ip.hash_of(a), ip.hash_of(b)
    return x == y or (isinstance(x, terms.T) and isinstance(y, terms.T) and terms.differ(x, y) is False), x, y


def run(key, fn):
    obs = []
    for n, o in enumerate(explore(program(), fn, 16)):
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(f"{key}#{n}", "undecided", str(o.value), where))
        elif o.kind == "raise":
            obs.append(Ob(key, "violation", f"{key}: raises {exc_name(o.value)} {show(o.value)[:200]}", where))
        elif o.value:
            obs.append(Ob(key, "violation", f"{key}: {o.value}", where))
        else:
            obs.append(Ob(key, "ok", key, where))
    return obs


def hashable(ip, v):
    try:
        ip.hash_of(v)
        return True
    except AbsRaise as e:
        if exc_is(e.exc, "TypeError"):
            return False
        raise


def check_same(key, mod, name):
    def scenario(ip):
        w = World(ip)
        cls = w.attr(mod, name)
        a, b = make(w, cls, {}), make(w, cls, {})
        r = eqs(ip, a, b)
        if r != (True, True, False):
            return f"two instances with the same fields: ==, reversed and != answer {r}"
        if not hashable(ip, a):
            return f"{name} cannot be hashed" if name in VALUE_TYPES else None
        ok, x, y = same_hash(ip, a, b)
        if not ok:
            return f"two equal instances hash to {show(x)} and {show(y)}"
        for other in (None, "text", 1):
            if eqs(ip, a, other) != (False, False, True):
                return f"equal to {other!r}"

    return run(key, scenario)


def check_field(key, mod, name, field):
    def scenario(ip):
        w = World(ip)
        cls = w.attr(mod, name)
        a, b = make(w, cls, {}), make(w, cls, {field: 2})
        r = eqs(ip, a, b)
        if name == "DateTime" and field == "raw_content":
            if r != (True, True, False):
                return f"date-times which differ in the raw text only: ==, reversed, != answer {r}"
            ok, x, y = same_hash(ip, a, b)
            return None if ok else f"equal date-times hash to {show(x)} and {show(y)}"
        if r[0] and hashable(ip, a):
            ok, x, y = same_hash(ip, a, b)
            if not ok:
                return f"instances which differ in {field} are equal but hash to {show(x)} and {show(y)}"
        if field in OPEN:
            return None
        if r != (False, False, True):
            return f"instances which differ in the field {field}: ==, reversed, != answer {r}"

    return run(key, scenario)


def check_frozen(key, mod, name, field):
    def scenario(ip):
        w = World(ip)
        cls = w.attr(mod, name)
        a = make(w, cls, {})
        if not hashable(ip, a) and name not in VALUE_TYPES:
            return None
        before = a.fields[field]
        try:
            ip.setattr(a, field, "changed")
        except AbsRaise as e:
            if not exc_is(e.exc, "AttributeError"):
                return f"assignment to {field} raises {exc_name(e.exc)}"
        else:
            return f"the field {field} of a {name} can be assigned to"
        if a.fields[field] is not before:
            return f"the field {field} of a {name} changed in spite of the error"

    return run(key, scenario)


def check_distinct(key, names):
    """Nodes of different classes with the same fields are unequal."""

    def scenario(ip):
        w = World(ip)
        a, b = (make(w, w.attr("._expr.graph", n), {}) for n in names)
        r = eqs(ip, a, b)
        if r != (False, False, True):
            return f"a {names[0]} and a {names[1]} of the same fields: ==, reversed, != answer {r}"

    return run(key, scenario)


def basis(w, **kw):
    R, N = w.attr("._unit_reference", "UnitReference"), w.attr("._unit_reference", "Name")
    ref = {}
    if "name" in kw:
        ref["name"] = w.call(N, singular=opaque(kw["name"]), plural=opaque(kw["plural"]) if kw.get("plural") else None)
    if "symbols" in kw:
        ref["symbols"] = tuple(opaque(s) for s in kw["symbols"])
    if "alias" in kw:
        ref["alias_names"] = (w.call(N, singular=opaque(kw["alias"])),)
    flags = {k: kw[k] for k in ("dimensionless", "is_time_unit") if k in kw}
    return w.call(w.attr("", "BasisUnit"), names=w.call(R, **ref), **flags)


BASIS = {
    "the same reference": ({"name": "u"}, {"name": "u"}, True),
    "other symbols": ({"name": "u", "symbols": ["a"]}, {"name": "u", "symbols": ["b"]}, None),
    "other plurals": ({"name": "u", "plural": "a"}, {"name": "u", "plural": "b"}, None),
    "other aliases": ({"name": "u", "alias": "a"}, {"name": "u", "alias": "b"}, None),
    "one with a symbol": ({"name": "u"}, {"name": "u", "symbols": ["a"]}, None),
    "name and symbol of the same spelling": ({"name": "u"}, {"symbols": ["u"]}, None),
    "one dimensionless": ({"name": "u", "dimensionless": True}, {"name": "u"}, None),
    "one a time unit": ({"name": "u", "is_time_unit": True}, {"name": "u"}, None),
    "other names": ({"name": "u"}, {"name": "v"}, False),
    "other names and the same symbol": ({"name": "u", "symbols": ["a"]}, {"name": "v", "symbols": ["a"]}, False),
    "other symbols and no name": ({"symbols": ["a"]}, {"symbols": ["b"]}, False),
    "the same symbol and no name": ({"symbols": ["a"]}, {"symbols": ["a"]}, True),
}


def check_basis(key, x, y, equal):
    def scenario(ip):
        w = World(ip)
        a, b = basis(w, **x), basis(w, **y)
        r = eqs(ip, a, b)
        if equal is not None and r != (equal, equal, not equal):
            return f"==, reversed, != answer {r}"
        if r[0] != r[1] or r[0] == r[2]:
            return f"==, reversed, != answer {r}"
        if r[0]:
            ok, p, q = same_hash(ip, a, b)
            if not ok:
                return f"equal base units hash to {show(p)} and {show(q)}"

    return run(key, scenario)


def check_key(key, x, y):
    """A base unit is found again under an equal one in a dimensionality."""

    def scenario(ip):
        w = World(ip)
        a, b = basis(w, **x), basis(w, **y)
        da, db = w.m(a, "dimensionality"), w.m(b, "dimensionality")
        if eqs(ip, da, db) != (True, True, False):
            return "equal base units of two systems have different dimensionalities"

    return run(key, scenario)


def check_other(key, mod, name):
    """A class which defines equality and is no dataclass: hash follows."""

    def scenario(ip):
        w = World(ip)
        cls = w.attr(mod, name)
        if name == "Unit":
            from ..world import Id, Mul, Num

            a, b = w.unit(Mul(Num("n1"), Id("m"))), w.unit(Mul(Id("m"), Num("n1")))
        elif name == "Dimensionality":
            from ..world import Id

            a, b = (w.m(w.unit(Id("m")), "dimensionality") for _ in range(2))
        else:
            return None
        if eqs(ip, a, b)[0] and hashable(ip, a):
            ok, x, y = same_hash(ip, a, b)
            if not ok:
                return f"equal {name}s hash to {show(x)} and {show(y)}"

    return run(key, scenario)


def classes():
    """(module, class name, is a dataclass) of every class of the package, from the source."""
    out = []
    for mod in program().modules():
        if "_antlr4_runtime" in mod or ".parser" in mod or mod.endswith("compile"):
            continue
        tree, _, _ = program().load(mod)
        for node in tree.body:
            if isinstance(node, ast.ClassDef):
                out.append((mod[len("pyudunits2"):], node.name))
    return out


def tasks(tier):
    from ..interp import Interp

    ip = Interp(program())
    w = World(ip)
    found = set()
    for mod, name in classes():
        if mod == "._udunits2_xml_parser" or mod.endswith("__main__"):
            continue
        try:
            cls = w.attr(mod, name)
        except AbsRaise:
            continue
        if not isinstance(cls, ClassInfo):
            continue
        if dataclass_of(cls) is not None:
            if name in ("Node", "Terminal", "UnaryOp", "BinaryOp"):
                continue
            found.add(name)
            yield f"{name}: same fields", check_same, (mod, name)
            for f in fields_of(cls):
                yield f"{name}: field {f.name}", check_field, (mod, name, f.name)
                yield f"{name}: assignment to {f.name}", check_frozen, (mod, name, f.name)
        elif any(isinstance(k, ClassInfo) and "__eq__" in k.attrs for k in cls.mro):
            yield f"{name}: equality and hash", check_other, (mod, name)
    ops = ["Raise", "Multiply", "Divide"]
    pairs = [(a, b) for a in ops for b in ops if a < b] + [("Identifier", "Unhandled")]
    for a, b in pairs:
        if a in found and b in found:
            yield f"{a} is no {b}", check_distinct, ((a, b),)
    for n, (x, y, equal) in BASIS.items():
        yield f"BasisUnit: {n}", check_basis, (x, y, equal)
    for n in ("the same reference", "the same symbol and no name"):
        yield f"BasisUnit as a key: {n}", check_key, BASIS[n][:2]
    for n in sorted(VALUE_TYPES - found):
        yield f"{n}: is a frozen dataclass", missing, (n,)


def missing(key, n):
    return [Ob(key, "undecided", f"no dataclass {n} was found")]
