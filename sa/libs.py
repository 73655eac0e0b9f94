"""Models of the built-ins and of the external libraries the package uses."""
from __future__ import annotations

import builtins
import collections
import decimal
import re
import types
import unicodedata
from fractions import Fraction

from . import terms
from .terms import T
from .values import (
    ADict,
    ASet,
    AbsRaise,
    Atom,
    Bound,
    Desc,
    ExcVal,
    ExtClass,
    ExtModule,
    ExtObj,
    Func,
    Iter,
    Native,
    Obj,
    SStr,
    SliceV,
    Super,
    Top,
    Undecided,
    View,
    is_str,
    mkstr,
    parts_of,
    show,
)

UNION = ExtClass("types.UnionType")
DECIMAL = ExtClass("decimal.Decimal")
EXPR = ExtClass("sympy.Expr")
SYMBOL = ExtClass("sympy.Symbol", (EXPR,))
S_NUMBER = ExtClass("sympy.Number", (EXPR,))
S_FLOAT = ExtClass("sympy.Float", (S_NUMBER,))
S_RATIONAL = ExtClass("sympy.Rational", (S_NUMBER,))
S_INTEGER = ExtClass("sympy.Integer", (S_RATIONAL,))
S_ADD = ExtClass("sympy.Add", (EXPR,))
S_MUL = ExtClass("sympy.Mul", (EXPR,))
S_POW = ExtClass("sympy.Pow", (EXPR,))
S_LOG = ExtClass("sympy.log", (EXPR,))
FUNCTION = ExtClass("types.FunctionType")
MODULE = ExtClass("types.ModuleType")
PATH = ExtClass("pathlib.Path")
ETREE_ELEMENT = ExtClass("lxml.etree._Element")
LOGGER = ExtClass("logging.Logger")
VIEWS = ExtClass("dict view")
ITER = ExtClass("iterator")
CTX = ExtClass("contextlib manager")

_EXCS = {n: v for n, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)}


def nat(name):
    def deco(fn):
        return Native(name, fn)

    return deco


# ---------------------------------------------------------------------------
# text


def atom_len(a):
    return terms.length(a.name)


def _real_types(o):
    """The types of the real values which a value of the analysis stands for."""
    from .interp import ClassInfo, Module

    if isinstance(o, Func):
        return (types.FunctionType,)
    if isinstance(o, (Native, Bound)):
        return (types.FunctionType, types.MethodType, types.BuiltinFunctionType)
    if isinstance(o, ADict):
        return {"defaultdict": (collections.defaultdict,), "OrderedDict": (collections.OrderedDict,), "Counter": (collections.Counter,), "ChainMap": (collections.ChainMap,), "deque": (collections.deque,)}.get(o.kind, (dict,))
    if isinstance(o, ASet):
        return (frozenset,) if o.frozen else (set,)
    if isinstance(o, View):
        return (type({}.keys()), type({}.values()), type({}.items()))
    if isinstance(o, Iter):
        return (types.GeneratorType, type(iter(())), enumerate, map)
    if isinstance(o, ClassInfo):
        return (type,)
    if isinstance(o, (Module, ExtModule)):
        return (types.ModuleType,)
    if isinstance(o, ExcVal):
        return (o.cls,) if isinstance(o.cls, type) else (Exception,)
    if isinstance(o, Desc):
        return (property, classmethod)
    if isinstance(o, type):
        return (o, type)
    if isinstance(o, Obj):
        return (object,)
    return (type(o),)


def no_attribute(ip, o, name, message=None):
    """An attribute which the analysis does not know: the error of the program
    where there is none, no answer where the real value has one."""
    if any(hasattr(t, name) for t in _real_types(o)):
        raise Undecided(f"attribute {name} of {ip.type_name(o)}")
    ip.raise_(AttributeError, message or f"'{ip.type_name(o)}' object has no attribute '{name}'")


def text_len(s):
    if isinstance(s, str):
        return len(s)
    n = 0
    ts = []
    for p in s.parts:
        if isinstance(p, str):
            n += len(p)
        else:
            ts.append(atom_len(p))
    return terms.add(terms.const(n), *ts)


#: Representatives of the opaque number literals: every question about the
#: text of one is answered by the representatives which are left, one partition
#: for each answer.  (The number itself stays symbolic.)
LITERALS = {
    "declit": ("1", "10", "12", "1e3", "1E3", "1e+3", "2e24", "2E24", "1e-3", "1E-3", "1.5e-3", "1.5E-3", "0.1", "1.5", ".5", "5.", "1.25e2", "1.25E2", "+2", "+1.5", "-3", "-1.5"),
    "intlit": ("1", "10", "12", "007", "+2", "-3"),
}


def lit_atom(s):
    """The opaque literal which is all of a text, or None."""
    ps = parts_of(s) if isinstance(s, SStr) else (s,)
    if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind in LITERALS:
        a = ps[0]
        if a.payload is None or a.payload[0] == "lit":
            return a
    return None


def lit_root(a):
    return (a, ()) if a.payload is None else a.payload[1:]


def root_kind(a):
    return lit_root(a)[0].kind


def lit_text(chain, lit):
    for name, args in chain:
        lit = getattr(lit, name)(*args)
    return lit


def lit_candidates(ip, a):
    root, chain = lit_root(a)
    return [(l, lit_text(chain, l)) for l in ip.literals.get(root, LITERALS[root.kind])]


def lit_decide(ip, a, label, pred):
    """Decide a predicate of the text of an opaque literal."""
    root, chain = lit_root(a)
    got = {l: pred(t) for l, t in lit_candidates(ip, a)}
    answers = sorted(set(got.values()), key=repr)
    if len(answers) == 1:
        return answers[0]
    if set(answers) == {False, True}:
        r = ip.decide_text(label, a, "")
    else:
        r = answers[ip.choose_of(len(answers))]
    ip.literals[root] = tuple(l for l in got if got[l] == r)
    return r


def lit_method(ip, a, name, args):
    """The text of an opaque literal through a method which gives a text."""
    root, chain = lit_root(a)
    chain += ((name, tuple(args)),)
    return SStr((Atom(f"{root.name}" + "".join(f".{n}({', '.join(map(repr, x))})" for n, x in chain), root.kind, ("lit", root, chain)),))


def lit_number(ip, a, ty):
    """int(), float() or Decimal() of the text of an opaque literal."""
    conv = {"int": int, "float": float}.get(ty, decimal.Decimal)

    def kind(t):
        try:
            conv(t)
        except (ValueError, decimal.InvalidOperation):
            return False
        return True

    if ip.extremes and ty not in ("float",) and ip.decide_text("has an exponent out of range" if root_kind(a) == "declit" else "has too many digits", lit_root(a)[0], ""):
        # e.g. 1e9999999999999999999
        ip.raise_(decimal.InvalidOperation if conv is decimal.Decimal and root_kind(a) == "declit" else ValueError, "out of range")
    if not lit_decide(ip, a, f"{conv.__name__}()", kind):
        ip.raise_(decimal.InvalidOperation if conv is decimal.Decimal else ValueError, f"invalid literal for {conv.__name__}()")
    root, chain = lit_root(a)
    v = terms.sym(f"val({root.name})", "Decimal" if ty == "float" else ty)
    if chain and any(float(t) != float(l) for l, t in lit_candidates(ip, a)):
        if all(float(t) == -float(l) for l, t in lit_candidates(ip, a)):
            v = terms.neg(v)
        else:
            v = T("number_of", (v, repr(chain)), v.ty)
    return T("float_of", (v,), "float") if ty == "float" else v


def text_eq(ip, a, b):
    """Equality of texts; opaque parts are in general position."""
    if a == b:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, str) and lit_atom(y) is not None:
            return lit_decide(ip, lit_atom(y), f"== {x!r}", lambda t: t == x)
    pa, pb = list(parts_of(a)), list(parts_of(b))
    if any(isinstance(p, Atom) and p.kind == "unknown" for p in pa + pb):
        raise Undecided(f"equality of texts {a!r} and {b!r}")
    na = [p for p in pa + pb if isinstance(p, Atom) and p.kind == "num"]
    if na and len(pa) == 1 and len(pb) == 1:
        x, y = pa[0], pb[0]
        if isinstance(x, Atom) and isinstance(y, Atom) and x.kind == y.kind == "num":
            if x.payload[1] == y.payload[1] == "raw":
                # one number is written in many ways
                return False
            if x.payload[1] == y.payload[1]:
                return ip.decide("==", x.payload[0], y.payload[0])
        for x, y in ((x, y), (y, x)):
            if isinstance(x, Atom) and isinstance(y, str) and x.payload[1] in ("", "raw"):
                try:
                    if x.payload[1] == "raw" and not ip.decide_text("equals", x, y):
                        return False
                    return ip.decide("==", x.payload[0], decimal.Decimal(y))
                except decimal.InvalidOperation:
                    return False
    if na and len(pa) == len(pb) and all(x == y or isinstance(x, Atom) and isinstance(y, Atom) and x.kind == y.kind == "num" for x, y in zip(pa, pb)):
        # the same text around the numbers
        pairs = [(x, y) for x, y in zip(pa, pb) if x != y]
        if any(x.payload[1] == y.payload[1] == "raw" for x, y in pairs):
            return False
        if all(x.payload[1] == y.payload[1] for x, y in pairs):
            return all(ip.decide("==", x.payload[0], y.payload[0]) for x, y in pairs)
    return False


def text_startswith(ip, s, p):
    ps, pp = list(parts_of(s)), list(parts_of(p))
    while pp:
        if not ps:
            return False
        x, y = ps.pop(0), pp.pop(0)
        if x == y:
            continue
        if isinstance(x, str) and isinstance(y, str):
            if x.startswith(y):
                ps.insert(0, x[len(y) :])
                continue
            if y.startswith(x):
                pp.insert(0, y[len(x) :])
                continue
            return False
        if isinstance(x, Atom) and isinstance(y, str):
            return char_class(ip, x, y, 0) if not pp else False
        if isinstance(x, str) and isinstance(y, Atom):
            return False
        if isinstance(x, Atom) and isinstance(y, Atom):
            if x.kind == "unknown" or y.kind == "unknown":
                raise Undecided("prefix of unknown text")
            return False
    return True


def text_endswith(ip, s, p):
    ps, pp = list(parts_of(s)), list(parts_of(p))
    while pp:
        if not ps:
            return False
        x, y = ps.pop(), pp.pop()
        if x == y:
            continue
        if isinstance(x, str) and isinstance(y, str):
            if x.endswith(y):
                ps.append(x[: len(x) - len(y)])
                continue
            if y.endswith(x):
                pp.append(y[: len(y) - len(x)])
                continue
            return False
        if isinstance(x, Atom) and isinstance(y, str):
            return char_class(ip, x, y, -1) if not pp else False
        if isinstance(x, Atom) and isinstance(y, Atom) and "unknown" in (x.kind, y.kind):
            raise Undecided("suffix of unknown text")
        return False
    return True


def char_class(ip, atom, text, where):
    """Does an opaque text start/end with a literal?"""
    if lit_atom(atom) is not None:
        name = "startswith" if where == 0 else "endswith"
        return lit_decide(ip, atom, f"{name} {text!r}", lambda t: getattr(t, name)(text))
    if atom.kind == "unknown":
        raise Undecided("unknown text")
    c = text[0] if where == 0 else text[-1]
    if c.isspace():
        return False
    if atom.kind == "ident" and not (c.isalpha() or c == "_"):
        return False
    if atom.kind == "num" and not (c.isdigit() or c in "+-.eE"):
        return False
    if atom.kind == "text":
        return False
    return ip.decide_text("startswith" if where == 0 else "endswith", atom, text)


def text_contains(ip, s, sub):
    if sub == "" or s == sub:
        return True
    ps, pp = parts_of(s), parts_of(sub)
    if isinstance(s, str) and isinstance(sub, str):
        return sub in s
    n = len(pp)
    for i in range(len(ps)):
        if text_startswith_nofork(ps[i:], pp):
            return True
        if isinstance(ps[i], str) and isinstance(pp[0], str) and n >= 1:
            for k in range(len(ps[i])):
                if text_startswith_nofork((ps[i][k:],) + tuple(ps[i + 1 :]), pp):
                    return True
    if isinstance(sub, str):
        for p in ps:
            if isinstance(p, Atom):
                if p.kind == "unknown":
                    raise Undecided("search in unknown text")
                if sub.strip() != sub:
                    continue
                if p.kind == "ident" and not all(c.isalpha() or c == "_" for c in sub):
                    continue
                if p.kind == "text":
                    continue
                if lit_atom(p) is not None:
                    if lit_decide(ip, p, f"contains {sub!r}", lambda t: sub in t):
                        return True
                    continue
                if ip.decide_text("contains", p, sub):
                    return True
    return False


def text_startswith_nofork(ps, pp):
    ps, pp = [p for p in ps if p != ""], list(pp)
    while pp:
        if not ps:
            return False
        x, y = ps.pop(0), pp.pop(0)
        if x == y:
            continue
        if isinstance(x, str) and isinstance(y, str):
            if x.startswith(y):
                ps.insert(0, x[len(y) :])
                continue
            if y.startswith(x) and pp is not None:
                pp.insert(0, y[len(x) :])
                continue
        return False
    return True


def text_drop(ip, s, n):
    """s[n:] for a known or symbolic length n."""
    ps = list(parts_of(s))
    n = terms.lift(n)
    if n.op == "const" and n.args[0] < 0:
        return text_last(ip, s, int(-n.args[0]))
    while n != terms.ZERO:
        if not ps:
            return ""
        p = ps.pop(0)
        if isinstance(p, str):
            if n.op == "const":
                k = int(n.args[0])
                if k < len(p):
                    ps.insert(0, p[k:])
                    n = terms.ZERO
                else:
                    n = terms.const(k - len(p))
            else:
                m = terms.sub(n, terms.const(len(p)))
                c = m.args[-1] if m.op == "add" and m.args[-1].op == "const" else None
                if m.op == "const" and m.args[0] < 0 or (c is not None and c.args[0] < 0):
                    raise Undecided("slice inside text")
                n = m
        else:
            m = terms.sub(n, atom_len(p))
            if terms.count(n, atom_len(p)) == 1:
                n = m
            else:
                raise Undecided(f"slice of opaque text at {show(n)}")
    return mkstr(*ps)


def text_take(ip, s, n):
    """s[:n]"""
    rest = text_drop(ip, s, n)
    ps, rs = list(parts_of(s)), list(parts_of(rest))
    if not rs:
        return s
    out = ps[: len(ps) - len(rs)]
    x, y = ps[len(ps) - len(rs)], rs[0]
    if x != y:
        out.append(x[: len(x) - len(y)])
    return mkstr(*out)


def text_last(ip, s, k):
    """s[-k:]"""
    ps = list(parts_of(s))
    out = []
    while k > 0 and ps:
        p = ps.pop()
        if isinstance(p, str):
            out.insert(0, p[-k:])
            k -= len(p)
        else:
            raise Undecided("slice of opaque text")
    return mkstr(*out)


def text_butlast(ip, s, k):
    """s[:-k]"""
    ps = list(parts_of(s))
    while k > 0:
        if not ps:
            return ""
        p = ps.pop()
        if isinstance(p, str):
            if len(p) > k:
                ps.append(p[:-k])
                k = 0
            else:
                k -= len(p)
        else:
            raise Undecided("slice of opaque text")
    return mkstr(*ps)


def fixed_cells(ip, s):
    """The characters of a text of literal parts and zero-padded numbers: a list
    of characters and (atom, position, width); None when a width is open."""
    ps = parts_of(s)
    wide = []
    for p in ps:
        if not isinstance(p, str):
            if p.kind != "num" or p.payload[0].ty != "int":
                return None
            m = re.fullmatch(r"0([0-9]+)d?", p.payload[1])
            if not m:
                return None
            wide.append((p, int(m[1])))
    for p, w in wide:
        t = p.payload[0]
        if ip.decide("<", t, terms.ZERO) or not ip.decide("<", t, terms.const(10**w)):
            return None
    cells, n = [], 0
    for p in ps:
        if isinstance(p, str):
            cells += list(p)
        else:
            cells += [(p, i, wide[n][1]) for i in range(wide[n][1])]
            n += 1
    return cells


def from_cells(cells):
    out = []
    k = 0
    while k < len(cells):
        c = cells[k]
        if isinstance(c, str):
            out.append(c)
            k += 1
            continue
        p, i, w = c
        j = i
        while k < len(cells) and not isinstance(cells[k], str) and cells[k][0] is p and cells[k][1] == j:
            j += 1
            k += 1
        if (i, j) == (0, w):
            out.append(p)
            continue
        t = p.payload[0]
        if j < w:
            t = T("floordiv", (t, terms.const(10 ** (w - j), "int")), "int")
        if i:
            t = T("mod", (t, terms.const(10 ** (j - i), "int")), "int")
        spec = f"0{j - i}"
        out.append(Atom(f"{terms.show(t)}:{spec}", "num", (t, spec)))
    return mkstr(*out)


def text_getitem(ip, s, k):
    if isinstance(s, str) and not isinstance(k, T) and not (
        isinstance(k, SliceV) and any(isinstance(x, T) for x in (k.lo, k.hi, k.step))
    ):
        try:
            return s[slice(k.lo, k.hi, k.step)] if isinstance(k, SliceV) else s[k]
        except (IndexError, TypeError) as e:
            ip.raise_(type(e), str(e))
    plain = (int, type(None))
    if isinstance(k, SliceV) and all(isinstance(x, plain) for x in (k.lo, k.hi, k.step)) or isinstance(k, int):
        cells = fixed_cells(ip, s)
        if cells is not None:
            try:
                return from_cells(cells[slice(k.lo, k.hi, k.step)] if isinstance(k, SliceV) else [cells[k]])
            except IndexError:
                ip.raise_(IndexError, "string index out of range")
    if isinstance(k, SliceV):
        if k.step not in (None, 1):
            raise Undecided("slice step on opaque text")
        r = s
        lo = k.lo
        if k.hi is not None:
            if isinstance(k.hi, int) and k.hi < 0:
                if isinstance(lo, int) and lo < 0:
                    # s[-a:-b]
                    return text_butlast(ip, text_last(ip, s, -lo), -k.hi)
                r = text_butlast(ip, r, -k.hi)
            else:
                n = terms.lift(k.hi)
                if n.op == "add" and any(x.op == "const" and x.args[0] < 0 for x in n.args):
                    total = terms.lift(text_len(s))
                    d = terms.sub(total, n)
                    if d.op == "const" and d.args[0] > 0:
                        r = text_butlast(ip, r, int(d.args[0]))
                    else:
                        raise Undecided("slice of opaque text")
                elif n == terms.lift(text_len(s)):
                    pass
                else:
                    total = terms.lift(text_len(s))
                    d = terms.sub(total, n)
                    if d.op == "const" and d.args[0] > 0:
                        r = text_butlast(ip, r, int(d.args[0]))
                    else:
                        r = text_take(ip, r, k.hi)
        if lo is not None:
            if isinstance(lo, int) and lo < 0:
                r = text_last(ip, r, -lo)
            else:
                r = text_drop(ip, r, lo)
        return r
    if isinstance(k, int):
        ps = parts_of(s)
        if k < 0 and isinstance(ps[-1], str) and len(ps[-1]) >= -k:
            return ps[-1][k]
        if k >= 0 and isinstance(ps[0], str) and len(ps[0]) > k:
            return ps[0][k]
    if isinstance(k, (int, T)):
        raise Undecided("character of opaque text")
    ip.raise_(TypeError, "string indices must be integers")


def text_of_number(ip, t):
    if t.op == "const":
        v = t.args[0]
        if v.denominator == 1 and t.ty in ("int", "sympy"):
            return str(int(v))
        if t.ty == "Decimal":
            return str(decimal.Decimal(v.numerator) / decimal.Decimal(v.denominator))
        return str(float(v))
    if t.op == "numof" and t.ty in ("int", "Decimal"):
        # the text of the number a literal denotes
        return SStr((Atom(terms.show(t), "num", (t, "")),))
    return SStr((Atom(terms.show(t), "num", (t, "")),))


def format_error(t, spec):
    """The worst relative error of a number's text in a format, or None."""
    if spec in ("", "raw", "r"):
        return 0.0
    m = re.fullmatch(r"[-+ ]?0?\d*(?:\.(\d+))?([eEfFgGd]?)", spec) if isinstance(spec, str) else None
    if m is None:
        return None
    n, c = m.groups()
    if t.ty == "int" and c in ("d", "f", "F", ""):
        return 0.0
    if n is None and (c in ("", "d") or t.ty == "Decimal" and c in ("e", "E", "g", "G", "f", "F")):
        return 0.0
    n = int(n) if n is not None else 6
    if c in ("f", "F"):
        return 1.0
    return 10.0 ** -(n if c in ("e", "E") else max(n, 1) - 1)


def number_of_text(ip, s, ty):
    """int(s), Decimal(s), float(s), sympy's parser for opaque text."""
    if isinstance(s, str):
        try:
            if ty == "int":
                return int(s)
            if ty == "float":
                return float(s)
            return decimal.Decimal(s)
        except decimal.InvalidOperation:
            ip.raise_(decimal.InvalidOperation, "invalid literal")
        except ValueError as e:
            ip.raise_(ValueError, str(e))
    ps = s.parts
    if len(ps) == 1 and isinstance(ps[0], Atom):
        a = ps[0]
        if a.kind == "num" and a.payload is not None and format_error(a.payload[0], a.payload[1]) is not None:
            t = terms.rounded(a.payload[0], format_error(*a.payload))
            if ty == "int" and t.ty not in ("int",):
                if t.ty == "sympy":
                    return terms.retype(t, "int")
                ip.raise_(ValueError, "invalid literal for int()")
            if ty == "float":
                return T("float_of", (t,), "float") if t.ty == "Decimal" else terms.retype(t, "float")
            return terms.retype(t, ty)
        if lit_atom(s) is not None:
            return lit_number(ip, a, ty)
        if a.kind in ("ident", "text"):
            exc = ValueError if ty in ("int", "float") else decimal.InvalidOperation
            ip.raise_(exc, "not a number")
    # sign followed by a literal
    if len(ps) == 2 and ps[0] in ("-", "+") and isinstance(ps[1], Atom):
        v = number_of_text(ip, SStr((ps[1],)), ty)
        return terms.neg(terms.lift(v)) if ps[0] == "-" else v
    raise Undecided(f"number of text {s!r}")


def percent_format(ip, f, args):
    if not isinstance(f, str):
        raise Undecided("formatting with an opaque format")
    if not isinstance(args, tuple):
        args = (args,)
    out, i, n = [], 0, 0
    while i < len(f):
        if f[i] == "%" and i + 1 < len(f):
            c = f[i + 1]
            if c == "%":
                out.append("%")
            elif c in "sdr":
                if n >= len(args):
                    ip.raise_(TypeError, "not enough arguments for format string")
                out.append(ip.repr(args[n]) if c == "r" else ip.str(args[n]))
                n += 1
            else:
                import re

                m = re.match(r"%(0?\d*(?:\.\d+)?)([sdfirxg])", f[i:])
                if not m:
                    raise Undecided("format directive")
                v = args[n]
                n += 1
                out.append(ip.format(v, m.group(1) + (m.group(2) if m.group(2) not in "sir" else "")))
                i += len(m.group(0))
                continue
            i += 2
            continue
        out.append(f[i])
        i += 1
    return mkstr(*out)


def str_format(ip, f, args, kw):
    import string

    if not isinstance(f, str):
        raise Undecided("formatting with an opaque format")
    out = []
    auto = 0
    for lit, name, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if name is None:
            continue
        base, *rest = name.replace("]", "").replace("[", ".").split(".")
        if base == "":
            v = args[auto]
            auto += 1
        elif base.isdigit():
            v = args[int(base)]
        else:
            if base not in kw:
                raise AbsRaise(ExcVal(KeyError, (base,)))
            v = kw[base]
        for r in rest:
            v = ip.getattr(v, r)
        if conv == "r":
            v = ip.repr(v)
        out.append(ip.format(v, spec or ""))
    return mkstr(*out)


def text_split(ip, s, sep, maxsplit=-1, right=False):
    if isinstance(s, str) and isinstance(sep, (str, type(None))):
        return s.rsplit(sep, maxsplit) if right else s.split(sep, maxsplit)
    if sep is None:
        # opaque parts contain no white space
        sep_re = None
        out, cur = [], []
        for p in parts_of(s):
            if isinstance(p, str):
                words = []
                w = ""
                for ch in p:
                    if ch.isspace():
                        if w:
                            cur.append(w)
                            w = ""
                        if cur:
                            out.append(mkstr(*cur))
                        cur = []
                    else:
                        w += ch
                if w:
                    cur.append(w)
            else:
                cur.append(p)
        if cur:
            out.append(mkstr(*cur))
        return out
    out, cur = [], []
    for p in parts_of(s):
        if isinstance(p, str) and isinstance(sep, str):
            bits = p.split(sep)
            cur.append(bits[0])
            for b in bits[1:]:
                out.append(mkstr(*cur))
                cur = [b]
        else:
            if isinstance(p, Atom):
                if p.kind == "unknown":
                    raise Undecided("split of unknown text")
                if isinstance(sep, str) and not text_atom_excludes(p, sep):
                    raise Undecided(f"split of opaque text at {sep!r}")
            cur.append(p)
    out.append(mkstr(*cur))
    if maxsplit >= 0 and len(out) > maxsplit + 1:
        if right:
            k = len(out) - maxsplit
            return [text_join(ip, sep, out[:k])] + out[k:]
        return out[:maxsplit] + [text_join(ip, sep, out[maxsplit:])]
    return out


def text_atom_excludes(a, sub):
    """Can the opaque text not contain the literal?"""
    if sub.strip() != sub or sub.isspace():
        return True
    if a.kind == "ident":
        return not all(c.isalpha() or c == "_" for c in sub)
    if a.kind in ("intlit",):
        return not all(c.isdigit() or c in "+-" for c in sub)
    if a.kind in ("declit", "num"):
        return not all(c.isdigit() or c in "+-.eE" for c in sub)
    return a.kind == "text"


def text_join(ip, sep, items):
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(sep)
        if not is_str(x):
            if isinstance(x, Top):
                x = ip.str(x)
            else:
                ip.raise_(TypeError, "sequence item: expected str instance")
        out.append(x)
    return mkstr(*out)


def text_replace(ip, s, a, b):
    if isinstance(s, str) and isinstance(a, str) and isinstance(b, str):
        return s.replace(a, b)
    if isinstance(a, str):
        out = []
        for p in parts_of(s):
            if isinstance(p, str):
                bits = p.split(a)
                for i, x in enumerate(bits):
                    if i:
                        out.append(b)
                    out.append(x)
            else:
                if p.kind == "supexp" or text_atom_excludes(p, a):
                    out.append(p if p.kind != "supexp" else p)
                elif p.kind == "unknown":
                    raise Undecided("replace in unknown text")
                else:
                    out.append(Atom(f"{p.name}.replace({a!r},{b!r})", p.kind, ("replace", p, a, b)))
        return mkstr(*out)
    return SStr((Atom(f"{s!r}.replace", "unknown"),))


def str_method(ip, s, name):
    def m(fn):
        return Native(f"str.{name}", fn)

    if name == "join":
        return m(lambda i, a, kw: text_join(i, s, list(i.iterate(a[0]))))
    if name == "format":
        return m(lambda i, a, kw: str_format(i, s, a, kw))
    if name == "__str__":
        return m(lambda i, a, kw: s)
    if name == "__len__":
        return m(lambda i, a, kw: text_len(s))
    if name == "__contains__":
        return m(lambda i, a, kw: text_contains(i, s, a[0]))
    if name in ("startswith", "endswith"):
        f = text_startswith if name == "startswith" else text_endswith

        def sw(i, a, kw):
            p = a[0]
            if len(a) > 1:
                if isinstance(s, str) and isinstance(p, str):
                    return getattr(s, name)(*a)
                raise Undecided("startswith with bounds")
            if isinstance(p, tuple):
                return any(f(i, s, x) for x in p)
            if isinstance(p, Top):
                raise Undecided("prefix of unknown text")
            if not is_str(p):
                i.raise_(TypeError, f"{name} first arg must be str")
            return f(i, s, p)

        return m(sw)
    if isinstance(s, str) and hasattr(s, name):
        real = getattr(s, name)

        def call(i, a, kw):
            if all(isinstance(x, (str, int, type(None), tuple)) for x in a) and not kw:
                try:
                    r = real(*a)
                except (ValueError, TypeError, LookupError) as e:
                    i.raise_(type(e), str(e))
                return r
            return str_method_general(i, s, name, a, kw)

        return m(call)
    if not hasattr("", name):
        ip.raise_(AttributeError, f"'str' object has no attribute '{name}'")
    if name == "translate" and isinstance(s, str):

        def translate(i, a, kw):
            if not isinstance(a[0], ADict) or not all(isinstance(k, int) and isinstance(v, (int, str, type(None))) for k, v in a[0].live()):
                raise Undecided("str.translate with an unknown table")
            return s.translate(dict(a[0].live()))

        return m(translate)
    return m(lambda i, a, kw: str_method_general(i, s, name, a, kw))


LIT_TEXT = ("lower", "upper", "casefold", "swapcase", "strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "title", "capitalize", "zfill")
LIT_ANSWER = ("isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum", "isidentifier", "isspace", "isascii", "count", "find", "rfind", "islower", "isupper")


def str_method_general(ip, s, name, a, kw):
    lit = lit_atom(s)
    if lit is not None and not kw and all(isinstance(x, (str, int)) for x in a):
        if name in LIT_TEXT:
            if all(getattr(t, name)(*a) == t for _, t in lit_candidates(ip, lit)):
                return s
            return lit_method(ip, lit, name, a)
        if name in LIT_ANSWER:
            return lit_decide(ip, lit, f"{name}({', '.join(map(repr, a))})", lambda t: getattr(t, name)(*a))
    if name in ("zfill", "rjust", "ljust", "center") or name in ("strip", "lstrip", "rstrip") and a:
        if not kw and all(isinstance(x, (str, int)) for x in a) and all(isinstance(p, str) or p.kind in ("num", "numtext") for p in parts_of(s)):
            # text of numbers, padded or stripped
            return SStr((Atom(f"{s!r}.{name}{tuple(a)}", "numtext", (s, name, tuple(a))),))
    if name in ("strip", "lstrip", "rstrip"):
        chars = a[0] if a else None
        if chars is not None and not isinstance(chars, str):
            raise Undecided("strip of opaque characters")
        ps = list(parts_of(s))
        if name in ("strip", "lstrip"):
            while ps and isinstance(ps[0], str):
                ps[0] = ps[0].lstrip(chars)
                if ps[0]:
                    break
                ps.pop(0)
            if ps and isinstance(ps[0], Atom) and chars is not None:
                if not all(text_atom_excludes(ps[0], c) for c in chars):
                    raise Undecided("strip of opaque text")
        if name in ("strip", "rstrip"):
            while ps and isinstance(ps[-1], str):
                ps[-1] = ps[-1].rstrip(chars)
                if ps[-1]:
                    break
                ps.pop()
            if ps and isinstance(ps[-1], Atom) and chars is not None:
                if not all(text_atom_excludes(ps[-1], c) for c in chars):
                    raise Undecided("strip of opaque text")
        for p in ps:
            if isinstance(p, Atom) and p.kind == "unknown":
                return SStr((Atom(f"{s!r}.{name}", "unknown"),))
        return mkstr(*ps)
    if name in ("split", "rsplit"):
        sep = a[0] if a else kw.get("sep")
        mx = a[1] if len(a) > 1 else kw.get("maxsplit", -1)
        return text_split(ip, s, sep, mx, name == "rsplit")
    if name in ("partition", "rpartition"):
        bits = text_split(ip, s, a[0], 1, name == "rpartition")
        if len(bits) == 1:
            return (bits[0], "", "") if name == "partition" else ("", "", bits[0])
        return (bits[0], a[0], bits[1])
    if name == "replace":
        return text_replace(ip, s, a[0], a[1])
    if name == "removeprefix":
        if text_startswith(ip, s, a[0]):
            return text_drop(ip, s, text_len(a[0]))
        return s
    if name == "removesuffix":
        if text_endswith(ip, s, a[0]):
            if isinstance(a[0], str):
                return text_butlast(ip, s, len(a[0]))
            ps, pp = list(parts_of(s)), parts_of(a[0])
            return mkstr(*ps[: len(ps) - len(pp)])
        return s
    if name in ("isspace",):
        return False
    if name in ("isdigit", "isnumeric", "isdecimal"):
        if all(isinstance(p, Atom) and p.kind in ("ident", "text") for p in parts_of(s)):
            return False
        raise Undecided("digits in opaque text")
    if name in ("isalpha", "isidentifier", "isalnum"):
        if all(isinstance(p, Atom) and p.kind == "ident" for p in parts_of(s)):
            return True if name != "isalpha" else True
        raise Undecided("character class of opaque text")
    if name in ("lower", "upper", "title", "capitalize", "casefold", "swapcase"):
        out = []
        for p in parts_of(s):
            if isinstance(p, str):
                out.append(getattr(p, name)())
            else:
                out.append(Atom(f"{name}({p.name})", p.kind, ("case", name, p)))
        return mkstr(*out)
    if name in ("index", "find", "rfind", "rindex", "count"):
        if isinstance(a[0], str):
            if all(isinstance(p, str) or text_atom_excludes(p, a[0]) for p in parts_of(s)):
                if not any(isinstance(p, str) and a[0] in p for p in parts_of(s)):
                    if name == "count":
                        return 0
                    if name in ("find", "rfind"):
                        return -1
                    ip.raise_(ValueError, "substring not found")
                n = terms.ZERO
                for p in parts_of(s):
                    if isinstance(p, str) and a[0] in p:
                        return terms.add(n, terms.const(p.index(a[0])))
                    n = terms.add(n, terms.const(len(p)) if isinstance(p, str) else atom_len(p))
        raise Undecided(f"str.{name} of opaque text")
    if name == "encode":
        return Top("encoded text")
    raise Undecided(f"str.{name} of opaque text")


# ---------------------------------------------------------------------------
# types


def type_of(ip, v):
    if is_str(v):
        return str
    if isinstance(v, T):
        if v.ty == "Decimal":
            return DECIMAL
        if v.ty == "int":
            return int
        if v.ty == "float":
            return float
        return {
            "sym": SYMBOL,
            "const": S_NUMBER,
            "add": S_ADD,
            "mul": S_MUL,
            "pow": S_POW,
            "log": S_LOG,
        }.get(v.op, EXPR)
    if isinstance(v, decimal.Decimal):
        return DECIMAL
    if isinstance(v, (bool, int, float, bytes, list, tuple, range, type(None))):
        return type(v)
    if isinstance(v, ADict):
        return {"defaultdict": DEFAULTDICT, "Counter": COUNTER, "OrderedDict": ORDEREDDICT, "ChainMap": CHAINMAP}.get(
            v.kind, dict
        )
    if isinstance(v, ASet):
        return frozenset if v.frozen else set
    if isinstance(v, ExcVal):
        return v.cls
    if isinstance(v, (Func, Native, Bound)):
        return FUNCTION
    if isinstance(v, View):
        return VIEWS
    if isinstance(v, Iter):
        return ITER
    if isinstance(v, ExtObj):
        return v.cls
    if isinstance(v, (ExtModule,)):
        return MODULE
    if v is NotImplemented:
        return type(NotImplemented)
    if v is Ellipsis:
        return type(Ellipsis)
    if isinstance(v, Top):
        raise Undecided(f"type of {v.why}")
    if isinstance(v, Desc):
        return property
    if isinstance(v, SliceV):
        return slice
    if isinstance(v, type):
        return type
    from .interp import ClassInfo, Module

    if isinstance(v, ClassInfo):
        return type
    if isinstance(v, Module):
        return MODULE
    if isinstance(v, ExtClass):
        return type
    return type(v)


DEFAULTDICT = ExtClass("collections.defaultdict", (dict,))
COUNTER = ExtClass("collections.Counter", (dict,))
ORDEREDDICT = ExtClass("collections.OrderedDict", (dict,))
CHAINMAP = ExtClass("collections.ChainMap")

_ABCS = {
    "Mapping": (dict, CHAINMAP),
    "MutableMapping": (dict, CHAINMAP),
    "Sequence": (list, tuple, str, range),
    "MutableSequence": (list,),
    "Iterable": (list, tuple, str, dict, set, frozenset, range, VIEWS, ITER),
    "Collection": (list, tuple, str, dict, set, frozenset, range, VIEWS),
    "Container": (list, tuple, str, dict, set, frozenset, range),
    "Set": (set, frozenset),
    "Callable": (FUNCTION, type),
    "Hashable": (str, int, tuple, frozenset),
    "Iterator": (ITER,),
    "Sized": (list, tuple, str, dict, set, frozenset, range, VIEWS),
    "Generator": (ITER,),
}


def native_subclass(ip, t, c):
    if isinstance(c, Top) or isinstance(t, Top):
        raise Undecided("unknown class")
    if isinstance(t, type) and isinstance(c, type):
        return issubclass(t, c)
    if isinstance(c, ExtClass):
        if isinstance(t, ExtClass) and t.name == c.name:
            return True
        base = c.name.rpartition(".")[2]
        if c.name.startswith(("typing.", "collections.abc.")) and base in _ABCS:
            return any(native_subclass(ip, t, x) for x in _ABCS[base])
        if c.name == "numbers.Number":
            return t in (int, float, bool) or t is DECIMAL
        if c.name in ("numbers.Integral",):
            return t in (int, bool)
        if c.name in ("numbers.Real", "numbers.Rational"):
            return t in (int, float, bool)
        if c.name == "typing.Any":
            return True
        if isinstance(t, ExtClass):
            return any(native_subclass(ip, b, c) for b in t.bases)
        if isinstance(t, type) and c.name in ("builtins.object",):
            return True
        return False
    if isinstance(t, ExtClass):
        return any(native_subclass(ip, b, c) for b in t.bases)
    return False


# ---------------------------------------------------------------------------
# attributes of built-in values


def native_attr(ip, o, name):
    if is_str(o):
        return str_method(ip, o, name)
    if name == "__class__":
        return type_of(ip, o)
    if isinstance(o, ADict):
        return dict_method(ip, o, name)
    if isinstance(o, list):
        return list_method(ip, o, name)
    if isinstance(o, tuple):
        if name == "index":
            return Native("tuple.index", lambda i, a, kw: _index(i, o, a[0]))
        if name == "count":
            return Native("tuple.count", lambda i, a, kw: sum(1 for x in o if i.eq(x, a[0])))
        if name == "__len__":
            return Native("tuple.__len__", lambda i, a, kw: len(o))
        if name == "__iter__":
            return Native("tuple.__iter__", lambda i, a, kw: Iter(iter(o)))
    if isinstance(o, ASet):
        return set_method(ip, o, name)
    if isinstance(o, View):
        if name == "isdisjoint":
            return Native(name, lambda i, a, kw: not any(i.contains(o, x) for x in i.iterate(a[0])))
        if name == "__iter__":
            return Native(name, lambda i, a, kw: Iter(iter(o.list())))
        if name == "mapping":
            return o.d
    if isinstance(o, T):
        return number_attr(ip, o, name)
    if isinstance(o, (int, float, decimal.Decimal)) and not isinstance(o, type):
        if isinstance(o, decimal.Decimal) or hasattr(o, name):
            r = getattr(o, name, None)
            if r is None:
                ip.raise_(AttributeError, name)
            if not callable(r):
                return r

            def call(i, a, kw):
                if any(isinstance(x, (T, SStr, Obj)) for x in a):
                    return number_method(i, terms.lift(o), name, a)
                try:
                    return r(*a, **kw)
                except Exception as e:
                    i.raise_(type(e), str(e))

            return Native(f"number.{name}", call)
    if isinstance(o, bytes):
        return Top("bytes")
    if isinstance(o, ExtObj):
        if name in o.attrs:
            v = o.attrs[name]
            if isinstance(v, Native) and v.attrs.get("prop"):
                return v.fn(ip, [], {})
            return v
        if o.cls.name == "argparse.Namespace":
            if name == "__dict__":
                from .cli import namespace_dict

                return namespace_dict(ip, o)
            ip.raise_(AttributeError, f"'Namespace' object has no attribute '{name}'")
        if name == "__dict__":
            return Top("dict of external object")
        if o.cls.name == "lxml.etree._Element" and name not in o.attrs:
            return element_attr(ip, o, name)
        if o.cls is LOGGER:
            return Native(f"log.{name}", lambda i, a, kw: None)
        return Top(f"{o.cls.name}.{name}")
    if isinstance(o, ExtClass):
        return external_class_attr(ip, o, name) or Top(f"{o.name}.{name}")
    if isinstance(o, type):
        v = native_class_attr(ip, o, name)
        if v is not None:
            return v
        no_attribute(ip, o, name, f"type object '{o.__name__}' has no attribute '{name}'")
    if isinstance(o, Iter):
        if name == "__next__":
            return Native("next", lambda i, a, kw: _next(i, o))
        if name == "__iter__":
            return Native("iter", lambda i, a, kw: o)
        if name == "close":
            return Native("close", lambda i, a, kw: o.it.close() if hasattr(o.it, "close") else None)
        if name == "send" and hasattr(o.it, "send"):
            return Native("send", lambda i, a, kw: _step(i, o.it.send, a[0]))
        if name == "throw" and hasattr(o.it, "throw"):
            return Native("throw", lambda i, a, kw: _step(i, o.it.throw, a[0] if isinstance(a[0], ExcVal) or not isinstance(a[0], type) else ExcVal(a[0], ())))
    if isinstance(o, range):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
    if isinstance(o, Desc) and name in ("__doc__",):
        return None
    if o is None or o is NotImplemented:
        no_attribute(ip, o, name, f"'{type(o).__name__}' object has no attribute '{name}'")
    no_attribute(ip, o, name)


def _index(ip, seq, v):
    for n, x in enumerate(seq):
        if ip.eq(x, v):
            return n
    ip.raise_(ValueError, "not in sequence")


def _step(ip, f, x):
    try:
        return f(x)
    except StopIteration:
        ip.raise_(StopIteration)


def _next(ip, it, *default):
    try:
        return next(it.it)
    except StopIteration:
        if default:
            return default[0]
        ip.raise_(StopIteration)


def dict_method(ip, d, name):
    def m(fn):
        return Native(f"dict.{name}", fn)

    def wr(i, k):
        if i.writes is not None:
            i.writes.append((d, k))

    if name == "get":
        def get(i, a, kw):
            j = i.dict_find(d, a[0])
            if j is None and d.kind == "ChainMap":
                try:
                    return i.getitem(d, a[0])
                except AbsRaise:
                    pass
            if j is not None:
                return d.vals[j]
            return a[1] if len(a) > 1 else kw.get("default")

        return m(get)
    if name in ("keys", "values", "items"):
        return m(lambda i, a, kw: View(d, name))
    if name == "pop":
        def pop(i, a, kw):
            j = i.dict_find(d, a[0])
            if j is None:
                if len(a) > 1:
                    return a[1]
                raise AbsRaise(ExcVal(KeyError, (a[0],)))
            return i.dict_del(d, a[0])

        return m(pop)
    if name == "popitem":
        def popitem(i, a, kw):
            live = d.live()
            if not live:
                i.raise_(KeyError, "dictionary is empty")
            k, v = live[-1]
            i.dict_del(d, k)
            return (k, v)

        return m(popitem)
    if name == "setdefault":
        def setdefault(i, a, kw):
            j = i.dict_find(d, a[0])
            if j is not None:
                return d.vals[j]
            v = a[1] if len(a) > 1 else None
            i.dict_set(d, a[0], v)
            return v

        return m(setdefault)
    if name == "update":
        def update(i, a, kw):
            for s in a:
                if d.kind == "Counter":
                    counter_update(i, d, s, 1)
                    continue
                for k, v in i.dict_items(s):
                    i.dict_set(d, k, v)
            for k, v in kw.items():
                i.dict_set(d, k, v)

        return m(update)
    if name == "subtract" and d.kind == "Counter":
        return m(lambda i, a, kw: counter_update(i, d, a[0], -1))
    if name == "copy":
        def copy(i, a, kw):
            out = ADict(d.kind)
            out.default = d.default
            for k, v in d.live():
                i.dict_set(out, k, v)
            return out

        return m(copy)
    if name == "clear":
        def clear(i, a, kw):
            wr(i, None)
            if d.owner is not None:
                i._attributes(d.owner).clear()
            d.keys.clear(), d.vals.clear(), d.index.clear()
            d.loose = []
            d.buckets = {}

        return m(clear)
    if name == "fromkeys":
        def fromkeys(i, a, kw):
            out = ADict()
            for k in i.iterate(a[0]):
                i.dict_set(out, k, a[1] if len(a) > 1 else None)
            return out

        return m(fromkeys)
    if name == "__contains__":
        return m(lambda i, a, kw: i.contains(d, a[0]))
    if name == "__getitem__":
        return m(lambda i, a, kw: i.getitem(d, a[0]))
    if name == "__setitem__":
        return m(lambda i, a, kw: i.dict_set(d, a[0], a[1]))
    if name == "__delitem__":
        return m(lambda i, a, kw: i.dict_del(d, a[0]))
    if name == "__len__":
        return m(lambda i, a, kw: len(d))
    if name == "__iter__":
        return m(lambda i, a, kw: Iter(i.iterate(d)))
    if name == "__eq__":
        return m(lambda i, a, kw: i.eq_value(d, a[0]))
    if name == "__init__":
        def init(i, a, kw):
            for k, v in i.dict_items(a[0]) if a else ():
                i.dict_set(d, k, v)
            for k, v in kw.items():
                i.dict_set(d, k, v)

        return m(init)
    if name == "move_to_end":
        def mte(i, a, kw):
            v = i.dict_del(d, a[0])
            i.dict_set(d, a[0], v)

        return m(mte)
    if name == "most_common":
        def most_common(i, a, kw):
            import ast
            import functools

            def cmp(x, y):
                return 0 if i.eq(x[1], y[1]) else 1 if i.truth(i.compare(ast.Lt(), x[1], y[1])) else -1

            n = a[0] if a else kw.get("n")
            return sorted([(k, v) for k, v in d.live()], key=functools.cmp_to_key(cmp))[:n]

        return m(most_common)
    if name == "elements":
        raise Undecided(f"Counter.{name}")
    if name == "new_child":
        raise Undecided("ChainMap.new_child")
    if name == "default_factory":
        return d.default
    no_attribute(ip, d, name)


def counter_update(ip, d, src, sign):
    items = src.live() if isinstance(src, ADict) else [(k, 1) for k in ip.iterate(src)]
    import ast

    for k, v in items:
        j = ip.dict_find(d, k)
        old = d.vals[j] if j is not None else 0
        ip.dict_set(d, k, ip.binop(ast.Add() if sign > 0 else ast.Sub(), old, v))


def list_method(ip, o, name):
    def m(fn):
        return Native(f"list.{name}", fn)

    if name == "append":
        return m(lambda i, a, kw: o.append(a[0]))
    if name == "extend":
        return m(lambda i, a, kw: o.extend(list(i.iterate(a[0]))))
    if name == "insert":
        return m(lambda i, a, kw: o.insert(a[0], a[1]))
    if name == "pop":
        def pop(i, a, kw):
            try:
                return o.pop(*a)
            except IndexError as e:
                i.raise_(IndexError, str(e))

        return m(pop)
    if name == "remove":
        def remove(i, a, kw):
            for n, x in enumerate(o):
                if x is a[0] or i.eq(x, a[0]):
                    del o[n]
                    return None
            i.raise_(ValueError, "list.remove(x): x not in list")

        return m(remove)
    if name == "index":
        return m(lambda i, a, kw: _index(i, o, a[0]))
    if name == "count":
        return m(lambda i, a, kw: sum(1 for x in o if i.eq(x, a[0])))
    if name == "copy":
        return m(lambda i, a, kw: list(o))
    if name == "clear":
        return m(lambda i, a, kw: o.clear())
    if name == "reverse":
        return m(lambda i, a, kw: o.reverse())
    if name == "sort":
        def sort(i, a, kw):
            o[:] = do_sorted(i, o, kw.get("key"), kw.get("reverse", False))

        return m(sort)
    if name == "__len__":
        return m(lambda i, a, kw: len(o))
    if name == "__iter__":
        return m(lambda i, a, kw: Iter(i.iterate(o)))
    if name == "__contains__":
        return m(lambda i, a, kw: i.contains(o, a[0]))
    if name == "__getitem__":
        return m(lambda i, a, kw: i.getitem(o, a[0]))
    if name in ("popleft", "appendleft", "rotate", "extendleft"):  # deque
        if name == "popleft":
            def popleft(i, a, kw):
                if not o:
                    i.raise_(IndexError, "pop from an empty deque")
                return o.pop(0)

            return m(popleft)
        if name == "appendleft":
            return m(lambda i, a, kw: o.insert(0, a[0]))
        raise Undecided(f"deque.{name}")
    no_attribute(ip, o, name)


def set_method(ip, s, name):
    import ast

    def m(fn):
        return Native(f"set.{name}", fn)

    if name == "add":
        return m(lambda i, a, kw: i.set_add(s, a[0]))
    if name in ("discard", "remove"):
        def rem(i, a, kw):
            if i.dict_find(s.d, a[0]) is None:
                if name == "remove":
                    raise AbsRaise(ExcVal(KeyError, (a[0],)))
                return None
            i.dict_del(s.d, a[0])

        return m(rem)
    if name == "update":
        def update(i, a, kw):
            for x in a:
                for v in i.iterate_raw(x):
                    i.set_add(s, v)

        return m(update)
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        op = {"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub, "symmetric_difference": ast.BitXor}[name]()

        def setop(i, a, kw):
            r = s
            if not a:
                return i.binop(ast.BitOr(), s, ASet())
            for x in a:
                if not isinstance(x, ASet):
                    y = ASet()
                    for v in i.iterate(x):
                        i.set_add(y, v)
                    x = y
                r = i.binop(op, r, x)
            return r

        return m(setop)
    if name == "copy":
        def copy(i, a, kw):
            return i.binop(ast.BitOr(), s, ASet())

        return m(copy)
    if name == "pop":
        def pop(i, a, kw):
            xs = s.items()
            if not xs:
                i.raise_(KeyError, "pop from an empty set")
            x = i.set_order(s)[0]
            i.dict_del(s.d, x)
            return x

        return m(pop)
    if name == "clear":
        return m(lambda i, a, kw: setattr(s, "d", ADict("set")))
    if name in ("issubset", "issuperset", "isdisjoint"):
        def rel(i, a, kw):
            xs = s.items()
            ys = list(i.iterate_raw(a[0]))
            inn = lambda v, vs: any(i.eq(v, w) for w in vs)  # noqa
            if name == "issubset":
                return all(inn(x, ys) for x in xs)
            if name == "issuperset":
                return all(inn(y, xs) for y in ys)
            return not any(inn(x, ys) for x in xs)

        return m(rel)
    if name == "__contains__":
        return m(lambda i, a, kw: i.contains(s, a[0]))
    if name == "__len__":
        return m(lambda i, a, kw: len(s))
    if name == "__iter__":
        return m(lambda i, a, kw: Iter(i.iterate(s)))
    no_attribute(ip, s, name)


def number_attr(ip, t, name):
    if t.ty == "sympy":
        return sympy_attr(ip, t, name)
    if name in ("real", "numerator"):
        return t
    if name == "imag":
        return 0
    return Native(f"number.{name}", lambda i, a, kw: number_method(i, t, name, a))


def number_method(ip, t, name, a):
    import ast

    ops = {
        "__add__": ast.Add, "__sub__": ast.Sub, "__mul__": ast.Mult, "__truediv__": ast.Div, "__pow__": ast.Pow,
    }
    if name in ops:
        return ip.num_op(ops[name], t, a[0])
    if name == "__neg__":
        return terms.neg(t)
    if name == "__str__":
        return text_of_number(ip, t)
    if name == "__format__":
        return ip.format(t, a[0])
    if name == "is_integer":
        return ip.decide("==", t, T("trunc", (t,), t.ty))
    if name in ("normalize", "__trunc__", "to_integral_value", "conjugate", "quantize"):
        if name in ("normalize", "conjugate"):
            return t
        return T("trunc", (t,), t.ty)
    return Top(f"number.{name}")


# ---------------------------------------------------------------------------
# classes


def native_class_attr(ip, k, name):
    """Attributes of built-in classes as seen through a class (unbound)."""
    if k is object:
        if name == "__new__":
            return Native("object.__new__", lambda i, a, kw: i.new_object(a[0]))
        if name in ("__setattr__", "__init__", "__hash__", "__eq__", "__repr__", "__str__"):
            return object_class_attr(ip, k, name)
        if name == "__getattribute__":
            return Native("object.__getattribute__", lambda i, a, kw: i.getattr(a[0], a[1]))
        if name == "__delattr__":
            return Native("object.__delattr__", lambda i, a, kw: i.delattr(a[0], a[1]))
        return "object" if name in ("__name__", "__qualname__") else None
    if issubclass(k, BaseException):
        if name == "__str__" or name == "__repr__" or name == "__init__" or name == "__eq__" or name == "__hash__":
            return None
        if name == "__name__":
            return k.__name__
        return None
    if name == "__name__" or name == "__qualname__":
        return k.__name__
    if k is dict and name == "fromkeys":
        return dict_method(ip, ADict(), "fromkeys")
    if k is object and name == "__new__":
        return None
    if name == "__new__":
        def new(i, a, kw):
            c = a[0]
            o = i.new_object(c)
            if o.native is not None:
                o.native = call_type(i, k, a[1:], kw)
            return o

        return Native(f"{k.__name__}.__new__", new)
    if name in ("__init__", "__eq__", "__hash__", "__repr__", "__str__", "__len__", "__iter__", "__contains__",
                "__getitem__", "__setitem__", "__bool__", "__ne__", "__call__", "__get__", "__format__",
                "__getattr__", "__setattr__"):
        return None
    if k is str and name == "maketrans" or k is int and name == "from_bytes":

        def static(i, a, kw):
            if any(isinstance(x, ADict) for x in a):
                a = [{kk: v for kk, v in x.live()} if isinstance(x, ADict) else x for x in a]
            if kw or not all(isinstance(x, (str, bytes, dict)) for x in a):
                raise Undecided(name)
            try:
                r = getattr(k, name)(*a)
            except (TypeError, ValueError) as e:
                i.raise_(type(e), str(e))
            if isinstance(r, dict):
                d = ADict()
                for kk, v in r.items():
                    i.dict_set(d, kk, v)
                return d
            return r

        return Native(f"{k.__name__}.{name}", static)
    if hasattr(k, name) and k in (str, dict, list, set, tuple, int, float, frozenset):
        def unbound(i, a, kw):
            return i.call(native_attr(i, a[0], name), list(a[1:]), kw)

        n = Native(f"{k.__name__}.{name}", unbound)
        return n
    return None


def object_attr(ip, o, name):
    """Default attributes of an instance."""
    if name == "__repr__" or name == "__str__":
        return Native(name, lambda i, a, kw: i.repr(o))
    if name == "__hash__":
        return Native(name, lambda i, a, kw: i.hash_of(o))
    if name == "__eq__":
        return Native(name, lambda i, a, kw: True if a[0] is o else NotImplemented)
    if name == "__init__":
        return Native(name, lambda i, a, kw: None)
    if name == "__setattr__":
        return Native(name, lambda i, a, kw: o.fields.__setitem__(a[0], a[1]))
    if any(isinstance(k, type) and issubclass(k, BaseException) for k in o.cls.mro):
        if name == "args":
            return tuple(o.fields.get("args", ()))
        if name in ("__cause__", "__context__", "__traceback__"):
            return None
        if name == "with_traceback":
            return Native(name, lambda i, a, kw: o)
        if name == "add_note":
            return Native(name, lambda i, a, kw: None)
    return None


def object_class_attr(ip, c, name):
    if name == "__new__":
        return Native("object.__new__", lambda i, a, kw: i.new_object(a[0]))
    if name == "__init__":
        return Native("object.__init__", lambda i, a, kw: None)
    if name == "__setattr__":
        return OBJECT_SETATTR
    if name == "__hash__":
        return Native("object.__hash__", lambda i, a, kw: i.hash_of(a[0]))
    if name == "__eq__":
        return Native("object.__eq__", lambda i, a, kw: True if a[0] is a[1] else NotImplemented)
    if name in ("__str__", "__repr__"):
        return Native("object.__repr__", lambda i, a, kw: i.repr(a[0]))
    if name == "mro":
        return Native("mro", lambda i, a, kw: list(c.mro))
    if name == "__subclasses__":
        raise Undecided("__subclasses__")
    if name == "register":
        return Native("register", lambda i, a, kw: a[0])
    return None


def _object_setattr(i, a, kw):
    o, n, v = a
    if isinstance(o, Obj):
        if i.writes is not None:
            i.writes.append((o, n))
        o.fields[n] = v
    else:
        i.setattr(o, n, v)


OBJECT_SETATTR = Native("object.__setattr__", _object_setattr)


def object_super_attr(ip, obj, c, name):
    if name == "__init__":
        def init(i, a, kw):
            return None

        return Native("object.__init__", init)
    if name == "__new__":
        return Native("object.__new__", lambda i, a, kw: i.new_object(a[0]))
    if name == "__setattr__":
        return Native("object.__setattr__", lambda i, a, kw: _object_setattr(i, [obj, *a], kw))
    if name == "__init_subclass__":
        return Native(name, lambda i, a, kw: None)
    if name in ("__repr__", "__str__", "__format__"):
        return Native(name, lambda i, a, kw: mkstr(f"<{c.name} object>"))
    if name == "__eq__":
        return Native(name, lambda i, a, kw: True if a[0] is obj else NotImplemented)
    if name == "__hash__":
        return Native(name, lambda i, a, kw: T("id", (id(obj),), "int"))
    if name == "__getattribute__":
        return Native(name, lambda i, a, kw: i.getattr(obj, a[0]))
    return None


def call_type(ip, t, args, kw):
    if t is type:
        if len(args) == 1:
            return ip.type_of(args[0])
        raise Undecided("dynamic class creation")
    if t is str:
        return ip.str(args[0]) if args else ""
    if t is int:
        if not args:
            return 0
        v = args[0]
        if is_str(v):
            if isinstance(v, str):
                try:
                    return int(*[v, *args[1:]])
                except (ValueError, TypeError) as e:
                    ip.raise_(type(e), str(e))
            if len(args) > 1 and args[1] != 10:
                raise Undecided("int with base")
            return number_of_text(ip, v, "int")
        if isinstance(v, T):
            if v.ty == "int":
                return v
            return T("trunc", (v,), "int")
        if isinstance(v, (int, float, decimal.Decimal)):
            try:
                return int(v)
            except (ValueError, OverflowError) as e:
                ip.raise_(type(e), str(e))
        if isinstance(v, Top):
            return v
        if isinstance(v, Obj):
            for n in ("__int__", "__index__", "__trunc__"):
                m = ip.type_method(v, n)
                if m is not None:
                    return ip.call(m, [], {})
            if v.native is not None:
                return call_type(ip, t, [v.native, *args[1:]], kw)
        ip.raise_(TypeError, f"int() argument must be a string or a number, not '{ip.type_name(v)}'")
    if t is float:
        if not args:
            return 0.0
        v = args[0]
        if is_str(v):
            return number_of_text(ip, v, "float")
        if isinstance(v, T):
            if v.ty == "Decimal":
                return T("float_of", (v,), "float")
            return terms.retype(v, "float")
        if isinstance(v, (int, float, decimal.Decimal, Fraction)):
            return float(v)
        if isinstance(v, Top):
            return v
        ip.raise_(TypeError, "float() argument must be a string or a real number")
    if t is bool:
        return ip.truth(args[0]) if args else False
    if t is list:
        return list(ip.iterate(args[0])) if args else []
    if t is tuple:
        return tuple(ip.iterate(args[0])) if args else ()
    if t is dict:
        d = ADict()
        if args:
            for k, v in ip.dict_items(args[0]):
                ip.dict_set(d, k, v)
        for k, v in kw.items():
            ip.dict_set(d, k, v)
        return d
    if t in (set, frozenset):
        s = ASet(frozen=t is frozenset)
        if args:
            for v in ip.iterate_raw(args[0]):
                ip.set_add(s, v)
        return s
    if t is object:
        return ExtObj(ExtClass("object"))
    if issubclass(t, BaseException):
        return ExcVal(t, args)
    if t is property:
        return Desc("property", args[0] if args else kw.get("fget"), args[1] if len(args) > 1 else None)
    if t is classmethod:
        return Desc("classmethod", args[0])
    if t is staticmethod:
        return Desc("staticmethod", args[0])
    if t is range:
        if any(isinstance(a, T) for a in args):
            raise Undecided("range with an unknown bound")
        try:
            return range(*args)
        except TypeError as e:
            ip.raise_(TypeError, str(e))
    if t is enumerate:
        n = args[1] if len(args) > 1 else kw.get("start", 0)

        def gen():
            k = n
            for v in ip.iterate(args[0]):
                yield (k, v)
                k += 1

        return Iter(gen())
    if t is zip:
        strict = kw.get("strict", False)

        def gen():
            its = [iter(ip.iterate(a)) for a in args]
            while its:
                row = []
                for n, it in enumerate(its):
                    try:
                        row.append(next(it))
                    except StopIteration:
                        if strict and (n > 0 or any(next(x, None) is not None for x in its[1:])):
                            ip.raise_(ValueError, "zip() argument lengths differ")
                        return
                yield tuple(row)

        return Iter(gen())
    if t is map:
        def gen():
            for row in call_type(ip, zip, args[1:], {}).it:
                yield ip.call(args[0], list(row), {})

        return Iter(gen())
    if t is filter:
        def gen():
            for v in ip.iterate(args[1]):
                if ip.truth(v if args[0] is None else ip.call(args[0], [v], {})):
                    yield v

        return Iter(gen())
    if t is reversed:
        v = args[0]
        if isinstance(v, Obj):
            m = ip.type_method(v, "__reversed__")
            if m is not None:
                return ip.call(m, [], {})
        return Iter(iter(list(ip.iterate(v))[::-1]))
    if t is slice:
        a = list(args)
        if len(a) == 1:
            a = [None, a[0]]
        return SliceV(*(a + [None])[:3])
    if t is super:
        return Super(args[0], args[1])
    if t is bytes:
        return Top("bytes")
    if t is Fraction or t is complex:
        return Top(t.__name__)
    raise Undecided(f"call of {t}")


def do_sorted(ip, items, key=None, reverse=False):
    import ast
    import functools

    items = list(items)
    keyed = [(x if key is None else ip.call(key, [x], {}), x) for x in items]

    def cmp(a, b):
        if ip.truth(ip.order(ast.Lt, a[0], b[0])):
            return -1
        if ip.truth(ip.order(ast.Lt, b[0], a[0])):
            return 1
        return 0

    keyed.sort(key=functools.cmp_to_key(cmp), reverse=ip.truth(reverse))
    return [x for _, x in keyed]


# ---------------------------------------------------------------------------
# built-in functions


def setup(ip):
    b = {}
    for t in (
        int, str, float, bool, list, tuple, dict, set, frozenset, object, type, property, classmethod, staticmethod,
        range, enumerate, zip, map, filter, reversed, slice, super, bytes, complex,
    ):
        b[t.__name__] = t
    b.update(_EXCS)
    b["None"], b["True"], b["False"] = None, True, False
    b["NotImplemented"], b["Ellipsis"] = NotImplemented, Ellipsis
    b["__debug__"] = True

    def reg(name):
        def deco(fn):
            b[name] = Native(name, fn)
            return fn

        return deco

    @reg("len")
    def _len(i, a, kw):
        v = a[0]
        if is_str(v):
            return text_len(v)
        if isinstance(v, (list, tuple, range, ADict, ASet)):
            return len(v)
        if isinstance(v, View):
            return len(v.d)
        if isinstance(v, Obj):
            m = i.type_method(v, "__len__")
            if m is not None:
                return i.call(m, [], {})
            if v.native is not None:
                return _len(i, [v.native], {})
        if isinstance(v, ExtObj) and "len" in v.attrs:
            return v.attrs["len"](i)
        if type(v).__name__ == "ClassInfo" and "_enum_members_" in v.attrs:
            return len(v.attrs["_enum_members_"])
        if isinstance(v, Top):
            return v
        i.raise_(TypeError, f"object of type '{i.type_name(v)}' has no len()")

    reg("isinstance")(lambda i, a, kw: i.isinstance(a[0], a[1]))
    reg("issubclass")(lambda i, a, kw: i.subclass(a[0], a[1]))

    @reg("getattr")
    def _getattr(i, a, kw):
        if not isinstance(a[1], str):
            if isinstance(a[1], SStr):
                if len(a) > 2:
                    return a[2]
                i.raise_(AttributeError, a[1])
            i.raise_(TypeError, "attribute name must be string")
        if len(a) > 2:
            return i.getattr_or(a[0], a[1], a[2])
        return i.getattr(a[0], a[1])

    reg("hasattr")(lambda i, a, kw: i.hasattr(a[0], a[1]))
    reg("setattr")(lambda i, a, kw: i.setattr(a[0], a[1], a[2]))

    @reg("delattr")
    def _delattr(i, a, kw):
        i.delattr(a[0], a[1])

    reg("repr")(lambda i, a, kw: i.repr(a[0]))
    reg("ascii")(lambda i, a, kw: i.repr(a[0]))
    reg("format")(lambda i, a, kw: i.format(a[0], a[1] if len(a) > 1 else ""))
    reg("id")(lambda i, a, kw: id(a[0]))
    reg("hash")(lambda i, a, kw: i.hash_of(a[0]))
    reg("callable")(
        lambda i, a, kw: isinstance(a[0], (Func, Native, Bound, type, ExtClass))
        or type(a[0]).__name__ == "ClassInfo"
        or (isinstance(a[0], Obj) and i.class_attr(a[0].cls, "__call__") is not None)
    )

    @reg("print")
    def _print(i, a, kw):
        sep = kw.get("sep")
        sep = " " if sep is None else sep
        end = kw.get("end")
        end = "\n" if end is None else end
        out = []
        for n, x in enumerate(a):
            if n:
                out.append(sep)
            out.append(i.str(x))
        f = kw.get("file")
        target = i.stderr if isinstance(f, ExtObj) and f.attrs.get("name") == "<stderr>" else i.output
        target.append(mkstr(*out, end))

    @reg("iter")
    def _iter(i, a, kw):
        if len(a) == 2:
            def gen():
                while True:
                    v = i.call(a[0], [], {})
                    if i.eq(v, a[1]):
                        return
                    yield v

            return Iter(gen())
        if isinstance(a[0], Iter):
            return a[0]
        if isinstance(a[0], Obj):
            m = i.type_method(a[0], "__iter__")
            if m is not None:
                return i.call(m, [], {})
        return Iter(iter(i.iterate(a[0])))

    @reg("next")
    def _nxt(i, a, kw):
        if isinstance(a[0], Iter):
            return _next(i, a[0], *a[1:])
        if isinstance(a[0], Obj):
            try:
                return i.call(i.getattr(a[0], "__next__"), [], {})
            except AbsRaise as e:
                if len(a) > 1 and i.exc_matches(e.exc, StopIteration):
                    return a[1]
                raise
        i.raise_(TypeError, f"'{i.type_name(a[0])}' object is not an iterator")

    reg("any")(lambda i, a, kw: any(i.truth(x) for x in i.iterate(a[0])))
    reg("all")(lambda i, a, kw: all(i.truth(x) for x in i.iterate(a[0])))

    @reg("sum")
    def _sum(i, a, kw):
        import ast

        r = a[1] if len(a) > 1 else kw.get("start", 0)
        for x in i.iterate(a[0]):
            r = i.binop(ast.Add(), r, x)
        return r

    @reg("sorted")
    def _sorted(i, a, kw):
        items = list(i.iterate_raw(a[0]))
        return do_sorted(i, items, kw.get("key"), kw.get("reverse", False))

    def minmax(which):
        def f(i, a, kw):
            import ast

            items = list(i.iterate(a[0])) if len(a) == 1 else list(a)
            if not items:
                if "default" in kw:
                    return kw["default"]
                i.raise_(ValueError, f"{which}() arg is an empty sequence")
            key = kw.get("key")
            best = items[0]
            bk = best if key is None else i.call(key, [best], {})
            for x in items[1:]:
                k = x if key is None else i.call(key, [x], {})
                lt = i.order(ast.Lt, k, bk) if which == "min" else i.order(ast.Lt, bk, k)
                if i.truth(lt):
                    best, bk = x, k
            return best

        return f

    reg("min")(minmax("min"))
    reg("max")(minmax("max"))

    @reg("abs")
    def _abs(i, a, kw):
        v = a[0]
        if isinstance(v, T):
            if v.op == "const":
                return terms.T("const", (abs(v.args[0]),), v.ty)
            if v.ty == "sympy":
                return T("abs", (v,), "sympy")
            return v if i.decide("<=", 0, v) else terms.neg(v)
        return abs(v)

    @reg("round")
    def _round(i, a, kw):
        v = a[0]
        if isinstance(v, T):
            return T("round", tuple(terms.lift(x) for x in a), v.ty if len(a) > 1 else "int")
        return round(*a)

    @reg("pow")
    def _pow(i, a, kw):
        import ast

        if len(a) > 2:
            if not all(isinstance(x, int) for x in a):
                raise Undecided("pow with a modulus")
            return pow(*a)
        return i.binop(ast.Pow(), a[0], a[1])

    @reg("divmod")
    def _divmod(i, a, kw):
        import ast

        return (i.binop(ast.FloorDiv(), *a), i.binop(ast.Mod(), *a))

    reg("ord")(lambda i, a, kw: ord(a[0]) if isinstance(a[0], str) else Top("ord"))
    reg("chr")(lambda i, a, kw: chr(a[0]) if isinstance(a[0], int) else Top("chr"))
    for _f in (hex, bin, oct):
        reg(_f.__name__)(lambda i, a, kw, f=_f: f(a[0]) if isinstance(a[0], int) else Top("digits"))
    reg("__import__")(lambda i, a, kw: i.import_module(a[0]))
    reg("vars")(lambda i, a, kw: i.getattr(a[0], "__dict__"))
    reg("dir")(lambda i, a, kw: Top("dir"))
    reg("open")(lambda i, a, kw: Top("open file"))
    reg("input")(lambda i, a, kw: Top("input"))
    reg("globals")(lambda i, a, kw: Top("globals"))
    reg("locals")(lambda i, a, kw: Top("locals"))
    reg("eval")(lambda i, a, kw: Top("eval"))
    reg("exec")(lambda i, a, kw: Top("exec"))
    ip.builtins = b


# ---------------------------------------------------------------------------
# external modules

_EXT = {}


def ext(mod):
    return _EXT.setdefault(mod, {})


def external_module(ip, name):
    return ExtModule(name)


def external_attr(ip, m, name):
    ov = ip.extern.get(m.name)
    if ov is not None and name in ov:
        return ov[name]
    t = _EXT.get(m.name)
    if t is not None and name in t:
        v = t[name]
        return v(ip) if getattr(v, "dynamic", False) else v
    full = f"{m.name}.{name}"
    if full in _EXT or full in ("collections.abc", "sympy.core", "sympy.core.expr", "os.path", "lxml.etree",
                                "sympy.parsing", "sympy.parsing.sympy_parser", "xml.etree", "xml.etree.ElementTree"):
        return ExtModule(full)
    if m.name in ("typing", "collections.abc", "typing_extensions", "types", "numbers", "abc"):
        return ExtClass(f"{'typing' if m.name == 'typing_extensions' else m.name}.{name}")
    if name == "__name__":
        return m.name
    return Top(full)


def external_class_attr(ip, k, name):
    if isinstance(k, ExtModule):
        return None
    if isinstance(k, ExtClass) and k.name in _CLASS_ATTRS and name in _CLASS_ATTRS[k.name]:
        return _CLASS_ATTRS[k.name][name]
    for b in getattr(k, "bases", ()):
        if b is dict:
            v = native_class_attr(ip, dict, name)
            if v is not None:
                return v
    if name == "__name__" and isinstance(k, ExtClass):
        return k.name.rpartition(".")[2]
    return None


_CLASS_ATTRS: dict = {}


def N(name, fn):
    return Native(name, fn)


def ident_deco(i, a, kw):
    return a[0]


# -- typing ------------------------------------------------------------------
ty = ext("typing")
ty["TYPE_CHECKING"] = False
ty["cast"] = N("cast", lambda i, a, kw: a[1])
for _n in ("overload", "no_type_check", "runtime_checkable", "final"):
    ty[_n] = N(_n, ident_deco)
ty["TypeVar"] = N("TypeVar", lambda i, a, kw: ExtClass("typing.TypeVar"))
ty["NewType"] = N("NewType", lambda i, a, kw: N("NewType", lambda i2, b, k2: b[0]))
ty["assert_never"] = N("assert_never", lambda i, a, kw: i.raise_(AssertionError, "unreachable"))
ext("typing_extensions").update(ty)

# -- abc -----------------------------------------------------------------------


def _abstractmethod(i, a, kw):
    f = a[0].fget if isinstance(a[0], Desc) else a[0]
    if isinstance(f, Func):
        f.attrs["__isabstractmethod__"] = True
    return a[0]


def abstract_names(ip, c):
    """The abstract methods of a class with the metaclass ABCMeta which are left."""
    if not any(getattr(k, "name", "") == "abc.ABC" and not isinstance(k, type) for k in c.mro):
        return []
    out = []
    for n in {n: None for k in c.mro if hasattr(k, "meta") for n in k.attrs}:
        v = ip.class_attr(c, n)[0]
        f = v.fget if isinstance(v, Desc) else v
        if isinstance(f, Func) and f.attrs.get("__isabstractmethod__"):
            out.append(n)
    return sorted(out)


ext("abc")["abstractmethod"] = N("abstractmethod", _abstractmethod)
ext("abc")["ABC"] = ExtClass("abc.ABC")

# -- logging ---------------------------------------------------------------------
ext("logging")["getLogger"] = N("getLogger", lambda i, a, kw: ExtObj(LOGGER))

# -- warnings
ext("warnings")["warn"] = N("warn", lambda i, a, kw: None)


# -- decimal / fractions -----------------------------------------------------------
def make_decimal(i, a, kw):
    if not a:
        return decimal.Decimal(0)
    v = a[0]
    if is_str(v):
        return number_of_text(i, v, "Decimal")
    if isinstance(v, T):
        return terms.retype(v, "Decimal")
    if isinstance(v, (int, float, decimal.Decimal)):
        return decimal.Decimal(v)
    if isinstance(v, Top):
        return v
    i.raise_(TypeError, "conversion to Decimal is not supported")


DECIMAL.make = make_decimal
ext("decimal")["Decimal"] = DECIMAL
ext("decimal")["InvalidOperation"] = decimal.InvalidOperation
ext("decimal")["DecimalException"] = decimal.DecimalException
ext("unicodedata")["normalize"] = None


def _normalize(i, a, kw):
    form, s = a
    if isinstance(s, str):
        return unicodedata.normalize(form, s)
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.append(unicodedata.normalize(form, p))
        elif p.kind == "supexp" and form in ("NFKC", "NFKD"):
            # superscript digits become digits (the sign has its own part)
            out.append(Atom(p.payload, "intlit"))
        elif p.kind in ("intlit", "declit", "num"):
            out.append(p)
        else:
            out.append(Atom(f"{form}({p.name})", p.kind, ("norm", form, p)))
    return mkstr(*out)


ext("unicodedata")["normalize"] = N("normalize", _normalize)

# -- enum ------------------------------------------------------------------------------
ENUM = ExtClass("enum.Enum")
_ENUM_NATIVE = {"IntEnum": int, "StrEnum": str, "IntFlag": int}
_AUTO = ExtClass("enum.auto")
_AUTO.make = lambda i, a, kw: ExtObj(_AUTO)
for _n in ("Enum", "IntEnum", "StrEnum", "Flag", "IntFlag"):
    ext("enum")[_n] = ENUM if _n == "Enum" else ExtClass("enum." + _n)
ext("enum")["auto"] = _AUTO


def is_enum_class(c):
    return any(isinstance(k, ExtClass) and k.name.startswith("enum.") for k in c.mro)


def enum_bases(bases):
    """The bases of an enumeration, with the native type of IntEnum and the like."""
    out = []
    for b in bases:
        t = _ENUM_NATIVE.get(b.name[5:]) if isinstance(b, ExtClass) and b.name.startswith("enum.") else None
        out += [t, b] if t else [b]
    return out


def _bound(name, fn):
    f = Native(name, fn)
    f.attrs["bind"] = True
    return f


def make_enum(ip, c):
    from .interp import ClassInfo

    kind = next(k.name[5:] for k in c.mro if isinstance(k, ExtClass) and k.name.startswith("enum."))
    if kind in ("Flag", "IntFlag"):
        raise Undecided(f"enum.{kind}")
    if ip.class_attr(c, "__new__") and isinstance(ip.class_attr(c, "__new__")[1], ClassInfo):
        raise Undecided("an enumeration with its own __new__")
    names, values = ADict(), ADict()
    members = []
    last = 0
    for k, v in list(c.attrs.items()):
        if k.startswith("_") or isinstance(v, (Func, Desc, Native)):
            continue
        if isinstance(v, ExtObj) and v.cls is _AUTO:
            v = k.lower() if kind == "StrEnum" else last + 1
        if isinstance(v, int):
            last = v
        m = next((m for m in members if ip.eq(m.fields["_value_"], v)), None)
        if m is None:
            m = ip.new_object(c)
            m.fields.update(name=k, value=v, _name_=k, _value_=v)
            if m.native is not None:
                m.native = v
            init = ip.class_attr(c, "__init__")
            if init is not None and isinstance(init[1], ClassInfo):
                ip.call(ip.bind_attr(init[0], m, c), list(v) if isinstance(v, tuple) else [v], {})
            members.append(m)
            try:
                ip.dict_set(values, v, m)
            except AbsRaise:
                pass
        c.attrs[k] = m
        ip.dict_set(names, k, m)
    c.attrs["__members__"] = names
    c.attrs["_value2member_map_"] = values
    c.attrs["_enum_members_"] = members
    if kind not in ("IntEnum", "StrEnum"):
        for n in ("__str__", "__format__"):
            f = ip.class_attr(c, n)
            if f is None or not isinstance(f[1], ClassInfo):
                c.attrs[n] = _bound(n, lambda i, a, kw: f"{c.name}.{a[0].fields['_name_']}")
    if not (ip.class_attr(c, "__repr__") and isinstance(ip.class_attr(c, "__repr__")[1], ClassInfo)):
        c.attrs["__repr__"] = _bound("__repr__", lambda i, a, kw: mkstr(f"<{c.name}.{a[0].fields['_name_']}: ", i.repr(a[0].fields["_value_"]), ">"))


def enum_lookup(ip, c, args, kw):
    if len(args) != 1 or kw:
        raise Undecided(f"call of the enumeration {c.name}")
    for m in c.attrs["_enum_members_"]:
        if args[0] is m or ip.eq(m.fields["_value_"], args[0]):
            return m
    f = ip.class_attr(c, "_missing_")
    if f is not None:
        m = ip.call(ip.getattr(c, "_missing_"), [args[0]], {})
        if m is not None:
            return m
    ip.raise_(ValueError, mkstr(ip.repr(args[0]), f" is not a valid {c.name}"))


# -- io.StringIO -----------------------------------------------------------------------
STRINGIO = ExtClass("io.StringIO")


def _stringio(i, a, kw):
    buf = [a[0]] if a and is_str(a[0]) else []

    def write(i2, b, k2):
        if not is_str(b[0]):
            if isinstance(b[0], Top):
                raise Undecided(f"write of {show(b[0])}")
            i2.raise_(TypeError, "string argument expected")
        buf.append(b[0])
        return len(b[0]) if isinstance(b[0], str) else Top("length of text")

    o = ExtObj(
        STRINGIO,
        write=N("write", write),
        writelines=N("writelines", lambda i2, b, k2: [write(i2, [x], {}) for x in i2.iterate(b[0])] and None),
        getvalue=N("getvalue", lambda i2, b, k2: mkstr(*buf)),
        close=N("close", lambda i2, b, k2: None),
        __exit__=N("__exit__", lambda i2, b, k2: None),
    )
    o.attrs["__enter__"] = N("__enter__", lambda i2, b, k2: o)
    return o


STRINGIO.make = _stringio
ext("io")["StringIO"] = STRINGIO

# -- operator ------------------------------------------------------------------------
import ast as _ast  # noqa: E402

for _n, _o in (
    ("add", _ast.Add), ("sub", _ast.Sub), ("mul", _ast.Mult), ("truediv", _ast.Div), ("pow", _ast.Pow),
    ("mod", _ast.Mod), ("floordiv", _ast.FloorDiv), ("or_", _ast.BitOr), ("and_", _ast.BitAnd),
):
    ext("operator")[_n] = N(_n, lambda i, a, kw, o=_o: i.binop(o(), a[0], a[1]))
for _n, _o in (("eq", _ast.Eq), ("ne", _ast.NotEq), ("lt", _ast.Lt), ("le", _ast.LtE), ("gt", _ast.Gt), ("ge", _ast.GtE)):
    ext("operator")[_n] = N(_n, lambda i, a, kw, o=_o: i.compare(o(), a[0], a[1]))
ext("operator")["neg"] = N("neg", lambda i, a, kw: terms.neg(terms.lift(a[0])) if isinstance(a[0], T) else -a[0])
ext("operator")["not_"] = N("not_", lambda i, a, kw: not i.truth(a[0]))
ext("operator")["contains"] = N("contains", lambda i, a, kw: i.contains(a[0], a[1]))
ext("operator")["is_"] = N("is_", lambda i, a, kw: i.is_(a[0], a[1]))
ext("operator")["is_not"] = N("is_not", lambda i, a, kw: not i.is_(a[0], a[1]))


def _attrgetter(i, a, kw):
    def one(i2, o, path):
        for p in path.split("."):
            o = i2.getattr(o, p)
        return o

    return N("attrgetter", lambda i2, b, k2: one(i2, b[0], a[0]) if len(a) == 1 else tuple(one(i2, b[0], x) for x in a))


def _itemgetter(i, a, kw):
    return N(
        "itemgetter", lambda i2, b, k2: i2.getitem(b[0], a[0]) if len(a) == 1 else tuple(i2.getitem(b[0], x) for x in a)
    )


ext("operator")["attrgetter"] = N("attrgetter", _attrgetter)
ext("operator")["itemgetter"] = N("itemgetter", _itemgetter)
ext("operator")["methodcaller"] = N(
    "methodcaller", lambda i, a, kw: N("mc", lambda i2, b, k2: i2.call(i2.getattr(b[0], a[0]), list(a[1:]), kw))
)

# -- functools ------------------------------------------------------------------------


def _cached(i, fn):
    cache = ADict()

    def call(i2, a, kw):
        k = (tuple(a), tuple(sorted(kw.items())))
        j = i2.dict_find(cache, k)
        if j is not None:
            return cache.vals[j]
        v = i2.call(fn, a, kw)
        i2.dict_set(cache, k, v)
        return v

    n = Native(f"cached {getattr(fn, 'name', '')}", call)
    n.attrs["bind"] = True
    n.attrs["__wrapped__"] = fn
    n.attrs["cache_clear"] = N("cache_clear", lambda i2, a, kw: cache.__init__())
    return n


def _lru(i, a, kw):
    if a and isinstance(a[0], (Func, Native, Bound, Desc, type)) or (a and type(a[0]).__name__ == "ClassInfo"):
        return _cached(i, a[0])
    return N("lru_cache", lambda i2, b, k2: _cached(i2, b[0]))


ext("functools")["lru_cache"] = N("lru_cache", _lru)
ext("functools")["cache"] = N("cache", lambda i, a, kw: _cached(i, a[0]))
ext("functools")["cached_property"] = N("cached_property", lambda i, a, kw: Desc("cached_property", a[0]))


def _wrapped(i, a, kw):
    w, f = a[0], a[1]
    if isinstance(w, Func):
        w.attrs["__wrapped__"] = f
        if isinstance(f, (Func, Native)):
            w.attrs["__name__"] = w.attrs["__qualname__"] = f.name
            w.attrs["__doc__"] = i.getattr(f, "__doc__")
            for k, v in f.attrs.items():
                if not k.startswith("__") and isinstance(f, Func):
                    w.attrs.setdefault(k, v)
    return w


ext("functools")["wraps"] = N("wraps", lambda i, a, kw: N("wraps", lambda i2, b, k2: _wrapped(i2, [b[0], a[0]], {})))
ext("functools")["update_wrapper"] = N("update_wrapper", _wrapped)


def _partial(i, a, kw):
    fn, pre, pkw = a[0], list(a[1:]), dict(kw)
    n = N("partial", lambda i2, b, k2: i2.call(fn, pre + list(b), {**pkw, **k2}))
    d = ADict()
    for k, v in pkw.items():
        i.dict_set(d, k, v)
    n.attrs.update(func=fn, args=tuple(pre), keywords=d)
    return n


ext("functools")["partial"] = N("partial", _partial)


def _reduce(i, a, kw):
    it = iter(i.iterate(a[1]))
    if len(a) > 2:
        r = a[2]
    else:
        try:
            r = next(it)
        except StopIteration:
            i.raise_(TypeError, "reduce() of empty iterable with no initial value")
    for x in it:
        r = i.call(a[0], [r, x], {})
    return r


ext("functools")["reduce"] = N("reduce", _reduce)


def _singledispatch(i, a, kw, method=False):
    default = a[0]
    table = []

    def pick(i2, v):
        best = None
        for c, f in table:
            if i2.isinstance(v, c):
                if best is None or i2.subclass(c, best[0]):
                    best = (c, f)
        return best[1] if best else default

    def call(i2, b, k2):
        return i2.call(pick(i2, b[1 if method else 0]), b, k2)

    n = Native("singledispatch", call)
    n.attrs["bind"] = method

    def register(i2, b, k2):
        c = b[0]
        if isinstance(c, Func):  # by annotation
            args = c.node.args.args
            ann = args[1 if method else 0].annotation
            cls = i2.eval(ann, c.env)
            table.append((cls, c))
            return c
        if len(b) > 1:
            table.append((c, b[1]))
            return b[1]

        def deco(i3, d, k3):
            table.append((c, d[0]))
            return d[0]

        return N("register", deco)

    n.attrs["register"] = N("register", register)
    n.attrs["dispatch"] = N("dispatch", lambda i2, b, k2: default)
    return n


ext("functools")["singledispatch"] = N("singledispatch", _singledispatch)
ext("functools")["singledispatchmethod"] = N("singledispatchmethod", lambda i, a, kw: _singledispatch(i, a, kw, True))


def _total_ordering(i, a, kw):
    """The other comparisons by the one which the class defines."""
    import ast

    from .interp import Frame, Module

    c = a[0]
    given = [n for n in ("__lt__", "__le__", "__gt__", "__ge__") if i.class_attr(c, n) is not None]
    if not given:
        i.raise_(ValueError, "must define at least one ordering operation: < > <= >=")
    # (as functools has it)
    root = next(n for n in ("__lt__", "__le__", "__gt__", "__ge__") if n in given)
    table = {
        "__lt__": {"__gt__": "not r and self != other", "__le__": "r or self == other", "__ge__": "not r"},
        "__le__": {"__ge__": "not r or self == other", "__lt__": "r and self != other", "__gt__": "not r"},
        "__gt__": {"__lt__": "not r and self != other", "__ge__": "r or self == other", "__le__": "not r"},
        "__ge__": {"__le__": "not r or self == other", "__gt__": "r and self != other", "__lt__": "not r"},
    }
    src = "".join(
        f"def {n}(self, other):\n    r = type(self).{root}(self, other)\n    return r if r is NotImplemented else {e}\n"
        for n, e in table[root].items() if n not in given
    )
    m = Module("functools", ast.parse(src), False, None)
    fr = Frame(m)
    fr.vars = m.globals
    i.exec_block(m.tree.body, fr)
    c.attrs.update({n: f for n, f in m.globals.items() if n.startswith("__l") or n.startswith("__g")})
    return c


ext("functools")["total_ordering"] = N("total_ordering", _total_ordering)

# -- itertools / collections --------------------------------------------------------------


def _chain(i, a, kw):
    def gen():
        for x in a:
            yield from i.iterate(x)

    return Iter(gen())


_chain_native = N("chain", _chain)


def _chain_from(i, a, kw):
    def gen():
        for x in i.iterate(a[0]):
            yield from i.iterate(x)

    return Iter(gen())


_chain_native.attrs["from_iterable"] = N("from_iterable", _chain_from)
ext("itertools")["chain"] = _chain_native


def _product(i, a, kw):
    import itertools

    rep = kw.get("repeat", 1)
    return Iter(iter([tuple(x) for x in itertools.product(*([list(i.iterate(x)) for x in a] * rep))]))


ext("itertools")["product"] = N("product", _product)


def _islice(i, a, kw):
    import itertools

    return Iter(itertools.islice(iter(i.iterate(a[0])), *a[1:]))


ext("itertools")["islice"] = N("islice", _islice)


def _starmap(i, a, kw):
    return Iter(i.call(a[0], list(i.iterate(x)), {}) for x in i.iterate(a[1]))


ext("itertools")["starmap"] = N("starmap", _starmap)


def _accum(i, a, kw):
    fn = a[1] if len(a) > 1 else kw.get("func")

    def gen():
        r = kw.get("initial")
        first = r is None
        if not first:
            yield r
        for x in i.iterate(a[0]):
            if first:
                r, first = x, False
            else:
                r = i.binop(_ast.Add(), r, x) if fn is None else i.call(fn, [r, x], {})
            yield r

    return Iter(gen())


ext("itertools")["accumulate"] = N("accumulate", _accum)
ext("itertools")["zip_longest"] = N("zip_longest", lambda i, a, kw: _zip_longest(i, a, kw))
ext("itertools")["count"] = N("count", lambda i, a, kw: Iter(__import__("itertools").count(*a, **kw)))
ext("itertools")["repeat"] = N("repeat", lambda i, a, kw: Iter(__import__("itertools").repeat(*a, **kw)))
ext("itertools")["takewhile"] = N(
    "takewhile", lambda i, a, kw: Iter(__import__("itertools").takewhile(lambda x: i.truth(i.call(a[0], [x], {})), i.iterate(a[1])))
)
ext("itertools")["dropwhile"] = N(
    "dropwhile", lambda i, a, kw: Iter(__import__("itertools").dropwhile(lambda x: i.truth(i.call(a[0], [x], {})), i.iterate(a[1])))
)
ext("itertools")["pairwise"] = N("pairwise", lambda i, a, kw: Iter(__import__("itertools").pairwise(list(i.iterate(a[0])))))


def _groupby(i, a, kw):
    key = a[1] if len(a) > 1 else kw.get("key")

    def gen():
        # (a group ends where the next one is asked for)
        it = iter(i.iterate(a[0]))
        end = object()
        x = next(it, end)
        while x is not end:
            k = x if key is None else i.call(key, [x], {})
            state = [x]

            def group(k=k, state=state):
                while state:
                    y = state.pop()
                    yield y
                    z = next(it, end)
                    if z is end:
                        rest[0] = end
                        return
                    if i.eq(z if key is None else i.call(key, [z], {}), k):
                        state.append(z)
                    else:
                        rest[0] = z

            rest = [None]
            g = group()
            yield (k, Iter(g))
            for _ in g:
                pass
            x = rest[0]

    return Iter(gen())


def _tee(i, a, kw):
    import itertools

    return tuple(Iter(x) for x in itertools.tee(iter(i.iterate(a[0])), *a[1:]))


def _batched(i, a, kw):
    import itertools

    return Iter(itertools.batched(iter(i.iterate(a[0])), a[1] if len(a) > 1 else kw["n"]))


ext("itertools").update(
    groupby=N("groupby", _groupby), tee=N("tee", _tee), batched=N("batched", _batched),
    cycle=N("cycle", lambda i, a, kw: Iter(__import__("itertools").cycle(list(i.iterate(a[0]))))),
    compress=N("compress", lambda i, a, kw: Iter(x for x, y in zip(i.iterate(a[0]), i.iterate(a[1])) if i.truth(y))),
    filterfalse=N("filterfalse", lambda i, a, kw: Iter(x for x in i.iterate(a[1]) if not i.truth(x if a[0] is None else i.call(a[0], [x], {})))),
)
for _n in ("permutations", "combinations", "combinations_with_replacement"):
    ext("itertools")[_n] = N(
        _n, lambda i, a, kw, n=_n: Iter(iter(list(getattr(__import__("itertools"), n)(list(i.iterate(a[0])), *a[1:]))))
    )


def _zip_longest(i, a, kw):
    import itertools

    return Iter(itertools.zip_longest(*[list(i.iterate(x)) for x in a], fillvalue=kw.get("fillvalue")))


def make_dict(kind):
    def make(i, a, kw):
        d = ADict(kind)
        if kind == "defaultdict":
            d.default = a[0] if a else None
            a = a[1:]
        if kind == "ChainMap":
            d.default = list(a)
            for mp in reversed(a):
                for k, v in i.dict_items(mp):
                    i.dict_set(d, k, v)
            return d
        if a:
            if kind == "Counter":
                counter_update(i, d, a[0], 1)
            else:
                for k, v in i.dict_items(a[0]):
                    i.dict_set(d, k, v)
        for k, v in kw.items():
            i.dict_set(d, k, v)
        return d

    return make


DEFAULTDICT.make = make_dict("defaultdict")
COUNTER.make = make_dict("Counter")
ORDEREDDICT.make = make_dict("OrderedDict")
CHAINMAP.make = make_dict("ChainMap")
ext("collections").update(
    defaultdict=DEFAULTDICT, Counter=COUNTER, OrderedDict=ORDEREDDICT, ChainMap=CHAINMAP,
    deque=N("deque", lambda i, a, kw: list(i.iterate(a[0])) if a else []),
)


def _namedtuple(i, a, kw):
    fields = a[1] if len(a) > 1 else kw["field_names"]
    fields = fields.replace(",", " ").split() if isinstance(fields, str) else list(i.iterate(fields))
    if not all(isinstance(f, str) for f in fields):
        raise Undecided("the fields of a named tuple")
    values = list(i.iterate(kw["defaults"])) if kw.get("defaults") is not None else []
    return tuple_class(i, a[0] if a else kw["typename"], fields, dict(zip(fields[len(fields) - len(values):], values)))


ext("collections")["namedtuple"] = N("namedtuple", _namedtuple)


def _mapping_proxy(i, a, kw):
    return a[0]


ext("types")["MappingProxyType"] = N("MappingProxyType", _mapping_proxy)

# -- what is easily said in the language itself ------------------------------------------------

PRELUDE = """
class SimpleNamespace:
    def __init__(self, /, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        if not isinstance(other, SimpleNamespace):
            return NotImplemented
        return self.__dict__ == other.__dict__

    def __repr__(self):
        return "namespace(" + ", ".join(f"{k}={v!r}" for k, v in self.__dict__.items()) + ")"


class ExitStack:
    def __init__(self):
        self._exits = []

    def enter_context(self, cm):
        v = cm.__enter__()
        self.push(cm)
        return v

    def push(self, cm):
        self._exits.append(cm.__exit__ if hasattr(cm, "__exit__") else cm)
        return cm

    def callback(self, f, /, *args, **kw):
        def leave(t, e, tb):
            f(*args, **kw)
        self._exits.append(leave)
        return f

    def pop_all(self):
        new = ExitStack()
        new._exits, self._exits = self._exits, []
        return new

    def close(self):
        self.__exit__(None, None, None)

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        given = e
        while self._exits:
            f = self._exits.pop()
            try:
                if f(type(e) if e is not None else None, e, None):
                    e = None
            except BaseException as new:
                e = new
        if e is not given and e is not None:
            raise e
        return given is not None and e is None
"""


def _prelude(name):
    def make(i, a, kw):
        m = getattr(i, "prelude", None)
        if m is None:
            import ast

            from .interp import Frame, Module

            m = Module("prelude", ast.parse(PRELUDE), False, None)
            i.prelude = m
            fr = Frame(m)
            fr.vars = m.globals
            i.exec_block(m.tree.body, fr)
        return i.call(m.globals[name], a, kw)

    return N(name, make)


ext("types")["SimpleNamespace"] = _prelude("SimpleNamespace")
ext("contextlib")["ExitStack"] = _prelude("ExitStack")

# -- weakref: nothing is collected --------------------------------------------------------------


def _ref(i, a, kw):
    o = a[0]
    return N("ref", lambda i2, b, k2: o)


ext("weakref").update(
    ref=N("ref", _ref), proxy=N("proxy", lambda i, a, kw: a[0]), finalize=N("finalize", lambda i, a, kw: None),
    WeakKeyDictionary=N("WeakKeyDictionary", make_dict("dict")), WeakValueDictionary=N("WeakValueDictionary", make_dict("dict")),
    WeakSet=N("WeakSet", lambda i, a, kw: call_type(i, set, a, kw)),
)

# -- re: on known texts ----------------------------------------------------------------------


def _match_value(m):
    if m is None:
        return None

    def val(f):
        def call(i, a, kw):
            r = f(*a, **kw)
            if isinstance(r, dict):
                d = ADict()
                for k, v in r.items():
                    i.dict_set(d, k, v)
                return d
            return r

        return call

    o = ExtObj(ExtClass("re.Match"))
    for n in ("group", "groups", "groupdict", "start", "end", "span", "expand"):
        o.attrs[n] = N(n, val(getattr(m, n)))
    o.attrs.update(string=m.string, pos=m.pos, endpos=m.endpos, lastindex=m.lastindex, lastgroup=m.lastgroup)
    o.attrs["__getitem__"] = N("__getitem__", lambda i, a, kw: m[a[0]])
    return o


def _known(*xs):
    if not all(isinstance(x, (str, int)) for x in xs):
        raise Undecided("regular expression on an opaque text")


def _pattern_value(i, p, flags=0):
    if isinstance(p, ExtObj) and "re_pattern" in p.attrs:
        return p
    _known(p, flags)
    try:
        r = re.compile(p, flags)
    except re.error as e:
        raise Undecided(f"regular expression: {e}")
    o = ExtObj(ExtClass("re.Pattern"))

    def meth(n):
        def call(i, a, kw):
            if n in ("sub", "subn"):
                f, text = a[0], a[1]
                _known(text, *a[2:], *kw.values())
                g = f if isinstance(f, str) else lambda m: _text(i.call(f, [_match_value(m)], {}))
                return getattr(r, n)(g, text, *a[2:], **kw)
            _known(*a, *kw.values())
            v = getattr(r, n)(*a, **kw)
            if n == "finditer":
                return Iter(_match_value(m) for m in v)
            return v if n in ("findall", "split") else _match_value(v)

        return N(n, call)

    for n in ("match", "fullmatch", "search", "sub", "subn", "split", "findall", "finditer"):
        o.attrs[n] = meth(n)
    o.attrs.update(pattern=p, flags=r.flags, groups=r.groups, re_pattern=r)
    return o


def _text(v):
    if not isinstance(v, str):
        raise Undecided("regular expression with an opaque text")
    return v


def _re_function(n):
    npos = {"sub": 3, "subn": 3, "split": 2}.get(n, 2)

    def call(i, a, kw):
        kw = dict(kw)
        flags = kw.pop("flags", 0)
        rest = list(a[1:])
        if n in ("sub", "subn", "split") and len(rest) > npos:
            flags = rest.pop()
        elif n not in ("sub", "subn", "split") and len(rest) > 1:
            flags = rest.pop()
        if isinstance(flags, ExtObj):
            flags = flags.attrs["re_flag"]
        return i.call(_pattern_value(i, a[0], flags).attrs[n], rest, kw)

    return N(n, call)


for _n in ("match", "fullmatch", "search", "sub", "subn", "split", "findall", "finditer"):
    ext("re")[_n] = _re_function(_n)
ext("re")["compile"] = N("compile", lambda i, a, kw: _pattern_value(i, a[0], a[1] if len(a) > 1 else kw.get("flags", 0)))
ext("re")["escape"] = N("escape", lambda i, a, kw: re.escape(_text(a[0])))
for _n in ("A", "ASCII", "I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "U", "UNICODE", "NOFLAG"):
    ext("re")[_n] = int(getattr(re, _n))
ext("re")["error"] = ValueError

# -- copy ----------------------------------------------------------------------------------


def _copy(i, a, kw):
    v = a[0]
    if isinstance(v, list):
        return list(v)
    if isinstance(v, ADict):
        return i.call(dict_method(i, v, "copy"), [], {})
    if isinstance(v, ASet):
        return i.call(set_method(i, v, "copy"), [], {})
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.fields = dict(v.fields)
        o.native = _copy(i, [v.native], {}) if v.native is not None else None
        return o
    return v


def _deepcopy(i, a, kw, memo=None):
    memo = {} if memo is None else memo
    v = a[0]
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, list):
        out = []
        memo[id(v)] = out
        out.extend(_deepcopy(i, [x], {}, memo) for x in v)
        return out
    if isinstance(v, tuple):
        return tuple(_deepcopy(i, [x], {}, memo) for x in v)
    if isinstance(v, ADict):
        out = ADict(v.kind)
        out.default = v.default
        memo[id(v)] = out
        for k, x in v.live():
            i.dict_set(out, _deepcopy(i, [k], {}, memo), _deepcopy(i, [x], {}, memo))
        return out
    if isinstance(v, Obj):
        o = Obj(v.cls)
        memo[id(v)] = o
        for k, x in v.fields.items():
            o.fields[k] = _deepcopy(i, [x], {}, memo)
        return o
    return v


ext("copy")["copy"] = N("copy", _copy)
ext("copy")["deepcopy"] = N("deepcopy", _deepcopy)

# -- contextlib ----------------------------------------------------------------------------


def _contextmanager(i, a, kw):
    fn = a[0]

    def call(i2, b, k2):
        it = i2.call(fn, b, k2)
        if not isinstance(it, Iter):
            raise Undecided("contextmanager of no generator")
        g = it.it

        def leave(i3, c, k3):
            if c[1] is None:
                try:
                    next(g)
                except StopIteration:
                    return False
                i3.raise_(RuntimeError, "generator didn't stop")
            try:
                g.throw(c[1])
            except StopIteration:
                return True
            except AbsRaise as e:
                if e.exc is c[1]:
                    return False
                raise
            i3.raise_(RuntimeError, "generator didn't stop after throw()")

        return ExtObj(CTX, gen=g, __enter__=N("__enter__", lambda i3, c, k3: _next(i3, it)), __exit__=N("__exit__", leave))

    n = Native("contextmanager", call)
    n.attrs["bind"] = True
    return n


ext("contextlib")["contextmanager"] = N("contextmanager", _contextmanager)


def _suppress(i, a, kw):
    return ExtObj(
        ExtClass("contextlib.suppress"),
        __enter__=N("enter", lambda i2, b, k2: None),
        __exit__=N("exit", lambda i2, b, k2: b[1] is not None and i2.isinstance(b[1], tuple(a))),
    )


ext("contextlib")["suppress"] = N("suppress", _suppress)
ext("contextlib")["nullcontext"] = N(
    "nullcontext",
    lambda i, a, kw: ExtObj(
        CTX, __enter__=N("e", lambda i2, b, k2: a[0] if a else None), __exit__=N("x", lambda i2, b, k2: None)
    ),
)

# -- dataclasses -----------------------------------------------------------------------------


class Field:
    __slots__ = ("name", "default", "factory", "compare", "init", "repr", "hash", "kw_only", "owner")

    def __init__(self, name):
        self.name = name
        self.default = None
        self.factory = None
        self.compare = True
        self.init = True
        self.repr = True
        self.hash = None
        self.kw_only = False
        self.owner = None


NO_DEFAULT = object()
FIELD = ExtClass("dataclasses.Field")


def _field(i, a, kw):
    return ExtObj(FIELD, **{k: v for k, v in kw.items()})


def _dataclass(i, a, kw):
    if a:
        return build_dataclass(i, a[0], kw)
    return N("dataclass", lambda i2, b, k2: build_dataclass(i2, b[0], kw))


def build_dataclass(ip, c, params):
    p = dict(init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False, kw_only=False, slots=False)
    p.update(params)
    fields = {}
    for k in reversed(c.mro[1:]):
        if getattr(k, "dc_fields", None):
            for f in k.dc_fields:
                fields[f.name] = f
    for name, ann in c.annotations.items():
        if ann.startswith(("typing.ClassVar", "ClassVar")):
            continue
        f = Field(name)
        f.kw_only = p["kw_only"]
        f.default = NO_DEFAULT
        if name in c.attrs:
            v = ip.class_attr(c, name)[0]
            if isinstance(v, ExtObj) and v.cls is FIELD:
                at = v.attrs
                if "default" in at:
                    f.default = at["default"]
                    c.attrs[name] = at["default"]
                else:
                    c.attrs.pop(name)
                f.factory = at.get("default_factory")
                f.compare = at.get("compare", True)
                f.init = at.get("init", True)
                f.repr = at.get("repr", True)
                f.hash = at.get("hash")
                f.kw_only = at.get("kw_only", f.kw_only)
            else:
                if isinstance(v, (list, ADict, ASet)):
                    ip.raise_(ValueError, f"mutable default for field {name}")
                f.default = v
        f.owner = c
        fields[name] = f
    flds = list(fields.values())
    c.dc = p
    c.dc_fields = flds

    def bound(name, fn):
        n = Native(name, fn)
        n.attrs["bind"] = True
        return n

    pos = [f for f in flds if f.init and not f.kw_only]
    seen_default = False
    for f in pos:
        has = f.default is not NO_DEFAULT or f.factory is not None
        if seen_default and not has:
            ip.raise_(TypeError, f"non-default argument '{f.name}' follows default argument")
        seen_default = seen_default or has

    def init(i, a, kw):
        o = a[0]
        a = list(a[1:])
        if len(a) > len(pos):
            i.raise_(TypeError, f"{c.name}.__init__() takes {len(pos) + 1} positional arguments but {len(a) + 1} were given")
        kw = dict(kw)
        vals = {}
        for f, v in zip(pos, a):
            vals[f.name] = v
        for f in flds:
            if not f.init:
                continue
            if f.name in kw:
                if f.name in vals:
                    i.raise_(TypeError, f"multiple values for argument '{f.name}'")
                vals[f.name] = kw.pop(f.name)
        if kw:
            i.raise_(TypeError, f"{c.name}.__init__() got an unexpected keyword argument '{next(iter(kw))}'")
        for f in flds:
            if f.name in vals:
                o.fields[f.name] = vals[f.name]
            elif f.factory is not None:
                o.fields[f.name] = i.call(f.factory, [], {})
            elif f.default is not NO_DEFAULT:
                o.fields[f.name] = f.default
            elif f.init:
                i.raise_(TypeError, f"{c.name}.__init__() missing required argument: '{f.name}'")
        pi = i.class_attr(o.cls, "__post_init__")
        if pi is not None:
            i.call(i.bind_attr(pi[0], o, o.cls), [], {})

    own = c.attrs
    if p["init"] and "__init__" not in own:
        own["__init__"] = bound("dataclass.__init__", init)

    def eq(i, a, kw):
        o, other = a
        if not isinstance(other, Obj) or other.cls is not o.cls:
            return NotImplemented
        for f in flds:
            if f.compare:
                x, y = o.fields.get(f.name), other.fields.get(f.name)
                if not (x is y or i.eq(x, y)):
                    return False
        return True

    def hash_(i, a, kw):
        o = a[0]
        return T(
            "hash",
            tuple(terms.lift(i.hash_of(o.fields[f.name])) or T("key", (repr(o.fields[f.name]),), "int")
                  for f in flds if (f.hash if f.hash is not None else f.compare)),
            "int",
        )

    user_hash = "__hash__" in own
    if p["eq"] and "__eq__" not in own:
        own["__eq__"] = bound("dataclass.__eq__", eq)
    if p["unsafe_hash"] or (p["eq"] and p["frozen"] and not user_hash):
        own["__hash__"] = bound("dataclass.__hash__", hash_)
    elif p["eq"] and not p["frozen"] and not user_hash:
        own["__hash__"] = None
    if p["order"]:
        for nm, op in (("__lt__", _ast.Lt), ("__le__", _ast.LtE), ("__gt__", _ast.Gt), ("__ge__", _ast.GtE)):
            def cmp(i, a, kw, op=op):
                o, other = a
                if not isinstance(other, Obj) or other.cls is not o.cls:
                    return NotImplemented
                return i.order(op, tuple(o.fields[f.name] for f in flds if f.compare),
                               tuple(other.fields[f.name] for f in flds if f.compare))

            own[nm] = bound(f"dataclass.{nm}", cmp)
    if p["repr"] and "__repr__" not in own:
        def rep(i, a, kw):
            o = a[0]
            out = [f"{i.getattr(o.cls, '__qualname__')}("]
            for n, f in enumerate(x for x in flds if x.repr):
                if n:
                    out.append(", ")
                out += [f"{f.name}=", i.repr(o.fields.get(f.name))]
            return mkstr(*out, ")")

        own["__repr__"] = bound("dataclass.__repr__", rep)
    if p["frozen"]:
        def frozen_set(i, a, kw):
            i.raise_(AttributeError, f"cannot assign to field '{a[1]}'")

        own["__setattr__"] = bound("dataclass.__setattr__", frozen_set)
    own.setdefault("__match_args__", tuple(f.name for f in pos))
    own["__dataclass_fields__"] = True
    return c


def _fields(i, a, kw):
    c = a[0].cls if isinstance(a[0], Obj) else a[0]
    if not getattr(c, "dc_fields", None) and getattr(c, "dc", None) is None:
        for k in getattr(c, "mro", ()):
            if getattr(k, "dc_fields", None) is not None:
                c = k
                break
        else:
            i.raise_(TypeError, "must be called with a dataclass type or instance")
    return tuple(
        ExtObj(FIELD, name=f.name, compare=f.compare, init=f.init, repr=f.repr, type=f.owner.annotations.get(f.name),
               hash=f.hash, kw_only=f.kw_only,
               default=MISSING if f.default is NO_DEFAULT else f.default)
        for f in c.dc_fields
    )


MISSING = ExtObj(ExtClass("dataclasses._MISSING_TYPE"))


def _replace(i, a, kw):
    o = a[0]
    vals = {f.name: o.fields[f.name] for f in o.cls.dc_fields if f.init}
    vals.update(kw)
    return i.call(o.cls, [], vals)


def _asdict(i, a, kw):
    o = a[0]
    d = ADict()
    for f in o.cls.dc_fields:
        v = o.fields[f.name]
        if isinstance(v, Obj) and v.cls.dc_fields is not None:
            v = _asdict(i, [v], {})
        i.dict_set(d, f.name, v)
    return d


ext("dataclasses").update(
    dataclass=N("dataclass", _dataclass), field=N("field", _field), fields=N("fields", _fields),
    replace=N("replace", _replace), asdict=N("asdict", _asdict), MISSING=MISSING,
    astuple=N("astuple", lambda i, a, kw: tuple(a[0].fields[f.name] for f in a[0].cls.dc_fields)),
    is_dataclass=N("is_dataclass", lambda i, a, kw: getattr(a[0].cls if isinstance(a[0], Obj) else a[0], "dc_fields", None) is not None),
    FrozenInstanceError=AttributeError,
)


def tuple_class(ip, name, fields, defaults):
    """The class of collections.namedtuple."""
    import ast

    from .interp import Frame, Module

    args = ", ".join(f"{f}=_defaults['{f}']" if f in defaults else f for f in fields)
    src = f"""
class {name}(tuple):
    _fields = {tuple(fields)!r}
    _field_defaults = _defaults
    __match_args__ = {tuple(fields)!r}
    def __new__(_cls, {args}):
        return _new(_cls, ({''.join(f + ', ' for f in fields)}))
    @classmethod
    def _make(cls, iterable):
        return _new(cls, tuple(iterable))
    def _asdict(self):
        return dict(zip(self._fields, self))
    def _replace(self, /, **kw):
        for k in kw:
            if k not in self._fields:
                raise ValueError(f"Got unexpected field names: {{k!r}}")
        return self._make([kw[k] if k in kw else v for k, v in zip(self._fields, self)])
    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join(f"{{n}}={{v!r}}" for n, v in zip(self._fields, self)) + ")"
"""
    for n, f in enumerate(fields):
        src += f"    {f} = property(lambda self: self[{n}])\n"
    m = Module("collections", ast.parse(src), False, None)
    d = ADict()
    for k, v in defaults.items():
        ip.dict_set(d, k, v)

    def new(i, a, kw):
        o = Obj(a[0])
        o.native = a[1]
        return o

    m.globals.update(_defaults=d, _new=Native("_new", new), __name__="collections")
    fr = Frame(m)
    fr.vars = m.globals
    ip.exec_block(m.tree.body, fr)
    return m.globals[name]


def make_namedtuple(ip, c):
    """A class with the base typing.NamedTuple."""
    fields = list(c.annotations)
    defaults = {f: c.attrs.pop(f) for f in fields if f in c.attrs}
    c.bases = [tuple_class(ip, c.name, fields, defaults)]
    c.mro = ip.linearise(c)


# -- enum: not modelled ---------------------------------------------------------------------

# -- pathlib / sys / os -----------------------------------------------------------------------


def path_value(p):
    return ExtObj(PATH, text=p)


def _mkpath(i, a, kw):
    v = a[0] if a else ""
    if isinstance(v, ExtObj) and v.cls is PATH:
        return v
    return path_of(v)


def path_of(text):
    o = ExtObj(PATH, text=text)
    o.attrs["__truediv__"] = N("/", lambda i, a, kw: path_of(mkstr(text, "/", a[0]) if is_str(text) and is_str(a[0]) else Top("path")))
    o.attrs["open"] = N("open", lambda i, a, kw: ExtObj(ExtClass("file"), path=o))
    o.attrs["exists"] = N("exists", lambda i, a, kw: True)
    o.attrs["is_file"] = N("is_file", lambda i, a, kw: True)
    o.attrs["name"] = Top("path name")
    pn = Native("parent", lambda i, a, kw: path_of(mkstr("parent of ", text) if is_str(text) else Top("path")))
    pn.attrs["prop"] = True
    o.attrs["parent"] = pn
    o.attrs["resolve"] = N("resolve", lambda i, a, kw: o)
    o.attrs["absolute"] = o.attrs["resolve"]
    o.attrs["with_name"] = N("with_name", lambda i, a, kw: path_of(mkstr(text, " with name ", a[0])))
    o.attrs["joinpath"] = N("joinpath", lambda i, a, kw: path_of(mkstr(text, "/", a[0])))
    o.attrs["as_posix"] = N("as_posix", lambda i, a, kw: text)
    o.attrs["key"] = text
    return o


PATH.make = _mkpath
ext("pathlib").update(Path=PATH, PurePath=PATH, PosixPath=PATH)
_CLASS_ATTRS["pathlib.Path"] = {"cwd": N("cwd", lambda i, a, kw: path_of("cwd"))}


def _exit(i, a, kw):
    raise AbsRaise(ExcVal(SystemExit, a))


ext("sys").update(
    exit=N("exit", _exit),
    stderr=ExtObj(ExtClass("file"), name="<stderr>",
                  write=N("write", lambda i, a, kw: i.stderr.append(a[0]))),
    stdout=ExtObj(ExtClass("file"), name="<stdout>",
                  write=N("write", lambda i, a, kw: i.output.append(a[0]))),
    version_info=(3, 12, 3),
    intern=N("intern", lambda i, a, kw: a[0]),
    maxsize=2**63 - 1,
)

# -- sympy -------------------------------------------------------------------------------------


def symbol(i, a, kw):
    name = a[0]
    return T("sym", (name,), "sympy")


def symbols(i, a, kw):
    s = a[0]
    if isinstance(s, str) and ("," in s or " " in s.strip()):
        return tuple(symbol(i, [x], kw) for x in s.replace(",", " ").split())
    return symbol(i, a, kw)


def sympify(i, a, kw):
    v = a[0]
    if isinstance(v, T):
        if v.ty in ("Decimal", "float") and terms.is_numeric(v):
            return terms.flt(v)
        return terms.retype(v, "sympy")
    if isinstance(v, (bool,)):
        return v
    if isinstance(v, str):
        try:
            r = T("const", (Fraction(v),), "sympy")
        except (ValueError, ZeroDivisionError):
            try:
                r = T("const", (Fraction(decimal.Decimal(v)),), "sympy")
            except decimal.InvalidOperation:
                raise Undecided(f"sympify({v!r})")
        return r if v.strip().lstrip("+-").isdigit() or "/" in v else terms.flt(r)
    if isinstance(v, SStr):
        ps = v.parts
        if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind == "ident":
            raise Undecided("sympify of a name")
        r = terms.retype(terms.lift(number_of_text(i, v, "Decimal")), "sympy")
        if not integer_text(v):
            return terms.flt(r)
        i.whole.update(terms.leaves(r))
        return r
    if isinstance(v, (float, decimal.Decimal)):
        return terms.flt(terms.retype(terms.lift(v), "sympy"))
    l = terms.lift(v)
    if l is None:
        if isinstance(v, Top):
            return v
        if isinstance(v, (list, tuple)):
            return type(v)(sympify(i, [x], {}) for x in v)
        i.raise_(ValueError, f"SympifyError: {show(v)}")
    return terms.retype(l, "sympy")


def integer_text(s):
    """Is the number text one of an integer?"""
    for p in s.parts:
        if isinstance(p, str):
            if p.strip("+-0123456789"):
                return False
        elif p.kind == "num" and p.payload is not None:
            if p.payload[0].ty != "int":
                return False
        elif p.kind != "intlit":
            return False
    return True


def to_float(i, a, kw):
    v = sympify(i, a[:1], {})
    return terms.flt(v) if isinstance(v, T) else v


def whole(i, t):
    """Is the value of t surely a whole number?"""
    if t.op == "const":
        return t.args[0].denominator == 1
    if t.op == "sym":
        return t in i.whole or t.ty == "int"
    if t.op in ("add", "mul"):
        return all(whole(i, x) for x in t.args)
    if t.op == "pow":
        return whole(i, t.args[0]) and t.args[1].op == "const" and whole(i, t.args[1]) and t.args[1].args[0] >= 0
    return t.op in ("trunc", "floordiv")


def a_number(i, t):
    """Does the computer algebra reduce t to one number?"""
    if t.op == "log" or t.op == "euler" or terms.is_free_symbol(t):
        return False
    if t.op == "pow" and not (terms.has_float(t) or whole(i, t.args[1])):
        return False
    return all(a_number(i, x) for x in t.args if isinstance(x, T))


def is_whole(i, t):
    """Is this number of the computer algebra an Integer?"""
    if terms.has_float(t) or not a_number(i, t):
        return False
    return whole(i, t) or i.decide("==", t, T("trunc", (t,), t.ty))


def to_integer(i, a, kw):
    v = to_exact(i, a, kw)
    return v if not isinstance(v, T) or whole(i, v) else T("trunc", (v,), "sympy")


def to_exact(i, a, kw):
    v = sympify(i, a[:1], {})
    return terms.strip(v) if isinstance(v, T) else v


def S(v):
    return terms.retype(terms.lift(v), "sympy")


def sy_log(i, a, kw):
    x = sympify(i, [a[0]], {})
    if len(a) > 1:
        return terms.log(x, terms.retype(sympify(i, [a[1]], {}), "sympy"))
    return terms.log(x)


def sy_exp(i, a, kw):
    return terms.power(terms.E_CONST, sympify(i, [a[0]], {}))


def sy_solve(i, a, kw):
    eqn = a[0]
    if isinstance(eqn, ExtObj) and eqn.cls.name == "sympy.Eq":
        eqn = terms.sub(eqn.attrs["lhs"], eqn.attrs["rhs"])
    if isinstance(eqn, (list, tuple)):
        raise Undecided("system of equations")
    v = a[1]
    eqn = terms.reduce_by(eqn, i.assumptions)
    r = terms.isolate(eqn, v, S(0))
    if r is None:
        raise Undecided(f"cannot solve {show(eqn)} for {show(v)}")
    if kw.get("dict"):
        d = ADict()
        i.dict_set(d, v, r)
        return [d]
    return [r]


def sy_eq(i, a, kw):
    return ExtObj(ExtClass("sympy.Eq"), lhs=sympify(i, [a[0]], {}), rhs=sympify(i, [a[1]], {}))


def _pairs(i, a):
    if len(a) == 2:
        return [(a[0], a[1])]
    v = a[0]
    if isinstance(v, ADict):
        return list(v.live())
    return [tuple(i.iterate(p)) for p in i.iterate(v)]


def sy_subs(i, t, a, kw=None):
    r = t
    ps = []
    for k, v in _pairs(i, a):
        if is_str(k):
            k = symbol(i, [k], {})
        v = sympify(i, [v], {})
        if isinstance(v, Top):
            return v
        ps.append((terms.retype(k, "sympy"), v))
    if (kw or {}).get("simultaneous") or isinstance(a[0], ADict):
        # (for a dictionary sympy substitutes one after the other; the order
        # does not matter when no replacement mentions a replaced symbol)
        keys = {k for k, _ in ps}
        if all(not any(terms.count(v, k) for k in keys) for _, v in ps) or (kw or {}).get("simultaneous"):
            return terms.retype(terms.subst(r, dict(ps)), "sympy")
    for k, v in ps:
        r = terms.subst(r, {k: v})
    return terms.retype(r, "sympy")


def free_symbols(i, t):
    s = ASet()
    for l in sorted(terms.leaves(t), key=repr):
        if terms.is_free_symbol(l):
            i.set_add(s, l)
    return s


def sympy_attr(ip, t, name):
    def m(fn):
        return Native(f"sympy.{name}", fn)

    if name in ("subs", "xreplace"):
        return m(lambda i, a, kw: sy_subs(i, t, a, kw))
    if name == "replace":
        return m(lambda i, a, kw: sy_subs(i, t, a, kw))
    if name == "free_symbols":
        return free_symbols(ip, t)
    if name == "atoms":
        return m(lambda i, a, kw: free_symbols(i, t))
    if name in ("evalf", "n", "round"):
        return m(lambda i, a, kw: sy_evalf(i, [t, *a], kw))
    if name == "nsimplify":
        return m(lambda i, a, kw: sy_nsimplify(i, [t, *a], kw))
    if name in ("simplify", "expand", "doit", "factor", "cancel", "together", "powsimp", "expand_log",
                "trigsimp", "radsimp", "ratsimp", "copy", "expand_power_base", "expand_power_exp"):
        return m(lambda i, a, kw: simplifier(i, [t], {}))
    if name == "name" and terms.is_free_symbol(t):
        return t.args[0]
    if name == "as_coefficients_dict":
        def coefs(i, a, kw):
            d = ADict("defaultdict")
            d.default = Native("S.Zero", lambda i2, a2, k2: S(0))
            for k, c in terms.monomials(t).items():
                i.dict_set(d, terms.retype(k, "sympy"), terms.retype(c, "sympy"))
            return d

        return m(coefs)
    if name in ("as_coeff_Mul", "as_coeff_Add"):
        op = name[-3:].lower()

        def split(i, a, kw):
            c, rest = terms.split_numeric(t, op)
            return terms.retype(c, "sympy"), terms.retype((terms.mul if op == "mul" else terms.add)(S(1 if op == "mul" else 0), *rest), "sympy")

        return m(split)
    if name == "as_ordered_terms":
        return m(lambda i, a, kw: list(t.args) if t.op == "add" else [t])
    if name == "as_ordered_factors":
        return m(lambda i, a, kw: list(t.args) if t.op == "mul" else [t])
    if name == "has":
        return m(lambda i, a, kw: any(terms.count(t, terms.retype(x, "sympy")) > 0 for x in a if isinstance(x, T)))
    if name == "is_number" or name == "is_constant":
        v = not any(terms.is_free_symbol(l) for l in terms.leaves(t))
        return v if name == "is_number" else m(lambda i, a, kw: v)
    if name in ("is_zero",):
        return ip.eq(t, 0)
    if name == "is_Symbol" or name == "is_symbol":
        return t.op == "sym"
    if name == "is_Number":
        return a_number(ip, t)
    if name in ("is_Integer", "is_integer"):
        return is_whole(ip, t)
    if name in ("is_Rational", "is_rational"):
        return a_number(ip, t) and not terms.has_float(t)
    if name == "is_Float":
        return a_number(ip, t) and terms.has_float(t)
    if name in ("is_Add", "is_Mul", "is_Pow"):
        return t.op == name[3:].lower()
    if name == "equals":
        return m(lambda i, a, kw: terms.differ(t, terms.lift(a[0]), i.assumptions) is False)
    if name == "args":
        return tuple(t.args) if t.op in ("add", "mul", "pow", "log") else ()
    if name == "func":
        return ip.type_of(t)
    if name == "as_numer_denom":
        return m(lambda i, a, kw: (t, S(1)))
    if name in ("__add__", "__sub__", "__mul__", "__truediv__", "__pow__"):
        return m(lambda i, a, kw: number_method(i, t, name, a))
    if name == "__str__":
        return m(lambda i, a, kw: text_of_number(i, t))
    return Top(f"sympy expression .{name}")


def sy_lambdify(i, a, kw):
    args, expr = a[0], a[1]
    args = list(i.iterate(args)) if isinstance(args, (list, tuple)) else [args]

    def call(i2, b, k2):
        if len(b) != len(args):
            i2.raise_(TypeError, "wrong number of arguments")
        mp = {}
        for s, v in zip(args, b):
            l = terms.lift(v)
            if l is None:
                return Top("converted value")
            mp[terms.retype(s, "sympy")] = l
        r = terms.reduce_by(terms.subst(expr, mp), i2.assumptions)
        for l in sorted(terms.leaves(r), key=repr):
            if terms.is_free_symbol(l):
                i2.raise_(NameError, f"name '{terms.show(l)}' is not defined")
        return r

    n = Native("lambdified", call)
    n.attrs["expr"] = expr
    n.attrs["args"] = args
    return n


def simplifier(i, a, kw):
    if isinstance(a[0], Top):
        return a[0]
    return terms.retype(terms.reduce_by(sympify(i, [a[0]], {}), i.assumptions), "sympy")


def lossy(t, err):
    """t with every number in it rounded."""
    if not isinstance(t, T) or terms.is_free_symbol(t) or t.op == "euler":
        return t
    if t.op == "const":
        v = t.args[0]
        return t if v.denominator == 1 and abs(v) <= 1 / err or v.denominator & (v.denominator - 1) == 0 and v.denominator * abs(v.numerator) <= 1 / err else terms.rounded(t, err)
    if t.op == "sym":
        return terms.rounded(t, err)
    return terms.rebuild(t.op, tuple(lossy(x, err) for x in t.args), t.ty)


def sy_evalf(i, a, kw):
    v = simplifier(i, a[:1], {})
    n = a[1] if len(a) > 1 else kw.get("n", 15)
    if isinstance(v, T) and isinstance(n, int) and n < 13:
        return lossy(v, 10.0 ** -n)
    return v


def sy_nsimplify(i, a, kw):
    v = simplifier(i, a[:1], {})
    tol = kw.get("tolerance")
    if not isinstance(v, T) or tol is None:
        return v
    if not isinstance(tol, (int, float)):
        raise Undecided("tolerance of nsimplify")
    out = []
    for k, c in terms.monomials(terms.strip(v)).items():
        if c.op != "const":
            if i.decide("<", T("abs", (c,), "sympy"), terms.const(tol)):
                continue
            c = terms.rounded(c, tol)
        out.append(terms.mul(c, k))
    return terms.retype(terms.add(S(0), *out), "sympy")


SYMBOL.make = symbol
EXPR.make = None
S_FLOAT.make = to_float
S_INTEGER.make = to_integer
S_NUMBER.make = sympify


def _rational(i, a, kw):
    if len(a) == 2:
        return terms.div(to_exact(i, [a[0]], {}), to_exact(i, [a[1]], {}))
    return to_exact(i, a, kw)


S_RATIONAL.make = _rational
S_LOG.make = sy_log
S_ADD.make = lambda i, a, kw: terms.retype(terms.add(S(0), *(sympify(i, [x], {}) for x in a)), "sympy")
S_MUL.make = lambda i, a, kw: terms.retype(terms.mul(S(1), *(sympify(i, [x], {}) for x in a)), "sympy")
S_POW.make = lambda i, a, kw: terms.power(sympify(i, [a[0]], {}), sympify(i, [a[1]], {}))
SY = ext("sympy")
SY.update(
    Symbol=SYMBOL, symbols=N("symbols", symbols), Expr=EXPR, Basic=EXPR, Number=S_NUMBER, Float=S_FLOAT, Integer=S_INTEGER,
    Rational=S_RATIONAL, Add=S_ADD, Mul=S_MUL, Pow=S_POW, log=S_LOG, ln=S_LOG, exp=N("exp", sy_exp),
    solve=N("solve", sy_solve), Eq=N("Eq", sy_eq), lambdify=N("lambdify", sy_lambdify), sympify=N("sympify", sympify),
    simplify=N("simplify", simplifier), expand=N("expand", simplifier), S=N("S", sympify), E=terms.E_CONST,
    nsimplify=N("nsimplify", sy_nsimplify), Dummy=SYMBOL, powsimp=N("powsimp", simplifier), cancel=N("cancel", simplifier),
    together=N("together", simplifier), factor=N("factor", simplifier), expand_log=N("expand_log", simplifier),
    ratsimp=N("ratsimp", simplifier), N=N("N", sy_evalf),
)
ext("sympy.core.expr")["Expr"] = EXPR
ext("sympy.core")["expr"] = ExtModule("sympy.core.expr")
ext("sympy.core")["Symbol"] = SYMBOL
ext("sympy.parsing.sympy_parser")["parse_expr"] = N("parse_expr", sympify)
ext("math")["log"] = N("log", lambda i, a, kw: terms.retype(sy_log(i, a, kw), "float"))
ext("math")["log10"] = N("log10", lambda i, a, kw: terms.retype(terms.log(terms.lift(a[0]), terms.const(10)), "float"))
ext("math")["log2"] = N("log2", lambda i, a, kw: terms.retype(terms.log(terms.lift(a[0]), terms.const(2)), "float"))
ext("math")["e"] = T("euler", (), "float")
ext("math")["prod"] = N("prod", lambda i, a, kw: _reduce(i, [N("*", lambda i2, b, k2: i2.binop(_ast.Mult(), *b)), a[0], 1], {}))

# -- lxml ----------------------------------------------------------------------------------------


def element(tag, text=None, children=(), attrib=None, ns="{http://www.unidata.ucar.edu/x}", tail=None):
    """An abstract XML element."""
    e = ExtObj(ETREE_ELEMENT)
    e.attrs["tag"] = ns + tag if isinstance(tag, str) else tag
    e.attrs["text"] = text
    e.attrs["tail"] = tail
    kids = list(children)
    e.attrs["kids"] = kids
    e.attrs["iter"] = lambda ip: list(kids)
    e.attrs["len"] = lambda ip: len(kids)
    d = ADict()
    for k, v in (attrib or {}).items():
        d.index[k] = len(d.keys)
        d.keys.append(k)
        d.vals.append(v)
    e.attrs["attrib"] = d
    return e


def local(tag):
    return tag.rpartition("}")[2]


def element_attr(ip, e, name):
    kids = e.attrs["kids"]

    def m(fn):
        return Native(f"element.{name}", fn)

    def walk(x):
        yield x
        for k in x.attrs["kids"]:
            yield from walk(k)

    def matches(x, pat):
        if pat in (None, "*", "{*}*"):
            return True
        if pat.startswith("{*}"):
            return local(x.attrs["tag"]) == pat[3:]
        return x.attrs["tag"] == pat

    if name == "get":
        return m(lambda i, a, kw: i.call(dict_method(i, e.attrs["attrib"], "get"), a, kw))
    if name in ("iterchildren",):
        return m(lambda i, a, kw: Iter(iter([k for k in kids if matches(k, a[0] if a else None)])))
    if name == "getchildren":
        return m(lambda i, a, kw: list(kids))
    if name == "iter":
        return m(lambda i, a, kw: Iter(iter([x for x in walk(e) if matches(x, a[0] if a else None)])))
    if name in ("find", "findall", "iterfind", "findtext"):
        def find(i, a, kw):
            if not isinstance(a[0], str) or "/" in a[0] or "[" in a[0]:
                raise Undecided("element path")
            r = [k for k in kids if matches(k, a[0])]
            if name == "find":
                return r[0] if r else None
            if name == "findtext":
                return (r[0].attrs["text"] or "") if r else (a[1] if len(a) > 1 else None)
            return r if name == "findall" else Iter(iter(r))

        return m(find)
    if name == "xpath":
        def xpath(i, a, kw):
            import re

            q = a[0]
            mm = re.fullmatch(r"""(\.?//|\./|)\*\[local-name\(\)\s*=\s*["']([\w-]+)["']\]""", q) if isinstance(q, str) else None
            if not mm:
                raise Undecided(f"xpath {q!r}")
            pool = list(walk(e)) if "//" in mm.group(1) else kids
            return [x for x in pool if isinstance(x.attrs["tag"], str) and local(x.attrs["tag"]) == mm.group(2)]

        return m(xpath)
    if name == "getroot":
        return m(lambda i, a, kw: e)
    if name == "remove":
        def remove(i, a, kw):
            for n, k in enumerate(kids):
                if k is a[0]:
                    del kids[n]
                    return None
            i.raise_(ValueError, "Element is not a child of this node.")

        return m(remove)
    if name == "items":
        return m(lambda i, a, kw: list(e.attrs["attrib"].live()))
    if name == "keys":
        return m(lambda i, a, kw: [k for k, _ in e.attrs["attrib"].live()])
    if name == "getparent":
        raise Undecided("getparent")
    if name == "itertext":
        raise Undecided("itertext")
    if name == "nsmap":
        return Top("nsmap")
    return Top(f"element.{name}")


_ET = ext("lxml.etree")


def _qname(i, a, kw):
    t = a[0].attrs["tag"] if isinstance(a[0], ExtObj) else a[0]
    ns, _, l = t.rpartition("}")
    return ExtObj(ExtClass("lxml.etree.QName"), localname=l, namespace=ns.lstrip("{"), text=t)


def _parse_xml(i, a, kw):
    doc = i.extern.get("document")
    if doc is None:
        return Top("XML document")
    root = doc["root"](i)
    doc["opened"].append(a[0])
    return ExtObj(
        ExtClass("lxml.etree._ElementTree"),
        getroot=N("getroot", lambda i2, b, k2: root),
        xpath=N("xpath", lambda i2, b, k2: i2.call(element_attr(i2, root, "xpath"), b, k2)),
        iter=lambda ip2: list(root.attrs["kids"]),
    )


_ET["parse"] = N("etree.parse", _parse_xml)
_ET["QName"] = N("QName", _qname)
_ET["Element"] = ETREE_ELEMENT
_ET["_Element"] = ETREE_ELEMENT
_ET["Comment"] = N("Comment", lambda i, a, kw: Top("comment"))
ext("lxml")["etree"] = ExtModule("lxml.etree")
ext("xml.etree.ElementTree").update(_ET)
