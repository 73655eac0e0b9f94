"""C26: optional and heavy dependencies stay behind their boundary."""
from .. import imports, libs
from ..convert import V
from ..core import Ob, path_of
from ..interp import PKG, AbsRaise
from ..shapes import *  # noqa: F403
from ..values import is_str, show
from ..world import Id, Mul, Num, Shift, Stamp, World, exc_is, exc_name, explore, program

RULE = (
    "Import-graph analysis over the syntax trees of every module: at import time only the standard library, the declared core "
    "dependencies and the package itself are imported by the modules which importing the package (or any of its modules but the "
    "XML loader and the grammar compiler) runs; no import statement of the unit layer, at any level, leads to the unit-system "
    "layer; every package-internal import, and every attribute taken from a package module, names something that exists. Effect "
    "analysis by abstract interpretation with lxml and the development tools missing: importing each module, parsing, resolving, "
    "converting, comparing and printing units work and import none of them, and loading the database fails with an ImportError "
    "that names the extra to install. One obligation per module, import site, use and scenario."
)
ASSUMPTIONS = ["module-level conditions other than TYPE_CHECKING are taken as both possible"]
FLOOR = 60

#: the modules of the unit layer, by their root
UNIT_LAYER = ("_unit", "_unit_reference", "_datetime", "_exceptions", "_expr", "_grammar")
SYSTEM_LAYER = ("_unit_system", "_udunits2_xml_parser", "__main__")
LOADER = f"{PKG}._udunits2_xml_parser"
COMPILER = f"{PKG}._grammar.compile"
TOOLS = {"jinja2", "pytest", "ruff", "cf_units", "mypy", "antlr4", "setuptools", "setuptools_scm"}

_ST = None


def st():
    global _ST
    if _ST is None:
        _ST = imports.Structure()
    return _ST


def layer(m):
    return m[len(PKG) + 1:].partition(".")[0] if m != PKG else ""


def lxml_users():
    """The modules which run an import of an optional dependency when they are imported"""
    return {m for m in st().modules if any(s.module in st().closure(m) and not s.scope and not s.typing_only and not s.guarded and s.top == "lxml" for s in st().sites)}


def check_module(key, m):
    """What importing m runs"""
    s_ = st()
    bad = []
    n = 0
    for x, why in s_.closure(m, parents=True).items():
        for s in s_.sites:
            if s.module != x or s.scope or s.typing_only or s.internal:
                continue
            n += 1
            if s.top not in imports.STDLIB and s.top not in s_.core and not s.guarded:
                via = " > ".join([str(y) for y in why] + [str(s)])
                bad.append(f"imports {s.top} at import time: {via}")
    if bad:
        return [Ob(key, "violation", f"importing {m} {b}", m) for b in bad[:1]]
    return [Ob(key, "ok", f"importing {m} runs {len(s_.closure(m, parents=True))} modules of the package and {n} imports of the standard library and core dependencies", m)]


def check_layer(key, m):
    s_ = st()
    for s in s_.sites:
        if s.module != m or s.typing_only or not s.internal:
            continue
        for t in s_.edges(s):
            for x, why in s_.closure(t).items():
                if layer(x) in SYSTEM_LAYER or x == PKG:
                    return [Ob(key, "violation", f"the unit layer imports the unit-system layer: {' > '.join(str(y) for y in (s, *why))}", f"{m}:{s.scope} line {s.line}")]
    return [Ob(key, "ok", f"no import of {m} leads to the unit-system layer", m)]


def check_site(key, sites):
    s_ = st()
    obs = []
    for k, s in sites:
        where = f"{s.module}{':' + s.scope if s.scope else ''} line {s.line}"
        if not s_.exists(s.target):
            obs.append(Ob(k, "violation", f"{s}: there is no module {s.target}", where))
        elif s.name and s.name != "*":
            h = s_.has(s.target, s.name)
            if h is None:
                obs.append(Ob(k, "undecided", str(s), where))
            elif not h:
                obs.append(Ob(k, "violation", f"{s}: {s.target} has no {s.name}", where))
            else:
                obs.append(Ob(k, "ok", str(s), where))
        else:
            obs.append(Ob(k, "ok", str(s), where))
    return obs


def check_uses(key, m):
    obs = []
    n = 0
    for t, attr, line in imports.attribute_uses(st(), m):
        n += 1
        if st().has(t, attr) is False:
            obs.append(Ob(f"{key} {t}.{attr}", "violation", f"{m} (line {line}) takes {attr} from {t}, which has none", f"{m} line {line}"))
    return obs or [Ob(key, "ok", f"{n} attributes of package modules used in {m} exist", m)]


def check_lazy_sites(key):
    """An import inside a function: declared, or of the standard library"""
    s_ = st()
    obs = []
    declared = s_.core | s_.extras.get("xml", set())
    for s in s_.sites:
        if s.internal or not s.scope or s.typing_only or layer(s.module) == "_grammar" and s.module == COMPILER:
            continue
        ok = s.top in imports.STDLIB or s.top in declared or s.guarded
        obs.append(Ob(f"{key} {s.module}:{s.scope}:{s.target}:{s.name}", "ok" if ok else "violation", f"{s}" + ("" if ok else f": {s.top} is no declared dependency"), f"{s.module}:{s.scope} line {s.line}"))
    return obs


def missing(ip):
    ip.missing_modules = {"lxml"} | TOOLS


def run(key, scenario, text):
    obs = []
    for n, o in enumerate(explore(program(), scenario, 12)):
        k = key if not n else f"{key}#{n}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
        elif o.kind == "raise":
            obs.append(Ob(key, "violation", f"{text}: raises {exc_name(o.value)} {show(o.value)[:200]}", where))
        elif o.value:
            obs.append(Ob(key, "violation", f"{text}: {o.value}", where))
        else:
            obs.append(Ob(k, "ok", text, where))
    return obs


def used(ip):
    return sorted({x.partition(".")[0] for x in ip.imported_external} & ({"lxml"} | TOOLS))


def check_import(key, m):
    def scenario(ip):
        missing(ip)
        ip.import_module(m)
        return f"imports {used(ip)}" if used(ip) else ""

    return run(key, scenario, f"import {m} without lxml and the development tools")


def check_present(key):
    """With everything installed, nothing of it is imported but by the loader."""

    def scenario(ip):
        work(ip)
        return f"imports {used(ip)}" if used(ip) else ""

    return run(key, scenario, "parsing, resolving, converting, comparing and printing with lxml installed")


def work(ip):
    ip.generic = True
    w = World(ip, DEFS)  # noqa: F405
    w.build()
    u = [w.unit(x) for x in (M, S, Id("d"), Id("c"), Id("m", prefix="k"), Mul(Num("n1"), M), Shift(S, Stamp("t")), Id("a"))]  # noqa: F405
    import ast

    for x in u:
        for q in ("dimensionality", "is_dimensionless", "is_time_unit", "expanded"):
            w.m(x, q)
        ip.str(x)
        ip.repr(x)
    w.m(u[0], "is_convertible_to", u[2])
    ip.truth(ip.compare(ast.Eq(), u[0], u[2]))
    w.m(w.converter(u[0], u[2]), "convert", V)
    w.m(w.converter(u[3], u[4]), "convert", V)
    try:
        w.unit(Id("unknown"))
    except AbsRaise:
        pass


def check_work(key):
    def scenario(ip):
        missing(ip)
        work(ip)
        return f"imports {used(ip)}" if used(ip) else ""

    return run(key, scenario, "parsing, resolving, converting, comparing and printing without lxml and the development tools")


def check_load(key, gone):
    """Loading the database when lxml cannot be imported"""

    def scenario(ip):
        ip.missing_modules = set(gone)
        us = ip.from_import(PKG, "UnitSystem")
        try:
            ip.call(ip.getattr(us, "from_udunits2_xml"), [], {})
        except AbsRaise as e:
            if not exc_is(e.exc, "ImportError"):
                return f"raises {exc_name(e.exc)} and not ImportError"
            t = ip.str(e.exc)
            flat = "".join(p if isinstance(p, str) else "?" for p in getattr(t, "parts", (t,))) if is_str(t) else ""
            if "install" not in flat or f"{PKG}[xml]" not in flat:
                return f"the ImportError says {show(t)[:200]} and not how to install {PKG}[xml]"
            return ""
        return "loading succeeds"

    return run(key, scenario, f"loading the database without {', '.join(gone)}")


def check_loader_only(key):
    """Loading imports lxml, and nothing else undeclared."""

    def scenario(ip):
        ip.extern["document"] = {"root": lambda i: libs.element("udunits-2", None, [libs.element("unit-system", None, [], {}, "")], {}, ""), "opened": []}
        us = ip.from_import(PKG, "UnitSystem")
        before = used(ip)
        ip.call(ip.getattr(us, "from_udunits2_xml"), [], {})
        return f"imports {before} before loading" if before else f"imports {used(ip)}" if set(used(ip)) - {"lxml"} else ""

    return run(key, scenario, "loading the database")


def tasks(tier):
    s_ = st()
    mods = [m for m in s_.modules]
    for m in mods:
        if m not in (LOADER, COMPILER) and m not in only_from({LOADER, COMPILER}):
            yield f"import of {m}", check_module, (m,)
            if "_antlr4_runtime" not in m or tier == "thorough":
                yield f"abstract import of {m}", check_import, (m,)
        if layer(m) in UNIT_LAYER and "_antlr4_runtime" not in m:
            yield f"layer of {m}", check_layer, (m,)
        by = {}
        for s in s_.sites:
            if s.module == m and s.internal:
                k = f"{s.module}: {s.target}{'.' + s.name if s.name else ''}"
                by[k] = s
        if by:
            yield f"import sites of {m}", check_site, (list(by.items()),)
        yield f"uses in {m}", check_uses, (m,)
    yield "lazy import", check_lazy_sites, ()
    yield "work", check_work, ()
    yield "work with lxml", check_present, ()
    yield "loading without lxml", check_load, (("lxml",),)
    yield "loading", check_loader_only, ()


def only_from(roots):
    """Modules which nothing but the roots imports, at any level"""
    s_ = st()
    out = set()
    changed = True
    while changed:
        changed = False
        for m in s_.modules:
            if m in out or m in roots or m == PKG:
                continue
            users = {s.module for s in s_.sites if m in s_.edges(s)}
            if users and users <= roots | out:
                out.add(m)
                changed = True
    return out
