"""C21: the bundled database agrees with the official UDUNITS-2 database."""
from .. import db
from ..core import Ob

RULE = (
    "Comparison of data: the elements of the bundled XML file against those of the official UDUNITS-2 2.2 database (a copy in "
    "/verif/data). For each official prefix and unit: every reference is in the bundled file in the same role, the value or the "
    "fully resolved definition (exact rational factor, base units, shifts, logarithms) is equal, and so are base and dimensionless "
    "status and declared-absent plurals. For each reference which is only in the bundled file: it has no other meaning in the official "
    "database. One obligation per official reference, and per element and rule."
)
ASSUMPTIONS = ["the copy of the official database is that of UDUNITS-2 2.2 as distributed with cf-units"]
FLOOR = 800


def tasks(tier):
    o = db.official()
    for n, e in enumerate(o.entries):
        yield f"{e} ({e.where})", check, (n,)
    yield "elements which only the bundled database has", extra, ()


def at(e):
    return f"{e.where} ({e})"


def check(key, n):
    o, b = db.official(), db.bundled()
    e = o.entries[n]
    out = []
    if e.kind == "prefix":
        for role, r in e.refs():
            mine = [p for p in b.prefixes if (role, r) in p.refs()]
            k = f"{e}: {role} {r}"
            if not mine:
                out.append(Ob(k, "violation", f"the prefix {role} {r} is missing in the bundled database", db.bundled_path()))
            for p in mine:
                same = len(p.value) == 1 and number(p.value[0]) == number(e.value[0])
                out.append(Ob(k, "ok" if same else "violation", f"{r} is {', '.join(p.value)}, officially {e.value[0]}", at(p)))
        return out
    want = o.meaning(e)
    seen = []
    for role, r in e.refs():
        k = f"{e}: {role} {r}"
        table = b.table.get(role.replace(" plural", ""), {})
        mine = table.get(r)
        if mine is None or (role, r) not in mine.refs():
            other = b.exact(r)
            out.append(Ob(k, "violation", f"the {role} {r} is missing in the bundled database" + (f" (there it is {', '.join(x for x, y in other.refs() if y == r)} of {other})" if other else ""), at(other) if other else db.bundled_path()))
            continue
        if mine not in seen:
            seen.append(mine)
        try:
            got = b.meaning(mine)
        except db.Problem as p:
            out.append(Ob(k, "violation", f"{r}: {p}", at(mine)))
            continue
        out.append(Ob(k, "ok" if got == want else "violation", f"{r} is {db.show_meaning(got)}, officially {db.show_meaning(want)}", at(mine)))
        # what the reference resolves to, with all precedence
        lk = [u for _, u in b.lookup(r)]
        off = [u for _, u in o.lookup(r)]
        if off == [e] and lk != [mine]:
            out.append(Ob(f"{k}, resolution", "violation", f"{r} resolves to {lk[0]}", at(lk[0])))
    for m in seen:
        out.append(Ob(f"{e}: status", "ok" if sorted(m.status) == sorted(e.status) else "violation", f"{e} is {'+'.join(m.status)}, officially {'+'.join(e.status)}", at(m)))
    for s, p in e.names + e.anames:
        if p is None and o.exact(db.plural(s)) is None and s:
            x = b.exact(db.plural(s))
            out.append(Ob(f"{e}: no plural of {s}", "violation" if x else "ok", f"{db.plural(s)} is {'' if x else 'not '}a reference", at(x) if x else ""))
    if len(seen) > 1:
        out.append(Ob(f"{e}: one element", "info", f"{e} is spread over {', '.join(map(at, seen))}"))
    return out


def number(t):
    try:
        return db.Fraction(t)
    except ValueError:
        return t


def extra(key):
    o, b = db.official(), db.bundled()
    out = []
    known = {(r, role) for e in o.entries for role, r in e.refs()}
    for e in b.entries:
        for role, r in e.refs():
            if (r, role) in known:
                continue
            k = f"only in the bundled database: {e}, {role} {r}"
            if e.kind == "prefix":
                # a prefix more must not give an official reference a further reading
                out.append(Ob(k, "violation" if any(r == x for p in o.prefixes for _, x in p.refs()) else "ok", f"prefix {r}", at(e)))
                continue
            rs = o.lookup(r)
            if not rs:
                out.append(Ob(k, "ok", f"{r} has no official meaning", at(e)))
                continue
            try:
                got = b.meaning(e)
                want = [o.resolve(("id", r), ())]
            except db.Problem as p:
                out.append(Ob(k, "violation", str(p), at(e)))
                continue
            out.append(Ob(k, "ok" if got in want else "violation", f"{r} is {db.show_meaning(got)}, officially {db.show_meaning(want[0])}", at(e)))
    return out or [Ob(key, "ok", "none")]
