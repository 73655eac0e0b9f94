"""C28: times and date-times render and compare faithfully."""
import ast
import itertools

from .. import terms
from ..core import Ob, guards, path_of
from ..interp import PKG, AbsRaise
from ..values import Atom, SStr, Top, Undecided, is_str, parts_of, show
from ..world import exc_name, explore, program

RULE = (
    "Abstract interpretation of Time and DateTime on opaque integers and texts. The text of a time is derived for every "
    "partition of the guards on its fields and compared, at the corners of each partition, with HH:MM[:SS[.ffffff]] (so that "
    "different times have different texts). The comparison of two date-times is derived for every partition of the guards and "
    "must be true exactly where year, month, day, time and offset agree, for every pattern of agreement; equal date-times have "
    "equal hashes, whatever their raw text; the comparison is symmetric and never true for other objects. One obligation per "
    "scenario and partition."
)
ASSUMPTIONS = ["hour, minute and second are whole numbers below 100 and microseconds below 1000000"]
FLOOR = 40

MODULE = f"{PKG}._datetime"
H, M, S, U = (terms.sym(x) for x in ("hour", "minute", "second", "microseconds"))
GRID = {H: [0, 7, 12, 23], M: [0, 1, 30, 59], S: [0, 1, 9, 10, 59], U: [0, 1, 20, 999, 1000, 123456, 500000, 999999]}


def envs(assumptions, grid):
    leaves = list(grid)
    out = []
    for vs in itertools.product(*(grid[x] for x in leaves)):
        d = dict(zip(leaves, vs))

        def env(t, d=d):
            if t not in d:
                raise terms.EvalError(str(t))
            return float(d[t])

        if terms.satisfies(assumptions, env):
            out.append((d, env))
    return out


def text_at(s, env):
    """The text at a point"""
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.append(p)
        elif p.kind == "num":
            t, spec = p.payload
            v = terms.evaluate(t, env)
            v = v if t.ty == "float" else round(v)
            out.append(format(v, spec) if spec else str(v))
        elif p.kind == "numtext":
            t, name, a = p.payload
            out.append(getattr(text_at(t, env), name)(*a))
        else:
            raise Undecided(f"text {p!r}")
    return "".join(out)


def time_text(h, m, s, u):
    t = f"{h:02}:{m:02}"
    if s or u:
        t += f":{s:02}"
    if u:
        t += f".{u:06}"
    return t


def check_text(key, fields, how):
    """str(Time(...)), with the last fields left out"""
    given = [H, M, S, U][:fields]

    def scenario(ip):
        domains(ip)
        cls = ip.from_import(MODULE, "Time")
        t = ip.call(cls, given, {}) if how == "positional" else ip.call(cls, [], dict(zip(("hour", "minute", "second", "microseconds"), given)))
        return ip.str(t)

    obs = []
    grid = {x: GRID[x] if x in given else [0] for x in (H, M, S, U)}
    for n, o in enumerate(explore(program(), scenario, 32)):
        k = f"{key}#{n}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
            continue
        if o.kind == "raise":
            obs.append(Ob(key, "violation", f"raises {exc_name(o.value)}{guards(o)}", where))
            continue
        if not is_str(o.value):
            obs.append(Ob(key, "undecided", show(o.value), where))
            continue
        pts = envs(o.assumptions, grid)
        ob = Ob(k, "ok" if pts else "undecided", f"the text of a time is {show(o.value)}{guards(o)} ({len(pts)} points)", where)
        for d, env in pts:
            try:
                got = text_at(o.value, env)
            except (terms.EvalError, Undecided, ValueError) as e:
                ob = Ob(k, "undecided", str(e), where)
                break
            want = time_text(d[H], d[M], d[S], d[U])
            if got != want:
                ob = Ob(key, "violation", f"the text of the time {d[H]} h {d[M]} min {d[S]} s {d[U]} µs is {got!r} and not {want!r}{guards(o)}", where)
                break
        obs.append(ob)
    return obs


#: the domains of the fields
DOMAIN = {"hour": (0, 99), "minute": (0, 99), "second": (0, 99), "microseconds": (0, 999999), "zh": (0, 99), "zm": (0, 99)}


def domains(ip):
    for x, d in DOMAIN.items():
        ip.domain[terms.sym(x)] = ip.domain[terms.sym(f"{x}2")] = d


def text(x):
    return SStr((Atom(x, "text"),))


FIELDS = ("year", "month", "day", "hour", "minute", "second", "microseconds")
#: values of the offset: the default ("UTC"), opaque texts, opaque times, and a
#: known time beside the text of the same time
OFFSETS = ("default", "a", "b", "time", "time2")
KINDS = ("default", "utc", "text 00:00", "00:00", "text 01:30", "01:30", "text 01:30:00", "zulu")


def make(ip, names, offset, raw, order=None):
    """A date-time of opaque fields"""
    T = ip.from_import(MODULE, "Time")
    D = ip.from_import(MODULE, "DateTime")
    f = dict(names)
    t = ip.call(T, [terms.sym(f[x]) for x in FIELDS[3:]], {})
    kw = {"time": t}
    if offset in ("a", "b"):
        kw["tz_offset"] = text(offset)
    elif offset == "time":
        kw["tz_offset"] = ip.call(T, [terms.sym("zh"), terms.sym("zm")], {})
    elif offset == "time2":
        kw["tz_offset"] = ip.call(T, [terms.sym("zh2"), terms.sym("zm2")], {})
    elif offset in ("utc", "zulu"):
        kw["tz_offset"] = {"utc": "UTC", "zulu": "Z"}[offset]
    elif offset.startswith("text "):
        kw["tz_offset"] = offset[5:]
    elif ":" in offset:
        kw["tz_offset"] = ip.call(T, [int(x) for x in offset.split(":")], {})
    if raw is not None:
        kw["raw_content"] = text(raw)
    return ip.call(D, [terms.sym(f[x]) for x in FIELDS[:3]], kw)


def same_offset(a, b, d):
    if {a, b} == {"time", "time2"}:
        return d["zh"] == d["zh2"] and d["zm"] == d["zm2"]
    return {"default": "utc"}.get(a, a) == {"default": "utc"}.get(b, b)


def check_eq(key, differing, oa, ob_, raws, op="=="):
    """Two date-times whose fields are the same symbols but for some, which are
    symbols of their own (and so may agree or not)."""
    na = {x: x for x in FIELDS}
    nb = {x: f"{x}2" if x in differing else x for x in FIELDS}

    def scenario(ip):
        domains(ip)
        a = make(ip, na, oa, raws[0])
        b = make(ip, nb, ob_, raws[1])
        cmp = ast.Eq() if op == "==" else ast.NotEq()
        return ip.truth(ip.compare(cmp, a, b)), ip.truth(ip.compare(cmp, b, a))

    obs = []
    leaves = [x for x in FIELDS] + [f"{x}2" for x in differing] + (["zh", "zm", "zh2", "zm2"] if {"time", "time2"} == {oa, ob_} else [])
    # the fields which are the same symbol on both sides need one value
    # (any whole number can stand in a date: collisions are looked for among these)
    def values(x):
        few = len(differing) > 1 or oa != ob_
        return [1, 2, 12] if few else [1, 2, 12, 0, 31, 60, 101] + ([-1, 366, 1001] if x.rstrip("2") in FIELDS[:3] else [])

    grid = {terms.sym(x): values(x) if x + "2" in leaves or x.endswith("2") else [1] for x in leaves}
    for z in ("zh", "zm"):
        grid.setdefault(terms.sym(z), [0])
    for n, o in enumerate(explore(program(), scenario, 64)):
        k = f"{key}#{n}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
            continue
        if o.kind == "raise":
            obs.append(Ob(key, "violation", f"raises {exc_name(o.value)}{guards(o)}", where))
            continue
        pts = envs(o.assumptions, grid)
        res = Ob(k, "ok" if pts else "info", f"{o.value[0]}{guards(o)} ({len(pts)} points)", where)
        for d, env in pts:
            v = {t.args[0]: x for t, x in d.items()}
            want = all(v[x] == v[nb[x]] for x in FIELDS) and same_offset(oa, ob_, v)
            if op == "!=":
                want = not want
            if o.value != (want, want):
                what = ", ".join(f"{x} {v[x]} and {v[nb[x]]}" for x in differing)
                res = Ob(key, "violation", f"date-times with {what or 'the same fields'}, offsets {oa} and {ob_}, raw texts {raws[0]} and {raws[1]}: {op} is {o.value[0]} one way and {o.value[1]} the other{guards(o)}, and should be {want}", where)
                break
        obs.append(res)
    return obs


def check_hash(key, oa, raws):
    def scenario(ip):
        domains(ip)
        a = make(ip, {x: x for x in FIELDS}, oa, raws[0])
        b = make(ip, {x: x for x in FIELDS}, oa, raws[1])
        return ip.hash_of(a), ip.hash_of(b), ip.truth(ip.compare(ast.Eq(), a, b))

    obs = []
    for n, o in enumerate(explore(program(), scenario, 16)):
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(f"{key}#{n}", "undecided", str(o.value), where))
        elif o.kind == "raise":
            obs.append(Ob(key, "violation", f"raises {exc_name(o.value)}", where))
        elif o.value[0] != o.value[1]:
            obs.append(Ob(key, "violation", f"equal date-times with raw texts {raws[0]} and {raws[1]} have different hashes: {show(o.value[0])} and {show(o.value[1])}", where))
        else:
            obs.append(Ob(f"{key}#{n}", "ok", "equal date-times have equal hashes", where))
    return obs


def check_time_eq(key, differing):
    def scenario(ip):
        domains(ip)
        T = ip.from_import(MODULE, "Time")
        a = ip.call(T, [H, M, S, U], {})
        b = ip.call(T, [terms.sym(f"{x}2") if x in differing else terms.sym(x) for x in FIELDS[3:]], {})
        return ip.truth(ip.compare(ast.Eq(), a, b))

    obs = []
    grid = {terms.sym(x): [1, 2, 12] if x in differing else [1] for x in FIELDS[3:]} | {terms.sym(f"{x}2"): [1, 2, 12] for x in differing}
    for n, o in enumerate(explore(program(), scenario, 32)):
        k, where = f"{key}#{n}", path_of(o)
        if o.kind != "ok":
            obs.append(Ob(k, "undecided" if o.kind == "undecided" else "violation", str(o.value) if o.kind == "undecided" else f"raises {exc_name(o.value)}", where))
            continue
        pts = envs(o.assumptions, grid)
        res = Ob(k, "ok" if pts else "info", f"{o.value}{guards(o)} ({len(pts)} points)", where)
        for d, _ in pts:
            v = {t.args[0]: x for t, x in d.items()}
            want = all(v[x] == v[f"{x}2"] for x in differing)
            if o.value != want:
                res = Ob(key, "violation", f"times with {', '.join(f'{x} {v[x]} and {v[x + chr(50)]}' for x in differing)}: equal is {o.value}", where)
                break
        obs.append(res)
    return obs


def check_other(key, what):
    """A date-time is not equal to anything else."""

    def scenario(ip):
        domains(ip)
        a = make(ip, {x: x for x in FIELDS}, "default", "r")
        b = {
            "text": lambda: text("r"),
            "None": lambda: None,
            "number": lambda: terms.sym("year"),
            "tuple": lambda: tuple(terms.sym(x) for x in FIELDS[:3]),
            "time": lambda: ip.call(ip.from_import(MODULE, "Time"), [H, M, S, U], {}),
        }[what]()
        if what == "time":
            return ip.truth(ip.compare(ast.Eq(), a, b)), ip.truth(ip.compare(ast.Eq(), b, a))
        return (ip.truth(ip.compare(ast.Eq(), a, b)),)

    obs = []
    for n, o in enumerate(explore(program(), scenario, 16)):
        k, where = f"{key}#{n}", path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
        elif o.kind == "raise":
            obs.append(Ob(key, "violation", f"comparing a date-time with a {what} raises {exc_name(o.value)}", where))
        elif any(o.value):
            obs.append(Ob(key, "violation", f"a date-time equals a {what}{guards(o)}", where))
        else:
            obs.append(Ob(k, "ok", f"a date-time is not equal to a {what}", where))
    return obs


def check_frozen(key, cls, field):
    """The fields cannot be reassigned, so that equality and hash stay."""

    def scenario(ip):
        d = make(ip, {x: x for x in FIELDS}, "default", "r")
        o = d if cls == "DateTime" else ip.getattr(d, "time")
        try:
            ip.setattr(o, field, terms.sym("other"))
        except AbsRaise as e:
            return exc_name(e.exc)
        return "accepted"

    obs = []
    for n, o in enumerate(explore(program(), scenario, 4)):
        k, where = f"{key}#{n}", path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
        elif o.kind == "raise":
            obs.append(Ob(key, "violation", f"raises {exc_name(o.value)}", where))
        elif o.value == "accepted":
            obs.append(Ob(key, "violation", f"{cls}.{field} can be assigned", where))
        else:
            obs.append(Ob(k, "ok", f"assigning {cls}.{field} raises {o.value}", where))
    return obs


def check_defaults(key, given):
    """What is left out is midnight, no seconds, and UTC."""
    want = {"hour": 0, "minute": 0, "second": 0, "microseconds": 0, "tz_offset": "UTC", "raw_content": None}

    def scenario(ip):
        domains(ip)
        T, D = (ip.from_import(MODULE, x) for x in ("Time", "DateTime"))
        f = [terms.sym(x) for x in FIELDS]
        kw = {"time": ip.call(T, f[3 : 3 + given], {})} if given else {}
        d = ip.call(D, f[:3], kw)
        got = {x: ip.getattr(ip.getattr(d, "time"), x) for x in FIELDS[3:]}
        got.update({x: ip.getattr(d, x) for x in ("year", "month", "day", "tz_offset", "raw_content")})
        return got, dict(want, **{x: terms.sym(x) for x in FIELDS[: 3 + given]})

    obs = []
    for n, o in enumerate(explore(program(), scenario, 8)):
        k, where = f"{key}#{n}", path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
        elif o.kind == "raise":
            obs.append(Ob(key, "violation", f"raises {exc_name(o.value)}", where))
        else:
            got, exp = o.value
            bad = [x for x in exp if got[x] != exp[x]]
            kind = "undecided" if any(isinstance(got[x], Top) for x in bad) else "violation" if bad else "ok"
            obs.append(Ob(key if bad else k, kind, f"a date-time of {3 + given} fields" + "".join(f", {x} is {show(got[x])}" for x in bad), where))
    return obs


def tasks(tier):
    for given in (0, 2, 3, 4):
        yield f"defaults of a date-time, {given} fields of time", check_defaults, (given,)
    for how in ("positional", "keyword"):
        for n in (4, 3, 2):
            yield f"text of a time, {n} fields, {how}", check_text, (n, how)
    for k in range(1, 5):
        for c in itertools.combinations(FIELDS[3:], k):
            yield f"equality of times, {' '.join(c)}", check_time_eq, (c,)
    deep = tier == "thorough"
    for op in ("==", "!="):
        for raws in (("r", "q"), (None, "r"), ("r", "r")):
            for oa, ob in itertools.product(OFFSETS, repeat=2):
                yield f"{op} with offsets {oa} and {ob}, raw {raws[0]} and {raws[1]}", check_eq, ((), oa, ob, raws, op)
            for k in range(1, 4 if deep else 3):
                for c in itertools.combinations(FIELDS, k):
                    yield f"{op} but for {' '.join(c)}, raw {raws[0]} and {raws[1]}", check_eq, (c, "default", "default", raws, op)
        for f in FIELDS:
            for oa, ob in itertools.product(OFFSETS, repeat=2):
                yield f"{op} but for {f}, offsets {oa} and {ob}", check_eq, ((f,), oa, ob, ("r", "q"), op)
        for oa, ob in itertools.product(KINDS, repeat=2):
            yield f"{op} with offsets {oa} and {ob}", check_eq, ((), oa, ob, ("r", "q"), op)
    for oa in OFFSETS + KINDS:
        for raws in (("r", "q"), (None, "r")):
            yield f"hash, offset {oa}, raw {raws[0]} and {raws[1]}", check_hash, (oa, raws)
    for w in ("text", "None", "number", "tuple", "time"):
        yield f"not equal to a {w}", check_other, (w,)
    for cls, fields in (("DateTime", ("year", "month", "day", "time", "tz_offset", "raw_content")), ("Time", ("hour", "minute", "second", "microseconds"))):
        for f in fields:
            yield f"frozen {cls}.{f}", check_frozen, (cls, f)
