"""C07: conversions compose and invert."""
import math

from .. import terms
from ..convert import V
from ..core import Ob, guards, path_of
from ..shapes import *
from ..values import Top, show
from ..world import Oracle, World, close, exc_is, exc_name, explore, program, spec_leaves

RULE = (
    "Relational abstract interpretation: the terms derived for converting v along A>B>A, A>A and A>B>C are compared "
    "with v and with the term derived for A>C by the same program (no oracle for the conversion itself), at generic "
    "points of every partition. One obligation per pair or triple of unit shapes and partition."
)
ASSUMPTIONS = ["unit shapes are bounded; opaque numbers are in general position (positive for the argument of a logarithm)"]
FLOOR = 100

ENVX = dict(DEFS)
ENVX.update(
    {
        "l": Def(Log("lg", Mul(Num("ln"), M))),
        "cc": Def(Shift(Id("c"), Num("ccn"))),
        "h": Def(Mul(Num("hn"), S)),
    }
)


def check(key, env, chain, ref):
    """Converting along the chain equals converting along ref."""

    def scenario(ip):
        w = World(ip, env)
        units = {}

        def unit(s):
            if s not in units:
                units[s] = w.unit(s)
            return units[s]

        def run(c):
            v = V
            for a, b in zip(c, c[1:]):
                v = w.m(w.converter(unit(a), unit(b)), "convert", v)
            return v

        return run(chain), run(ref) if len(ref) > 1 else V

    what = " to ".join(map(str, chain))
    obs = []
    outs = explore(program(), scenario, 48)
    leaves = [V] + spec_leaves(*chain, env=env)
    for n, o in enumerate(outs):
        k = key if len(outs) == 1 else f"{key}#{n}"
        where = path_of(o)
        if o.kind == "undecided":
            obs.append(Ob(k, "undecided", str(o.value), where))
            continue
        if o.kind == "raise":
            # whether a converter exists is decided by C06
            status = "undecided" if exc_is(o.value, "ValueError") else "violation"
            obs.append(Ob(key if status == "violation" else k, status, f"{what}: raises {exc_name(o.value)} {show(o.value)[:150]}", where))
            continue
        x, y = o.value
        tx, ty = terms.lift(x), terms.lift(y)
        if isinstance(x, Top) or isinstance(y, Top):
            obs.append(Ob(k, "undecided", f"{show(x)} {show(y)}"[:200], where))
            continue
        if tx is None or ty is None:
            obs.append(Ob(key, "violation", f"{what}: the result is {show(x)[:100]} / {show(y)[:100]}, not a number", where))
            continue
        bad, good = None, 0
        for e in terms.sample_envs(o.assumptions, leaves, n=60, tries=300):
            if good >= 6:
                break
            try:
                gx, gy = terms.evaluate(tx, e), terms.evaluate(ty, e)
            except (terms.EvalError, OverflowError, ZeroDivisionError):
                continue
            if isinstance(gx, complex) or isinstance(gy, complex) or not (math.isfinite(gx) and math.isfinite(gy)):
                continue
            if not (1e-12 < abs(gx) < 1e12) or not close(gx, gy, 1e-5):
                if abs(gx) > 1e12 or abs(gy) > 1e12 or abs(gy) < 1e-12:
                    continue
                bad = (
                    f"v becomes {terms.show(tx)} along {what}, but "
                    f"{'should be v again' if len(ref) == 1 else terms.show(ty) + ' directly'} (at a generic point {gx:.6g}, {gy:.6g})"
                )
                break
            good += 1
        if bad:
            obs.append(Ob(key, "violation", bad + guards(o), where))
        elif not good:
            obs.append(Ob(k, "undecided", "no sample point" + guards(o), where))
        else:
            obs.append(Ob(k, "ok", f"{what}: {terms.show(tx)}"[:300], where))
    return obs


def families(tier):
    metre = ["m", "km", "d", "c", "l", ("*", "n", "m"), ("@", "d"), ("lg", "m"), ("ln", ("*", "n", "m")), "cc", ("/", "m", "n"), ("lb", "km")]
    speed = [("/", "m", "s"), ("/", "d", "h"), ("@", ("/", "m", "s")), ("log", ("/", "d", "s")), ("*", "m", "w"), ("*", "n", ("/", "m", "h"))]
    sq = [("^", "m", 2), "q", ("^", ("*", "n", "m"), 2), ("^", "c", 2), ("lg", ("^", "d", 2)), ("*", "d", "km")]
    sq.remove("q")
    less = ["n", "r", "a", ("@", "n"), ("ln", "r"), ("/", "d", "m"), ("/", "m", "d"), "z"]
    inv = [("/", 1, "s"), "w", ("^", "h", -1), ("/", "n", "h")]
    time = ["s", "h", ("*", "n", "h")]
    fams = [metre, speed, sq, less]
    if tier == "thorough":
        metre += [("@", "c"), ("@", ("*", "n", "d")), ("lg", "l"), ("lg", ("/", "d", "n")), ("*", "r", "m"), ("*", "kd", "n"), ("ln", ("lg", "m")), "kd"]
        speed += [("lb", ("*", "m", "w")), ("@", ("/", "km", "h")), ("/", ("/", "d", "n"), "s"), ("*", ("/", "m", "s"), "r")]
        sq += [("*", "m", "m"), ("@", ("^", "d", 2)), ("/", ("^", "m", 3), "m"), ("^", ("/", ("*", "m", "s"), "h"), 2)]
        less += ["q" if False else ("/", "h", "s"), ("^", "r", 2), ("lg", "a"), ("@", "a"), ("*", "n", "r")]
    return fams, [(time, inv)]


def tasks(tier):
    fams, invs = families(tier)
    for fam in fams:
        sp = [(name(x), rename(spec(x), f"_{i}")) for i, x in enumerate(fam)]
        for nx, x in sp:
            yield f"{nx} to itself", check, (ENVX, (x, x), (x,))
            for ny, y in sp:
                if x is not y:
                    yield f"{nx} to {ny} and back", check, (ENVX, (x, y, x), (x,))
        for i, (nx, x) in enumerate(sp):
            for j, (ny, y) in enumerate(sp):
                for l, (nz, z) in enumerate(sp):
                    if len({i, j, l}) == 3 and (tier == "thorough" or (i + 2 * j + 3 * l) % 4 == 0):
                        yield f"{nx} to {ny} to {nz}", check, (ENVX, (x, y, z), (x, z))
    for direct, inverse in invs:
        for i, x in enumerate(direct):
            for j, y in enumerate(inverse):
                a, b = rename(spec(x), f"_{i}"), rename(spec(y), f"i{j}")
                yield f"{name(x)} to {name(y)} and back", check, (ENVX, (a, b, a), (a,))
                yield f"{name(y)} to {name(x)} and back", check, (ENVX, (b, a, b), (b,))
    for sh in dedupe(wide_shapes()):
        a = spec(sh)
        dims = base_dims(a, WIDE)
        b, c = monomial(dims, Num("f1")), monomial({x: -e for x, e in dims.items()})
        yield f"wide {name(sh)} to base and back", check, (WIDE, (a, b, a), (a,))
        yield f"wide {name(sh)} to the inverse and back", check, (WIDE, (a, c, a), (a,))
