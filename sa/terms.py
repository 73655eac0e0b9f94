"""Term algebra of the abstract domain.

A value which the analysis cannot know (the text of a name, the value of a
number, an exponent) is an opaque leaf; arithmetic on such values builds terms.
Terms are kept in a light canonical form.  Two terms are taken to be *different*
only if they differ in the algebra as well: see `differ`, which refutes an
identity by evaluating both sides at generic points.
"""
from __future__ import annotations

import itertools
import math
import random
from fractions import Fraction


class T:
    """A term.  `ty` is the Python type tag the value carries (int, Decimal,
    float, sympy); it takes no part in equality."""

    __slots__ = ("op", "args", "ty", "_h")

    def __init__(self, op, args, ty="int"):
        self.op = op
        self.args = args
        self.ty = ty
        self._h = hash((op, args))

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return (
            isinstance(other, T)
            and self._h == other._h
            and self.op == other.op
            and self.args == other.args
        )

    def __repr__(self):
        return show(self)


def show(t) -> str:
    if not isinstance(t, T):
        return repr(t)
    o, a = t.op, t.args
    if o == "sym":
        return str(a[0])
    if o == "const":
        c = a[0]
        if isinstance(c, Fraction) and c.denominator != 1:
            return f"({c})"
        return str(c)
    if o == "add":
        return "(" + " + ".join(show(x) for x in a) + ")"
    if o == "mul":
        return "(" + "*".join(show(x) for x in a) + ")"
    if o == "pow":
        return f"{show(a[0])}**{show(a[1])}"
    if o == "log":
        return f"log[{show(a[1])}]({show(a[0])})"
    if o == "flt":
        return show(a[0])
    return f"{o}({', '.join(show(x) for x in a)})"


def sym(name, ty="int"):
    """A leaf which stands for a number (a free symbol of the program's own
    algebra has one argument only)."""
    return T("sym", (name, "num"), ty)


def is_free_symbol(t):
    return isinstance(t, T) and t.op == "sym" and len(t.args) == 1


def const(v, ty=None):
    if ty is None:
        ty = "int" if isinstance(v, int) else "float" if isinstance(v, float) else "Decimal"
    if isinstance(v, float):
        v = Fraction(v)
    return T("const", (Fraction(v),), ty)


E_CONST = T("euler", (), "sympy")


def _rank(ty):
    return {"int": 0, "Decimal": 1, "float": 2, "sympy": 3}.get(ty, 3)


def join_ty(*tys):
    return max(tys, key=_rank)


def key(t: T):
    return (t.op, repr(t))


def add(*ts):
    ty = join_ty(*(t.ty for t in ts))
    c = Fraction(0)
    coef: dict = {}
    order = []
    for t in ts:
        for s in t.args if t.op == "add" else (t,):
            if s.op == "const":
                c += s.args[0]
                continue
            k, r = _split_coef(s)
            if r not in coef:
                coef[r] = Fraction(0)
                order.append(r)
            coef[r] += k
    out = []
    for r in order:
        if coef[r] == 0:
            continue
        out.append(r if coef[r] == 1 else mul(const(coef[r]), r))
    out.sort(key=key)
    if c != 0 or not out:
        out.append(T("const", (c,), ty))
    if len(out) == 1:
        return retype(out[0], ty)
    return T("add", tuple(out), ty)


def _split_coef(t):
    if t.op == "mul" and t.args[0].op == "const":
        rest = t.args[1:]
        return t.args[0].args[0], (rest[0] if len(rest) == 1 else T("mul", rest, t.ty))
    return Fraction(1), t


def mul(*ts):
    ty = join_ty(*(t.ty for t in ts))
    c = Fraction(1)
    exps: dict = {}
    order = []
    for t in ts:
        for s in t.args if t.op == "mul" else (t,):
            if s.op == "const":
                c *= s.args[0]
                continue
            b, e = s.args if s.op == "pow" else (s, ONE)
            if b not in exps:
                exps[b] = []
                order.append(b)
            exps[b].append(e)
    if c == 0:
        return T("const", (Fraction(0),), ty)
    out = []
    for b in order:
        e = add(*exps[b])
        p = power(b, e)
        if p.op == "const":
            c *= p.args[0]
        elif p.op == "mul":
            for q in p.args:
                if q.op == "const":
                    c *= q.args[0]
                else:
                    out.append(q)
        else:
            out.append(p)
    out.sort(key=key)
    if not out:
        return T("const", (c,), ty)
    if c != 1:
        # distribute a constant over a single sum
        if len(out) == 1 and out[0].op == "add":
            return retype(add(*(mul(T("const", (c,), ty), s) for s in out[0].args)), ty)
        out.insert(0, T("const", (c,), ty))
    if len(out) == 1:
        return retype(out[0], ty)
    return T("mul", tuple(out), ty)


def power(b: T, e: T):
    ty = join_ty(b.ty, e.ty)
    if e.op == "const":
        v = e.args[0]
        if v == 0:
            return T("const", (Fraction(1),), ty)
        if v == 1:
            return retype(b, ty)
        if b.op == "const" and v.denominator == 1 and abs(v) <= 64 and (b.args[0] != 0 or v > 0):
            return T("const", (b.args[0] ** int(v),), ty)
    if b.op == "const" and b.args[0] == 1:
        return T("const", (Fraction(1),), ty)
    if b.op == "pow":
        return power(b.args[0], mul(b.args[1], e))
    if b.op == "mul":
        return retype(mul(*(power(x, e) for x in b.args)), ty)
    # b ** log[b](x) == x
    if e.op == "log" and e.args[1] == b:
        return retype(e.args[0], ty)
    return T("pow", (b, e), ty)


def log(x: T, base: T | None = None):
    if base is None:
        base = E_CONST
    if x == base:
        return const(1, "sympy")
    if x.op == "const" and x.args[0] == 1:
        return const(0, "sympy")
    if x.op == "pow" and x.args[0] == base:
        return retype(x.args[1], "sympy")
    return T("log", (x, base), "sympy")


def retype(t: T, ty):
    if t.ty == ty:
        return t
    return T(t.op, t.args, ty)


ONE = const(1)
ZERO = const(0)
MINUS = const(-1)


def lift(v):
    """A term for a Python number (or the term itself)."""
    import decimal

    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, int):
        return const(v, "int")
    if isinstance(v, float):
        return const(v, "float")
    if isinstance(v, decimal.Decimal):
        return T("const", (Fraction(v),), "Decimal")
    if isinstance(v, Fraction):
        return T("const", (v,), "sympy")
    return None


def flt(t: T):
    """A floating point number of the computer algebra (never structurally equal
    to an integer or a rational of the same value)."""
    if t.op == "flt" or t.op == "const" and t.args[0] == 0:
        return retype(t, "sympy")
    if t.op == "mul" and t.args[0].op == "const" and len(t.args) == 2:
        return retype(mul(t.args[0], flt(t.args[1])), "sympy")
    return T("flt", (t,), "sympy")


def rounded(t: T, err):
    """t rounded to a relative error of err (constants are rounded as they are
    only when that changes them)."""
    if err < 1e-13 or not isinstance(t, T):
        return t
    return T("rnd", (t, Fraction(max(err, 1e-3))), t.ty)


def strip(t):
    """t without the distinction of floating point numbers."""
    if not isinstance(t, T) or t.op in ("sym", "const", "euler"):
        return t
    if t.op == "flt":
        return strip(t.args[0])
    args = tuple(strip(a) for a in t.args)
    return t if args == t.args else rebuild(t.op, args, t.ty)


def has_float(t):
    return isinstance(t, T) and (t.op == "flt" or any(has_float(a) for a in t.args))


def is_numeric(t):
    return not any(is_free_symbol(l) for l in leaves(t))


def split_numeric(t, op):
    """The numeric and the other operands of a product (or sum)."""
    parts = t.args if t.op == op else (t,)
    num = [x for x in parts if is_numeric(x)]
    return (mul if op == "mul" else add)(ONE if op == "mul" else ZERO, *num), [x for x in parts if not is_numeric(x)]


def monomials(t):
    """{product of symbols: numeric coefficient} of a sum of products."""
    out = {}
    for s in t.args if t.op == "add" else (t,):
        c, rest = split_numeric(s, "mul")
        k = mul(ONE, *rest)
        out[k] = add(out.get(k, ZERO), c)
    return out


def length(name):
    """The length of an opaque text."""
    return T("sym", (f"len({name})", "length"), "int")


def length_bounds(t):
    """(lower, upper) bound of a sum of lengths and a number; None where there is none."""
    lo = hi = Fraction(0)
    for s in t.args if t.op == "add" else (t,):
        if s.op == "const":
            lo = None if lo is None else lo + s.args[0]
            hi = None if hi is None else hi + s.args[0]
            continue
        c, rest = _split_coef(s)
        if rest.op != "sym" or rest.args[1:] != ("length",):
            return None, None
        if c > 0:
            hi = None
        else:
            lo = None
    return lo, hi


def neg(t):
    return mul(MINUS, t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, power(b, MINUS))


def leaves(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, T):
        if t.op == "sym":
            acc.add(t)
        else:
            for a in t.args:
                leaves(a, acc)
    return acc


def subst(t, mapping):
    if not isinstance(t, T):
        return t
    if t in mapping:
        return mapping[t]
    if t.op in ("sym", "const", "euler"):
        return t
    args = tuple(subst(a, mapping) for a in t.args)
    if args == t.args:
        return t
    return rebuild(t.op, args, t.ty)


def rebuild(op, args, ty):
    if op == "add":
        return retype(add(*args), ty)
    if op == "mul":
        return retype(mul(*args), ty)
    if op == "pow":
        return retype(power(*args), ty)
    if op == "log":
        return retype(log(*args), ty)
    return T(op, args, ty)


def count(t, s):
    if t == s:
        return 1
    if not isinstance(t, T) or t.op in ("sym", "const"):
        return 0
    return sum(count(a, s) for a in t.args)


def isolate(lhs: T, s: T, rhs: T):
    """Solve lhs == rhs for s (which occurs once in lhs); None if not possible."""
    for _ in range(200):
        if lhs == s:
            return rhs
        if count(lhs, s) != 1:
            return None
        if lhs.op == "add":
            inner = [a for a in lhs.args if count(a, s)]
            rest = [a for a in lhs.args if not count(a, s)]
            rhs = sub(rhs, add(*rest))
            lhs = inner[0]
        elif lhs.op == "mul":
            inner = [a for a in lhs.args if count(a, s)]
            rest = [a for a in lhs.args if not count(a, s)]
            rhs = div(rhs, mul(*rest))
            lhs = inner[0]
        elif lhs.op == "pow":
            b, e = lhs.args
            if count(b, s):
                rhs = power(rhs, power(e, MINUS))
                lhs = b
            else:
                rhs = log(rhs, b)
                lhs = e
        elif lhs.op == "flt":
            lhs = lhs.args[0]
        elif lhs.op == "log":
            x, b = lhs.args
            if count(b, s):
                return None
            rhs = power(b, rhs)
            lhs = x
        else:
            return None
    return None


# --- evaluation at generic points ------------------------------------------


def reduce_by(t, assumptions):
    """t simplified by the equality guards."""
    for op, a, b, val in assumptions:
        if op != "==" or not val:
            continue
        d = sub(lift(a), lift(b))
        for s in sorted(leaves(d), key=repr):
            if count(d, s) == 1:
                sol = isolate(d, s, ZERO)
                if sol is not None and not count(sol, s):
                    t = subst(t, {s: sol})
                    break
    return t


class EvalError(Exception):
    pass


def evaluate(t, env):
    if not isinstance(t, T):
        t2 = lift(t)
        if t2 is None:
            raise EvalError(repr(t))
        t = t2
    o, a = t.op, t.args
    if o == "sym":
        return env(t)
    if o == "const":
        return float(a[0])
    if o == "euler":
        return math.e
    try:
        if o == "add":
            return math.fsum(evaluate(x, env) for x in a)
        if o == "mul":
            r = 1.0
            for x in a:
                r *= evaluate(x, env)
            return r
        if o == "pow":
            b, e = evaluate(a[0], env), evaluate(a[1], env)
            r = b**e
            if isinstance(r, complex):
                raise EvalError("complex")
            return r
        if o == "log":
            return math.log(evaluate(a[0], env)) / math.log(evaluate(a[1], env))
        if o in ("float_of", "flt"):
            return evaluate(a[0], env)
        if o == "rnd":
            # the worst case, made visible to the tolerance of the comparisons
            return evaluate(a[0], env) * (1.0 + float(a[1]))
        if o == "abs":
            return abs(evaluate(a[0], env))
        if o in ("floordiv", "mod"):
            x, y = evaluate(a[0], env), evaluate(a[1], env)
            return float(x // y) if o == "floordiv" else x % y
        if o == "trunc":
            return float(int(evaluate(a[0], env)))
        if o == "round":
            return float(round(evaluate(a[0], env), *(int(evaluate(x, env)) for x in a[1:])))
        if o == "max":
            return max(evaluate(x, env) for x in a)
        if o == "min":
            return min(evaluate(x, env) for x in a)
        if o == "ite":
            return evaluate(a[1], env) if evaluate(a[0], env) else evaluate(a[2], env)
    except (ValueError, ZeroDivisionError, OverflowError) as e:
        raise EvalError(str(e)) from None
    # an uninterpreted function of its arguments
    vals = tuple(evaluate(x, env) if isinstance(x, T) else x for x in a)
    rnd = random.Random(repr((o, [round(v, 6) if isinstance(v, float) else repr(v) for v in vals])))
    return rnd.uniform(0.6, 2.9)


class NotExact(Exception):
    """A term which has no exact rational value."""


def exact(t, env):
    """The value of a rational term in exact arithmetic."""
    if not isinstance(t, T):
        t = lift(t)
        if t is None:
            raise NotExact
    o, a = t.op, t.args
    if o == "sym":
        v = env(t)
        if isinstance(v, complex) or not math.isfinite(v):
            raise NotExact
        return Fraction(v)
    if o == "const":
        return Fraction(a[0])
    if o in ("float_of", "flt"):
        return exact(a[0], env)
    if o not in ("add", "mul", "pow", "abs", "floordiv", "mod", "trunc", "round", "max", "min"):
        raise NotExact
    xs = [exact(x, env) for x in a]
    try:
        if o == "add":
            return sum(xs)
        if o == "mul":
            r = Fraction(1)
            for x in xs:
                r *= x
            return r
        if o == "pow":
            if xs[1].denominator != 1 or abs(xs[1]) > 50:
                raise NotExact
            return xs[0] ** int(xs[1])
        if o == "abs":
            return abs(xs[0])
        if o == "floordiv":
            return Fraction(xs[0] // xs[1])
        if o == "mod":
            return xs[0] % xs[1]
        if o == "trunc":
            return Fraction(int(xs[0]))
        if o == "round":
            return Fraction(round(xs[0], int(xs[1])) if len(xs) > 1 else round(xs[0]))
    except (ZeroDivisionError, OverflowError):
        raise NotExact from None
    return max(xs) if o == "max" else min(xs)


def is_exponent_like(t: T):
    return t.ty == "int"


class Cache(dict):
    """Values of leaves: one leaf has one value, whatever type it was given."""

    def __contains__(self, s):
        return dict.__contains__(self, s.args)

    def __getitem__(self, s):
        return dict.__getitem__(self, s.args)

    def __setitem__(self, s, v):
        dict.__setitem__(self, s.args, v)


def make_env(seed):
    cache = Cache()

    def env(s):
        if s not in cache:
            rnd = random.Random(f"{seed}/{s.args[0]}")
            if s.ty == "int":
                cache[s] = float(rnd.choice([2, 3, 4, 5, -2, -3, 7]))
            elif isinstance(seed, int) and seed % 4 == 3:
                cache[s] = rnd.choice([rnd.uniform(0.02, 0.3), rnd.uniform(3, 40)])
            else:
                cache[s] = rnd.uniform(0.55, 2.6)
        return cache[s]

    env.cache = cache
    return env


def scaled(guard):
    """A guard which compares with a tolerance, the tolerance scaled up such
    that sample points within it and outside of it are found."""
    op, a, b, val = guard
    if op in ("<", "<="):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, T) and y.op == "const" and 0 < y.args[0] <= Fraction(1, 10000) and leaves(x):
                y2 = T("const", (Fraction(1, 20),), y.ty)
                return (op, a, y2, val) if y is b else (op, y2, b, val)
    return guard


def satisfies(assumptions, env):
    """Do the sample values satisfy the guards of the partition?"""
    for op, a, b, val in map(scaled, assumptions):
        try:
            x, y = evaluate(a, env), evaluate(b, env)
        except EvalError:
            return False
        close = abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
        r = {
            "==": close,
            "<": x < y and not close,
            "<=": x <= y or close,
        }[op]
        if r != val:
            return False
    return True


def holds(guard, env):
    op, a, b, val = scaled(guard)
    try:
        x, y = evaluate(a, env), evaluate(b, env)
    except EvalError:
        return False
    close = abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
    return {"==": close, "<": x < y and not close, "<=": x <= y or close}[op] == val


def unwrapped(t, s):
    """t without the roundings around s (for the search of sample points)."""
    if not isinstance(t, T) or t == s or not count(t, s):
        return t
    if t.op in ("abs", "trunc", "rnd"):
        return unwrapped(t.args[0], s)
    if t.op == "floordiv" and not count(t.args[1], s):
        return div(unwrapped(t.args[0], s), t.args[1])
    return rebuild(t.op, tuple(unwrapped(a, s) for a in t.args), t.ty)


#: how far from the boundary of a guard, and which values, are tried
STEPS = (0, 1, -1, 2, -2, 5, -5)
FACTORS = (1.25370918273, 0.81230577219, 2.48710933357, 0.41190662811)
POINTS = (0.0, 1.0, -1.0, 10.0, -10.0, 13.57, 1e3, 1357.9, 1e6, 1.3579e-3, 1.3579e-6)


def repair(assumptions, env, i, solved):
    """Move leaves over the boundaries of the inequalities which do not hold."""
    for guard in list(assumptions) * 2:
        op, a, b, val = scaled(guard)
        if op == "==" and val or holds(guard, env):
            continue
        d = sub(a, b)
        for s, sol in solved:
            d = subst(d, {s: sol})
        ls = sorted(leaves(d), key=repr)
        k = i % len(ls) if ls else 0
        for s in ls[k:] + ls[:k]:
            old = env(s)
            whole = s.ty == "int"
            cands = []
            u = unwrapped(d, s)
            sol = isolate(u, s, ZERO) if count(u, s) == 1 else None
            if sol is not None:
                try:
                    v = evaluate(sol, env)
                except EvalError:
                    v = None
                if v is not None and not isinstance(v, complex) and math.isfinite(v):
                    if whole:
                        cands += [float(round(v) + k) for k in STEPS]
                    else:
                        cands += [v * f for f in FACTORS] + [v + k for k in STEPS[1:3]]
            cands += list(POINTS)
            if s.args[0].startswith("len("):
                cands = [c for c in cands if c >= 1]
            if whole:
                cands = [c for c in cands if c == round(c)]
            for c in sorted(cands, key=lambda c: c < 0) if old > 0 else cands:
                env.cache[s] = c
                if solve_for(solved, env) and holds(guard, env):
                    break
            else:
                env.cache[s] = old
                solve_for(solved, env)
                continue
            break


def integral(t):
    """Is t surely whole when its whole leaves are?"""
    if t.op == "const":
        return t.args[0].denominator == 1
    if t.op == "sym":
        return t.ty == "int"
    return t.op in ("add", "mul") and all(integral(x) for x in t.args)


def eliminate(assumptions):
    """The equality guards solved for one leaf each: [(leaf, solution)], where a
    solution may mention leaves solved later; None if one cannot be solved."""
    solved = []
    for op, a, b, val in assumptions:
        if op != "==" or not val:
            continue
        for s, sol in solved:
            a, b = subst(a, {s: sol}), subst(b, {s: sol})
        d = sub(a, b)
        ls = sorted(leaves(d), key=repr)
        if not ls:
            continue
        sols = []
        for s in ls:
            if count(d, s) == 1:
                sol = isolate(d, s, ZERO)
                if sol is not None and not count(sol, s):
                    sols.append((s, sol))
        if sols:
            solved.append(min(sols, key=lambda x: x[0].ty == "int" and not integral(x[1])))
            continue
        # the same function of other leaves: the leaves may agree
        pairs = aligned(a, b)
        if not pairs:
            return None
        solved += [(y, x) for x, y in pairs]
    return solved


def solve_for(solved, env):
    for s, sol in reversed(solved):
        try:
            v = evaluate(sol, env)
        except EvalError:
            return False
        if isinstance(v, complex) or s.ty == "int" and abs(v - round(v)) > 1e-9:
            return False
        env.cache[s] = v
    return True


def aligned(a, b):
    """The pairs of leaves at which two terms of one shape differ, or None"""
    if a == b:
        return []
    if not (isinstance(a, T) and isinstance(b, T)):
        return None
    if a.op == b.op == "sym":
        return [(a, b)]
    if a.op != b.op or len(a.args) != len(b.args) or a.op not in ("floordiv", "mod", "rnd", "abs"):
        return None
    out = []
    for x, y in zip(a.args, b.args):
        r = aligned(x, y)
        if r is None:
            return None
        out += r
    return out


def sample_envs(assumptions, wanted, n=6, tries=400):
    """Sample points for the leaves which satisfy the guards."""
    allv = set()
    for _, a, b, _v in assumptions:
        leaves(a, allv)
        leaves(b, allv)
    for t in wanted:
        leaves(t, allv)
    out = []
    whole = [s for s in allv if s.ty == "int"]
    solved = eliminate(assumptions)
    if solved is None:
        return []
    for i in range(tries):
        env = make_env(i)
        for s in whole:
            env(s)
        if not solve_for(solved, env):
            continue
        if not satisfies(assumptions, env):
            repair(assumptions, env, i, solved)
            if not satisfies(assumptions, env):
                continue
        out.append(env)
        if len(out) >= n:
            break
    return out


def critical_envs(assumptions, extras, wanted, each=2):
    """Sample points of the guards which also satisfy one of the extra lists of guards."""
    out = []
    for extra in extras:
        out += sample_envs(list(assumptions) + list(extra), wanted, n=each, tries=40)
    return out


def differ(a, b, assumptions=()):
    """True: a and b are definitely different terms.  False: equal, or no
    refutation was found at the sample points.  None: could not be evaluated."""
    if isinstance(a, T) and a == b:
        return False
    envs = sample_envs(assumptions, (a, b), n=5)
    if not envs:
        return None
    evaluated = 0
    for env in envs:
        try:
            x, y = evaluate(a, env), evaluate(b, env)
        except EvalError:
            continue
        evaluated += 1
        if not (math.isfinite(x) and math.isfinite(y)):
            continue
        if abs(x - y) > 1e-7 * max(abs(x), abs(y), 1e-12):
            return True
    if not evaluated:
        return None
    return False
