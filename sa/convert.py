"""Conversion scenarios: the derived conversion term against the oracle."""
from __future__ import annotations

import math

from . import terms
from .core import Ob, guards, path_of
from .values import Top, show
from .world import critical, far, Oracle, World, close, exc_is, exc_name, explore, program, spec_leaves

V = terms.sym("v", "float")


def convert_outcomes(env, a, b, chain=None, max_partitions=48):
    def scenario(ip):
        w = World(ip, env)
        ua, ub = w.unit(a), w.unit(b)
        return w.m(w.converter(ua, ub), "convert", V)

    return explore(program(), scenario, max_partitions)


def check_conversion(key, env, a, b, expect=None):
    """One obligation per partition of the guards of the conversion."""
    obs = []
    outs = convert_outcomes(env, a, b)
    leaves = [V] + spec_leaves(a, b, env=env)
    for n, o in enumerate(outs):
        k = f"{key}" if len(outs) == 1 else f"{key}#{n}"
        obs.append(judge(k, key, o, env, a, b, leaves))
    return obs


def judge(k, key, o, env, a, b, leaves):
    where = path_of(o)
    if o.kind == "undecided":
        return Ob(k, "undecided", str(o.value) + guards(o), where)
    envs = terms.sample_envs(o.assumptions, leaves, n=60, tries=300)
    if not envs:
        return Ob(k, "undecided", "no sample point for the guards", where)
    n_ok = 0
    special = terms.critical_envs(o.assumptions, critical(env, a, b), leaves)
    for i, e in enumerate(special + envs):
        if i >= len(special) and n_ok >= 6 + len(special):
            break
        orc = Oracle(env, e)
        try:
            how = orc.convertible(a, b)
        except terms.EvalError:
            continue
        if how is None:
            if o.kind == "raise" and exc_is(o.value, "IncompatibleUnitsError"):
                n_ok += 1
                continue
            got = f"raises {exc_name(o.value)}" if o.kind == "raise" else "a converter"
            return Ob(key, "violation", f"{a} to {b}{guards(o)}: {got}, but the units are inconvertible", where)
        try:
            want = orc.convert(a, b, e(V))
        except (terms.EvalError, OverflowError, ZeroDivisionError, ValueError):
            if o.kind == "raise":
                continue
            continue
        if not math.isfinite(want):
            continue
        if o.kind == "raise":
            return Ob(
                key, "violation",
                f"{a} to {b}{guards(o)}: raises {exc_name(o.value)} {show(o.value)[:160]}, but the units are convertible ({how})",
                where,
            )
        if isinstance(o.value, Top):
            return Ob(k, "undecided", show(o.value), where)
        t = terms.lift(o.value)
        if t is None:
            return Ob(key, "violation", f"{a} to {b}{guards(o)}: the result is {show(o.value)[:200]}", where)
        try:
            got = terms.evaluate(t, e)
        except terms.EvalError:
            continue
        if isinstance(got, complex) or not math.isfinite(got):
            continue
        if not close(got, want) or not any(g[0] == "==" and g[3] for g in o.assumptions) and far(t, e, orc, a, b, V):
            return Ob(
                key, "violation",
                f"{a} to {b}{guards(o)}: v becomes {terms.show(t)}, which is not the {how} conversion "
                f"(at a generic point {got:.9g} instead of {want:.9g})",
                where,
            )
        n_ok += 1
    if not n_ok:
        return Ob(k, "undecided", "no sample point could be evaluated" + guards(o), where)
    shown = f"v becomes {terms.show(terms.lift(o.value))}" if o.kind == "ok" else f"refused with {exc_name(o.value)}"
    return Ob(k, "ok", f"{a} to {b}{guards(o)}: {shown}", where)
