"""Running the obligations of a check and reporting."""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(HERE, "known_findings.txt")


class Ob:
    """One obligation: a scenario (or a program construct) and a rule."""

    __slots__ = ("key", "status", "detail", "construct", "extra")

    def __init__(self, key, status, detail="", construct="", **extra):
        self.key = key
        self.status = status  # ok, violation, undecided, info
        self.detail = detail
        self.construct = construct
        self.extra = extra

    def as_dict(self):
        d = {"key": self.key, "status": self.status, "detail": self.detail, "construct": self.construct}
        d.update(self.extra)
        return d


def path_of(outcome, limit=14):
    """The path through the analysed program, as the functions entered."""
    seen = []
    for q in outcome.interp.call_trace or []:
        if q not in seen and "_antlr4_runtime" not in q:
            seen.append(q)
    if len(seen) > limit:
        seen = seen[:4] + ["…"] + seen[-(limit - 5):]
    s = " > ".join(x.replace("pyudunits2", "", 1) if x.startswith("pyudunits2.") else x for x in seen)
    if outcome.kind == "raise" and outcome.interp.raise_site is not None:
        s = f"raised in {outcome.interp.raise_site[1]}; path {s}"
    return s


def guards(outcome):
    g = outcome.guards()
    return (" when " + " and ".join(g)) if g else ""


def load_findings(prop):
    """Lines of the known-findings file:
    finding: property=<id> key=<obligation> | <what the analysis derives> :: <what fails>
    A violation is known only if its obligation is listed and the derived result
    is the listed one."""
    known = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                rest = line[len("finding:"):].strip()
                p, _, rest = rest.partition(" ")
                k, _, what = rest.partition(" :: ")
                if p == f"property={prop}" and k.startswith("key="):
                    key, _, seen = k[4:].partition(" | ")
                    known[key] = (seen, what)
    return known


_TASKS = None


def _work_chunk(idx):
    return [_work(i) for i in idx]


def _work(i):
    key, fn, args = _TASKS[i]
    res = []

    def main():
        from . import interp

        interp.STATS.update(partitions=0, steps=0, runs=0)
        try:
            out = fn(key, *args)
            res.append(([o.as_dict() for o in out], dict(interp.STATS)))
        except Exception as e:  # an error of the analysis, not of the program
            res.append((
                [Ob(key, "undecided", f"analysis error: {type(e).__name__}: {e}", traceback.format_exc()[-1500:]).as_dict()],
                dict(interp.STATS),
            ))

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    return i, (res[0] if res else ([Ob(key, "undecided", "analysis died").as_dict()], {}))


def run_tasks(tasks, deadline, procs=None, known=(), early=None):
    """[(key, fn, args)] -> list of obligation dictionaries, statistics"""
    global _TASKS
    _TASKS = tasks
    obs, stats = [], {"partitions": 0, "steps": 0, "runs": 0}
    skipped = 0
    if not tasks:
        return obs, stats, 0
    procs = procs or min(8, os.cpu_count() or 1, max(1, len(tasks)))
    ctx = multiprocessing.get_context("fork")
    results = {}
    seen = 0
    size = max(1, min(16, len(tasks) // (procs * 6) or 1))
    chunks = [list(range(i, min(i + size, len(tasks)))) for i in range(0, len(tasks), size)]
    with ctx.Pool(procs) as pool:
        it = pool.imap_unordered(_work_chunk, chunks)
        for _ in chunks:
            left = deadline - time.time()
            if left <= 0:
                break
            try:
                for i, r in it.next(timeout=left):
                    results[i] = r
                    seen += sum(1 for o in r[0] if o["status"] == "violation" and o["key"] not in known)
            except multiprocessing.TimeoutError:
                break
            if early is not None and seen >= 20 and time.time() > early:
                break  # it is violated: what remains would not change that
        pool.terminate()
    for i, (key, _, _) in enumerate(tasks):
        if i in results:
            o, st = results[i]
            obs.extend(o)
            for k in stats:
                stats[k] += st.get(k, 0)
        else:
            skipped += 1
    return obs, stats, skipped


def run_check(prop, tier):
    t0 = time.time()
    mod = importlib.import_module(f"sa.checks.{prop.lower()}")
    budget = 780 if tier == "thorough" else 500
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    tasks = list(mod.tasks(tier))
    tasks = list({k: (k, f, a) for k, f, a in reversed(tasks)}.values())[::-1]
    known = load_findings(prop)
    obs, stats, skipped = run_tasks(tasks, t0 + budget, known=known, early=None if hasattr(mod, "finish") else t0 + 60)
    if hasattr(mod, "finish"):
        obs = mod.finish(obs, tier)
    by = {"ok": [], "violation": [], "undecided": [], "info": []}
    found_known = []
    for o in obs:
        if o["status"] == "violation" and o["key"] in known and known[o["key"]][0] in o["detail"]:
            found_known.append(o)
            continue
        by[o["status"]].append(o)
    decided = len(by["ok"]) + len(by["violation"]) + len(found_known)
    wall = time.time() - t0
    samples = [f"{o['key']}: {o['detail']}"[:600] for o in (by["violation"][:5] + by["ok"][:: max(1, len(by["ok"]) // 6 or 1)][:6])]
    cov = {
        "explanation": mod.RULE,
        "obligations": len(obs),
        "discharged": len(by["ok"]),
        "undecided": len(by["undecided"]),
        "known_findings": len(found_known),
        "scenarios": len(tasks),
        "not_analysed_in_time": skipped,
        "partitions": stats["partitions"],
        "abstract_steps": stats["steps"],
        "evaluations": len(obs),
        "distinct_nontrivial": len({o["key"] for o in obs if o["status"] != "undecided"}),
        "rule": mod.RULE,
        "undecided_samples": [f"{o['key']}: {o['detail']}"[:300] for o in by["undecided"][:12]],
        "samples": samples or ["none"],
    }
    info = [o for o in by["info"]]
    if info:
        cov["analysed"] = [f"{o['key']}: {o['detail']}"[:400] for o in info[:60]]
    if hasattr(mod, "coverage"):
        cov.update(mod.coverage())
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": mod.LEVEL if hasattr(mod, "LEVEL") else "other",
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + BASE_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(by["violation"]),
    }
    with open(os.path.join(evdir, f"{prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)
    replay = os.path.join(evdir, "replay", f"{prop}.json")
    print(
        f"{prop} [{tier}] {len(obs)} obligations: {len(by['ok'])} hold, {len(by['violation'])} violated, "
        f"{len(found_known)} known findings, {len(by['undecided'])} undecided, {skipped} not reached; "
        f"{stats['partitions']} partitions, {stats['steps']} abstract steps, {wall:.1f} s"
    )
    if os.environ.get("SA_VERBOSE"):
        for o in by["undecided"][:12]:
            print("UNDECIDED", o["key"], "|", o["detail"][:200], "|", o["construct"][-300:])
    for o in found_known:
        print(f"KNOWN-FINDING: property={prop} {o['key']} :: {known[o['key']][1] or o['detail'][:200]}")
    if by["violation"]:
        with open(replay, "w", encoding="utf-8") as fh:
            json.dump(by["violation"], fh, indent=1, ensure_ascii=False)
        for o in by["violation"][:5]:
            print(f"  {o['key']}: {o['detail'][:500]}\n    at {o['construct'][:260]}")
        if len(by["violation"]) > 5:
            print(f"  … and {len(by['violation']) - 5} more")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    floor = getattr(mod, "FLOOR", 1)
    if decided < floor:
        print(f"ANALYSIS-BROKEN property={prop}: {decided} obligations decided, at least {floor} expected")
        for o in by["undecided"][:5]:
            print("  ", o["key"], o["detail"][:300])
        return 2
    return 0


BASE_ASSUMPTIONS = [
    "the models of the Python built-ins, the standard library, sympy and lxml in sa/libs.py",
    "opaque names are in general position: no opaque text is a prefix or suffix of another",
]


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.setrecursionlimit(200000)
    return run_check(prop, tier)
