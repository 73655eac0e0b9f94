"""Writes DESIGN.md from tools/design_template.md, the properties, the rules of the checks and the seeds."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    out = {}
    for n in ast.parse(open(path, encoding="utf-8").read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def props():
    out = []
    for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
        if not x.strip():
            continue
        p = json.loads(x)
        path = os.path.join(HERE, "sa", "checks", p["id"].lower() + ".py")
        if not os.path.exists(path):
            continue
        c = constants(path)
        size = ""
        ev = os.path.join(HERE, "evidence", p["id"] + ".json")
        if os.path.exists(ev):
            e = json.load(open(ev))
            v = e["coverage"]
            size = "*Size (%s)*: %s obligations, %s abstract steps, about %.0f s.\n\n" % (
                e["tier"], v.get("obligations"), v.get("abstract_steps"), e["wall_s"])
        a = c.get("ASSUMPTIONS")
        out.append("### %s %s\n\n%s\n\n*How it is decided*: %s\n\n%s%s*Beyond the tests*: %s\n" % (
            p["id"], p["title"], p["statement"], c["RULE"],
            "*Bounds and assumptions*: %s.\n\n" % "; ".join(a) if a else "", size, p["why_tests_cant"]))
    return "\n".join(out)


def seeds():
    out = ["| id | property | what it breaks | what it needs |", "|---|---|---|---|"]
    d = os.path.join(HERE, "seeded")
    for s in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, s, "meta.json"), encoding="utf-8"))
        out.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "/"), str(m["needs"]).replace("|", "/")))
    return "\n".join(out)


def main():
    t = open(os.path.join(HERE, "tools", "design_template.md"), encoding="utf-8").read()
    t = t.replace("@@PROPS@@", props()).replace("@@SEEDS@@", seeds())
    open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write(t)


main()
