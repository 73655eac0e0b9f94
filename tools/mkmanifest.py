"""Writes MANIFEST.json from properties.jsonl and the checks which exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the source (value-numbering term domain, trace partitioning)"
TECHNIQUE = {
    "C09": AI + "; structural dataclass lint",
    "C13": "grammar-automaton inspection, call-order (typestate) analysis of parse() and abstract interpretation of the error path",
    "C14": "automata equivalence between the grammar sources, the serialized ATN and the generated rule methods",
    "C15": AI + " of the printers; derived text templates re-read with a reference grammar automaton",
    "C21": "data lint of the bundled XML database against the official one",
    "C22": "data lint of the bundled XML database (reference automaton, closure and cycle analysis of the definition graph)",
    "C26": "import-graph, reachability and effect analysis over the syntax trees",
    "C27": AI + " with the iteration order of unordered collections as a parameter",
}
NOTE = (
    "Every obligation is derived from /repo's current source without running it; holds for all values of the opaque names, numbers "
    "and (where stated) exponents of a scenario, within the bounded operator depth of the scenarios. Trusts the models of the Python "
    "built-ins, standard library, sympy and lxml in sa/libs.py. Obligations the analysis cannot decide are counted in the evidence, never reported."
)
NOTES = {
    "C14": "Decides equality of the two automata (lexer: per-rule language equivalence; parser: rule by rule) and conformance of the generated methods; that the vendored runtime interprets them is C30 and C31.",
    "C30": "Types of tokens are exact and their texts opaque; sequences are enumerated up to a length and sampled beyond it.",
    "C31": "Complete over the states and edges of the published lexer automaton (one character per edge; characters behind ASCII stand for their whole class).",
    "C21": "Exact comparison of every entry; the official database is the copy in /verif/data.",
    "C22": "Exhaustive over the bundled database.",
    "C26": "Exhaustive over the import statements of the package; decides the structural part.",
}
NA = {
    "N01": "quantifies over floating-point results of sympy evaluation; no static argument in reach bounds rounding errors",
    "N02": "quantifies over thread schedules of CPython code without locks; there is no synchronisation structure to analyse and the package states no guarantee",
    "N03": "equivalence with a C library over all strings; that library's source is not here, and its scanner is hand-written",
    "N04": "running time of sympy's solver and of adaptive LL(*) prediction is not bounded by anything visible in this source",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") if x.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "sa", "checks", i.lower() + ".py")):
            checks.append({
                "property": i,
                "quick_cmd": f"python3 -m sa.run {i} quick",
                "thorough_cmd": f"python3 -m sa.run {i} thorough",
                "technique": TECHNIQUE.get(i, AI),
                "level": "other",
                "level_note": NOTES.get(i, NOTE),
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "its static check is not built yet")})
    doc = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(doc, fh, indent=1)
        fh.write("\n")


main()
