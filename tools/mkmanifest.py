"""Writes MANIFEST.json from properties.jsonl, the modules under sa/props and the reasons below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C16": "interprocedural call, attribute and definite-assignment analysis over the value-flow graph",
    "C13": "taint analysis of random sources over the value-flow graph",
    "C11": "effect and alias analysis over the value-flow graph",
    "C10": "alias (ownership) analysis over the value-flow graph",
    "C14": "parameter dependence analysis over the value-flow graph",
    "C12": "guard (path-condition) analysis over the value-flow graph",
}
DEFAULT = "abstract interpretation of the source (value-flow graph, guarded normal forms) compared with a specification"
NOTE = ("Decided from the current source without running it. Each obligation is an entry-point scenario (object make-up and flags "
        "enumerated as listed in the evidence; numeric inputs symbolic, so it covers every value): the value computed by the code is "
        "reduced to a guarded algebraic normal form and must equal the specification's. Array sizes and list lengths are the "
        "enumerated ones; floating point is read as real arithmetic; numpy, scipy, ase and pymatgen calls are modelled by their "
        "documented meaning or left uninterpreted. A scenario the analysis cannot follow is reported as undecided in the evidence, "
        "never as an alarm.")
NOTES = {}
NA = {
    "C31": "the histogram counts are an aggregate over data-dependent cell lists built with run-time sizes; equality of the count with a "
           "pair count needs an inductive argument over the spatial hash that no static rule here can carry (its minimum-image part is "
           "claimed as C27, its cell widths in C18)",
    "C32": "which atoms are exposed depends on a Delaunay triangulation and a percolating flood fill over run-time geometry; no sound "
           "static argument is in reach",
    "C33": "termination and the final density of the rejection sampler depend on the random draws at run time",
    "C34": "the needed padding depends on the magnitude of run-time strain; the tiling does not pad for strain at all and the "
           "documentation promises no bound",
}


def main():
    ps = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in ps:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "sa", "props", i.lower() + ".py")):
            checks.append({
                "property": i,
                "quick_cmd": "python3 sa/check.py %s" % i,
                "thorough_cmd": "python3 sa/check.py %s --thorough" % i,
                "technique": TECH.get(i, DEFAULT),
                "level": "other",
                "level_note": NOTES.get(i, NOTE),
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "no static check has been built for it yet")})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable:", [x["property"] for x in na])


main()
