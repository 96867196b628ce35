"""Writes MANIFEST.json from the list of claimed properties."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
TV = ("Evidence about the programs explored: TLC runs the specification's source machine on each generated program and its "
      "engine machine on what the code under test emitted, and judges every run. Trusts the specification's reading of the "
      "runtime, the notation change in harness/encode.py, and Java's doubles. ")
PYC = ("Random programs of the subset are run as plain Python, compiled at every level and interpreted; PY.tla evaluates each on the same inputs "
       "and compares effects and result with every one of these runs. Bounded by the generated programs and inputs; trusts the specification's "
       "reading of the language. ")
CLAIMS = {
    "C01": ("TLA+ product-machine conformance (TLC translation validation)", "translation_validation", TV),
    "C02": ("TLA+ product-machine conformance (TLC translation validation)", "translation_validation", TV),
    "C03": ("TLA+ product-machine conformance (TLC translation validation)", "translation_validation", TV),
    "C04": ("TLA+ product-machine conformance (TLC translation validation)", "translation_validation", TV),
    "C05": ("TLA+ product-machine conformance (TLC translation validation)", "translation_validation", TV),
    "C06": ("TLA+ product-machine conformance on value programs (TLC translation validation)", "translation_validation", TV),
    "C07": ("TLC-generated compilation histories replayed into the compiler, accepted by a TLA+ service specification", "model_checking",
            "Every answer observed over histories of spec/Service.tla (programs, levels, threads, copies, hash seeds) is judged by "
            "ServiceTrace.tla. Thread interleavings are those the scheduler produced; a race needing a rarer one can be missed."),
    "C09": ("TLA+ engine machine run against the interpreter (TLC conformance)", "model_checking",
            "Random engine programs are run by Interpreter.run and by the specification's engine machine in TLC, which compares result, "
            "memory and log. Bounded by the generated programs."),
    "C08": ("TLA+ node-table specification: TLC-enumerated addition histories replayed, answers judged by TLC", "model_checking",
            "Histories of additions (all short ones over a small alphabet, enumerated by TLC from spec/NodeTable.tla, plus random and "
            "compiled programs) are replayed into OutputNodeGenerator; NodeTableTrace.tla judges every answer and table."),
    "C12": ("TLC-enumerated and random container histories carried out in Python and compiled, answers and contents judged by TLC",
            "model_checking",
            "Histories of spec/Containers.tla (a transition cover TLC enumerates, and random longer ones) over lists, arrays, views, sets, "
            "maps, literals and linked entities, run as Python and compiled at several levels; ContainersTrace.tla judges each operation's "
            "answer and the contents left. Bounded by the capacities (at most 40) and element kinds used."),
    "C13": ("TLC-simulated histories of a TLA+ collection specification replayed into the code, answers judged by TLC", "model_checking",
            "Histories of spec/Collection.tla (items, assets, merges, loads, links, writes, rejected inputs) are replayed into Collection; "
            "CollectionTrace.tla judges every observation. Bounded by the specification's alphabet of names, items and operations."),
    "C15": ("TLC-checked TLA+ model of the development server; its simulated histories replayed into the real server, answers judged by TLC",
            "model_checking",
            "DevServer.tla is checked exhaustively to depth 5; simulated histories drive a real server process over HTTP and its prompt, "
            "and DevServerTrace.tla judges every site seen. Bounded by the model's alphabet of edits and faults."),
    "C14": ("TLC-enumerated archetype hierarchies and generated engine modules built by the code; engine data, level and callback runs judged by a TLA+ specification",
            "model_checking",
            "Class hierarchies enumerated by TLC from ArchetypesGen.tla and random engine modules (all modes) are built by the code under test; "
            "ArchetypesTrace.tla judges the engine's entries, imports, exports and layouts and runs every callback of every history on both sides. "
            "Bounded by the generated modules, entities and histories."),
    "C16": ("TLC-enumerated archetype hierarchies and generated levels built by the code; level data judged by a TLA+ specification",
            "model_checking",
            "Levels over hierarchies enumerated by TLC and over random modules are built by the code under test; ArchetypesTrace.tla computes what "
            "each entity's data must say and compares. Bounded by the generated levels."),
    "C11": ("TLA+ big-step semantics of the Python subset (TLC); generated programs run as Python and compiled at every level, every run judged by TLC",
            "model_checking", PYC),
    "C17": ("TLA+ store semantics of values and references (TLC); generated programs run as Python and compiled at every level, every run judged by TLC",
            "model_checking", PYC),
    "C18": ("TLA+ product-machine conformance on large programs (TLC translation validation)", "translation_validation", TV),
    "C10": ("TLA+ product-machine conformance on repeated optimisation (TLC translation validation)", "translation_validation", TV),
}
PENDING = "not claimed: its check is not part of this commit"
NA: dict = {}


def main():
    exec((V / "harness" / "claims.py").read_text(), globals()) if (V / "harness" / "claims.py").exists() else None  # noqa: S102
    props = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines()]
    checks = [{
        "property": p,
        "quick_cmd": f"/opt/venv/bin/python harness/check.py {p}",
        "thorough_cmd": f"/opt/venv/bin/python harness/check.py {p} thorough",
        "technique": CLAIMS[p][0], "level": CLAIMS[p][1], "level_note": CLAIMS[p][2],
    } for p in props if p in CLAIMS]
    m = {
        "version": 1,
        "setup_cmd": "bash harness/setup.sh",
        "hooks": {"guard": "none", "enable": "The checks need no hooks: they build and call /repo's code as it is.", "source_commits": []},
        "checks": checks,
        "not_applicable": [{"property": p, "reason": NA.get(p, PENDING)} for p in props if p not in CLAIMS],
    }
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
