"""Compile generated programs with the code under test and write them down for spec/TV.tla.

argv: out.json progress-file first count profile...   (profiles used round robin)
"""

import json
import random
import sys
import traceback

sys.setrecursionlimit(20000)

import encode  # noqa: E402
import gen  # noqa: E402
from sonolus.build.node import OutputNodeGenerator  # noqa: E402
from sonolus.backend.optimize import (  # noqa: E402
    FAST_PASSES,
    MINIMAL_PASSES,
    STANDARD_PASSES,
    OptimizerConfig,
    optimize_and_finalize,
)

LEVELS = (MINIMAL_PASSES, FAST_PASSES, STANDARD_PASSES)


def case_of(seed, profile, levels=LEVELS):
    p = gen.program(seed, profile)
    src = encode.source(p.build())
    outs, rejected, seen = [], [], {}
    for lv in levels:
        try:
            node = optimize_and_finalize(p.build(), lv, OptimizerConfig(p.mode, p.callback))
        except Exception as e:  # noqa: BLE001 -- every program generated here is within the contract
            if not (p.may_reject and isinstance(e, ValueError)):
                rejected.append({"level": lv.name, "error": "".join(traceback.format_exception_only(e)).strip()[-500:]})
            continue
        if seed % 3 == 0 or p.fuel > 400:  # as packaged
            table = OutputNodeGenerator()
            root = table.add(node) + 1
            nodes = encode.from_output_nodes(table.get())
        else:
            nodes, root = encode.engine(node)
        k = json.dumps([nodes, root])
        if k in seen:
            outs[seen[k]]["id"] += "+" + lv.name
            continue
        seen[k] = len(outs)
        outs.append({"id": lv.name, "kind": "engine", "nodes": nodes, "root": root})
    return {"id": f"{profile}/{seed}", "src": src, "env": p.env_json(), "out": outs, "fuel": p.fuel,
            "tol": gen.PROFILES[profile].tol}, rejected, p


def reopt_case(seed, profile):
    """Graphs the optimiser returns, run as programs, emitted, and optimised again."""
    from sonolus.backend.optimize import cfg_to_engine_node, run_passes

    p = gen.program(seed, profile)
    src = encode.source(p.build())
    cfg = OptimizerConfig(p.mode, p.callback)
    rng = random.Random(f"{seed}/reopt")
    outs, rejected = [], []

    def attempt(name, fn):
        try:
            return fn()
        except Exception as e:  # noqa: BLE001
            rejected.append({"level": name, "error": "".join(traceback.format_exception_only(e)).strip()[-500:]})
            return None

    def engine(name, fn):
        node = attempt(name, fn)
        if node is not None:
            nodes, root = encode.engine(node)
            outs.append({"id": name, "kind": "engine", "nodes": nodes, "root": root})

    for lv in LEVELS:
        g = attempt(lv.name + "/graph", lambda: run_passes(p.build(), lv, cfg, allocate=True))
        if g is not None:
            outs.append({"id": lv.name + "/graph", "kind": "graph", "src": encode.source(g)})
            engine(lv.name + "/emit", lambda: cfg_to_engine_node(g))
    g, name = p.build(), ""
    for _ in range(rng.choice([1, 2, 3])):
        lv = rng.choice(LEVELS)
        name += lv.name + ">"
        g2 = attempt(name + "graph", lambda: run_passes(g, lv, cfg, allocate=False))
        if g2 is None:
            return {"id": f"{profile}/{seed}", "src": src, "env": p.env_json(), "out": outs, "fuel": p.fuel, "tol": "exact"}, rejected, p
        g = g2
        outs.append({"id": name + "graph", "kind": "graph", "src": encode.source(g)})
    for lv in LEVELS:
        engine(name + lv.name, lambda: optimize_and_finalize(g, lv, cfg))
    return {"id": f"{profile}/{seed}", "src": src, "env": p.env_json(), "out": outs, "fuel": p.fuel, "tol": gen.PROFILES[profile].tol}, rejected, p


def main():
    out, progress, first, count, *profiles = sys.argv[1:]
    first, count = int(first), int(count)
    cases, rejected, sizes = [], [], []
    with open(progress, "w") as pf:
        for i in range(first, first + count):
            prof = profiles[i % len(profiles)]
            pf.seek(0)
            pf.write(f"{prof}/{i}" + " " * 20)
            pf.flush()
            c, rej, p = (reopt_case if prof.startswith("reopt:") else case_of)(i, prof.removeprefix("reopt:"))
            rejected += [{"id": c["id"], **r} for r in rej]
            sizes.append((len(c["src"]), sum(len(o.get("nodes", ())) for o in c["out"])))
            if c["out"]:
                cases.append(c)
    with open(out, "w") as f:
        json.dump(cases, f)
    def text(p):
        return {"id": f"{p.profile}/{p.seed}", "mode": str(p.mode), "callback": p.callback,
                "blocks": [{"statements": [str(x) for x in st][:12], "test": str(t), "edges": [[str(c), g] for c, g in es]}
                           for st, t, es in p.blocks][:6]}

    print(json.dumps({"rejected": rejected, "sample": text(p), "blocks": sum(a for a, _ in sizes), "nodes": sum(b for _, b in sizes),
                      "programs": len(sizes), "distinct": len({json.dumps(c["src"]) for c in cases}),
                      "outputs": sum(len(c["out"]) for c in cases)}))


if __name__ == "__main__":
    main()
