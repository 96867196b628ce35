import json

import archrun
from vlib import CORES, Machinery, tagged, tlc_states


def run(ctx):
    """Hierarchies TLC makes (ArchetypesGen.tla) and random ones with many fields: layouts, levels, and what reads and writes do."""
    hists, model = [], [0, 0]
    for cfg in ("ArchetypesGen", "ArchetypesGen3"):
        o = ctx.tlc("ArchetypesGen", cfg + ".cfg", workers=CORES, heap="4g")
        h = tagged(o, "HIST")
        if len(h) < 20000 or "No error has been found" not in o:
            raise Machinery(f"{cfg}: no hierarchies\n" + o[-2000:])
        h.sort(key=json.dumps)
        hists += h
        model = [a + b for a, b in zip(model, tlc_states(o), strict=True)]
    want = ctx.scale(1400, len(hists))
    if want < len(hists):
        step = len(hists) / want
        hists = [hists[int(i * step + ctx.seed) % len(hists)] for i in range(want)]
    # archetypes of unlike hierarchies side by side
    per = 10
    rows = [hists[i::-(-len(hists) // per)] for i in range(-(-len(hists) // per))]
    two = [archrun.CFGS[0], archrun.CFGS[1]]
    jobs = [{"seed": ctx.seed * 100_000 + i, "size": 2, "profile": "given", "given": g, "cfgs": two[i % 2:][:1]} for i, g in enumerate(rows)]
    n = ctx.scale(90, 1600)
    jobs += [{"seed": ctx.seed * 100_000 + i, "size": 1 + i % 4, "profile": "fields", "cfgs": [archrun.CFGS[i % 3]]} for i in range(n)]
    tot = archrun.judge(ctx, jobs, {"C16", "run"})
    tot["states"] += model[1]
    tot["transitions"] += model[0]
    return ctx.finish("model_checking", {**tot, "hierarchies": len(hists), "traces_validated_against_impl": tot["projects"], "samples": hists[:2]})
