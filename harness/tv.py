"""Translation validation of the real compiler's output by TLC (spec/TV.tla)."""

from __future__ import annotations

import json

from vlib import CORES, Machinery, tagged, tlc_states


def campaign(ctx, profiles: list[str], count: int, base: int = 0, chunk: int = 300, script="tvworker.py"):
    """`count` programs over `profiles`; returns coverage counters.  Violations go to ctx."""
    first = ctx.seed * 10_000_000 + base
    per = max(1, min(chunk, -(-count // CORES)))
    shards = [(first + i, min(per, count - i)) for i in range(0, count, per)]

    def one(sh):
        start, n = sh
        out, prog = ctx.dir / f"tv{start}.json", ctx.dir / f"tv{start}.at"
        r = ctx.py(script, out, prog, start, n, *profiles, timeout=600)
        if r is None or r.returncode != 0:
            at = prog.read_text().strip() if prog.exists() else "?"
            err = "time-out" if r is None else f"exit {r.returncode}: {r.stderr[-1500:]}"
            if r is not None and r.returncode > 0 and "Error" in r.stderr and "sonolus" not in r.stderr.split("Traceback")[-1]:
                raise Machinery(f"worker at {at}: {err}")
            return {"crash": {"at": at, "error": err}}
        info = json.loads(r.stdout.splitlines()[-1])
        o = ctx.tlc("TV", env={"TV_CASES": out})
        st = tagged(o, "STATS")
        if len(st) != 1:
            raise Machinery("TV: no statistics:\n" + o[-3000:])
        out.unlink()
        gen_, dist = tlc_states(o)
        return {"info": info, "stats": st[0], "fails": tagged(o, "FAIL"), "states": dist, "transitions": gen_}

    tot = dict(programs=0, distinct=0, outputs=0, blocks=0, nodes=0, states=0, transitions=0, skipped=0,
               engine_runs=0, events=0, eventful=0, draws=0, failed=0, judged=0)
    samples = []
    for res in ctx.parallel(one, shards):
        if "crash" in res:
            ctx.violation("crash:" + res["crash"]["at"], f"compiler crashed or hung on program {res['crash']['at']}: {res['crash']['error']}",
                          res["crash"])
            continue
        if len(samples) < 3:
            samples.append(res["info"]["sample"])
        for k in ("programs", "distinct", "outputs", "blocks", "nodes"):
            tot[k] += res["info"][k]
        for k in ("skipped", "engine_runs", "events", "eventful", "draws", "failed", "judged"):
            tot[k] += res["stats"][k]
        tot["states"] += res["states"]
        tot["transitions"] += res["transitions"]
        for rj in res["info"]["rejected"]:
            ctx.violation(f"rejected:{rj['id']}:{rj['level']}", f"program {rj['id']} rejected at level {rj['level']}: {rj['error']}", rj)
        for f in res["fails"]:
            ctx.violation(f"{f['id']}:{f['out']}", f"program {f['id']} environment {f['env']} level {f['out']}: {f['clause']}", f)
    tot["disagreements_checked"] = tot["engine_runs"]
    tot["samples"] = samples
    tot["rule"] = ("seeded random source programs (harness/gen.py), compiled by the code under test at every level; TLC runs source and "
                   "emitted programs on the same environments; 'skipped' are runs whose source promises nothing (unspecified values), "
                   "'judged' the (program, environment) pairs compared")
    return tot
