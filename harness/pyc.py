"""Checks that compile generated Python programs (spec/PY.tla)."""

import json

from vlib import CORES, Machinery, tagged, tlc_states


def run(ctx, quick, thorough, profiles, first=0):
    count = ctx.scale(quick, thorough)
    per = max(1, min(150, -(-count // CORES)))
    base = ctx.seed * 10_000_000 + first

    def one(start):
        out, at = ctx.dir / f"p{start}.json", ctx.dir / f"p{start}.at"
        r = ctx.py("pyworker.py", out, at, base + start, min(per, count - start), *profiles, timeout=800)
        if r is None or r.returncode:
            err = "time-out" if r is None else f"exit {r.returncode}: {r.stderr[-1500:]}"
            if r is not None and r.returncode > 0 and "sonolus" not in r.stderr.split("Traceback")[-1]:
                raise Machinery(f"worker at {at}: {err}")
            return {"crash": at.read_text() if at.exists() else "start", "error": err}
        o = ctx.tlc("PY", env={"PY_CASES": out})
        st = tagged(o, "STATS")
        if len(st) != 1:
            raise Machinery(o[-3000:])
        src = json.loads((ctx.dir / f"p{start}.json.src").read_text())
        fails = [{**f, "source": src[f["id"]]} for f in tagged(o, "FAIL")]
        out.unlink()
        return {"info": json.loads(r.stdout.splitlines()[-1]), "stats": st[0], "fails": fails, "states": tlc_states(o)}

    tot = dict(programs=0, lines=0, nodes=0, agreed=0, skipped=0, halted=0, events=0, compiled=0, failed=0, states=0, transitions=0)
    samples = []
    for res in ctx.parallel(one, list(range(0, count, per))):
        if "crash" in res:
            ctx.violation("crash:" + res["crash"], f"compiler crashed or hung on program {res['crash']}: {res['error']}", res)
            continue
        for k in ("programs", "lines", "nodes"):
            tot[k] += res["info"][k]
        for k in ("agreed", "skipped", "halted", "events", "compiled", "failed"):
            tot[k] += res["stats"][k]
        tot["transitions"] += res["states"][0]
        tot["states"] += res["states"][1]
        samples = samples or [res["info"]["sample"]]
        for f in res["info"]["rejected"]:
            ctx.violation(f["id"], f"program {f['id']} is not compiled at {f['cfg']}: {f['error']}", f)
        for f in res["fails"]:
            ctx.violation(f["id"], f"program {f['id']} on {f['a']} ({f['cfg']}): {f['clause']}", f)
    return ctx.finish("model_checking", {**tot, "traces_validated_against_impl": tot["compiled"], "samples": samples})
