import json

from vlib import CORES, Machinery, tagged, tlc_states


def run(ctx):
    count, per = ctx.scale(8000, 120000), 0
    per = max(1, min(400, -(-count // CORES)))
    base = ctx.seed * 10_000_000

    def one(start):
        out, at = ctx.dir / f"i{start}.json", ctx.dir / f"i{start}.at"
        r = ctx.py("intworker.py", out, at, base + start, min(per, count - start), timeout=600)
        if r is None or r.returncode:
            return {"crash": at.read_text() if at.exists() else "?", "error": "time-out" if r is None else r.stderr[-1500:]}
        o = ctx.tlc("INT", env={"INT_CASES": out})
        st = tagged(o, "STATS")
        if len(st) != 1:
            raise Machinery(o[-3000:])
        out.unlink()
        return {"info": json.loads(r.stdout.splitlines()[-1]), "stats": st[0], "fails": tagged(o, "FAIL"), "states": tlc_states(o)}

    tot = dict(programs=0, nodes=0, agreed=0, skipped=0, events=0, failed=0, states=0, transitions=0)
    ops, samples = set(), []
    for res in ctx.parallel(one, list(range(0, count, per))):
        if "crash" in res:
            if "sonolus" not in res["error"] and "Error" in res["error"]:
                raise Machinery(res["error"])
            ctx.violation("crash:" + res["crash"], f"interpreter crashed at {res['crash']}: {res['error']}", res)
            continue
        for k in ("programs", "nodes"):
            tot[k] += res["info"][k]
        for k in ("agreed", "skipped", "events", "failed"):
            tot[k] += res["stats"][k]
        tot["transitions"] += res["states"][0]
        tot["states"] += res["states"][1]
        samples = samples or [res["info"]["sample"]]
        ops |= set(res["info"]["ops"])
        for f in res["fails"]:
            ctx.violation(f["id"], f"engine program {f['id']}: {f['clause']}", f)
    return ctx.finish("model_checking", {**tot, "traces_validated_against_impl": tot["agreed"], "operations": sorted(ops),
                                           "samples": samples})
