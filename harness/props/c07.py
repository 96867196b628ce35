import json

from vlib import Machinery, tagged, tlc_states


def run(ctx):
    groups, runs = ctx.scale(8, 80), 8
    o = ctx.tlc("Service", args=("-simulate", f"num={runs * 2}", "-depth", "200", "-seed", str(ctx.seed)))
    hists = tagged(o, "HIST")
    if len(hists) < runs:
        raise Machinery("Service: no histories\n" + o[-2000:])
    files = []
    for i, h in enumerate(hists):
        f = ctx.dir / f"hist{i}.json"
        f.write_text(json.dumps(h))
        files.append(f)

    def one(job):
        g, r = job
        out = ctx.dir / f"obs{g}-{r}.json"
        p = ctx.py("serviceworker.py", files[(g + r) % len(files)], out, f"run{r}", ctx.seed * 1_000_000 + 1000 * g,
                   env=ctx.env(PYTHONHASHSEED=str(r)), timeout=400)
        if p is None or p.returncode:
            return job, None, "time-out" if p is None else f"exit {p.returncode}: {p.stderr[-1500:]}"
        return job, json.loads(out.read_text()), ""

    traces = {g: [] for g in range(groups)}
    for (g, r), ev, err in ctx.parallel(one, [(g, r) for g in range(groups) for r in range(runs)]):
        if ev is None:
            if "sonolus" not in err and "Error" in err:
                raise Machinery(err)
            ctx.violation(f"crash:{g}:{r}", f"compiling in threads crashed or hung (history {(g + r) % len(files)}): {err}",
                          {"group": g, "run": r, "error": err})
        else:
            traces[g] += ev

    def judge(g):
        f = ctx.dir / f"trace{g}.json"
        f.write_text(json.dumps(traces[g]))
        return g, ctx.tlc("ServiceTrace", env={"SERVICE_TRACE": f})

    tot = dict(histories=groups * runs, answers=0, repeated=0, failed=0, states=0, transitions=0)
    for g, o in ctx.parallel(judge, range(groups)):
        st = tagged(o, "STATS")
        if len(st) != 1:
            raise Machinery(o[-3000:])
        for k in ("answers", "repeated", "failed"):
            tot[k] += st[0][k]
        a, b = tlc_states(o)
        tot["transitions"] += a
        tot["states"] += b
        for f in tagged(o, "FAIL"):
            e = f["event"]
            ctx.violation(f"{g}:{e['p']}:{e['l']}:{f['clause']}", f"program {ctx.seed * 1_000_000 + 1000 * g + e['p']} level {e['l']}: "
                          f"{f['clause']} ({e['run']}, thread {e['t']}, form {e['v']})", f)
    return ctx.finish("model_checking", {**tot, "traces_validated_against_impl": tot["histories"], "samples": [hists[0][:12]]})
