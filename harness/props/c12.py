import json

import conhist
from vlib import CORES, Machinery, tagged, tlc_states


def run(ctx):
    """Histories TLC enumerates from Containers.tla and random ones, carried out as Python and compiled; judged by ContainersTrace."""
    o = ctx.tlc("ContainersGen", workers=CORES, heap="8g")
    hists = tagged(o, "HIST")
    if len(hists) < 20000 or "No error has been found" not in o:
        raise Machinery("ContainersGen: no histories\n" + o[-2000:])
    hists.sort(key=json.dumps)
    model = tlc_states(o)
    want = ctx.scale(16000, len(hists))
    if want < len(hists):
        step = len(hists) / want
        hists = [hists[int(i * step + ctx.seed) % len(hists)] for i in range(want)]
    jobs = conhist.jobs_of(hists)
    rounds = ctx.scale(1, 8)
    for k in range(rounds):
        jobs += conhist.random_jobs(ctx.seed * 1000 + k, *[ctx.scale(a, b) for a, b in ((14, 30), (4, 10), (24, 60), (60, 200))])
    # shards of similar cost: a compilation costs about as much as thirty histories
    jobs = split(jobs)
    jobs.sort(key=cost, reverse=True)
    shards = [[] for _ in range(CORES * ctx.scale(2, 8))]
    for j in jobs:
        min(shards, key=lambda s: sum(map(cost, s))).append(j)
    shards = [(n, s) for n, s in enumerate(shards) if s]

    def one(item):
        n, s = item
        f, out, at = ctx.dir / f"j{n}.json", ctx.dir / f"c{n}.json", ctx.dir / f"c{n}.at"
        f.write_text(json.dumps(s))
        r = ctx.py("conworker.py", out, at, f, timeout=850)
        if r is None or r.returncode:
            err = "time-out" if r is None else f"exit {r.returncode}: {r.stderr[-1500:]}"
            if r is None or r.returncode > 0 and "sonolus" not in r.stderr.split("Traceback")[-1]:
                raise Machinery(f"worker at {at}: {err}")
            return {"crash": at.read_text() if at.exists() else "start", "error": err}
        o = ctx.tlc("ContainersTrace", env={"CON_CASES": out})
        st = tagged(o, "STATS")
        if len(st) != 1:
            raise Machinery(o[-3000:])
        info = json.loads(r.stdout.splitlines()[-1])
        out.unlink()
        return {"info": info, "stats": st[0], "fails": tagged(o, "FAIL"), "states": tlc_states(o)}

    tot = dict(histories=len(hists), cases=0, runs=0, operations=0, errors=0, failed=0, states=model[1], transitions=model[0])
    for res in ctx.parallel(one, shards):
        if "crash" in res:
            ctx.violation("crash:" + res["crash"], f"crash at {res['crash']}: {res['error']}", res)
            continue
        tot["cases"] += res["info"]["cases"]
        tot["runs"] += res["info"]["runs"]
        for k in ("operations", "errors", "failed"):
            tot[k] += res["stats"][k]
        tot["transitions"] += res["states"][0]
        tot["states"] += res["states"][1]
        for f in res["info"]["rejected"]:
            ctx.violation(f"rejected:{f['id']}", f"operations of {f['id']} are not compiled at {f['cfg']}: {f['error']}", f)
        for f in res["fails"]:
            ctx.violation(f"{f['id']}:{f['step']}", f"history {f['id']} operation {f['step']} {f.get('op')} ({f['cfg']}): {f['clause']}", f)
    return ctx.finish("model_checking", {**tot, "traces_validated_against_impl": tot["runs"], "samples": hists[:3]})


def cost(j):
    return 200 + sum(20 + len(h) for h in j["hists"]) + (len(j["hists"]) * 150 if j["static"] else 0)


def split(jobs, most=3000):
    out = []
    for j in jobs:
        if "vs" in j or cost(j) <= most:
            out.append(j)
            continue
        parts = -(-cost(j) // most)
        per = -(-len(j["hists"]) // parts)
        out += [{**j, "hists": j["hists"][i:i + per]} for i in range(0, len(j["hists"]), per)]
    return out
