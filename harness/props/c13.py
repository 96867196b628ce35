import json

from vlib import CORES, Machinery, tagged, tlc_states


def run(ctx):
    """Histories TLC enumerates from Collection.tla and random ones, replayed; both judged by CollectionTrace."""
    o = ctx.tlc("Collection", workers=CORES, heap="6g")
    hists = tagged(o, "HIST")
    if len(hists) < 10000 or "No error has been found" not in o:
        raise Machinery("Collection: no histories\n" + o[-2000:])
    hists.sort(key=json.dumps)
    model = tlc_states(o)
    want = ctx.scale(3000, len(hists))
    if want < len(hists):
        step = len(hists) / want
        hists = [hists[int(i * step + ctx.seed) % len(hists)] for i in range(want)]
    jobs = []
    per = min(2000, -(-len(hists) // CORES))
    for i in range(0, len(hists), per):
        f = ctx.dir / f"h{i}.json"
        f.write_text(json.dumps(hists[i:i + per]))
        jobs.append(("hist", f, i))
    rnd = ctx.scale(1200, 12000)
    per = max(1, min(500, -(-rnd // CORES)))
    jobs += [("rand", ctx.seed * 1_000_000 + i, min(per, rnd - i)) for i in range(0, rnd, per)]

    def one(job):
        tag = f"{job[0]}{job[2]}-{job[1] if job[0] == 'rand' else ''}"
        out, at = ctx.dir / f"c{tag}.json", ctx.dir / f"c{tag}.at"
        r = ctx.py("colworker.py", out, at, *job, timeout=500)
        if r is None or r.returncode:
            raise Machinery(f"colworker at {at.read_text() if at.exists() else '?'}: " + ("time-out" if r is None else r.stderr[-1500:]))
        o = ctx.tlc("CollectionTrace", env={"COL_CASES": out})
        st = tagged(o, "STATS")
        if len(st) != 1:
            raise Machinery(o[-3000:])
        out.unlink()
        return {"stats": st[0], "fails": tagged(o, "FAIL"), "states": tlc_states(o)}

    tot = dict(histories=len(hists), random_histories=rnd, operations=0, sites=0, files=0, failed=0, states=model[1], transitions=model[0])
    for res in ctx.parallel(one, jobs):
        for k in ("operations", "sites", "files", "failed"):
            tot[k] += res["stats"][k]
        tot["transitions"] += res["states"][0]
        tot["states"] += res["states"][1]
        for f in res["fails"]:
            ctx.violation(f"{f['id']}:{f['step']}", f"history {f['id']} operation {f['step']}: {f['clause']} ({f['ops'][-6:]})", f)
    return ctx.finish("model_checking", {**tot, "traces_validated_against_impl": tot["histories"] + rnd, "samples": hists[:3]})
