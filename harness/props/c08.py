import json

from vlib import CORES, Machinery, tagged, tlc_states


def run(ctx):
    """Histories TLC enumerates from NodeTable.tla, replayed; random and compiled programs; both accepted by NodeTableTrace."""
    o = ctx.tlc("NodeTable", workers=CORES, heap="6g")
    hists = tagged(o, "HIST")
    if len(hists) < 1000 or "No error has been found" not in o:
        raise Machinery("NodeTable: no histories\n" + o[-2000:])
    hists.sort(key=json.dumps)
    model = tlc_states(o)
    want = ctx.scale(4000, len(hists))
    if want < len(hists):
        step = len(hists) / want
        hists = [hists[int(i * step + ctx.seed) % len(hists)] for i in range(want)]
    jobs = []
    per = -(-len(hists) // CORES) if not ctx.thorough else 4000
    for i in range(0, len(hists), per):
        f = ctx.dir / f"h{i}.json"
        f.write_text(json.dumps(hists[i:i + per]))
        jobs.append(("hist", f, i))
    rnd = ctx.scale(160, 3000)
    per = max(1, min(60, -(-rnd // CORES)))
    jobs += [("prog", ctx.seed * 100_000 + i, min(per, rnd - i)) for i in range(0, rnd, per)]

    def one(job):
        tag = f"{job[0]}{job[2]}-{job[1] if job[0] == 'prog' else ''}"
        out, at = ctx.dir / f"n{tag}.json", ctx.dir / f"n{tag}.at"
        r = ctx.py("nodeworker.py", out, at, *job, timeout=400)
        if r is None or r.returncode:
            return {"at": at.read_text() if at.exists() else "?", "error": "time-out" if r is None else r.stderr[-1500:]}
        o = ctx.tlc("NodeTableTrace", env={"NT_CASES": out})
        st = tagged(o, "STATS")
        if len(st) != 1:
            raise Machinery(o[-3000:])
        out.unlink()
        return {"stats": st[0], "fails": tagged(o, "FAIL"), "states": tlc_states(o)}

    tot = dict(histories=len(hists), random_histories=rnd, additions=0, nodes=0, entries=0, failed=0,
               states=model[1], transitions=model[0])
    for res in ctx.parallel(one, jobs):
        if "error" in res:
            if "sonolus" not in res["error"].split("Traceback")[-1] and "Error" in res["error"] and "RecursionError" not in res["error"]:
                raise Machinery(res["error"])
            ctx.violation("crash:" + res["at"], f"the table could not be built at {res['at']}: {res['error'][-400:]}", res)
            continue
        for k in ("additions", "nodes", "entries", "failed"):
            tot[k] += res["stats"][k]
        tot["transitions"] += res["states"][0]
        tot["states"] += res["states"][1]
        for f in res["fails"]:
            ctx.violation(f"{f['id']}:{f['step']}", f"{f['id']} addition {f['step']}: {f['clause']}", f)
    return ctx.finish("model_checking", {**tot, "traces_validated_against_impl": tot["histories"] + rnd, "samples": hists[:3]})
