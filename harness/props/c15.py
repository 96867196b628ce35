import json

from vlib import CORES, Machinery, tagged, tlc_states


def run(ctx):
    """Histories TLC simulates from DevServer.tla, replayed at the real server; DevServerTrace judges what it serves."""
    o = ctx.tlc("DevServer", workers=CORES, heap="8g")
    if "No error has been found" not in o:
        raise Machinery("DevServer: " + o[-2000:])
    model = tlc_states(o)
    want = ctx.scale(120, 1600)
    o = ctx.tlc("DevServer", "DevServerGen.cfg", args=("-simulate", f"num={want}", "-depth", "24", "-seed", str(ctx.seed)), heap="4g")
    # every successor of the last state is printed: one of each trace
    hists, last = [], None
    for h in tagged(o, "HIST"):
        k = json.dumps(h[:-1])
        if k != last:
            hists.append(h)
            last = k
    if len(hists) < want // 2:
        raise Machinery("DevServer: no histories\n" + o[-2000:])
    hists = hists[:want]
    per = max(1, min(20, -(-len(hists) // CORES)))
    jobs = []
    for i in range(0, len(hists), per):
        f = ctx.dir / f"h{i}.json"
        f.write_text(json.dumps(hists[i:i + per]))
        jobs.append((f, i))

    def one(job):
        f, i = job
        out, at = ctx.dir / f"d{i}.json", ctx.dir / f"d{i}.at"
        r = ctx.py("devworker.py", out, at, f, i, timeout=700)
        if r is None or r.returncode:
            raise Machinery(f"devworker at {at.read_text() if at.exists() else '?'}: " + ("time-out" if r is None else r.stderr[-1500:]))
        o = ctx.tlc("DevServerTrace", env={"DEV_CASES": out})
        st = tagged(o, "STATS")
        if len(st) != 1:
            raise Machinery(o[-3000:])
        out.unlink()
        return {"stats": st[0], "fails": tagged(o, "FAIL"), "states": tlc_states(o)}

    tot = dict(histories=len(hists), builds=0, successful=0, steps=0, failed=0, states=model[1], transitions=model[0])
    for res in ctx.parallel(one, jobs):
        for k in ("builds", "successful", "steps", "failed"):
            tot[k] += res["stats"][k]
        tot["transitions"] += res["states"][0]
        tot["states"] += res["states"][1]
        for f in res["fails"]:
            ctx.violation(f"{f['id']}:{f['step']}", f"history {f['id']} step {f['step']}: {f['clause']}: expected {f['expected']} got {f['got']} "
                          f"after {f['acts']}", f)
    return ctx.finish("model_checking", {**tot, "traces_validated_against_impl": len(hists), "samples": hists[:2]})
