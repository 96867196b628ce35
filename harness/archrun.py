"""Projects in shards: build and run them (archworker.py), judge what was seen (ArchetypesTrace.tla)."""

import json

from vlib import CORES, Machinery, tagged, tlc_states

CFGS = [["standard", "none"], ["minimal", "none"], ["fast", "terminate"], ["standard", "flags"]]
# a documented limit (the least optimised code uses the most temporary memory)
LIMITS = ("Temporary memory limit exceeded",)


def judge(ctx, jobs, props):
    """Report the violations of `props` (a clause's property, or "run": what callbacks do)."""
    for i, j in enumerate(jobs):
        j["n"] = i
    shards = [(n, jobs[n::CORES * ctx.scale(1, 6)]) for n in range(CORES * ctx.scale(1, 6))]
    shards = [s for s in shards if s[1]]

    def one(item):
        n, s = item
        f, out, at = ctx.dir / f"j{n}.json", ctx.dir / f"c{n}.json", ctx.dir / f"c{n}.at"
        f.write_text(json.dumps(s))
        r = ctx.py("archworker.py", out, at, f, timeout=3000)
        if r is None or r.returncode:
            err = "time-out" if r is None else f"exit {r.returncode}: {r.stderr[-1500:]}"
            if r is None or r.returncode > 0 and "sonolus" not in r.stderr.split("Traceback")[-1]:
                raise Machinery(f"worker at {at}: {err}")
            return {"crash": at.read_text() if at.exists() else "start", "error": err}
        o = ctx.tlc("ArchetypesTrace", env={"ARCH_CASES": out}, heap="3g")
        st = tagged(o, "STATS")
        if len(st) != 1 or "No error has been found" not in o:
            raise Machinery(o[-3000:])
        out.unlink()
        return {"info": json.loads(r.stdout.splitlines()[-1]), "stats": st[0], "fails": tagged(o, "FAIL"), "states": tlc_states(o)}

    tot = dict(projects=0, classes=0, callbacks_run=0, callbacks_judged=0, unjudged_histories=0, entities=0, beyond_limits=0, states=0, transitions=0)
    for res in ctx.parallel(one, shards):
        if "crash" in res:
            ctx.violation("crash:" + res["crash"], f"crash at {res['crash']}: {res['error']}", res)
            continue
        i, s = res["info"], res["stats"]
        tot["projects"] += i["cases"]
        tot["callbacks_run"] += i["runs"]
        tot["classes"] += s["classes"]
        tot["callbacks_judged"] += s["callbacks"]
        tot["unjudged_histories"] += s["unjudged"]
        tot["entities"] += s["entities"]
        tot["transitions"] += res["states"][0]
        tot["states"] += res["states"][1]
        for f in i["rejected"]:
            if any(x in f["error"] for x in LIMITS):
                tot["beyond_limits"] += 1
                continue
            ctx.violation(f"rejected:{f['id']}", f"project {f['id']} is not built ({f['cfg']}): {f['error']}", f)
        for f in res["fails"]:
            if f["prop"] == "model":
                raise Machinery(f"the model disagrees with Python on {f}")
            if f["prop"] in props:
                d = f["data"] if isinstance(f["data"], dict) else {}
                what = " ".join(f"{k} {d[k]}" for k in ("mode", "class", "cb", "step", "entity", "field") if k in d)
                ctx.violation(f"{f['id']}:{f['at']}:{f['clause']}", f"project {f['id']} ({f['cfg']}): {f['clause']} [{what}]", f)
    return tot
