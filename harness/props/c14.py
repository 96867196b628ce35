import archrun


def run(ctx):
    """Random projects packaged in several configurations: entries of the engine and histories of callbacks, judged by Archetypes.tla."""
    n = ctx.scale(200, 4000)
    base = ctx.seed * 100_000
    jobs = [{"seed": base + i, "size": 1 + i % 4, "profile": "calls", "cfgs": archrun.CFGS} for i in range(n)]
    tot = archrun.judge(ctx, jobs, {"C14", "run"})
    return ctx.finish("model_checking", {**tot, "traces_validated_against_impl": tot["callbacks_judged"], "samples": [j["seed"] for j in jobs[:3]]})
