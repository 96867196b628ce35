import tv


def run(ctx):
    tot = tv.campaign(ctx, ["reopt:" + p for p in ("general", "small", "straight", "loops", "dispatch", "memory", "effects", "pressure", "fold", "uninit")],
                      ctx.scale(1600, 30000), base=8_000_000)
    return ctx.finish("translation_validation", {**tot})
