import tv


def run(ctx):
    tot = tv.campaign(ctx, ["effects", "general", "straight"], ctx.scale(3000, 40000), base=200_000)
    return ctx.finish("translation_validation", {**tot})
