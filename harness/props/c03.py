import tv


def run(ctx):
    tot = tv.campaign(ctx, ["memory", "straight", "loops"], ctx.scale(3000, 40000), base=300_000)
    return ctx.finish("translation_validation", {**tot})
