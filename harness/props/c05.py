import tv


def run(ctx):
    tot = tv.campaign(ctx, ["dispatch"], ctx.scale(3000, 40000), base=500_000)
    return ctx.finish("translation_validation", {**tot})
