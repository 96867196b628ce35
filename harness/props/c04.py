import tv


def run(ctx):
    tot = tv.campaign(ctx, ["pressure", "loops", "uninit"], ctx.scale(3000, 40000), base=400_000)
    return ctx.finish("translation_validation", {**tot})
