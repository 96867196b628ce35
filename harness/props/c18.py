import tv


def run(ctx):
    tot = tv.campaign(ctx, ["big"], ctx.scale(136, 1200), base=1_800_000, chunk=17)
    return ctx.finish("translation_validation", {**tot})
