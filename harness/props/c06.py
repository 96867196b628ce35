import tv


def run(ctx):
    tot = tv.campaign(ctx, ["exact", "fold", "exact", "near", "fold", "ease", "exact", "fold"], ctx.scale(4000, 60000), base=6_000_000)
    return ctx.finish("translation_validation", {**tot})
