import tv


def run(ctx):
    tot = tv.campaign(ctx, ["general", "small", "straight", "loops", "dispatch", "memory", "effects", "pressure", "fold", "uninit"],
                      ctx.scale(4000, 60000))
    return ctx.finish("translation_validation", {**tot})
