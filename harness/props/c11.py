import pyc


def run(ctx):
    return pyc.run(ctx, 2700, 40000, ["core", "core", "bind"])
