import pyc


def run(ctx):
    return pyc.run(ctx, 2100, 30000, ["alias", "alias", "bind"], 5_000_000)
