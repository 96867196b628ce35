"""Enter histories of programs into OutputNodeGenerator and record what happens.

argv: out.json progress-file mode (hist file first n | prog seed n)
"""

import json
import random
import sys

sys.setrecursionlimit(10_000)  # what the command line uses

import encode  # noqa: E402
import gen  # noqa: E402
from sonolus.backend.node import FunctionNode  # noqa: E402
from sonolus.backend.ops import Op  # noqa: E402
from sonolus.backend.optimize import FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES, OptimizerConfig, optimize_and_finalize  # noqa: E402
from sonolus.build.node import OutputNodeGenerator  # noqa: E402


def plain(n):
    """Program table of an engine tree, 0-based: [f, v, a]."""
    t, root = encode.engine(n)
    return [{"f": e["f"], "v": e["v"], "a": [a - 1 for a in e["a"]]} for e in t], root - 1


def entry(e):
    if "func" in e:
        return {"f": e["func"], "v": "", "a": list(e["args"])}
    return {"f": "", "v": encode.num(e["value"]), "a": []}


class Recorder:
    def __init__(self):
        self.g, self.seen, self.steps = OutputNodeGenerator(), [], []

    def add(self, node):
        prog, root = plain(node)
        idx = self.g.add(node)
        now = [entry(e) for e in self.g.get()]
        ch = [{"k": k, "e": now[k]} for k in range(min(len(now), len(self.seen))) if now[k] != self.seen[k]]
        self.steps.append({"prog": prog, "root": root, "idx": idx, "size": len(now), "new": now[len(self.seen):], "changed": ch})
        self.seen = now


def tree(t, rng, pool):
    """The term t as an engine tree: numbers in any of their guises, subtrees shared or not."""
    if len(t) == 1 and t[0] in "01":
        v = int(t[0])
        return rng.choice([v, float(v), v])
    key = json.dumps(t)
    if key in pool and rng.random() < 0.5:
        return pool[key]
    pool[key] = n = FunctionNode(Op(t[0]), tuple(tree(x, rng, pool) for x in t[1:]))
    return n


ODD = [0, 1, 2, -1, 0.5, 1e-9, 2.0**53, 1e308, -1e308, 5e-324, 16777217, 0.1, 1 / 3, float("inf"), -float("inf"), 3, 10000, 4000]
LEVELS = (MINIMAL_PASSES, FAST_PASSES, STANDARD_PASSES)


def random_tree(rng, depth, pool):
    if depth == 0 or rng.random() < 0.15:
        x = rng.choice(ODD)
        return int(x) if float(x).is_integer() and abs(x) < 1e9 and rng.random() < 0.5 else float(x)
    if pool and rng.random() < 0.3:
        return rng.choice(pool)
    n = FunctionNode(rng.choice([Op.Add, Op.Subtract, Op.Execute, Op.If, Op.Get, Op.Set, Op.Negate, Op.Multiply]),
                     tuple(random_tree(rng, depth - 1, pool) for _ in range(rng.choice([0, 1, 1, 2, 2, 2, 3, 4]))))
    pool.append(n)
    return n


def main():
    out, at, mode, *rest = sys.argv[1:]
    cases = []
    if mode == "hist":
        hists = json.loads(open(rest[0]).read())
        first = int(rest[1])
        for k, h in enumerate(hists):
            open(at, "w").write(f"history {first + k}")
            rng, rec, pool = random.Random(f"{first + k}"), Recorder(), {}
            for t in h:
                rec.add(tree(t, rng, pool))
            cases.append({"id": f"history/{first + k}", "steps": rec.steps})
    else:
        first, n = int(rest[0]), int(rest[1])
        for s in range(first, first + n):
            open(at, "w").write(f"{s}")
            rng, rec = random.Random(f"nt{s}"), Recorder()
            kind = s % 3
            if kind == 0:
                pool = []
                for _ in range(rng.randint(2, 8)):
                    rec.add(random_tree(rng, rng.randint(0, 5), pool))
            elif kind == 1:  # compiled programs, some of them again
                done = []
                for j in range(rng.randint(2, 5)):
                    if done and rng.random() < 0.3:
                        rec.add(rng.choice(done))
                        continue
                    p = gen.program(s * 10 + j, rng.choice(["small", "straight", "dispatch", "effects"]))
                    node = optimize_and_finalize(p.build(), rng.choice(LEVELS), OptimizerConfig(p.mode, p.callback))
                    done.append(node)
                    rec.add(node)
            else:  # chains
                node = rng.choice([0, 1.5])
                stop = sorted(rng.sample(range(1, 400), 3))
                for d in range(1, stop[-1] + 1):
                    op = rng.choice([Op.Add, Op.Negate, Op.Execute])
                    node = FunctionNode(op, (node,) if op is Op.Negate else (node, rng.choice([1, 1.0, 2, node if d < 8 else 3])) if rng.random() < 0.5
                                        else (rng.choice([1, 1.0, 2]), node))
                    if d in stop:
                        rec.add(node)
            cases.append({"id": f"random/{s}", "steps": rec.steps})
    with open(out, "w") as f:
        json.dump(cases, f)


if __name__ == "__main__":
    main()
