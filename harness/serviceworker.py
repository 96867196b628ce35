"""Replay a history of spec/Service.tla against the compiler in this process; print what was observed.

argv: history.json out.json run first-program-seed
"""

import hashlib
import json
import random
import sys
import threading

sys.setrecursionlimit(20000)

import encode  # noqa: E402
import gen  # noqa: E402
from sonolus.backend.node import FunctionNode  # noqa: E402
from sonolus.backend.optimize import (  # noqa: E402
    FAST_PASSES,
    MINIMAL_PASSES,
    STANDARD_PASSES,
    OptimizerConfig,
    optimize_and_finalize,
)
from sonolus.backend.optimize.flow import BasicBlock  # noqa: E402

LEVELS = [MINIMAL_PASSES, FAST_PASSES, STANDARD_PASSES]
PROFILES = ["general", "loops", "pressure", "dispatch", "memory", "effects"]


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def out_digest(node):
    """Digest of the emitted tree, independent of which subtrees are shared objects."""
    memo, keep = {}, []
    ids = {}

    def intern(k):
        return ids.setdefault(k, len(ids))

    stack = [(node, False)]
    while stack:
        n, ready = stack.pop()
        if not isinstance(n, FunctionNode) or id(n) in memo:
            continue
        if ready:
            memo[id(n)] = intern((n.func.value, tuple(memo[id(a)] if isinstance(a, FunctionNode) else ("#", repr(a)) for a in n.args)))
            keep.append(n)
        else:
            stack.append((n, True))
            stack.extend((a, False) for a in n.args)
    return digest((list(ids), memo.get(id(node)) if isinstance(node, FunctionNode) else repr(node)))


def graph_blocks(entry):
    seen, order = {id(entry)}, [entry]
    for b in order:
        for e in sorted(b.outgoing, key=encode.edge_key):
            if id(e.dst) not in seen:
                seen.add(id(e.dst))
                order.append(e.dst)
    return order


def deep(x):
    """The graph's contents, down to the attributes of every IR object."""
    if isinstance(x, (list, tuple)):
        return [deep(y) for y in x]
    if isinstance(x, (int, float)):
        # numbers by value: constants are interned, so 1, 1.0 and True may stand for each other
        return ("#", repr(int(x) if float(x).is_integer() else float(x)))
    if isinstance(x, (str, type(None))):
        return (type(x).__name__, repr(x))
    names = [n for c in type(x).__mro__ for n in getattr(c, "__slots__", ()) if not n.startswith("__")]
    names += [n for n in getattr(x, "__dict__", {}) if not n.startswith("_")]
    return (type(x).__name__, [(n, deep(getattr(x, n, None))) for n in sorted(set(names)) if n != "op"], getattr(getattr(x, "op", None), "value", ""))


def in_digest(entry):
    bs = graph_blocks(entry)
    return digest([(deep(b.statements), deep(b.test), len(b.phis),
                    [(e.cond, type(e.cond).__name__, bs.index(e.dst)) for e in sorted(b.outgoing, key=encode.edge_key)],
                    len(b.incoming), all(e.src is b for e in b.outgoing), all(e.dst is b for e in b.incoming)) for b in bs])


def build(p, rng=None):
    """A fresh graph of p; with rng, blocks and edges are created in a random order."""
    n = len(p.blocks)
    order = list(range(n))
    if rng:
        rng.shuffle(order)
    bbs = {}
    for i in order:
        s, t, _ = p.blocks[i]
        bbs[i] = BasicBlock(statements=list(s), test=t)
    edges = [(i, c, t) for i, (_, _, es) in enumerate(p.blocks) for c, t in es]
    if rng:
        rng.shuffle(edges)
    for i, c, t in edges:
        bbs[i].connect_to(bbs[t], c)
    return bbs[0]


def main():
    hist, out, run, first = sys.argv[1:]
    hist, first = json.loads(open(hist).read()), int(first)
    n = max(e["p"] for e in hist)
    progs = {i: gen.program(first + i, PROFILES[i % len(PROFILES)]) for i in range(1, n + 1)}
    kept = {i: progs[i].build() for i in progs}
    rng = random.Random(f"{run}/{first}")
    running, results, events = {}, {}, []
    for e in hist:
        t = e["t"]
        if e["a"] == "begin":
            p = progs[e["p"]]
            # a fresh copy: the same seed gives equal but distinct IR objects
            fresh = p if e["v"] == 1 else gen.program(first + e["p"], p.profile)
            g = kept[e["p"]] if e["v"] == 1 else build(fresh, rng if e["v"] == 3 else None)

            def work(t=t, g=g, p=p, level=LEVELS[e["l"] - 1]):
                threading.current_thread()
                before = in_digest(g)
                try:
                    r = out_digest(optimize_and_finalize(g, level, OptimizerConfig(p.mode, p.callback)))
                except Exception as ex:  # noqa: BLE001
                    r = "error " + type(ex).__name__ + " " + str(ex)[:80]
                results[t] = (r, before, in_digest(g))

            th = threading.Thread(target=work)
            running[t] = th
            th.start()
            events.append({**e, "run": run})
        else:
            running.pop(t).join()
            r, b, a = results.pop(t)
            events.append({**e, "run": run, "out": r, "inb": b, "ina": a})
    with open(out, "w") as f:
        json.dump(events, f)


if __name__ == "__main__":
    threading.stack_size(64 << 20)
    sys.setswitchinterval(1e-5)
    main()
