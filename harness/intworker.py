"""Run generated engine programs in the code's reference interpreter; write them down for spec/INT.tla.

argv: out.json progress first count
"""

import json
import signal
import sys

sys.setrecursionlimit(20000)

import egen  # noqa: E402
import encode  # noqa: E402
from sonolus.backend.interpret import BreakException, Interpreter  # noqa: E402
from sonolus.backend.node import FunctionNode  # noqa: E402


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang


def observe(root, env):
    it = Interpreter()
    try:
        for (b, i), v in env.items():
            it.set(b, i, v)
        signal.alarm(10)
        try:
            r = it.run(root)
            out = "ok"
        finally:
            signal.alarm(0)
    except BreakException:
        r, out = 0, "break"
    except Hang:
        r, out = 0, "hangs"
    except Exception as e:  # noqa: BLE001
        return {"out": "raised", "r": "0", "log": [], "mem": [], "error": repr(e)[:200]}
    vals = [r, *it.log, *(v for c in it.blocks.values() for v in c)]
    if any(isinstance(v, complex) or (isinstance(v, int) and abs(v) >= 2.0**50) for v in vals):
        out = "skip"  # integers beyond the exact range of doubles
    n = encode.num
    try:
        return {"out": out, "r": n(r), "log": [n(x) for x in it.log],
                "mem": [[n(b), n(i), n(v)] for b, cells in it.blocks.items() for i, v in enumerate(cells)]}
    except (TypeError, OverflowError):
        return {"out": "skip", "r": "0", "log": [], "mem": []}


def floats(n):
    return FunctionNode(n.func, tuple(floats(a) for a in n.args)) if isinstance(n, FunctionNode) else float(n)


def main():
    out, progress, first, count = sys.argv[1:]
    signal.signal(signal.SIGALRM, on_alarm)
    cases, ops = [], set()
    for i in range(int(first), int(first) + int(count)):
        with open(progress, "w") as f:
            f.write(f"engine/{i}")
        tol = "exact"
        if i % 2:
            root, env = egen.program(i)
        else:
            tol, root, env = egen.value_case(i)
        got = observe(root, env)
        if got["out"] == "ok" and observe(floats(root), env) != got:
            alt = observe(floats(root), {k: float(v) for k, v in env.items()})
            if alt != got:
                got["out"] = "skip"
        nodes, r = encode.engine(root)
        for nd in nodes:
            nd["p"] = False
            ops.add(nd["f"])
        cases.append({"id": f"engine/{i}", "nodes": nodes, "root": r, "got": got, "tol": tol,
                      "env": [[encode.num(b), encode.num(k), encode.num(v)] for (b, k), v in env.items()]})
    with open(out, "w") as f:
        json.dump(cases, f)
    print(json.dumps({"programs": len(cases), "nodes": sum(len(c["nodes"]) for c in cases), "ops": sorted(ops - {""}),
                      "sample": {"id": cases[-1]["id"], "program": str(root)[:3000], "observed": {k: cases[-1]["got"][k] for k in ("out", "r", "log")}}}))


if __name__ == "__main__":
    main()
