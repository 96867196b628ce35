"""Projection of the implementation's objects onto the specification's values (spec/Machine.tla).

Everything here is a change of notation: numbers to canonical strings, IR objects and engine nodes
to records.  Nothing is evaluated.
"""

from __future__ import annotations

import math
import struct

from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
from sonolus.backend.node import FunctionNode
from sonolus.backend.ops import Op
from sonolus.backend.optimize.flow import BasicBlock, FlowEdge
from sonolus.backend.place import BlockPlace, SSAPlace, TempBlock

# The language's own vocabulary (transcribed from the runtime's documentation, not read from the
# code under test): operations that neither act on nor depend on anything but their operands.
CONTROL = {"Block", "Execute", "Execute0", "JumpLoop", "While", "DoWhile"}
EFFECT_PREFIX = ("Set", "Increment", "Decrement", "Stack")


def num(x) -> str:
    x = float(x)
    if x != x:
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    if x == 0:
        return "0"
    if x.is_integer() and abs(x) < 2.0**53:
        return str(int(x))
    return "x%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]


def unnum(s: str) -> float:
    if s.startswith("x"):
        return struct.unpack(">d", struct.pack(">Q", int(s[1:], 16)))[0]
    return float(s)


# ---------------------------------------------------------------------------------------------
# Effects, by operation name.  Kept here, independent of Op.side_effects / Op.pure.
EFFECTFUL = {
    "AddLifeScheduled", "Break", "Copy", "DebugLog", "DebugPause", "DestroyParticleEffect", "Draw",
    "DrawCurvedB", "DrawCurvedBT", "DrawCurvedL", "DrawCurvedLR", "DrawCurvedR", "DrawCurvedT", "ExportValue",
    "MoveParticleEffect", "Paint", "Play", "PlayLooped", "PlayLoopedScheduled", "PlayScheduled", "Print",
    "Spawn", "SpawnParticleEffect", "StopLooped", "StopLoopedScheduled", "StreamSet",
    "Random", "RandomInteger",
}


def is_effect(name: str) -> bool:
    return name in EFFECTFUL or name.startswith(("Set", "Increment", "Decrement", "Stack"))


# ---------------------------------------------------------------------------------------------
# Source programs


def expr(e) -> dict:
    if isinstance(e, IRConst):
        return {"k": "c", "v": num(e.value), "e": False}
    if isinstance(e, (int, float)):
        return {"k": "c", "v": num(e), "e": False}
    if isinstance(e, IRGet):
        return _get(place(e.place))
    if isinstance(e, BlockPlace):
        return _get(place(e))
    if isinstance(e, TempBlock):
        return _get(place(BlockPlace(e, 0)))
    if isinstance(e, (IRInstr, IRPureInstr)):
        name = e.op.value
        a = [expr(x) for x in e.args]
        fx = is_effect(name)
        return {"k": "o", "op": name, "a": a, "fx": fx, "e": fx or any(x["e"] for x in a)}
    if isinstance(e, IRSet):
        return {"k": "s", "p": place(e.place), "e_": expr(e.value), "e": True}
    raise TypeError(f"not a source expression: {e!r}")


def _get(p):
    return {"k": "g", "p": p, "e": p["i"]["e"] or (p["k"] == "m" and p["b"]["e"])}


def place(p) -> dict:
    if isinstance(p, SSAPlace):
        raise TypeError("SSA place in a source program")
    if isinstance(p.block, TempBlock):
        return {"k": "t", "n": "#" + p.block.name, "sz": p.block.size, "i": expr(p.index), "o": num(p.offset)}
    return {"k": "m", "b": expr(int(p.block) if isinstance(p.block, int) else p.block),
            "i": expr(p.index), "o": num(p.offset)}


def edge_key(e: FlowEdge):
    return (e.cond is None, 0 if e.cond is None else e.cond)


def source(entry: BasicBlock) -> list:
    """Number the blocks in discovery order, entry first; successors ordered by label."""
    order, index, todo = [], {}, [entry]
    index[id(entry)] = 1
    order.append(entry)
    while todo:
        b = todo.pop(0)
        for e in sorted(b.outgoing, key=edge_key):
            if id(e.dst) not in index:
                index[id(e.dst)] = len(order) + 1
                order.append(e.dst)
                todo.append(e.dst)
    return [
        {
            "s": [expr(x) for x in b.statements],
            "t": expr(b.test),
            "e": [["none" if e.cond is None else num(e.cond), index[id(e.dst)]] for e in sorted(b.outgoing, key=edge_key)],
        }
        for b in order
    ]


# ---------------------------------------------------------------------------------------------
# Engine programs


def engine(root) -> tuple[list, int]:
    """Node table, children before parents, from an EngineNode tree (shared subtrees once)."""
    table, memo = [], {}

    def key(n):
        return id(n) if isinstance(n, FunctionNode) else ("#", num(n))

    stack = [(root, False)]
    keep = []
    while stack:
        n, ready = stack.pop()
        k = key(n)
        if k in memo:
            continue
        if not isinstance(n, FunctionNode):
            table.append({"f": "", "v": num(n), "a": [], "p": True, "p0": True})
            memo[k] = len(table)
        elif ready:
            add(table, n.func.value, [memo[key(a)] for a in n.args])
            memo[k] = len(table)
            keep.append(n)
        else:
            stack.append((n, True))
            stack.extend((a, False) for a in reversed(n.args))
    return table, memo[key(root)]


def add(table, name, args):
    own = not is_effect(name) and name != "JumpLoop" and name not in ("While", "DoWhile")
    table.append({"f": name, "v": "", "a": args, "p": own and all(table[a - 1]["p"] for a in args), "p0": own})


def from_output_nodes(nodes: list) -> list:
    """Node table from the packaged form (what OutputNodeGenerator / the engine data contain)."""
    table = []
    for n in nodes:
        if "func" in n:
            add(table, n["func"], [a + 1 for a in n["args"]])
        else:
            table.append({"f": "", "v": num(n["value"]), "a": [], "p": True, "p0": True})
    return table
