"""Random source programs (control-flow graphs) for the compiler, seeded and self-contained.

`program(rng, profile)` returns a `Prog`: a builder that yields a *fresh* BasicBlock graph on every
`build()`, the mode/callback it is to be compiled for, and the environments to run it in.
Programs respect the compiler's documented input contract: value-level selects have constant arms,
And/Or take truth values, expression operands have no effects, memory that is read-only in the
callback is never written.
"""

from __future__ import annotations

import json
import math
import random
from dataclasses import dataclass, field
from pathlib import Path

from sonolus.backend.blocks import PlayBlock, PreviewBlock, TutorialBlock, WatchBlock
from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
from sonolus.backend.mode import Mode
from sonolus.backend.ops import Op
from sonolus.backend.optimize.flow import BasicBlock
from sonolus.backend.place import BlockPlace, TempBlock

from encode import num

NAN = float("nan")
INF = float("inf")

CONSTS = [-8, -5, -3, -2, -1, 0, 0, 1, 1, 2, 3, 4, 5, 7, 0.5, -0.5, 1.5, 2.5, -1.5, 3.25, 100, 256, 1000]
NEARINT = [1e-17, -1e-17, 0.9999999999999999, 1.0000000000000002, 2.9999999999999996, 5e-324]
ENVVALS = [0, 0, 1, 1, 2, 3, 4, 5, -1, -2, -3, 0.5, 1.5, -0.5, 2.25, 7, 10, 100, -7.75]
WILD = [NAN, INF, -INF, 1e17, 1e300, -1e300, 2.0**24, 2.0**31, 4294967296.5, 16777217, 0.1]

EXACT = [(o, 1) for o in ("Negate", "Not", "Abs", "Floor", "Ceil", "Round", "Trunc", "Frac", "Sign")] + [
    (o, 2) for o in ("Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Min", "Max", "Equal", "NotEqual", "Less", "LessOr",
                     "Greater", "GreaterOr", "Power", "Add", "Mod", "Rem")] + [
    (o, 3) for o in ("Clamp", "Lerp", "LerpClamped", "Unlerp", "UnlerpClamped", "Add", "Subtract", "Multiply", "Divide")] + [
    ("Remap", 5), ("RemapClamped", 5), ("JudgeSimple", 5), ("Judge", 8), ("If", 3), ("SwitchIntegerWithDefault", 5),
    ("SwitchWithDefault", 6), ("Switch", 5), ("SwitchInteger", 4), ("And", 3), ("Or", 3), ("And", 2), ("Or", 2)]
NEAR = [(o, 1) for o in ("Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh", "Arcsin", "Arccos", "Arctan", "Log", "Degree", "Radian")] + [
    ("Arctan2", 2)]
EASE = [(f"Ease{d}{f}", 1) for d in ("In", "Out", "InOut", "OutIn")
        for f in ("Quad", "Cubic", "Quart", "Quint", "Sine", "Circ", "Expo", "Back", "Elastic")]
POINTS = [0, -0.0, 1, -1, 2, 3, -2, 0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 3.5, 0.25, 0.75, 0.1, 0.3, 0.7, 0.9, 1e-9, 5e-324, 1e-308,
          1e308, -1e308, 2.0**24, 2.0**24 + 1, 2.0**31, 2.0**53, 2.0**53 + 2, -(2.0**63), 7, -7, 10, 100, 0.49999999999999994,
          0.9999999999999999, 1.0000000000000002, NAN, INF, -INF, 4, 5, 12.75, -3.75, 1 / 3, 16777216.5]

# Contexts: (mode, callback, writable blocks, blocks that are read-only there), from the
# specification's table of permissions.
PERMISSIONS = json.loads((Path(__file__).resolve().parent.parent / "spec" / "permissions.json").read_text())
BLOCKS = {"play": PlayBlock, "watch": WatchBlock, "preview": PreviewBlock, "tutorial": TutorialBlock}
MODES = {"play": Mode.PLAY, "watch": Mode.WATCH, "preview": Mode.PREVIEW, "tutorial": Mode.TUTORIAL}
NO_CONTEXT = (None, None, [20, 21], [])
#: mirrors of the entity's own cells inside the per-entity arrays are not modelled: a program uses
#: one of the two views only
MIRRORS = {"EntityDataArray": "EntityData", "EntitySharedMemoryArray": "EntitySharedMemory",
           "EntityInfoArray": "EntityInfo", "EntityScoreArray": "EntityScore", "EntityLifeArray": "EntityLife"}


def contexts():
    res = []
    for mode, blocks in PERMISSIONS.items():
        cbs = sorted({c for b in blocks.values() for c in b["readable"]})
        for cb in cbs:
            rw = {n: cb in b["writable"] for n, b in blocks.items() if cb in b["readable"]
                  and n not in ("TemporaryMemory", "EngineRom")}
            res.append((mode, cb, rw))
    return res


ALL_CONTEXTS = contexts()


def pick_context(r):
    mode, cb, rw = r.choice(ALL_CONTEXTS)
    names = [n for n in rw if not any(MIRRORS.get(n) == k or MIRRORS.get(k) == n for k in rw) or r.random() < 0.5]
    names = [n for n in names if not (n in MIRRORS and MIRRORS[n] in names)]
    wr = [n for n in names if rw[n]]
    ro = [n for n in names if not rw[n]]
    wr = r.sample(wr, min(len(wr), r.choice([1, 2, 2, 3])))
    ro = r.sample(ro, min(len(ro), r.choice([1, 2, 3])))

    def blk(n):
        i = PERMISSIONS[mode][n]["id"]
        x = r.random()
        return getattr(BLOCKS[mode], n) if x < 0.8 else (i if x < 0.95 else float(i))

    return MODES[mode], cb, [blk(n) for n in wr], [blk(n) for n in ro]


@dataclass
class Profile:
    blocks: tuple = (1, 9)
    stmts: tuple = (0, 4)
    scalars: tuple = (2, 6)
    arrays: tuple = (0, 2)
    depth: int = 3
    loops: float = 0.5
    switch: float = 0.25
    effects: float = 0.12
    draws: float = 0.05
    mem: float = 0.3
    pointers: float = 0.08
    rmw: float = 0.15
    swaps: float = 0.06
    uninit: float = 0.08
    wild: float = 0.08
    consts: float = 0.3
    chains: float = 0.15
    modes: bool = True
    pure_native: float = 0.04
    motif: float = 0.12
    clones: float = 0.3  # copies (exact or nearly) of blocks
    repeat: float = 0.2  # reuse an expression already generated (GVN / LICM fodder)
    fracs: float = 0.15  # fractional/odd switch labels
    trans: float = 0.0
    odd_consts: float = 0.03
    tol: str = "exact"
    big: float = 0.0
    table: float = 0.0  # dispatch tables
    carry: float = 0.0  # loop-carried variables
    values: tuple = ()  # operations of a value-only program


PROFILES = {
    "general": Profile(),
    "small": Profile(blocks=(1, 4), stmts=(1, 3), depth=2),
    "straight": Profile(blocks=(1, 1), stmts=(4, 12), depth=3, swaps=0.1, mem=0.45, effects=0.2),
    "loops": Profile(blocks=(3, 8), loops=0.9, stmts=(1, 4), swaps=0.15, repeat=0.4, switch=0.1),
    "dispatch": Profile(blocks=(4, 10), loops=0.3, switch=0.7, chains=0.5, stmts=(0, 2), wild=0.25, fracs=0.35, table=0.45),
    "memory": Profile(mem=0.7, pointers=0.25, rmw=0.3, effects=0.15, repeat=0.4, blocks=(1, 5), stmts=(2, 6)),
    "effects": Profile(effects=0.4, draws=0.25, mem=0.4, blocks=(1, 6), repeat=0.35),
    "pressure": Profile(scalars=(6, 14), arrays=(1, 4), stmts=(3, 7), swaps=0.2, blocks=(2, 7), loops=0.7, carry=0.15),
    "uninit": Profile(uninit=0.45, blocks=(2, 8), loops=0.6, carry=0.6),
    "exact": Profile(values=tuple(EXACT)),
    "near": Profile(values=tuple(NEAR), tol="near"),
    "ease": Profile(values=tuple(EASE), tol="ease"),
    "big": Profile(big=1.0),
    "fold": Profile(consts=0.75, blocks=(1, 5), depth=5, odd_consts=0.15, repeat=0.1),
}

BIG_FORMS = ["chain", "nest", "long", "temps", "blocks", "switch", "phis", "nary", "diamonds", "loops", "arrays", "operands", "joins",
             "chain", "temps", "arrays", "switch"]
UN = [Op.Negate, Op.Not, Op.Abs, Op.Floor, Op.Ceil, Op.Round, Op.Trunc, Op.Frac, Op.Sign]
POW_BASES = [0, 1, 2, 3, -1, -2, 0.5, 1.5, 4]
BIN = [Op.Add, Op.Add, Op.Subtract, Op.Subtract, Op.Multiply, Op.Multiply, Op.Min, Op.Max, Op.Divide, Op.Mod, Op.Rem]
CMP = [Op.Equal, Op.NotEqual, Op.Less, Op.LessOr, Op.Greater, Op.GreaterOr]
TRANS = [Op.Sin, Op.Cos, Op.Arctan, Op.Tanh]
PURE_NATIVE = [Op.BeatToTime, Op.TimeToScaledTime, Op.HasSkinSprite, Op.StreamHas]
EFFECTS = [(Op.DebugLog, 1), (Op.DebugLog, 1), (Op.Play, 2), (Op.Spawn, 3), (Op.StreamSet, 3), (Op.Draw, 4),
           (Op.DebugPause, 0), (Op.MoveParticleEffect, 3), (Op.AddLifeScheduled, 2), (Op.ExportValue, 2)]
EFFECT_VALUES = [(Op.SpawnParticleEffect, 3), (Op.PlayLooped, 1), (Op.Paint, 2)]


@dataclass
class Prog:
    seed: object
    profile: str
    blocks: list  # [(stmts, test, [(cond, target)])] with shared immutable IR
    mode: Mode | None
    callback: str | None
    env: list  # list of {(block, index): value}
    used: set = field(default_factory=set)
    fuel: int = 400
    may_reject: bool = False  # exceeds (or may exceed) a documented limit

    def build(self) -> BasicBlock:
        bbs = [BasicBlock(statements=list(s), test=t) for s, t, _ in self.blocks]
        for bb, (_, _, edges) in zip(bbs, self.blocks, strict=True):
            for cond, target in edges:
                bb.connect_to(bbs[target], cond)
        return bbs[0]

    def env_json(self):
        return [[[num(b), num(i), num(v)] for (b, i), v in sorted(e.items(), key=lambda kv: (float(kv[0][0]), kv[0][1]))]
                for e in self.env]


class Gen:
    def __init__(self, rng: random.Random, profile: str):
        self.r = rng
        self.p = PROFILES[profile]
        p = self.p
        self.n = rng.randint(*p.scalars)
        self.scalars = [TempBlock(f"v{i}", 1) for i in range(self.n)]
        self.arrays = [TempBlock(f"a{i}", rng.choice([1, 2, 2, 3, 4, 7])) for i in range(rng.randint(*p.arrays))]
        self.mode, self.callback, self.wr, self.ro = (
            pick_context(rng) if p.modes and rng.random() < 0.7 else NO_CONTEXT)
        #: callbacks that may write nothing (e.g. preview render): observe through effects only
        self.nowrite = not self.wr
        if self.nowrite:
            self.wr = list(self.ro)
        self.states = [TempBlock(f"k{i}", 1) for i in range(rng.choice([0, 0, 1, 1, 2]))]
        self.init = {i for i in range(self.n) if rng.random() >= p.uninit} or {0}
        self.inita = {i for i in range(len(self.arrays)) if rng.random() >= p.uninit}
        self.safe = True
        self.used = set()
        self.pool: dict = {True: [], False: []}
        self.drawn = 0
        self.counters = 0
        self.ptrs = []  # scalars holding a pointer (block, index) pair: places in writable memory
        self.motifs = 0
        self.test = None  # a test a motif wants at the end of its block

    # -- expressions ------------------------------------------------------------------------
    def const(self):
        r = self.r
        if r.random() < self.p.odd_consts:
            return IRConst(r.choice(WILD))
        return IRConst(r.choice(CONSTS))

    def real_place(self, write: bool):
        r = self.r
        pool = self.wr if write or not self.ro or r.random() < 0.55 else self.ro
        b = r.choice(pool)
        if r.random() < 0.2:
            # dynamic index, always a small non-negative integer
            off = r.choice([0, 0, 1, 2])
            for i in range(4 + off):
                self.used.add((int(b), i))
            return BlockPlace(b, self.int_index(4), off)
        i = r.randrange(5)
        self.used.add((int(b), i))
        off = r.choice([0, 0, 0, i])
        x = r.random()
        ix = i - off if x < 0.9 else IRConst(i - off) if x < 0.95 else IRConst(float(i - off))
        return BlockPlace(b, ix, off)

    def ptr_place(self):
        """Memory reached through a run-time pointer held in memory or computed."""
        r = self.r
        b = r.choice(self.wr)
        kind = r.randrange(3)
        if kind == 0 and self.ptrs:
            return r.choice(self.ptrs)
        if kind == 1:
            # block id computed at run time: two candidate blocks
            b2 = r.choice(self.wr)
            sel = IRPureInstr(Op.If, [self.expr(1), IRConst(int(b)), IRConst(int(b2))])
            i = r.randrange(5)
            self.used |= {(int(b), i), (int(b2), i)}
            return BlockPlace(sel, i, 0)
        base = r.choice(self.wr)
        i0 = 10 + 2 * r.randrange(3)
        # cells base[i0], base[i0+1] hold a pointer (env fills it in)
        self.used.add(("ptr", int(base), i0, int(b)))
        off = r.randrange(3)
        for j in range(4 + off):
            self.used.add((int(b), j))
        pl = BlockPlace(IRGet(BlockPlace(base, i0, 0)), IRGet(BlockPlace(base, i0 + 1, 0)), off)
        return pl

    def int_index(self, size):
        r = self.r
        if r.random() < 0.15:
            return IRPureInstr(Op.Mod, [IRPureInstr(Op.Floor, [self.leaf()]), IRConst(size)])
        s = self.scalar(True)
        x = IRPureInstr(Op.Floor, [IRPureInstr(Op.Abs, [IRGet(BlockPlace(s, 0, 0))])])
        return IRPureInstr(Op.Mod, [x, IRConst(size)])

    def scalar(self, safe=None):
        """A scalar to read; in safe mode one that always holds a specified value (mostly)."""
        r = self.r
        safe = self.safe if safe is None else safe
        return self.scalars[r.choice(sorted(self.init))] if safe and r.random() < 0.97 else r.choice(self.scalars)

    def temp_place(self):
        r = self.r
        arrays = [self.arrays[i] for i in sorted(self.inita)] if self.safe else self.arrays
        if self.states and r.random() < 0.08:
            return BlockPlace(r.choice(self.states), 0, 0)
        if arrays and r.random() < 0.35:
            a = r.choice(arrays)
            if r.random() < 0.4:
                return BlockPlace(a, self.int_index(a.size), 0)
            i = r.randrange(a.size)
            off = r.choice([0, 0, i])
            return BlockPlace(a, i - off, off)
        return BlockPlace(self.scalar(), 0, 0)

    def leaf(self):
        r = self.r
        x = r.random()
        if x < 0.02:  # raw numbers and bare places are operands too
            return r.choice([2, 0.5, 0, -1, 1.0, BlockPlace(self.scalar(), 0, 0), BlockPlace(self.scalar(), 0, 0)])
        if x < self.p.consts:
            return self.const()
        if x < self.p.consts + (1 - self.p.consts) * self.p.mem * 0.8:
            if r.random() < self.p.pointers:
                return IRGet(self.ptr_place())
            return IRGet(self.real_place(write=False))
        return IRGet(self.temp_place())

    def boolean(self, depth):
        r = self.r
        x = r.random()
        if depth <= 0 or x < 0.6:
            op = r.choice(CMP)
            if r.random() < 0.4:
                return IRPureInstr(op, [self.expr(depth - 1), self.const()])
            return IRPureInstr(op, [self.expr(depth - 1), self.expr(depth - 1)])
        if x < 0.75:
            return IRPureInstr(Op.Not, [self.boolean(depth - 1)])
        return IRPureInstr(r.choice([Op.And, Op.Or]), [self.boolean(depth - 1) for _ in range(r.choice([2, 2, 3]))])

    def expr(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.25:
            return self.leaf()
        pool = self.pool[self.safe]
        if pool and r.random() < self.p.repeat:
            return r.choice(pool) if r.random() < 0.75 else self.near(r.choice(pool))
        e = self._expr(depth)
        if len(pool) < 12:
            pool.append(e)
        elif r.random() < 0.3:
            pool[r.randrange(12)] = e
        return e

    def near(self, e):
        """Almost e: one constant, operand, cell, index or operation changed."""
        r = self.r
        if isinstance(e, IRConst):
            return IRConst(e.value + r.choice([1, -1, 2, 0.5])) if e.value == e.value and abs(e.value) < 1e9 else self.const()
        if isinstance(e, IRGet):
            return IRGet(self.near_place(e.place))
        if isinstance(e, IRPureInstr):
            a = list(e.args)
            i = r.randrange(len(a))
            strict = e.op.value.startswith(("If", "Switch", "And", "Or", "Divide", "Mod", "Rem", "Power"))
            x = r.random()
            if x < 0.15 and e.op in CMP:
                return IRPureInstr(r.choice(CMP), a)
            if x < 0.25 and e.op in BIN and not strict:
                return IRPureInstr(r.choice([Op.Add, Op.Subtract, Op.Multiply, Op.Min, Op.Max]), a[:2])
            if x < 0.4 and not strict:
                a.reverse()
                return IRPureInstr(e.op, a)
            if strict and not isinstance(a[i], (IRPureInstr, IRGet)):
                i = 0
            if e.op.value in ("And", "Or") and not isinstance(a[i], IRPureInstr):
                return e
            a[i] = self.near(a[i])
            return IRPureInstr(e.op, a)
        if isinstance(e, BlockPlace):
            return self.near_place(e)
        return self.const()

    def near_place(self, pl):
        """A place that differs from pl in one component (or in none)."""
        r = self.r
        if isinstance(pl.block, TempBlock):
            if isinstance(pl.index, int) and pl.block.size > 1:
                i = r.randrange(pl.block.size)
                off = r.choice([0, i])
                return BlockPlace(pl.block, i - off, off)
            return pl if r.random() < 0.5 else BlockPlace(self.scalar(), 0, 0)
        x = r.random()
        if x < 0.2:
            return BlockPlace(pl.block, pl.index, pl.offset)
        if x < 0.5:
            off = r.choice([0, 1, 2])
            if isinstance(pl.block, (int, float)):
                for j in range(5 + off):
                    self.used.add((int(pl.block), j))
            return BlockPlace(pl.block, pl.index, off)
        if x < 0.75:
            ix = r.choice([r.randrange(4), self.int_index(4), self.int_index(4)])
            if isinstance(pl.block, (int, float)):
                for j in range(7):
                    self.used.add((int(pl.block), j))
            return BlockPlace(pl.block, ix, min(pl.offset, 2))
        if isinstance(pl.block, (int, float)):
            return BlockPlace(r.choice(self.wr if pl.block in self.wr else self.ro + self.wr), pl.index, pl.offset)
        b, b2 = r.choice(self.wr), r.choice(self.wr)
        for j in range(8):
            self.used |= {(int(b), j), (int(b2), j)}
        return BlockPlace(IRPureInstr(Op.If, [self.expr(1), IRConst(int(b)), IRConst(int(b2))]), pl.index, pl.offset)

    def motif(self, out):
        """Statement patterns whose correctness hangs on a detail."""
        r = self.r
        x = r.randrange(6)
        fresh = TempBlock(f"m{self.motifs}", 1)
        self.motifs += 1
        if x == 0 and not self.nowrite:    # almost a read-modify-write
            pl = self.ptr_place() if r.random() < 0.5 else self.real_place(write=True)
            if r.random() < 0.5 and isinstance(pl.index, int):
                ix = self.int_index(4)
                for b in self.wr:
                    for j in range(7):
                        self.used.add((int(b), j))
                pl = BlockPlace(pl.block, ix, min(pl.offset, 2))
            q = self.near_place(pl)
            out.append(IRSet(pl, IRPureInstr(r.choice([Op.Add, Op.Subtract, Op.Multiply]),
                                             [IRGet(q), r.choice([IRConst(1), IRConst(2), self.expr(1), IRGet(pl)])])))
        elif x == 1:  # a value read once, with effects between the read and its use
            src = self.ptr_place() if r.random() < 0.3 and not self.nowrite else self.real_place(False)
            out.append(IRSet(BlockPlace(fresh, 0, 0), IRGet(src)))
            for _ in range(r.randint(1, 2)):
                y = r.random()
                if y < 0.6 and not self.nowrite:
                    out.append(IRSet(src if src.block in self.wr else self.real_place(True), self.expr(1)))
                elif y < 0.8:
                    self.stmt(out)
                else:
                    out.append(IRInstr(Op.DebugLog, [self.leaf()]))
            use = IRGet(BlockPlace(fresh, 0, 0))
            if r.random() < 0.5:
                self.test = use
            elif r.random() < 0.5:
                self.test = IRPureInstr(r.choice(CMP), [use, self.const()])
            else:
                out.append(IRInstr(Op.DebugLog, [IRPureInstr(Op.Add, [use, self.leaf()])]))
        elif x == 2:  # shift register
            vs = r.sample(self.scalars, r.randint(2, min(4, self.n)))
            for a, b in zip(vs, vs[1:]):
                if self.scalars.index(b) in self.init or not self.safe:
                    out.append(IRSet(BlockPlace(a, 0, 0), IRGet(BlockPlace(b, 0, 0))))
            out.append(IRSet(BlockPlace(vs[-1], 0, 0), self.expr(1)))
        elif x == 3:  # variables of this block only, carried around loops as garbage
            ms = [TempBlock(f"g{i}", 1) for i in range(r.randint(1, 3))]
            for m in ms:
                out.append(IRSet(BlockPlace(m, 0, 0), self.expr(2)))
                if r.random() < 0.3:
                    self.stmt(out)
            r.shuffle(ms)
            out.append(IRInstr(Op.DebugLog, [IRPureInstr(Op.Add, [IRGet(BlockPlace(m, 0, 0)) for m in ms] + [IRConst(1)])]))
        elif x == 4:  # two nearly equal values
            e = self.expr(self.depth())
            out.append(IRSet(BlockPlace(fresh, 0, 0), e))
            out.append(IRInstr(Op.DebugLog, [self.near(e)]))
            out.append(IRInstr(Op.DebugLog, [IRGet(BlockPlace(fresh, 0, 0))]))
        else:  # nearly equal places
            pl = self.real_place(False)
            q = self.near_place(pl)
            out.append(IRInstr(Op.DebugLog, [IRPureInstr(Op.Subtract, [IRGet(pl), IRPureInstr(Op.Multiply, [IRConst(16), IRGet(q)])])]))

    def _expr(self, depth):
        r = self.r
        x = r.random()
        if x < self.p.pure_native:
            op = r.choice(PURE_NATIVE)
            return IRPureInstr(op, [self.expr(depth - 1) for _ in range(2 if op is Op.StreamHas else 1)])
        if x < 0.15:
            return self.boolean(depth)
        if x < 0.30:
            op = r.choice(UN)
            return IRPureInstr(op, [self.expr(depth - 1)])
        if x < 0.38:
            return IRPureInstr(Op.If, [self.expr(depth - 1), self.const(), self.const()])
        if x < 0.44:
            ks = r.sample([-3, -2, -1, 0, 1, 2, 3, 4, 5, 0.5, 2.5], r.randint(1, 4))
            if r.random() < 0.5:
                return IRPureInstr(Op.SwitchWithDefault, [self.expr(depth - 1),
                                   *[y for k in ks for y in (IRConst(k), self.const())], self.const()])
            return IRPureInstr(Op.SwitchIntegerWithDefault, [self.expr(depth - 1),
                               *[self.const() for _ in ks], self.const()])
        if x < 0.48:
            return IRPureInstr(Op.Clamp, [self.expr(depth - 1) for _ in range(3)])
        if x < 0.50:
            return IRPureInstr(Op.Lerp, [self.expr(depth - 1) for _ in range(3)])
        if x < 0.50 + self.p.trans:
            return IRPureInstr(r.choice(TRANS), [self.expr(depth - 1)])
        if x > 0.985:
            return IRPureInstr(Op.Power, [r.choice([self.expr(depth - 1), IRConst(r.choice(POW_BASES))]),
                                          IRConst(r.choice([0, 1, 2, 2, 3]))])
        op = r.choice(BIN)
        a = self.expr(depth - 1)
        if op in (Op.Divide, Op.Mod, Op.Rem) and r.random() < 0.92:
            b = IRConst(r.choice([-8, -3, -2, -1, 1, 2, 3, 4, 5, 0.5]))
        else:
            b = self.expr(depth - 1)
        if op in (Op.Add, Op.Multiply, Op.Subtract) and r.random() < 0.15:
            return IRPureInstr(op, [a, b, self.expr(depth - 1)])
        return IRPureInstr(op, [a, b])

    def depth(self):
        return self.r.randint(0, self.p.depth)

    # -- statements -------------------------------------------------------------------------
    def stmt(self, out):
        r, p = self.r, self.p
        x = r.random()
        if x < p.effects:
            op, n = r.choice(EFFECTS)
            if r.random() < 0.15:
                vop, vn = r.choice(EFFECT_VALUES)
                out.append(IRSet(self.dst(), IRInstr(vop, [self.expr(self.depth() - 1) for _ in range(vn)])))
            elif r.random() < 0.06 and not self.nowrite:
                sb, db = r.choice(self.wr + self.ro), r.choice(self.wr)
                for i in range(5):
                    self.used |= {(int(sb), i), (int(db), i)}
                out.append(IRInstr(Op.Copy, [IRConst(int(sb)), IRConst(r.randrange(2)), IRConst(int(db)),
                                             IRConst(r.randrange(2)), IRConst(r.randrange(1, 4))]))
            else:
                out.append(IRInstr(op, [self.expr(self.depth()) for _ in range(n)]))
            return
        x = r.random()
        if x < p.draws:
            self.drawn += 1
            lo = 10 * self.drawn
            t = self.dst()
            if r.random() < 0.5:
                out.append(IRSet(t, IRInstr(Op.Random, [IRConst(lo), IRConst(lo + 4)])))
            else:
                out.append(IRSet(t, IRInstr(Op.RandomInteger, [IRConst(lo), IRConst(lo + 6)])))
            return
        x = r.random()
        if x < p.swaps and self.n >= 2:
            pool = [self.scalars[i] for i in sorted(self.init)] if r.random() < 0.9 else self.scalars
            if len(pool) < 2:
                pool = self.scalars
            k = r.randint(2, min(4, len(pool)))
            vs = r.sample(pool, k)
            ts = [TempBlock(f"s{i}", 1) for i in range(k)]
            for t, v in zip(ts, vs, strict=True):
                out.append(IRSet(BlockPlace(t, 0, 0), IRGet(BlockPlace(v, 0, 0))))
            rot = r.randint(1, k - 1)
            for i, v in enumerate(vs):
                out.append(IRSet(BlockPlace(v, 0, 0), IRGet(BlockPlace(ts[(i + rot) % k], 0, 0))))
            return
        x = r.random()
        if x < p.rmw:
            pl = self.ptr_place() if r.random() < p.pointers and not self.nowrite else (
                self.real_place(write=True) if r.random() < 0.6 and not self.nowrite else self.temp_place())
            op = r.choice([Op.Add, Op.Subtract, Op.Multiply, Op.Divide, Op.Mod, Op.Rem, Op.Add, Op.Subtract, Op.Power])
            v = IRConst(r.choice([1, 1, 1, 2, -1, 0.5, 3])) if r.random() < 0.5 else self.expr(self.depth())
            if op in (Op.Divide, Op.Mod, Op.Rem):
                v = IRConst(r.choice([2, 3, -2, 0.5, 4]))
            elif op is Op.Power:
                v = IRConst(r.choice([0, 1, 2, 2, 3]))
            args = [IRGet(pl), v]
            if op is not Op.Power and r.random() < 0.15:
                args.reverse()
            t = r.random()
            if t < 0.12:   # expose old / new value through a temp
                s = BlockPlace(r.choice(self.scalars), 0, 0)
                out.append(IRSet(s, IRGet(pl)))
                out.append(IRSet(pl, IRPureInstr(op, [IRGet(s), v])))
            elif t < 0.2:
                s = BlockPlace(r.choice(self.scalars), 0, 0)
                out.append(IRSet(s, IRPureInstr(op, args)))
                out.append(IRSet(pl, IRGet(s)))
            else:
                out.append(IRSet(pl, IRPureInstr(op, args)))
            return
        out.append(IRSet(self.dst(), self.expr(self.depth())))

    def dst(self):
        r = self.r
        if r.random() < self.p.mem and not self.nowrite:
            if r.random() < self.p.pointers:
                return self.ptr_place()
            return self.real_place(write=True)
        if not self.safe and r.random() < 0.8:
            loose = [x for i, x in enumerate(self.scalars) if i not in self.init]
            loose += [x for i, x in enumerate(self.arrays) if i not in self.inita]
            if loose:
                t = r.choice(loose)
                return BlockPlace(t, r.randrange(t.size) if r.random() < 0.7 else self.int_index(t.size), 0)
        return self.temp_place()

    def state_stmt(self, out):
        """Assign a state variable (one that only ever holds a few known constants)."""
        r = self.r
        d = BlockPlace(r.choice(self.states), 0, 0)
        x = r.random()
        cs = [0, 1, 2, 3, 4, 0.5, -1]
        if x < 0.6:
            v = IRConst(r.choice(cs))
        elif x < 0.8:
            v = IRPureInstr(Op.If, [self.boolean(1), IRConst(r.choice(cs)), IRConst(r.choice(cs))])
        else:
            v = IRGet(BlockPlace(r.choice(self.states), 0, 0))
        out.append(IRSet(d, v))

    def stmts(self):
        out = []
        for _ in range(self.r.randint(*self.p.stmts)):
            self.safe = self.r.random() < 0.9
            if self.states and self.r.random() < 0.15:
                self.state_stmt(out)
                continue
            if self.r.random() < self.p.motif:
                self.motif(out)
            else:
                self.stmt(out)
        self.safe = True
        return out

    # -- control flow -----------------------------------------------------------------------
    def labels(self, k):
        r = self.r
        x = r.random()
        if x < self.p.fracs:
            pool = [0.5, 1.5, -0.5, 2, 3, -1, 0, 1, 4, 1e17, 16777216, 16777218, 2.5, -7.75]
            return r.sample(pool, min(k, len(pool)))
        start = r.choice([0, 0, 0, 1, 2, -1, -2, 5, 100])
        stride = r.choice([1, 1, 1, 2, 3])
        ls = [start + stride * i for i in range(k)]
        if r.random() < 0.3 and k > 2:
            ls.pop(r.randrange(k))
        if r.random() < 0.25 and k > 2:  # one label off the stride
            j = r.randrange(len(ls))
            new = ls[j] + r.choice([1, -1, 1, 2, 0.5])
            if new not in ls:
                ls[j] = new
        return ls

    def terminator(self, i, n, fresh):
        """Edges of block i of n: forward edges, and back edges guarded by a counter."""
        r, p = self.r, self.p
        stmts = []
        if i == n - 1:
            return stmts, IRConst(0), []
        fwd = lambda: r.randint(i + 1, min(n - 1, i + 4))  # noqa: E731
        x = r.random()
        if x < p.loops * 0.5 and i > 0:
            c = BlockPlace(TempBlock(f"c{self.counters}", 1), 0, 0)
            self.counters += 1
            fresh.append(c)
            stmts.append(IRSet(c, IRPureInstr(Op.Add, [IRGet(c), IRConst(1)])))
            bound = r.randint(1, 4)
            back = r.randint(1, i)
            test = IRPureInstr(Op.Less, [IRGet(c), IRConst(bound)])
            if r.random() < 0.3:
                test = IRPureInstr(Op.And, [test, self.boolean(1)])
            y = r.random()
            if y < 0.25:
                return stmts, IRPureInstr(Op.Not, [test]), [(0, back), (None, fwd())]
            if y < 0.35:  # a guarded back edge in a multi-way branch
                t = IRPureInstr(Op.If, [test, IRConst(3), IRConst(r.choice([0, 1, 2, 9]))])
                return stmts, t, [(3, back), (1, fwd()), (2, fwd()), (None, fwd())]
            return stmts, test, [(0, fwd()), (None, back)]
        x = r.random()
        if x < p.switch:
            k = r.randint(2, 6)
            labels = self.labels(k)
            if self.states and r.random() < 0.35:
                test = IRGet(BlockPlace(r.choice(self.states), 0, 0))
                labels = r.sample([0, 1, 2, 3, 4, 0.5, -1], r.randint(1, 5))
            elif self.test is not None:
                test = self.test
            elif r.random() < 0.75:
                test = IRGet(self.temp_place()) if r.random() < 0.5 else IRGet(self.real_place(False))
            else:
                test = self.expr(2)
            edges = [(lab, fwd()) for lab in labels]
            if r.random() < 0.75:
                edges.append((None, fwd()))
            return stmts, test, edges
        if x < p.switch + 0.2:
            return stmts, IRConst(0), [(None, i + 1 if r.random() < 0.6 else fwd())]
        # two-way
        y = r.random()
        if y < p.chains:
            s = IRGet(BlockPlace(self.states[0] if self.states and r.random() < 0.5 else self.scalars[min(self.init)], 0, 0))
            cst = IRConst(r.choice([0, 1, 2, 3, 4, 5, -1, 0.5]))
            args = [s, cst] if r.random() < 0.8 else [cst, s]
            test = IRPureInstr(r.choice([Op.Equal, Op.Equal, Op.Equal, Op.NotEqual]), args)
        elif self.test is not None:
            test = self.test
        elif y < 0.6:
            test = self.boolean(2)
        else:
            test = self.expr(2)
        a, b = fwd(), fwd()
        z = r.random()
        if z < 0.75:
            return stmts, test, [(0, a), (None, b)]
        if z < 0.85:
            return stmts, test, [(1, a), (0, b)]
        if z < 0.93:
            return stmts, test, [(r.choice([1, 2, 0.5, -1]), a), (None, b)]
        return stmts, test, [(0, a)]

    def value_program(self, seed, profile):
        """Straight-line program logging operations applied to known (and some unknown) operands."""
        r = self.r
        st = []

        def operand(op, i):
            x = r.random()
            if x < 0.08 and op not in ("And", "Or"):
                self.used.add((20, i))
                return IRGet(BlockPlace(20, i, 0))
            if op in ("And", "Or"):
                return IRConst(r.choice([0, 1]))
            if op.startswith("Ease"):
                return IRConst(r.choice([r.random(), r.random(), r.choice([0, 1, 0.5, 0.25, 0.75, -1, 2, 0.5000000000000001,
                                                                            0.49999999999999994, INF, -INF, NAN])]))
            if op.startswith("Switch") and r.random() < 0.6:
                return IRConst(r.choice([0, 1, 2, 3, -1, 0.5, 4]))
            if op == "Power":
                return IRConst(r.choice([0, 1, 2, 3] if i else [0, 1, 2, -3, 0.5, 1.5, -2.25, 10, 1000]))
            if x < 0.6:
                return IRConst(r.choice(POINTS))
            if x < 0.8:
                return IRConst(r.randint(-20, 20) / r.choice([1, 1, 2, 4]))
            return IRConst(r.uniform(-1, 1) * 10.0 ** r.randint(-3, 6))

        for _ in range(r.randint(6, 14)):
            op, n = r.choice(self.p.values)
            a = [operand(op, i) for i in range(n)]
            if op in ("If", "Switch", "SwitchWithDefault", "SwitchInteger", "SwitchIntegerWithDefault"):
                a = [x if i == 0 or not isinstance(x, IRGet) else IRConst(i) for i, x in enumerate(a)]
            st.append(IRInstr(Op.DebugLog, [IRPureInstr(Op(op), a)]))
        env = [self.environment() for _ in range(2)]
        for e in env:
            for k in list(e):
                if k[0] == 20:
                    e[k] = r.choice(POINTS)
        return Prog(seed, profile, [(st, IRConst(0), [])], self.mode, self.callback, env, self.used)

    def between(self, tag, u):
        """What a block between two tests of the same value may do."""
        u, tag = BlockPlace(u, 0, 0), IRConst(tag)
        return self.r.choice([
            [IRInstr(Op.DebugLog, [tag])],
            [IRSet(u, IRInstr(Op.DebugLog, [tag]))],
            [IRSet(u, IRPureInstr(Op.Add, [IRInstr(Op.DebugLog, [tag]), IRConst(1)]))],
            [IRSet(u, IRPureInstr(Op.Add, [IRGet(u), tag]))],
            [IRSet(BlockPlace(20, 60, 0), tag)],
        ])

    def table_program(self, seed, profile):
        """A dispatch visited once per test value: the labels, their neighbours and oddities."""
        r = self.r
        k = r.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 9])
        if r.random() < 0.15:
            labels = r.sample([0.5, 1.5, -0.5, 2, 3, -1, 0, 1, 4, 1e17, 16777216, 16777218, 2.5, -7.75, 1e300, -16777216, 2.0**31,
                               2.0**24 - 1], min(k, 12))
        else:
            start = r.choice([0, 0, 0, 1, 2, -1, -2, -5, 5, 100, 16777210, -16777215])
            stride = r.choice([1, 1, 1, 2, 2, 3, 4, 10, 1000, 0.5])
            labels = [start + stride * i for i in range(k)]
            y = r.random()
            if y < 0.3 and k > 2:
                labels.pop(r.choice([1, k - 2, r.randrange(k), r.randrange(k)]))
            if 0.2 < y < 0.6 and k > 2:
                j = r.choice([0, len(labels) - 1, len(labels) - 1, r.randrange(len(labels))])
                new = labels[j] + r.choice([1, -1, 1, -1, 2, 0.5, stride / 2, stride, -stride])
                if new not in labels:
                    labels[j] = new
            if y > 0.9:
                extra = labels[-1] + r.choice([stride * 2, stride * 3, stride * 20, 1])
                if extra not in labels:
                    labels.append(extra)
        if r.random() < 0.5:
            r.shuffle(labels)
        tests = list(labels)
        for c in labels:
            tests += r.sample([c + 1, c - 1, c + 0.5, c - 0.5, -c, c * 2, c + 0.25, math.nextafter(c, INF) if c else 1e-17,
                               math.nextafter(c, -INF) if c else -1e-17], 3)
        tests += r.sample([NAN, INF, -INF, 0, -0.0, 1e-17, -1e-17, 0.9999999999999999, 1, 2, 2.9999999999999996, 1e9, 1e17, -1e17,
                           2.0**31, 2.0**32, 2.0**53, 4294967296.5, -0.5, 0.5, max(labels) + 1, min(labels) - 1], 9)
        r.shuffle(tests)
        tests = tests[:40]
        i, x = TempBlock("i", 1), TempBlock("x", 1)
        gi, gx = IRGet(BlockPlace(i, 0, 0)), IRGet(BlockPlace(x, 0, 0))
        cell = IRGet(BlockPlace(20, gi, 0))
        log = lambda *v: [IRInstr(Op.DebugLog, [IRConst(a) if not isinstance(a, (IRGet, IRPureInstr)) else a]) for a in v]  # noqa: E731
        # entry, head, dispatch, targets..., join, exit
        nt = r.randint(1, len(labels))
        form = r.choice(["switch", "switch", "switch", "chain", "chain", "value", "ifs"])
        read = [IRSet(BlockPlace(x, 0, 0), cell)] if r.random() < 0.7 else []
        t = gx if read else cell
        y = r.random()
        if y < 0.12:
            t = IRPureInstr(Op.Subtract, [t, IRConst(r.choice([1, -1, 2]))])
        elif y < 0.18:
            t = IRPureInstr(r.choice([Op.Floor, Op.Negate, Op.Abs, Op.Round]), [t])
        elif y < 0.22:
            t = IRPureInstr(Op.Multiply, [t, IRConst(r.choice([2, 0.5]))])
        has_default = r.random() < 0.85 or form != "switch"
        val = {c: r.randrange(nt) for c in labels} if r.random() < 0.5 else {c: j % nt for j, c in enumerate(labels)}
        dflt = r.randrange(nt) if r.random() < 0.15 else nt
        blocks = []
        H = 1
        incr = [IRSet(BlockPlace(i, 0, 0), IRPureInstr(Op.Add, [gi, IRConst(1)]))]
        blocks.append(([IRSet(BlockPlace(i, 0, 0), IRConst(0))], IRConst(0), [(None, H)]))
        blocks.append(([], IRPureInstr(Op.Less, [gi, IRConst(len(tests))]), [(0, "exit"), (None, "disp")]))
        at = {}

        def add(name, st, test, edges):
            at[name] = len(blocks)
            blocks.append((st, test, edges))

        if form == "switch":
            edges = [(c, f"t{val[c]}") for c in labels]
            edges.append((None, f"t{dflt}")) if has_default else None
            r.shuffle(edges)
            add("disp", read, t, edges)
        elif form == "chain":
            split = r.randint(1, len(labels) - 1) if r.random() < 0.5 and len(labels) > 1 else None
            for j, c in enumerate(labels):
                name = "disp" if j == 0 else f"d{j}"
                nxt = f"d{j + 1}" if j + 1 < len(labels) else f"t{dflt}"
                st = read if j == 0 else (self.between(900 + j, TempBlock("u", 1)) if j == split else [])
                a = [t, IRConst(c)]
                r.shuffle(a)
                z = r.random()
                if z < 0.4:
                    add(name, st, IRPureInstr(Op.Equal, a), [(0, nxt), (None, f"t{val[c]}")])
                elif z < 0.7:
                    add(name, st, IRPureInstr(Op.NotEqual, a), [(0, f"t{val[c]}"), (None, nxt)])
                elif z < 0.85:
                    add(name, st, IRPureInstr(Op.Equal, a), [(1, f"t{val[c]}"), (0, nxt)])
                else:
                    add(name, st, t, [(c, f"t{val[c]}"), (None, nxt)])
        elif form == "value":
            v = IRPureInstr(Op.SwitchWithDefault, [t, *[z for c in labels for z in (IRConst(c), IRConst(val[c]))], IRConst(dflt)])
            if r.random() < 0.4:
                m = r.randint(1, 6)
                v = IRPureInstr(Op.SwitchIntegerWithDefault, [t, *[IRConst(r.randrange(nt)) for _ in range(m)], IRConst(dflt)])
            if r.random() < 0.6:
                add("disp", [*read, *log(v)], IRConst(0), [(None, f"t{nt}")])
            else:
                add("disp", read, v, [*[(j, f"t{j}") for j in range(nt)], (None, f"t{nt}")])
        else:
            v = IRConst(dflt)
            # nested truth-value selects: outer ones win
            st = list(read)
            y0 = TempBlock("y", 1)
            st.append(IRSet(BlockPlace(y0, 0, 0), v))
            for c in reversed(labels):
                st.append(IRSet(BlockPlace(y0, 0, 0), IRPureInstr(Op.If, [IRPureInstr(Op.Equal, [t, IRConst(c)]), IRConst(val[c]), IRConst(dflt)])))
                if r.random() < 0.5:
                    st += log(IRGet(BlockPlace(y0, 0, 0)))
            add("disp", st, IRGet(BlockPlace(y0, 0, 0)), [*[(j, f"t{j}") for j in range(nt)], (None, f"t{nt}")])
        for j in range(nt + 1):
            st = log(100 + j) if r.random() < 0.9 else []
            if r.random() < 0.3:
                st += log(t)
            if r.random() < 0.2:
                st.append(IRSet(BlockPlace(x, 0, 0), IRConst(j)))
            add(f"t{j}", st, IRConst(0), [(None, "join")])
        add("join", (log(gx) if read and r.random() < 0.4 else []) + incr, IRConst(0), [(None, "head")])
        add("exit", log(7), IRConst(0), [])
        at["head"] = H
        blocks = [(st, te, [(c, at[g] if isinstance(g, str) else g) for c, g in es]) for st, te, es in blocks]
        env = {(3000, 0): NAN, (3000, 1): INF, (3000, 2): -INF, **{(20, j): v for j, v in enumerate(tests)}}
        return Prog(seed, profile, blocks, None, None, [env], set(env))

    def big_program(self, seed, profile):
        """Programs of unusual size."""
        r = self.r
        C, P = IRConst, IRPureInstr  # noqa: N806
        pl = lambda v, i=0: BlockPlace(v, i, 0)  # noqa: E731
        g = lambda v, i=0: IRGet(pl(v, i))  # noqa: E731
        mem = lambda i: IRGet(BlockPlace(20, i, 0))  # noqa: E731
        log = lambda *vs: IRInstr(Op.DebugLog, list(vs))  # noqa: E731
        env = {(3000, 0): NAN, (3000, 1): INF, (3000, 2): -INF, **{(20, j): r.choice([0, 1, 2, 3, -1, 5, 0.5]) for j in range(64)}}
        form = BIG_FORMS[seed % len(BIG_FORMS)]
        blocks, fuel, may = [], 3000, False
        acc = TempBlock("acc", 1)
        if form == "chain":
            n = r.choice([150, 500, 999, 1000, 1001, 1002, 1500, 2500])
            st = [IRSet(pl(acc), mem(0))]
            ops = r.choice([[Op.Subtract], [Op.Subtract, Op.Add], [Op.Add], [Op.Min, Op.Max, Op.Add], [Op.Subtract, Op.Negate, Op.Abs]])
            mid = r.randrange(n) if r.random() < 0.4 else -1
            for k in range(n):
                op = r.choice(ops)
                x = r.choice([C(r.randint(-3, 5)), C(r.randint(-3, 5)), mem(r.randrange(8))])
                a = [g(acc), x] if op not in (Op.Negate, Op.Abs) else [g(acc)]
                if len(a) == 2 and r.random() < 0.3:
                    a.reverse()
                st.append(IRSet(pl(acc), P(op, a)))
                if k == mid:
                    st.append(log(g(acc)))
            st.append(log(g(acc)))
            if r.random() < 0.5:
                st.append(log(P(Op.Multiply, [g(acc), C(2)])))
            blocks = [(st, P(Op.Less, [g(acc), C(0)]), [(0, 1), (None, 2)]), ([log(C(1))], C(0), []), ([log(C(2))], C(0), [])]
        elif form == "nest":
            n = r.choice([40, 70, 100])  # (the JSON reader of TLC nests at most 255 deep)
            e = mem(0)
            for _ in range(n):
                op = r.choice([Op.Add, Op.Subtract, Op.Max, Op.Min, Op.Negate, Op.Less])
                a = [e, r.choice([C(r.randint(-3, 3)), mem(r.randrange(8))])] if op is not Op.Negate else [e]
                if len(a) == 2 and r.random() < 0.5:
                    a.reverse()
                e = P(op, a)
            blocks = [([IRSet(pl(acc), e), log(g(acc)), log(e), IRSet(BlockPlace(20, 9, 0), e)], e, [(0, 1), (None, 2)]),
                      ([log(C(1))], C(0), []), ([log(C(2)), log(g(acc))], C(0), [])]
        elif form == "long":
            n = r.choice([400, 900])
            vs = [TempBlock(f"v{j}", 1) for j in range(6)]
            st = [IRSet(pl(v), mem(j)) for j, v in enumerate(vs)]
            for k in range(n):
                v, w = r.choice(vs), r.choice(vs)
                x = r.random()
                if x < 0.4:
                    st.append(IRSet(BlockPlace(20, r.randrange(16), 0), P(r.choice([Op.Add, Op.Min]), [g(v), mem(r.randrange(16))])))
                elif x < 0.8:
                    st.append(IRSet(pl(v), r.choice([mem(r.randrange(16)), P(Op.Mod, [P(Op.Add, [g(w), C(k % 7)]), C(11)])])))
                else:
                    st.append(log(g(v)))
            blocks = [(st + [log(g(v)) for v in vs], C(0), [])]
        elif form == "temps":
            n = r.choice([63, 64, 65, 128, 200, 513, 900])
            vs = [TempBlock(f"v{j}", 1) for j in range(n)]
            st = [IRSet(pl(v), P(Op.Add, [mem(j % 48), C(j)])) for j, v in enumerate(vs)]
            st += [log(C(0)), IRSet(BlockPlace(20, 3, 0), C(99))] + ([IRSet(BlockPlace(20, j, 0), C(j)) for j in range(48)] if r.random() < 0.5 else [])
            order = list(range(n))
            r.shuffle(order)
            dead = set(r.sample(order, n // 5))
            mid = ([IRSet(pl(vs[j]), g(vs[order[k - 1]])) for k, j in enumerate(order[:20])] if r.random() < 0.5 else [])
            blocks = [(st + mid, mem(1), [(0, 1), (None, 2)]),
                      ([log(g(vs[j])) for j in order if j not in dead], C(0), [(None, 3)]),
                      ([log(g(vs[j])) for j in reversed(order) if j % 3], C(0), [(None, 3)]), ([log(g(vs[0]), )], C(0), [])]
        elif form == "blocks":
            n = r.choice([150, 400])
            vs = [TempBlock(f"v{j}", 1) for j in range(4)]
            blocks = [([IRSet(pl(v), mem(j)) for j, v in enumerate(vs)], C(0), [(None, 1)])]
            for k in range(n):
                b = len(blocks)
                v, w = r.choice(vs), r.choice(vs)
                t = P(r.choice([Op.Less, Op.Equal]), [r.choice([g(v), mem(k % 32)]), C(r.randint(0, 4))])
                up = IRSet(pl(w), P(r.choice([Op.Add, Op.Subtract]), [g(r.choice(vs)), C(r.randint(0, 3))]))
                x = r.random()
                if x < 0.5:
                    blocks += [([], t, [(0, b + 2), (None, b + 1)]), ([up], C(0), [(None, b + 2)])]
                elif x < 0.8:
                    blocks += [([], t, [(0, b + 2), (None, b + 1)]), ([up] + ([log(g(w))] if r.random() < 0.3 else []), C(0), [(None, b + 3)]),
                               ([IRSet(pl(v), C(k))], C(0), [(None, b + 3)])]
                else:
                    blocks += [([up] + ([log(g(w))] if r.random() < 0.3 else []), C(0), [(None, b + 1)])]
            blocks.append(([log(g(v)) for v in vs], C(0), []))
        elif form in ("switch", "phis"):
            n = r.choice([17, 100, 101, 130, 300])
            stride = r.choice([1, 1, 2, 7])
            lo = r.choice([0, 0, 3])
            labels = [lo + stride * j for j in range(n)]
            if r.random() < 0.4:
                labels = sorted(r.sample(range(-50, 3 * n), n))
            if r.random() < 0.3:
                labels[-1] = labels[-1] + 0.5
            i, v, w = TempBlock("i", 1), TempBlock("v", 1), TempBlock("w", 1)
            tests = r.sample(labels, 12) + [-1e9, labels[0] - 1, labels[-1] + 1, 0.25, labels[5] + 0.5, 0, 1, labels[-1]]
            env.update({(20, j): x for j, x in enumerate(tests)})
            ini = [IRSet(pl(i), C(0)), IRSet(pl(w), C(3))]
            blocks = [(ini, C(0), [(None, 1)]), ([], P(Op.Less, [g(i), C(len(tests))]), [(0, 2), (None, 3)]),
                      ([log(g(w))], C(0), [])]
            m = 5 + n
            blocks.append(([], IRGet(BlockPlace(20, g(i), 0)), [*[(c, 5 + j) for j, c in enumerate(labels)], (None, 4)]))
            blocks.append(([IRSet(pl(v), C(-7))], C(0), [(None, m)]))
            for j in range(n):
                val = C(j * 10) if form == "phis" else r.choice([C(j), C(j % 5), mem(j % 20), g(w)])
                st = [IRSet(pl(v), val)]
                if form == "switch" and r.random() < 0.2:
                    st.append(IRSet(pl(w), C(j)))
                blocks.append((st, C(0), [(None, m)]))
            second = r.random() < 0.6
            blocks.append(([log(g(v)), IRSet(pl(i), P(Op.Add, [g(i), C(1)]))], g(v) if second else C(0),
                           [(10, m + 1), (20, m + 2), (0, 1), (None, 1)] if second else [(None, 1)]))
            if second:
                blocks += [([log(C(501))], C(0), [(None, 1)]), ([log(C(502))], C(0), [(None, 1)])]
        elif form == "nary":
            n = r.choice([15, 16, 17, 33, 200, 700])
            xs = [r.choice([mem(r.randrange(32)), C(r.randint(-2, 3))]) for _ in range(n)]
            st = [log(P(Op.Add, xs)), log(P(Op.Add, [C(k % 3) for k in range(n)]))]
            bs = [P(Op.Less, [mem(j % 32), C(100)]) for j in range(n - 1)] + [P(Op.Less, [mem(0), C(r.choice([0, 2, 100]))])]
            st += [log(P(Op.And, bs)), log(P(Op.Or, [P(Op.Not, [b]) for b in bs]))]
            sw = [z for j in range(n) for z in (C(j), C(j * 3))]
            st += [log(P(Op.SwitchWithDefault, [x, *sw, C(-1)])) for x in (mem(1), C(n - 1), C(n), C(0.5))]
            si = [C(j * 7) for j in range(n)]
            st += [log(P(Op.SwitchIntegerWithDefault, [x, *si, C(-1)])) for x in (mem(2), C(n - 1), C(n), C(-1))]
            y = P(Op.Add, [mem(0), P(Op.Add, [mem(1), P(Op.Add, [C(1), *xs[: n // 2]])]), C(0), C(4)])
            st += [log(y), log(P(Op.Multiply, [C(1), mem(0), P(Op.Multiply, [C(2), mem(1)]), C(1)]))]
            blocks = [(st, C(0), [])]
        elif form == "diamonds":
            n = r.choice([20, 60, 100])
            v = TempBlock("v", 1)
            # nested: block k tests cell k; false leaves with a value
            blocks = [([IRSet(pl(v), C(-1))], C(0), [(None, 1)])]
            m = 1 + 2 * n
            for k in range(n):
                b = 1 + 2 * k
                t = P(Op.Less, [mem(k % 16), C(r.choice([100, 100, 100, 1]))])
                blocks += [([] if r.random() < 0.7 else [IRSet(pl(v), C(k))], t, [(0, b + 1), (None, b + 2 if k + 1 < n else m)]),
                           ([IRSet(pl(v), r.choice([C(k), P(Op.Add, [g(v), C(1)]), mem(k % 8)]))], C(0), [(None, m)])]
            blocks.append(([log(g(v))], C(0), []))
        elif form == "loops":
            n = r.choice([6, 9])
            cs = [TempBlock(f"c{j}", 1) for j in range(n)]
            v = TempBlock("v", 1)
            blocks = [([IRSet(pl(v), mem(0))], C(0), [(None, 1)])]
            # loop j: init at 1 + j, latch at 1 + n + (n - 1 - j)
            for j in range(n):
                blocks.append(([IRSet(pl(cs[j]), C(0))], C(0), [(None, 2 + j if j + 1 < n else 1 + n)]))
            for j in reversed(range(n)):
                latch = len(blocks)
                st = [IRSet(pl(v), P(Op.Add, [g(v), r.choice([C(j), g(cs[r.randrange(n)]), mem(j)])])),
                      IRSet(pl(cs[j]), P(Op.Add, [g(cs[j]), C(1)]))]
                if j < 2:
                    st.append(log(g(v)))
                blocks.append((st, P(Op.Less, [g(cs[j]), C(2 if j % 2 else 1)]), [(0, latch + 1), (None, 2 + j if j + 1 < n else latch)]))
            blocks.append(([log(g(v))], C(0), []))
        elif form == "arrays":
            total = r.choice([4090, 4095, 4096, 4096, 4097, 4100, 5000, 9000])
            arrs, left = [], total
            while left > 0:
                k = min(left, r.choice([1, 10, 500, 1000, 2048, 4096]))
                arrs.append(TempBlock(f"a{len(arrs)}", k))
                left -= k
                if len(arrs) == 6 and left > 0:
                    arrs.append(TempBlock("az", left))
                    left = 0
            r.shuffle(arrs)
            live = r.random() < 0.6   # all alive at once
            st, st2 = [], []
            ix = P(Op.Mod, [P(Op.Floor, [P(Op.Abs, [mem(0)])]), C(1)])
            for j, a in enumerate(arrs):
                st.append(IRSet(pl(a, 0), C(j + 1)))
                st.append(IRSet(pl(a, a.size - 1), C(100 + j)))
                if a.size > 1:
                    st.append(IRSet(BlockPlace(a, ix, a.size // 2), mem(j)))
                use = [log(g(a, a.size - 1)), log(IRGet(BlockPlace(a, ix, a.size // 2 if a.size > 1 else 0)))]
                if live:
                    st2 += use
                else:
                    st += use
            blocks = [(st, mem(1), [(0, 1), (None, 1)]), (st2, C(0), [])]
            may = total > 4096
        elif form == "operands":
            # (programs near the limit are only required to be accepted or rejected, TLC does not run them)
            n = r.choice([1500, 2500, 32766, 32767, 32768, 40000])
            blocks = [([IRInstr(Op.Print, [C(j % 9) for j in range(n)])], C(0), [])]
            may = n > 32767
        else:  # many variables over many joins
            nv, nb = r.choice([(30, 40), (12, 120)])
            vs = [TempBlock(f"v{j}", 1) for j in range(nv)]
            blocks = [([IRSet(pl(v), mem(j)) for j, v in enumerate(vs)], C(0), [(None, 1)])]
            for k in range(nb):
                b = len(blocks)
                ups = [IRSet(pl(v), g(w)) for v, w in [r.sample(vs, 2) for _ in range(r.randint(1, 5))]]
                ups2 = [IRSet(pl(r.choice(vs)), P(Op.Add, [g(r.choice(vs)), C(1)])) for _ in range(2)]
                blocks += [([], P(Op.Less, [mem(k % 16), C(r.choice([1, 2, 3]))]), [(0, b + 1), (None, b + 2)]),
                           (ups, C(0), [(None, b + 3)]), (ups2, C(0), [(None, b + 3)])]
            blocks.append(([log(g(v)) for v in vs], C(0), []))
        return Prog(seed, profile, blocks, None, None, [env] if form != "operands" or n < 3000 else [], set(env), fuel, may)

    def carry_program(self, seed, profile):
        """Loops whose variables first get values in some iteration, rotate, and partly die."""
        r = self.r
        k = r.randint(2, 6)
        vs = [TempBlock(f"w{j}", 1) for j in range(k)]
        i = TempBlock("i", 1)
        gi = IRGet(BlockPlace(i, 0, 0))
        g = lambda v: IRGet(BlockPlace(v, 0, 0))  # noqa: E731
        n = r.randint(2, 5)
        log = lambda v: IRInstr(Op.DebugLog, [v])  # noqa: E731
        blocks, at = [], {}
        entry = [IRSet(BlockPlace(i, 0, 0), IRConst(0))]
        have = {j for j in range(k) if r.random() < 0.3}
        entry += [IRSet(BlockPlace(vs[j], 0, 0), r.choice([IRConst(50 + j), IRGet(BlockPlace(20, j, 0))])) for j in sorted(have)]
        # the loop body: per iteration updates, as (index, iteration from which it happens, source)
        ups = []
        for _ in range(r.randint(1, 5)):
            j = r.randrange(k)
            src = r.choice([("iter", r.choice([1, 10])), ("var", r.randrange(k)), ("var", r.randrange(k)), ("mem", r.randrange(4)),
                            ("inc", r.choice([1, 100])), ("const", r.randint(1, 9))])
            ups.append((j, r.choice([0, 0, 0, 1, 2]) if r.random() < 0.4 else 0, src))
        if r.random() < 0.5:   # a rotation or shift of all
            perm = list(range(k))
            r.shuffle(perm)
            ups += [("rot", 0, perm)]
        r.shuffle(ups)
        # which variables are defined, iteration by iteration, and where each may be observed
        d, defs = set(have), []
        for it in range(n):
            defs.append(set(d))
            for j, frm, src in ups:
                if it < frm:
                    continue
                if j == "rot":
                    d = {a for a in range(k) if src[a] in d}
                elif src[0] == "var":
                    d = d | {j} if src[1] in d else d - {j}
                elif src[0] != "inc":
                    d = d | {j}
        final = d
        body = []
        at_head = []
        for j in range(k):
            if r.random() < 0.6:
                first = next((it for it in range(n + 1) if all(j in defs[q] for q in range(it, n))), n)
                if first < n:
                    at_head.append((j, first))

        def add(name, st, test, edges):
            at[name] = len(blocks)
            blocks.append((st, test, edges))

        add("entry", entry, IRConst(0), [(None, "head")])
        add("head", [], IRPureInstr(Op.Less, [gi, IRConst(n)]), [(0, "exit"), (None, "o0")])
        for q, (j, first) in enumerate(at_head):
            nxt = f"o{q + 1}"
            if first == 0:
                add(f"o{q}", [log(g(vs[j]))], IRConst(0), [(None, nxt)])
            else:
                add(f"o{q}", [], IRPureInstr(Op.Less, [gi, IRConst(first)]), [(0, f"p{q}"), (None, nxt)])
                add(f"p{q}", [log(g(vs[j]))], IRConst(0), [(None, nxt)])
        cur, q = f"o{len(at_head)}", 0
        st = []
        for j, frm, src in ups:
            new = []
            if j == "rot":
                ts = [TempBlock(f"t{a}", 1) for a in range(k)]
                new += [IRSet(BlockPlace(ts[a], 0, 0), g(vs[a])) for a in range(k) if a != src[a]]
                new += [IRSet(BlockPlace(vs[a], 0, 0), g(ts[src[a]])) for a in range(k) if a != src[a]]
            else:
                v = {"iter": lambda: IRPureInstr(Op.Multiply, [gi, IRConst(src[1])]), "var": lambda: g(vs[src[1]]),
                     "mem": lambda: IRGet(BlockPlace(20, src[1], 0)),
                     "inc": lambda: IRPureInstr(Op.Add, [g(vs[j]), IRConst(src[1])]), "const": lambda: IRConst(src[1])}[src[0]]()
                new.append(IRSet(BlockPlace(vs[j], 0, 0), v))
            if frm == 0:
                st += new
            else:
                add(cur, st, IRPureInstr(Op.Less, [gi, IRConst(frm)]), [(0, f"u{q}"), (None, f"n{q}")])
                add(f"u{q}", new, IRConst(0), [(None, f"n{q}")])
                cur, st, q = f"n{q}", [], q + 1
            if r.random() < 0.15:
                st.append(IRSet(BlockPlace(20, r.randrange(4), 0), IRPureInstr(Op.Add, [IRGet(BlockPlace(20, r.randrange(4), 0)), gi])))
        st.append(IRSet(BlockPlace(i, 0, 0), IRPureInstr(Op.Add, [gi, IRConst(1)])))
        add(cur, st, IRConst(0), [(None, "head")])
        end = [log(g(vs[j])) for j in range(k) if j in final and r.random() < 0.6]
        add("exit", end or [log(IRConst(3))], IRConst(0), [])
        blocks = [(s2, te, [(c, at[t2]) for c, t2 in es]) for s2, te, es in blocks]
        envs = []
        for _ in range(2):
            envs.append({(3000, 0): NAN, (3000, 1): INF, (3000, 2): -INF, **{(20, a): r.choice(ENVVALS) for a in range(8)}})
        return Prog(seed, profile, blocks, None, None, envs, set(envs[0]))

    def gen(self, seed, profile):
        r = self.r
        if self.p.values:
            return self.value_program(seed, profile)
        if self.p.big:
            return self.big_program(seed, profile)
        if r.random() < self.p.table:
            return self.table_program(seed, profile)
        if r.random() < self.p.carry:
            return self.carry_program(seed, profile)
        n = r.randint(*self.p.blocks)
        fresh: list = []
        blocks = []
        for i in range(n):
            self.test = None
            st = self.stmts()
            extra, test, edges = self.terminator(i, n, fresh)
            blocks.append((st + extra, test, edges))
        if n > 1 and r.random() < self.p.clones:
            self.clone(blocks)
        # initialise in the entry block: counters always, other temps mostly
        init = [IRSet(c, IRConst(0)) for c in fresh]
        for s in self.states:
            init.append(IRSet(BlockPlace(s, 0, 0), IRConst(r.choice([0, 1, 2, 3]))))
        for i, s in enumerate(self.scalars):
            if i in self.init:
                init.append(IRSet(BlockPlace(s, 0, 0), self.const() if r.random() < 0.3 else IRGet(self.real_place(False))))
        for i, a in enumerate(self.arrays):
            if i in self.inita:
                for j in range(a.size):
                    if r.random() < 0.99:
                        init.append(IRSet(BlockPlace(a, j, 0), self.const() if r.random() < 0.6 else IRGet(self.real_place(False))))
        # observe everything at the end
        tail = []
        for s in self.scalars:
            if r.random() < 0.4:
                tail.append(IRInstr(Op.DebugLog, [IRGet(BlockPlace(s, 0, 0))]))
        for a in self.arrays:
            if r.random() < 0.3:
                tail.append(IRInstr(Op.DebugLog, [IRGet(BlockPlace(a, r.randrange(a.size), 0))]))
        if r.random() < 0.15:
            tail.append(IRInstr(Op.Break, [IRConst(1), self.expr(2)]))
        st, t, e = blocks[-1]
        blocks[-1] = (st + tail, t, e)
        st, t, e = blocks[0]
        # a separate entry so that back edges never re-run the initialisation
        if any(tgt == 0 for _, _, es in blocks for _, tgt in es) or r.random() < 0.3:
            blocks = [(init, IRConst(0), [(None, 1)])] + [(s2, t2, [(c, g + 1) for c, g in e2]) for s2, t2, e2 in blocks]
        else:
            blocks[0] = (init + st, t, e)
        env = [self.environment() for _ in range(3)]
        return Prog(seed, profile, blocks, self.mode, self.callback, env, self.used)

    def clone(self, blocks):
        """Copies of blocks, exact or nearly, reached by some of the edges to the original."""
        r = self.r
        for _ in range(r.randint(1, 3)):
            j = r.randrange(1, len(blocks))
            st, test, edges = blocks[j]
            st = list(st)
            if st and r.random() < 0.35:
                k = r.randrange(len(st))
                x = st[k]
                if isinstance(x, IRSet) and isinstance(x.value, IRPureInstr) and not x.value.op.value.startswith(("Add", "And")):
                    st[k] = IRSet(x.place, self.near(x.value))
                elif isinstance(x, IRInstr) and x.op is Op.DebugLog:
                    st[k] = IRInstr(x.op, [self.near(x.args[0])])
            elif r.random() < 0.15:
                st.append(IRInstr(Op.DebugLog, [self.leaf()]))
            new = len(blocks)
            blocks.append((st, test, list(edges)))
            for i in range(new):
                s2, t2, e2 = blocks[i]
                blocks[i] = (s2, t2, [(c, new if g == j and r.random() < 0.5 else g) for c, g in e2])

    def environment(self):
        r = self.r
        env = {(3000, 0): NAN, (3000, 1): INF, (3000, 2): -INF}
        wild = r.random() < self.p.wild
        for u in sorted(self.used, key=repr):
            if u[0] == "ptr":
                continue
            env[u] = r.choice(WILD) if wild and r.random() < 0.4 else r.choice(ENVVALS)
        for u in sorted((x for x in self.used if x[0] == "ptr"), key=repr):
            _, base, i0, b = u
            env[(base, i0)] = b
            env[(base, i0 + 1)] = r.randrange(3)
        return env


def program(seed, profile: str) -> Prog:
    rng = random.Random(f"{seed}/{profile}")
    return Gen(rng, profile).gen(seed, profile)
