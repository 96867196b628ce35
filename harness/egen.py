"""Random engine programs (expression trees of the runtime's language), seeded.

Addresses are kept within blocks 20..22, cells 0..15 and pointer cells 40..45 (mostly), loops are
bounded by counter cells (block 30), values stay small so that every double is exact.
"""

from __future__ import annotations

import random

from sonolus.backend.node import FunctionNode
from sonolus.backend.ops import Op

import gen

F = FunctionNode
CONSTS = [0, 1, 1, 2, 3, 4, 5, -1, -2, -3, 0.5, -0.5, 1.5, 2.25, 7, 10]
UN = [Op.Negate, Op.Not, Op.Abs, Op.Floor, Op.Ceil, Op.Round, Op.Trunc, Op.Frac, Op.Sign]
NARY = [Op.Add, Op.Subtract, Op.Multiply, Op.Divide, Op.Mod, Op.Rem]
BIN = [Op.Min, Op.Max, Op.Equal, Op.NotEqual, Op.Less, Op.LessOr, Op.Greater, Op.GreaterOr]
RMW = ["Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Power"]
INCDEC = ["IncrementPost", "IncrementPre", "DecrementPost", "DecrementPre"]


class EGen:
    def __init__(self, rng: random.Random, depth: int):
        self.r = rng
        self.depth = depth
        self.counters = 0
        self.blocks = 0  # enclosing Block nodes
        self.env = {}
        self.budget = rng.randint(15, 90)
        for b in (20, 21, 22):
            for i in range(16):
                self.env[b, i] = rng.choice(CONSTS)
            for i in (40, 42, 44):
                self.env[b, i] = rng.choice([20, 21, 22])
                self.env[b, i + 1] = rng.randrange(6)

    def lit(self):
        c = self.r.choice(CONSTS)
        return float(c) if self.r.random() < 0.4 else c

    # addresses ------------------------------------------------------------------------------
    def addr(self, d):
        """Operands of the plain form: block, index."""
        r = self.r
        b = r.choice([20, 21, 22])
        if r.random() < 0.01:
            return (b, r.choice([-1, 0.5, 65536]))
        if r.random() < 0.7 or d <= 0:
            return (b, r.randrange(16))
        blk = b if r.random() < 0.8 else F(Op.If, (self.expr(d - 1), 20, 21))
        return (blk, self.small(d, r.choice([4, 16])))

    def small(self, d, n):
        """An expression with a small non-negative integral value."""
        r = self.r
        if d <= 0 or r.random() < 0.4:
            return r.randrange(n)
        return F(Op.Mod, (F(Op.Floor, (F(Op.Abs, (self.expr(d - 1),)),)), n))

    def shifted(self, d):
        r = self.r
        return (r.choice([20, 21, 22]), self.small(d - 1, 4), self.small(d - 1, 4), r.choice([0, 1, 2, 3]))

    def pointed(self, d):
        r = self.r
        return (r.choice([20, 21, 22]), r.choice([40, 42, 44]), self.small(d - 1, 4))

    def form(self, d, base):
        """(operation, address operands) in one of the three addressing forms."""
        x = self.r.random()
        if x < 0.6:
            return Op(base), self.addr(d)
        if x < 0.8:
            return Op(base + "Shifted"), self.shifted(d)
        return Op(base + "Pointed"), self.pointed(d)

    # values ---------------------------------------------------------------------------------
    def expr(self, d):
        r = self.r
        self.budget -= 1
        if d <= 0 or self.budget < 0:
            if r.random() < 0.5:
                return self.lit()
            return F(Op.Get, (r.choice([20, 21, 22]), r.randrange(16)))
        x = r.random()
        if x < 0.12:
            op, a = self.form(d, "Get")
            return F(op, a)
        if x < 0.22:
            return F(r.choice(UN), (self.expr(d - 1),))
        if x < 0.36:
            op = r.choice(NARY)
            n = r.choice([2, 2, 2, 3, 4, 1, 0]) if r.random() < 0.5 else 2
            a = [self.expr(d - 1) for _ in range(n)]
            if op in (Op.Divide, Op.Mod, Op.Rem) and r.random() < 0.95:
                a[1:] = [r.choice([1, 2, 4, -2, 0.5, -1]) for _ in a[1:]]
            return F(op, tuple(a))
        if x < 0.46:
            return F(r.choice(BIN), (self.expr(d - 1), self.expr(d - 1)))
        if x < 0.50:
            return F(Op.Power, (self.expr(d - 2), r.choice([0, 1, 2])))
        if x < 0.54:
            op, n = r.choice([(Op.Clamp, 3), (Op.Lerp, 3), (Op.LerpClamped, 3), (Op.JudgeSimple, 5), (Op.Judge, 8),
                              (Op.Unlerp, 3), (Op.UnlerpClamped, 3), (Op.Remap, 5), (Op.RemapClamped, 5)])
            return F(op, tuple(self.expr(d - 2) for _ in range(n)))
        if x < 0.57:
            a = self.small(d - 1, 8)
            if r.random() < 0.5:
                return F(Op.Random, (a, a) if not isinstance(a, F) else (3, 3))
            k = r.randrange(9)
            return F(Op.RandomInteger, (k, k + 1))
        return self.stmt(d)

    # anything, effects included (every node is an expression) ---------------------------------
    def stmt(self, d):
        r = self.r
        self.budget -= 1
        if d <= 0 or self.budget < 0:
            return F(Op.DebugLog, (self.expr(0),))
        x = r.random()
        e = lambda: self.expr(d - 1)  # noqa: E731
        s = lambda: self.stmt(d - 1)  # noqa: E731
        if x < 0.12:
            return F(Op.DebugLog, (e(),))
        if x < 0.24:
            op, a = self.form(d, "Set")
            return F(op, (*a, e()))
        if x < 0.32:
            k = r.choice(RMW)
            op, a = self.form(d, "Set" + k)
            v = e() if k in ("Add", "Subtract") else r.choice([0, 1, 2] if k == "Power" else [1, 2, -1, 0.5, 4])
            return F(op, (*a, v))
        if x < 0.38:
            op, a = self.form(d, r.choice(INCDEC))
            return F(op, a)
        if x < 0.48:
            return F(r.choice([Op.Execute, Op.Execute, Op.Execute0]), tuple(self.any(d) for _ in range(r.choice([0, 1, 2, 3, 4]))))
        if x < 0.56:
            return F(Op.If, (e(), self.any(d), self.any(d)))
        if x < 0.64:
            n = r.randint(0, 4)
            if r.random() < 0.5:
                a = [self.small(d - 1, 6) if r.random() < 0.6 else e(), *(self.any(d) for _ in range(n))]
                if r.random() < 0.5:
                    return F(Op.SwitchInteger, tuple(a))
                return F(Op.SwitchIntegerWithDefault, (*a, self.any(d)))
            a = [self.small(d - 1, 6) if r.random() < 0.6 else e()]
            for i in range(n):
                a += [r.choice([i, i, self.lit(), e()]), self.any(d)]
            if r.random() < 0.5:
                return F(Op.Switch, tuple(a))
            return F(Op.SwitchWithDefault, (*a, self.any(d)))
        if x < 0.70:
            return F(r.choice([Op.And, Op.Or]), tuple(self.any(d) for _ in range(r.randint(0, 4))))
        if x < 0.78:
            self.blocks += 1
            b = self.any(d)
            if not isinstance(b, F) or r.random() < 0.5:
                b = F(Op.Execute, (self.any(d), self.brk(d), self.any(d)))
            self.blocks -= 1
            return F(Op.Block, (b,))
        if x < 0.82:
            return self.brk(d)
        if x < 0.84:
            return F(Op.Copy, (r.choice([20, 21, 22]), r.randrange(6), r.choice([20, 21, 22]), r.randrange(6), r.randrange(5)))
        if x < 0.90:
            return self.loop(d)
        return self.jump_loop(d)

    def any(self, d):
        return self.stmt(d - 1) if self.r.random() < 0.5 else self.expr(d - 1)

    def brk(self, d):
        r = self.r
        if self.blocks == 0 and r.random() < 0.97:
            return F(Op.DebugLog, (self.expr(d - 1),))
        n = r.randint(1, max(1, self.blocks))
        b = F(Op.Break, (n if r.random() < 0.9 else float(n), self.expr(d - 1)))
        return b if r.random() < 0.4 else F(Op.If, (self.expr(d - 1), b, self.any(d - 1)))

    def counter(self):
        self.counters += 1
        self.env[30, self.counters] = 0
        return self.counters

    def loop(self, d):
        r = self.r
        c, n = self.counter(), r.randint(0, 4)
        inc = F(r.choice([Op.IncrementPost, Op.IncrementPre]), (30, c))
        test = F(Op.LessOr, (inc, n))
        if r.random() < 0.3:
            test = F(Op.And, (test, self.any(d - 1)))
        if r.random() < 0.5:
            return F(Op.While, (test, self.any(d)))
        return F(Op.DoWhile, (self.any(d), test))

    def jump_loop(self, d):
        r = self.r
        k = r.randint(1, 5)
        arms = []
        for i in range(k):
            fwd = r.choice([i + 1, i + 1, r.randint(i + 1, k + 1), k, -1, k - 1])
            if fwd <= i and fwd >= 0:
                fwd = i + 1
            nxt = fwd
            x = r.random()
            if x < 0.35:
                c = self.counter()
                nxt = F(Op.If, (F(Op.Less, (F(Op.IncrementPost, (30, c)), r.randint(1, 4))), r.randint(0, i), fwd))
            elif x < 0.5:
                nxt = F(Op.If, (self.expr(d - 1), fwd, min(i + 1, k)))
            arms.append(F(Op.Execute, (self.any(d), nxt)) if r.random() < 0.8 else nxt)
        return F(Op.JumpLoop, tuple(arms))


def program(seed):
    r = random.Random(f"{seed}/engine")
    g = EGen(r, r.choice([3, 4, 5, 6]))
    root = F(Op.Execute, tuple(g.stmt(g.depth) for _ in range(r.randint(1, 4))))
    if r.random() < 0.3:
        g.blocks = 1
        root = F(Op.Block, (F(Op.Execute, (root, g.stmt(g.depth), g.expr(g.depth))),))
    return root, g.env


def value_case(seed):
    """One operation applied to literals: (tolerance, program, environment)."""
    r = random.Random(f"{seed}/value")
    fam, tol = r.choice([(gen.EXACT, "exact"), (gen.EXACT, "exact"), (gen.EXACT, "exact"), (gen.NEAR, "near"), (gen.EASE, "ease")])
    op, n = r.choice(fam)
    pts = [p for p in gen.POINTS if abs(p) < 2.0**31 or p != p] if tol == "near" else gen.POINTS
    a = []
    for i in range(n):
        if op.startswith("Ease"):
            a.append(r.choice([r.random(), r.random(), r.choice([0, 1, 0.5, -1, 2, 0.5000000000000001, 0.49999999999999994])]))
        elif op == "Power":
            a.append(r.choice([0, 1, 2, 3] if i else [0, 1, 2, -3, 0.5, 1.5, -2.25, 10, 1000]))
        elif op.startswith("Switch") and r.random() < 0.7:
            a.append(r.choice([0, 1, 2, 3, -1, 0.5, 4]))
        else:
            x = r.random()
            a.append(r.choice(pts) if x < 0.5 else r.randint(-20, 20) / r.choice([1, 1, 2, 4]) if x < 0.8
                     else r.uniform(-1, 1) * 10.0 ** r.randint(-3, 6))
    return tol, F(Op(op), tuple(a)), {}
