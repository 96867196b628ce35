"""Random programs of the Python subset callbacks are written in: an AST (spec/PyCore.tla) and its Python source.

Programs are well typed and within what the compiler accepts by construction: number variables are defined before any
branch that uses them, names of records, arrays, tuples and functions are bound once and used in the block that binds
them, indices of tuples are constants, and generators read only names that are never rebound.
"""

from __future__ import annotations

import random

N = "N"

# ---- notation -------------------------------------------------------------------------------


def num(v):
    return {"k": "n", "v": _canon(v)}


def _canon(v):
    import encode

    return encode.num(v)


def var(n):
    return {"k": "v", "n": n}


def bi(name, *a, **kw):
    return {"k": "bi", "n": name, "a": list(a), "kw": [[k, v] for k, v in kw.items()]}


def binop(op, left, right):
    return {"k": "b", "op": op, "l": left, "r": right}


def cmp(op, left, right):
    return {"k": "c", "ops": [op], "a": [left, right]}


def call(f, *a, **kw):
    return {"k": "call", "f": f, "a": list(a), "kw": [[k, v] for k, v in kw.items()]}


def attr(e, n):
    return {"k": "at", "e": e, "n": n}


def item(e, i):
    return {"k": "ix", "e": e, "i": i}


def log(e):
    return {"k": "ex", "e": bi("log", e)}


def assign(target, e):
    return {"k": "as", "ts": [target], "e": e}


def desc(ps, body=None, *, df=None, expr=None, gen=False, va=""):
    return {"ps": list(ps), "df": df or [{"k": "u"}] * len(ps), "va": va, "gen": gen, "lam": expr is not None,
            "b": body or [], "e": expr or {"k": "z"}}


# ---- rendering ------------------------------------------------------------------------------

BUILTIN = {"log": "debug_log", "floor": "math.floor", "ceil": "math.ceil", "trunc": "math.trunc"}


def pynum(s):
    import encode

    v = encode.unnum(s)
    return str(int(v)) if v == int(v) and abs(v) < 2**53 else repr(v)


def pyexpr(e):
    k = e["k"]
    if k == "n":
        return pynum(e["v"]) if not e["v"].startswith("-") else f"({pynum(e['v'])})"
    if k == "v":
        return e["n"]
    if k == "z":
        return "None"
    if k == "b":
        return f"({pyexpr(e['l'])} {e['op']} {pyexpr(e['r'])})"
    if k == "u":
        return f"({'not ' if e['op'] == 'not' else e['op']}{pyexpr(e['e'])})"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(pyexpr(x) for x in e["a"]) + ")"
    if k == "c":
        names = {"notin": "not in", "isnot": "is not"}
        return "(" + pyexpr(e["a"][0]) + "".join(f" {names.get(o, o)} {pyexpr(x)}" for o, x in zip(e["ops"], e["a"][1:])) + ")"
    if k == "if":
        return f"({pyexpr(e['t'])} if {pyexpr(e['c'])} else {pyexpr(e['e'])})"
    if k == "w":
        return f"({e['n']} := {pyexpr(e['e'])})"
    if k == "at":
        return f"{pyexpr(e['e'])}.{e['n']}"
    if k == "ix":
        return f"{pyexpr(e['e'])}[{pyexpr(e['i'])}]"
    if k == "t":
        return "(" + "".join(pyexpr(x) + ", " for x in e["a"]) + ")"
    if k == "arr":
        return "Array(" + ", ".join(pyexpr(x) for x in e["a"]) + ")"
    if k == "fn":
        return f"(lambda {pyparams(e['d'])}: {pyexpr(e['d']['e'])})"
    if k == "bi":
        return f"{BUILTIN.get(e['n'], e['n'])}({pyargs(e)})"
    if k == "call":
        return f"{pyexpr(e['f'])}({pyargs(e)})"
    if k == "ge":
        return "(" + pyexpr(e["elt"]) + "".join(
            f" for {pytarget(g['t'])} in {pyexpr(g['it'])}" + "".join(f" if {pyexpr(c)}" for c in g["ifs"]) for g in e["gens"]) + ")"
    raise ValueError(k)


def pyargs(e):
    return ", ".join(["*" + pyexpr(x["e"]) if x["k"] == "star" else pyexpr(x) for x in e["a"]]
                     + [f"{n}={pyexpr(x)}" for n, x in e["kw"]])


def pyparams(d):
    ps = [p if f["k"] == "u" else f"{p}={pyexpr(f)}" for p, f in zip(d["ps"], d["df"])]
    return ", ".join(ps + (["*" + d["va"]] if d["va"] else []))


def pytarget(t):
    if t["k"] == "tt":
        return "(" + "".join(pytarget(x) + ", " for x in t["a"]) + ")"
    return pyexpr(t)


def pypat(p):
    k = p["k"]
    if k == "pw":
        return "_"
    if k == "pc":
        return p["n"]
    if k == "pv":
        return pynum(p["e"]["v"]) if p["e"]["k"] == "n" else pyexpr(p["e"])
    if k == "po":
        return "(" + " | ".join(pypat(x) for x in p["ps"]) + ")"
    if k == "pas":
        return f"({pypat(p['p'])} as {p['n']})"
    if k == "ps":
        return "(" + "".join(pypat(x) + ", " for x in p["ps"]) + ")"
    if k == "pn":
        return "Num()"
    if k == "pcls":
        pos = p.get("pos", 0)
        return p["c"] + "(" + ", ".join([pypat(x) if i < pos else f"{n}={pypat(x)}" for i, (n, x) in enumerate(p["ps"])]) + ")"
    raise ValueError(k)


def pyblock(b, ind):
    return "".join(pystmt(s, ind) for s in b) or f"{ind}pass\n"


def pydef(name, d, ind, deco=()):
    return "".join(f"{ind}@{x}\n" for x in deco) + f"{ind}def {name}({pyparams(d)}):\n" + pyblock(d["b"], ind + "    ")


def pystmt(s, ind):
    k, more = s["k"], ind + "    "
    orelse = f"{ind}else:\n" + pyblock(s["o"], more) if s.get("o") else ""
    if k == "as":
        return ind + "".join(pytarget(t) + (": Num" if s.get("ann") else "") + " = " for t in s["ts"]) + pyexpr(s["e"]) + "\n"
    if k == "aug":
        return f"{ind}{pytarget(s['t'])} {s['op']}= {pyexpr(s['e'])}\n"
    if k == "ex":
        return f"{ind}{pyexpr(s['e'])}\n"
    if k == "if":
        if len(s["o"]) == 1 and s["o"][0]["k"] == "if":
            orelse = f"{ind}el" + pystmt(s["o"][0], ind)[len(ind):]
        return f"{ind}if {pyexpr(s['c'])}:\n" + pyblock(s["b"], more) + orelse
    if k == "wh":
        return f"{ind}while {pyexpr(s['c'])}:\n" + pyblock(s["b"], more) + orelse
    if k == "for":
        return f"{ind}for {pytarget(s['t'])} in {pyexpr(s['it'])}:\n" + pyblock(s["b"], more) + orelse
    if k in ("br", "co", "pa"):
        return ind + {"br": "break", "co": "continue", "pa": "pass"}[k] + "\n"
    if k == "re":
        return ind + ("return\n" if s["e"]["k"] == "z" else f"return {pyexpr(s['e'])}\n")
    if k == "ma":
        return f"{ind}match {pyexpr(s['e'])}:\n" + "".join(
            f"{more}case {pypat(c['p'])}" + (f" if {pyexpr(c['g'])}" if c["g"]["k"] != "u" else "") + ":\n"
            + pyblock(c["b"], more + "    ") for c in s["cs"])
    if k == "def":
        return pydef(s["n"], s["d"], ind)
    if k == "assert":
        return f"{ind}assert {pyexpr(s['e'])}\n"
    if k == "yi":
        return f"{ind}yield {pyexpr(s['e'])}\n"
    if k == "yf":
        return f"{ind}yield from {pyexpr(s['e'])}\n"
    raise ValueError(k)


HEADER = """import math
from sonolus.script.array import Array
from sonolus.script.debug import debug_log
from sonolus.script.num import Num
from sonolus.script.record import Record
from sonolus.script.values import copy, swap

"""


def pytype(t):
    if t == N:
        return "Num"
    if t[0] == "R":
        return f"R{t[1]}"
    if t[0] == "A":
        return f"Array[{pytype(t[1])}, {t[2]}]"
    raise ValueError(t)


def source(prog):
    out = [HEADER]
    for name, c in prog["classes"]:
        out.append(f"\nclass {name}(Record):\n" + "".join(f"    {n}: {pytype(t)}\n" for n, t in c["fields"]))
        for n, d in c["m"].items():
            out.append("\n" + pydef(n, d, "    "))
        for n, d in c["pr"].items():
            out.append("\n" + pydef(n, d, "    ", ["property"]))
            if n in c["st"]:
                out.append("\n" + pydef(n, c["st"][n], "    ", [f"{n}.setter"]))
    for n, d in prog["fns"]:
        if d["k"] == "global":
            out.append(f"\n{n} = {pyexpr(d['e'])}\n")
        else:
            out.append("\n" + pydef(n, d["d"], ""))
    return "\n".join(out)


def dv(d):
    return [({"k": "u"} if f["k"] == "u" else {"k": "n", "v": f["v"]}) for f in d["df"]]


def spec(prog):
    """What PyCore runs."""
    cls = {}
    for name, c in prog["classes"]:
        cls[name] = {"fs": [n for n, _ in c["fields"]], "ix": {n: i + 1 for i, (n, _) in enumerate(c["fields"])},
                     "m": {n: {**d, "dv": dv(d)} for n, d in c["m"].items()}, "pr": c["pr"], "st": c["st"]}
    return {"cls": cls, "fns": [[n, d] for n, d in prog["fns"]]}


# ---- types ----------------------------------------------------------------------------------


def is_rec(t):
    return t != N and t[0] == "R"


def is_arr(t):
    return t != N and t[0] == "A"


def is_tup(t):
    return t != N and t[0] == "T"


class Var:
    __slots__ = ("const", "fixed", "name", "t")

    def __init__(self, name, t, fixed=True, const=False):
        self.name, self.t = name, t
        self.fixed = fixed  # never rebound
        self.const = const  # a module constant: may be read, not changed or passed on


class Fn:
    """A function the program may call: parameter types, defaults, result type (None: nothing)."""

    def __init__(self, name, ps, ret, *, defaults=0, va=False, gen=None, d=None):
        self.name, self.ps, self.ret, self.defaults, self.va, self.gen = name, ps, ret, defaults, va, gen


class Scope:
    def __init__(self, parent=None):
        self.vars: list[Var] = []
        self.fns: list[Fn] = []
        self.parent = parent


class Frame:
    """A function body being written."""

    def __init__(self, outer=None, *, ret="none", gen=None, scope=None):
        self.outer = outer
        self.ret = ret
        self.gen = gen  # type yielded
        self.loops = 0
        self.scope = Scope()


# in the profile "bind", names of records, arrays and tuples are rebound: the compiler may reject a program in which it cannot
# tell which one is meant, with one of these messages; one it accepts must mean what Python means
LOOSE = ("multiple conflicting definitions or may not be guaranteed to be defined", "may have conflicting definitions between loop iterations")


class Gen:
    def __init__(self, seed, profile="core"):
        self.r = random.Random(f"py-{profile}-{seed}")
        self.profile = profile
        self.nv = 0
        self.classes = []
        self.fns: list[Fn] = []
        self.consts: list[Var] = []
        self.defs = []
        self.budget = 0
        self.only_fixed = 0  # inside a generator expression or generator: names that are never rebound
        self.no_walrus = 0
        self.pure = 0  # inside an ordering key: no effects

    # -- names
    def name(self, p):
        self.nv += 1
        return f"{p}{self.nv}"

    def visible(self, pred=lambda v: True):
        out, f, here = [], self.frame, True
        while f:
            s = f.scope
            while s:
                out += [v for v in s.vars if (v.fixed or not self.only_fixed) and pred(v)]
                s = s.parent
            f, here = f.outer, False
        return out

    def assignable(self):
        """Number variables of this function that may be rebound here."""
        out, s = [], self.frame.scope
        while s:
            out += [v for v in s.vars if v.t == N and not v.fixed]
            s = s.parent
        return out

    def callable(self, pred):
        out, f = [], self.frame
        while f:
            s = f.scope
            while s:
                out += [x for x in s.fns if pred(x)]
                s = s.parent
            f = f.outer
        return out + [x for x in self.fns if pred(x)]

    def push(self):
        self.frame.scope = Scope(self.frame.scope)

    def pop(self):
        self.frame.scope = self.frame.scope.parent

    def add(self, v):
        self.frame.scope.vars.append(v)
        return v

    # -- numbers
    def const(self):
        r = self.r
        return num(r.choice([0, 1, 1, 2, 2, 3, 4, 5, -1, -2, -3, 0.5, 1.5, -0.5, 7, 10]))

    def small(self, e):
        """A number in 0..3 made from e."""
        return binop("%", bi(self.r.choice(["int", "floor"]), e), num(self.r.choice([2, 3, 4])))

    def index(self, n, d):
        r = self.r
        c = r.random()
        if c < 0.35:
            return num(r.randrange(-n, n))
        e = self.num(d - 1)
        if c < 0.92:
            return binop("%", bi("floor", e), num(n))
        if c < 0.97:
            return binop("-", binop("%", bi("floor", e), num(n)), num(n))
        vs = [v for v in self.visible(lambda v: v.t == N) if v.name == 'a0']
        return var('a0') if vs else num(0)

    def vnum(self):
        v = self.visible(lambda v: v.t == N)
        return var(self.r.choice(v).name) if v else None

    def leaf(self):
        r = self.r
        c = r.random()
        if c < 0.22:
            return self.const()
        vs = self.visible()
        nums = [v for v in vs if v.t == N]
        if c < 0.72 and nums:
            return var(r.choice(nums).name)
        rest = [v for v in vs if v.t != N]
        if rest:
            v = r.choice(rest)
            e = self.path(var(v.name), v.t, N)
            if e is not None:
                return e
        return var(r.choice(nums).name) if nums else self.const()

    def path(self, e, t, want, d=1):
        """An expression of type `want` reached from e: fields, elements."""
        r = self.r
        if t == want:
            return e
        if t == N or t is None:
            return None
        if is_rec(t):
            fs = list(self.cls(t)["fields"])
            r.shuffle(fs)
            for n, ft in fs:
                x = self.path(attr(e, n), ft, want, d)
                if x is not None:
                    return x
        if is_arr(t):
            if t[1] == want or self.reaches(t[1], want):
                return self.path(item(e, self.index(t[2], d)), t[1], want, d)
        if is_tup(t):
            js = list(range(len(t[1])))
            r.shuffle(js)
            for j in js:
                x = self.path(item(e, num(r.choice([j, j - len(t[1])]))), t[1][j], want, d)
                if x is not None:
                    return x
        return None

    def reaches(self, t, want):
        if t == want:
            return True
        if is_rec(t):
            return any(self.reaches(ft, want) for _, ft in self.cls(t)["fields"])
        if is_arr(t):
            return self.reaches(t[1], want)
        if is_tup(t):
            return any(self.reaches(x, want) for x in t[1])
        return False

    def cls(self, t):
        return dict(self.classes)[f"R{t[1]}"]

    def num(self, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.18:
            return self.leaf()
        c = r.random()
        if c < 0.30:
            op = r.choice(["+", "+", "-", "-", "*", "+", "-", "*", "/", "//", "%", "**"])
            left = self.num(d - 1)
            if op in ("/", "//", "%"):
                right = num(r.choice([2, 3, 4, -2, 5, 0.5, -3])) if r.random() < 0.8 else self.num(d - 1)
            elif op == "**":
                right, left = num(r.choice([2, 3])), self.small(left)
            elif op == "*":
                right = self.const() if r.random() < 0.75 else self.small(self.num(d - 1))
            else:
                right = self.num(d - 1)
            return binop(op, left, right)
        if c < 0.36:
            return {"k": "u", "op": r.choice(["-", "-", "+", "not"]), "e": self.num(d - 1)}
        if c < 0.44:
            return {"k": r.choice(["and", "or"]), "a": [self.cond(d - 1) if r.random() < 0.5 else self.num(d - 1)
                                                       for _ in range(r.choice([2, 2, 3]))]}
        if c < 0.52:
            return self.compare(d)
        if c < 0.58:
            return {"k": "if", "c": self.cond(d - 1), "t": self.num(d - 1), "e": self.num(d - 1)}
        if c < 0.63:
            vs = self.assignable()
            if vs and not self.no_walrus:
                # the name a walrus in an operand binds may be read by the others: Python's order shows
                return {"k": "w", "n": r.choice(vs).name, "e": self.num(d - 1)}
            return self.num(d - 1)
        if c < 0.78:
            e = self.callnum(d)
            return e if e is not None else self.leaf()
        if c < 0.90:
            return self.builtin(d)
        if c < 0.94 and not self.pure:
            return call(var("lg"), self.num(d - 1))
        return self.leaf()

    def compare(self, d):
        r = self.r
        c = r.random()
        if c < 0.12:
            it = self.const_tuple(d) if r.random() < 0.5 else None
            if it is None:
                arrs = self.visible(lambda v: is_arr(v.t) and v.t[1] == N)
                it = var(r.choice(arrs).name) if arrs else bi("range", num(r.choice([2, 5])))
            return cmp(r.choice(["in", "notin"]), self.num(d - 1), it)
        if c < 0.24:
            ts = [v for v in self.visible() if is_rec(v.t) or is_arr(v.t) or (is_tup(v.t) and self.plain_tuple(v.t))]
            if ts:
                v = r.choice(ts)
                w = r.choice([x for x in ts if x.t == v.t])
                ops = ["==", "!="] + (["<", ">=", "<=", ">"] if is_tup(v.t) and all(x == N for x in v.t[1]) else [])
                return cmp(r.choice(ops), var(v.name), var(w.name))
        n = r.choice([1, 1, 1, 1, 2, 2, 3])
        return {"k": "c", "ops": [r.choice(["<", "<=", ">", ">=", "==", "!="]) for _ in range(n)],
                "a": [self.num(d - 1) for _ in range(n + 1)]}

    def plain_tuple(self, t):
        return all(x == N or is_rec(x) or is_arr(x) for x in t[1])

    def cond(self, d=2):
        r = self.r
        if d <= 0:
            return cmp(r.choice(["<", ">", "==", "!=", ">="]), self.leaf(), self.leaf())
        c = r.random()
        if c < 0.55:
            return self.compare(d)
        if c < 0.75:
            return {"k": r.choice(["and", "or"]), "a": [self.cond(d - 1) for _ in range(r.choice([2, 2, 3]))]}
        if c < 0.85:
            return {"k": "u", "op": "not", "e": self.cond(d - 1)}
        if c < 0.90:
            return self.num(d - 1)
        if c < 0.93:
            return num(r.choice([0, 1]))
        return bi("bool", self.num(d - 1))

    def args(self, f, d):
        """Arguments for a call to f."""
        r = self.r
        ps = f.ps
        n = len(ps)
        if f.defaults and r.random() < 0.6:
            n -= r.randint(1, f.defaults)
        vals = []
        for p in ps[:n]:
            v = self.value(p[1], d - 1)
            if v is None:
                return None
            vals.append(v)
        k = n if r.random() < 0.6 else r.randint(0, n)
        a, kw = vals[:k], [[ps[j][0], vals[j]] for j in range(k, n)]
        # with a default skipped, a later parameter may still be given by keyword
        if f.defaults and n < len(ps) and r.random() < 0.4 and n + 1 < len(ps) + 1:
            j = r.randrange(n, len(ps))
            v = self.value(ps[j][1], d - 1)
            if v is not None and not f.va:
                kw.append([ps[j][0], v])
        if f.va:
            if n < len(ps):
                return None
            a, kw = vals, []
            a += [self.num(d - 1) for _ in range(r.randint(0, 3))]
            tups = self.visible(lambda v: is_tup(v.t) and all(x == N for x in v.t[1]))
            if tups and r.random() < 0.4:
                a.append({"k": "star", "e": var(r.choice(tups).name)})
        return a, kw

    def callfn(self, pred, d):
        fs = self.callable(pred)
        if not fs or self.budget <= 0 or self.pure:
            return None
        f = self.r.choice(fs)
        r = self.args(f, d)
        if r is None:
            return None
        self.budget -= 1
        return {"k": "call", "f": var(f.name), "a": r[0], "kw": r[1]}

    def callnum(self, d):
        r = self.r
        if r.random() < 0.4:
            e = self.method(N, d)
            if e is not None:
                return e
        return self.callfn(lambda f: f.ret == N and not f.gen, d)

    def method(self, ret, d):
        r = self.r
        if self.pure:
            return None
        vs = self.visible(lambda v: is_rec(v.t) and not v.const)
        r.shuffle(vs)
        for v in vs:
            c = self.cls(v.t)
            ms = [(n, s) for n, s in c["sigs"].items() if s[1] == ret and not n.startswith("__")]
            if ms:
                n, (ps, _, kind) = r.choice(ms)
                if kind == "pr":
                    return attr(var(v.name), n)
                if self.budget <= 0:
                    return None
                self.budget -= 1
                a = [self.value(p[1], d - 1) for p in ps]
                if any(x is None for x in a):
                    continue
                return call(attr(var(v.name), n), *a)
        return None

    def builtin(self, d):
        r = self.r
        c = r.random()
        if c < 0.25:
            a = [self.num(d - 1) for _ in range(r.choice([2, 2, 3]))]
            kw = {}
            if r.random() < 0.2:
                kw["key"] = self.key(d)
            return bi(r.choice(["min", "max"]), *a, **kw)
        if c < 0.5:
            return bi(r.choice(["abs", "floor", "ceil", "trunc", "int", "round", "float", "bool"]), self.num(d - 1))
        if c < 0.6:
            vs = self.visible(lambda v: is_arr(v.t) or is_tup(v.t))
            if vs:
                return bi("len", var(r.choice(vs).name))
        if c < 0.85:
            it = self.nums(d)
            f = r.choice(["sum", "sum", "any", "all"])
            if f == "sum" and r.random() < 0.3:
                return bi(f, it, self.num(d - 1))
            return bi(f, it)
        arrs = self.visible(lambda v: is_arr(v.t) and v.t[1] == N)
        if arrs:
            return bi(r.choice(["min", "max"]), var(r.choice(arrs).name), **({"key": self.key(d)} if r.random() < 0.4 else {}))
        return bi(r.choice(["min", "max"]), self.const_tuple(d))

    def lam1(self, d):
        return self.lam([N], N, d)

    def key(self, d):
        self.pure += 1
        e = self.lam1(d)
        self.pure -= 1
        return e

    def lam(self, ts, ret, d):
        ps = [self.name("p") for _ in ts]
        outer = self.frame
        self.frame = Frame(outer)
        self.no_walrus += 1
        for p, t in zip(ps, ts):
            self.add(Var(p, t))
        e = self.value(ret, min(d - 1, 1))
        self.no_walrus -= 1
        self.frame = outer
        return {"k": "fn", "d": desc(ps, expr=e)}

    def const_tuple(self, d):
        return {"k": "t", "a": [self.num(d - 1) for _ in range(self.r.choice([1, 2, 2, 3]))]}

    # -- iterables of numbers
    def nums(self, d, depth=0):
        r = self.r
        c = r.random()
        arrs = self.visible(lambda v: is_arr(v.t) and v.t[1] == N)
        if c < 0.2 and arrs:
            return var(r.choice(arrs).name)
        if c < 0.32:
            return self.const_tuple(d)
        if c < 0.42 or d <= 0:
            return self.range(d)
        if c < 0.5 and arrs:
            return bi("reversed", var(r.choice(arrs).name))
        if c < 0.60:
            x = self.callfn(lambda f: f.gen == N, d)
            if x is not None:
                return x
        if c < 0.88:
            return self.genexpr(d)
        src = r.choice(arrs) if arrs else None
        it = var(src.name) if src else None
        if it is None:
            return self.range(d)
        if r.random() < 0.5:
            return bi("map", self.lam1(d), it)
        return bi("filter", self.lam1(d), it)

    def range(self, d):
        r = self.r
        c = r.random()
        if c < 0.3:
            return bi("range", num(r.choice([0, 1, 2, 3, 3])))
        if c < 0.45:
            return bi("range", *[num(x) for x in r.choice([(1, 4), (3, 0, -1), (0, 5, 2), (4, 1), (-1, 2), (5, 0, -2), (2, 8, 3)])])
        if c < 0.75:
            return bi("range", self.small(self.num(d - 1)))
        if c < 0.9:
            return bi("range", self.small(self.num(d - 1)), self.small(self.num(d - 1)))
        return bi("range", self.small(self.num(d - 1)), binop("-", self.small(self.num(d - 1)), num(1)), num(-1))

    def genexpr(self, d):
        """Names it reads are never rebound; the first iterable is evaluated outside."""
        r = self.r
        self.no_walrus += 1
        outer = self.frame
        self.only_fixed += 1
        first = self.nums(0) if r.random() < 0.7 else self.nums(d - 1, 1)
        self.frame = Frame(outer)
        gens = []
        for j in range(r.choice([1, 1, 1, 2])):
            it = first if j == 0 else (self.const_tuple(1) if r.random() < 0.4 else self.range(1))
            x = self.name("g")
            self.add(Var(x, N))
            gens.append({"t": var(x), "it": it, "ifs": [self.cond(1) for _ in range(r.choice([0, 0, 1, 1, 2]))]})
        elt = self.num(min(d, 2))
        self.frame = outer
        self.only_fixed -= 1
        self.no_walrus -= 1
        return {"k": "ge", "elt": elt, "gens": gens}

    # -- values of any type
    def value(self, t, d=2):
        r = self.r
        if t == N:
            return self.num(d)
        if is_tup(t):
            vs = self.visible(lambda v: v.t == t)
            if vs and r.random() < 0.4:
                return var(r.choice(vs).name)
            return {"k": "t", "a": [self.value(x, d - 1) for x in t[1]]}
        c = r.random()
        if c < 0.55 or d <= 0:
            e = self.alias(t)
            if e is not None:
                return e
        if c < 0.65:
            e = self.alias(t, True)
            if e is not None:
                return {"k": "u", "op": "+", "e": e} if r.random() < 0.6 else bi("copy", e)
        if c < 0.75 and d > 0:
            e = self.callfn(lambda f: f.ret == t and not f.gen, d)
            if e is None:
                e = self.method(t, d)
            if e is not None:
                return e
        if c < 0.85 and d > 0 and is_rec(t) and "__add__" in self.cls(t)["m"]:
            ops = [n for n in ("__add__", "__sub__", "__mul__") if n in self.cls(t)["m"]]
            n = r.choice(ops)
            op = {"__add__": "+", "__sub__": "-", "__mul__": "*"}[n]
            left = self.value(t, d - 1)
            right = self.value(self.cls(t)["sigs"][n][0][0][1], d - 1)
            return binop(op, left, right)
        return self.fresh(t, d)

    def fresh(self, t, d):
        if is_rec(t):
            fs = self.cls(t)["fields"]
            k = len(fs) if self.r.random() < 0.7 else self.r.randint(0, len(fs))
            vals = [self.value(ft, d - 1) for _, ft in fs]
            return {"k": "call", "f": var(f"R{t[1]}"), "a": vals[:k], "kw": [[fs[j][0], vals[j]] for j in range(k, len(fs))]}
        return {"k": "arr", "a": [self.value(t[1], d - 1) for _ in range(t[2])]}

    def alias(self, t, readonly=False):
        """An existing value of type t, by reference."""
        r = self.r
        vs = self.visible(lambda v: v.t != N and self.reaches(v.t, t) and (readonly or not v.const))
        r.shuffle(vs)
        for v in vs:
            e = self.path(var(v.name), v.t, t)
            if e is not None:
                return e
        return None

    # -- statements
    def block(self, n, d, tail=None):
        """n statements in a scope of their own; ends early at a jump."""
        self.push()
        out = []
        for _ in range(n):
            s = self.stmt(d)
            out += s
            if s and s[-1]["k"] in ("br", "co", "re"):
                break
        self.pop()
        return out

    def size(self):
        return self.r.choice([1, 1, 2, 2, 3])

    def stmt(self, d):
        r = self.r
        c = r.random()
        if self.profile == "alias" and r.random() < 0.62:
            if c < 0.3:
                return self.declare()
            if c < 0.75:
                return self.mutate()
            vs = self.visible(lambda v: v.t != N and not v.const)
            if vs and not self.only_fixed:
                v = r.choice(vs)
                return self.dump(var(v.name), v.t)
            c = r.random()
        if self.profile == "bind" and r.random() < 0.65:
            return self.rebind() if c < 0.6 or d <= 0 else [self.if_(d)] if c < 0.73 else self.while_(d) if c < 0.87 else self.for_(d)
        if c < 0.20:
            return [log(self.num(2))]
        if c < 0.34:
            return self.assign_num()
        if c < 0.44:
            return self.declare()
        if c < 0.58:
            return self.mutate()
        if c < 0.62:
            f = self.callfn(lambda f: f.ret is None and not f.gen, 2)
            return [{"k": "ex", "e": f}] if f is not None else self.mutate()
        if c < 0.64 and self.frame.ret != "none" and d < 3:
            return self.ret()
        if c < 0.67 and self.frame.loops:
            return [{"k": r.choice(["br", "co"])}]
        if c < 0.675:
            return [{"k": "assert", "e": {"k": "or", "a": [self.cond(1), cmp(">", self.leaf(), num(r.choice([-50, -5])))]}}]
        if self.frame.gen is not None and c < 0.76:
            if r.random() < 0.75 or self.frame.gen != N:
                return [{"k": "yi", "e": self.value(self.frame.gen, 2)}]
            return [{"k": "yf", "e": self.nums(1)}]
        if d <= 0:
            return self.assign_num() if r.random() < 0.5 else [log(self.num(2))]
        c = r.random()
        if c < 0.28:
            return [self.if_(d)]
        if c < 0.44:
            return self.while_(d)
        if c < 0.80:
            return self.for_(d)
        if c < 0.93:
            return self.match_(d)
        return self.local_fn(d)

    def ret(self):
        t = self.frame.ret
        if t is None:
            return [{"k": "re", "e": {"k": "z"}}]
        if t == N:
            return [{"k": "re", "e": self.num(2)}]
        return [log(self.leaf())]

    def assign_num(self):
        r = self.r
        vs = self.assignable()
        if not vs or (r.random() < 0.15 and not self.only_fixed):
            v = Var(self.name("x"), N, fixed=False)
            e = self.num(2)
            self.add(v)
            return [{"k": "as", "ts": [var(v.name)], "e": e, "ann": r.random() < 0.1}]
        v = r.choice(vs)
        c = r.random()
        if c < 0.5:
            return [assign(var(v.name), self.num(2))]
        if c < 0.8:
            op = r.choice(["+", "-", "+", "*", "//", "%"])
            e = self.num(2) if op in "+-" else num(r.choice([2, 3, -2]))
            return [{"k": "aug", "t": var(v.name), "op": op, "e": e}]
        if c < 0.92 and len(vs) > 1:
            a, b = r.sample(vs, 2)
            t = {"k": "tt", "a": [var(a.name), var(b.name)]}
            tups = self.visible(lambda v: is_tup(v.t) and v.t[1] == (N, N))
            e = var(r.choice(tups).name) if tups and r.random() < 0.3 else {"k": "t", "a": [self.num(1), self.num(1)]}
            if r.random() < 0.5:
                e = {"k": "t", "a": [var(b.name), var(a.name)]}
            return [assign(t, e)]
        ts = [var(v.name)]
        lv = self.numcell()
        if lv is not None:
            ts.append(lv)
        return [{"k": "as", "ts": ts, "e": self.num(2)}]

    def numcell(self):
        """A number stored in a record or array: an assignable place."""
        vs = self.visible(lambda v: (is_rec(v.t) or is_arr(v.t)) and not v.const and self.reaches(v.t, N))
        if not vs:
            return None
        v = self.r.choice(vs)
        return self.path(var(v.name), v.t, N, 2)

    def some_type(self, depth=0):
        r = self.r
        if self.profile == "bind" and r.random() < 0.8:
            self.main_type = getattr(self, "main_type", None) or (("R", 0) if self.classes and r.random() < 0.6 else ("A", N, r.choice([1, 2])))
            return self.main_type
        c = r.random()
        if self.classes and c < 0.5:
            return ("R", r.randrange(len(self.classes)))
        if c < 0.85 or depth:
            if r.random() < 0.3 and self.classes and depth == 0:
                return ("A", ("R", r.randrange(len(self.classes))), r.choice([2, 2, 3]))
            return ("A", N, r.choice([1, 2, 3, 4]))
        return ("T", tuple(N if r.random() < 0.6 else self.some_type(1) for _ in range(r.choice([1, 2, 2, 3]))))

    def declare(self):
        t = self.some_type()
        e = self.value(t, 2)
        v = Var(self.name({"R": "r", "A": "v", "T": "t"}[t[0]]), t)
        self.add(v)
        return [assign(var(v.name), e)]

    def rebind(self):
        """A record, array or tuple bound to another name, or such a name bound to something else; see LOOSE."""
        r = self.r
        vs = self.visible(lambda v: v.t != N and not v.const and not v.fixed and self.own(v))
        if self.only_fixed or self.pure:
            return self.assign_num()
        if not vs or r.random() < (0.25 if len(vs) < 3 else 0.05):
            pool = self.visible(lambda v: v.t != N and not v.const)
            if not pool:
                return self.declare()
            v = r.choice(pool)
            e = self.alias(v.t) if r.random() < 0.8 else self.value(v.t, 2)
            q = Var(self.name("b"), v.t, fixed=False)
            self.add(q)
            return [assign(var(q.name), e)]
        q = r.choice(vs)
        if r.random() < 0.3:
            return self.dump(var(q.name), q.t)
        e = self.alias(q.t) if r.random() < 0.8 else self.value(q.t, 2)
        return [assign(var(q.name), e)]

    def own(self, v):
        """Whether v is a name of this very function: an augmented assignment to an outer one is not possible."""
        s = self.frame.scope
        while s:
            if v in s.vars:
                return True
            s = s.parent
        return False

    def mutate(self):
        r = self.r
        vs = self.visible(lambda v: (is_rec(v.t) or is_arr(v.t)) and not v.const)
        if not vs or self.only_fixed > 1:
            return self.assign_num()
        v = r.choice(vs)
        c = r.random()
        if c < 0.4:
            lv = self.path(var(v.name), v.t, N, 2)
            if lv is not None:
                if r.random() < 0.5:
                    return [assign(lv, self.num(2))]
                op = r.choice(["+", "-", "*", "%"])
                return [{"k": "aug", "t": lv, "op": op, "e": self.num(2) if op in "+-" else num(r.choice([2, 3, -2]))}]
        if c < 0.6:
            # a whole record or array inside another
            inner = []
            if is_rec(v.t):
                inner = [(attr(var(v.name), n), ft) for n, ft in self.cls(v.t)["fields"] if ft != N]
            elif v.t[1] != N:
                inner = [(item(var(v.name), self.index(v.t[2], 1)), v.t[1])]
            if inner:
                lv, t = r.choice(inner)
                e = self.value(t, 2)
                return [assign(lv, e) if r.random() < 0.7 else {"k": "aug", "t": lv, "op": "@", "e": e}]
        if c < 0.75 and self.own(v):
            return [{"k": "aug", "t": var(v.name), "op": "@", "e": self.value(v.t, 2)}]
        if c < 0.85:
            ws = [w for w in vs if w.t == v.t and w is not v]
            if ws:
                return [{"k": "ex", "e": bi("swap", var(v.name), var(r.choice(ws).name))}]
        if is_rec(v.t):
            c = self.cls(v.t)
            ops = [n for n in ("__add__", "__sub__", "__mul__", "__iadd__") if n in c["m"]]
            st = [n for n in c["st"]]
            if st and r.random() < 0.4:
                lv = attr(var(v.name), r.choice(st))
                return [assign(lv, self.num(2)) if r.random() < 0.6 else {"k": "aug", "t": lv, "op": "+", "e": self.num(1)}]
            if ops and self.own(v):
                n = r.choice(ops)
                op = {"__add__": "+", "__iadd__": "+", "__sub__": "-", "__mul__": "*"}[n]
                return [{"k": "aug", "t": var(v.name), "op": op, "e": self.value(c["sigs"][n][0][0][1], 2)}]
        return self.assign_num()

    def if_(self, d):
        r = self.r
        node = {"k": "if", "c": self.cond(2), "b": self.block(self.size(), d - 1), "o": []}
        c = r.random()
        if c < 0.5:
            node["o"] = self.block(self.size(), d - 1)
        elif c < 0.65:
            node["o"] = [{"k": "if", "c": self.cond(2), "b": self.block(self.size(), d - 1), "o": self.block(1, d - 1)}]
        return node

    def while_(self, d):
        r = self.r
        i = Var(self.name("w"), N)      # the generator itself rebinds it, nothing else does
        i.fixed = True
        out = [assign(var(i.name), num(0))]
        step = {"k": "aug", "t": var(i.name), "op": "+", "e": num(1)}
        bound = num(r.choice([1, 2, 3]))
        self.push()
        self.add(Var(i.name, N, fixed=True))
        hide = self.frame.scope.vars[-1]
        # a counter is rebound: it may not be read by generators
        hide.fixed = True
        self.counters = getattr(self, "counters", set()) | {i.name}
        self.frame.loops += 1
        if r.random() < 0.2:
            body = [step, {"k": "if", "c": cmp(">", var(i.name), bound), "b": [{"k": "br"}], "o": []}, *self.block(self.size(), d - 1)]
            node = {"k": "wh", "c": num(1), "b": body, "o": []}
        else:
            c = cmp("<", var(i.name), bound)
            if r.random() < 0.5:
                c = {"k": "and", "a": [c, self.cond(1)]}
            node = {"k": "wh", "c": c, "b": [step, *self.block(self.size(), d - 1)], "o": []}
            if r.random() < 0.4:
                self.frame.loops -= 1
                node["o"] = self.block(self.size(), d - 1)
                self.frame.loops += 1
        self.frame.loops -= 1
        self.pop()
        return [*out, node]

    def source_of(self, d):
        """An iterable for a for statement, and the type of its elements."""
        r = self.r
        c = r.random()
        arrs = self.visible(lambda v: is_arr(v.t))
        if c < 0.45:
            return self.nums(2), N
        if c < 0.55 and arrs:
            v = r.choice(arrs)
            return (bi("reversed", var(v.name)) if r.random() < 0.3 else var(v.name)), v.t[1]
        if c < 0.70:
            it, t = (var(x.name), x.t[1]) if arrs and (x := r.choice(arrs)) and r.random() < 0.5 else (self.nums(1), N)
            kw = {"start": num(r.choice([1, 5, -1]))} if r.random() < 0.3 else {}
            return bi("enumerate", it, **kw), ("T", (N, t))
        if c < 0.82:
            pool = [(var(v.name), v.t[1]) for v in arrs if not v.const]
            if r.random() < 0.3 or not pool:
                k = r.choice([2, 2, 3])
                xs = [(self.const_tuple(1), N) for _ in range(k)]
            else:
                xs = [r.choice(pool) for _ in range(r.choice([2, 2, 3]))]
                if r.random() < 0.4:
                    xs[-1] = (bi("range", self.small(self.num(1))), N)
            return bi("zip", *[x for x, _ in xs]), ("T", tuple(t for _, t in xs))
        if c < 0.92:
            tups = [v for v in self.visible(lambda v: is_tup(v.t)) if len(set(map(str, v.t[1]))) == 1]
            if tups:
                v = r.choice(tups)
                return var(v.name), v.t[1][0]
            return self.const_tuple(2), N
        recs = self.visible(lambda v: is_rec(v.t) and not v.const)
        if recs:
            v = r.choice(recs)
            same = [w for w in recs if w.t == v.t]
            return {"k": "t", "a": [var(r.choice(same).name) for _ in range(r.choice([1, 2, 3]))]}, v.t
        return self.nums(2), N

    def target_of(self, t):
        r = self.r
        if is_tup(t) and r.random() < 0.8:
            return {"k": "tt", "a": [self.target_of(x) for x in t[1]]}
        if t == N and r.random() < 0.15:
            vs = self.assignable()
            if vs:
                return var(r.choice(vs).name)
        if self.profile == "bind" and r.random() < 0.3:
            vs = self.visible(lambda v: v.t == t and not v.const and not v.fixed and self.own(v))
            if vs:
                return var(r.choice(vs).name)
        v = Var(self.name("e"), t, fixed=True)
        self.add(v)
        return var(v.name)

    def for_(self, d):
        r = self.r
        pre = []
        if r.random() < 0.08:
            arrs = self.visible(lambda v: is_arr(v.t))
            if arrs:
                return self.iter_obj(r.choice(arrs), d)
        it, t = self.source_of(d)
        self.push()
        tgt = self.target_of(t)
        # a target rebound by every iteration: fresh names are read like any others
        self.frame.loops += 1
        body = self.block(self.size(), d - 1)
        self.frame.loops -= 1
        self.pop()
        node = {"k": "for", "t": tgt, "it": it, "b": body, "o": []}
        if r.random() < 0.3:
            node["o"] = self.block(self.size(), d - 1)
        return [*pre, node]

    def iter_obj(self, v, d):
        r = self.r
        n = self.name("it")
        out = [assign(var(n), bi("iter", var(v.name)))]
        for _ in range(r.randint(0, v.t[2] + (r.random() < 0.1))):
            if v.t[1] == N:
                out.append(log(bi("next", var(n))))
            else:
                x = self.path(bi("next", var(n)), v.t[1], N, 1)
                out.append(log(x))
        if r.random() < 0.7:
            self.push()
            tgt = self.target_of(v.t[1])
            self.frame.loops += 1
            body = self.block(self.size(), d - 1)
            self.frame.loops -= 1
            self.pop()
            out.append({"k": "for", "t": tgt, "it": var(n), "b": body, "o": []})
        return out

    def pattern(self, t, binds, d=2):
        """A pattern for a value of type t; names it binds are appended to `binds`."""
        r = self.r
        c = r.random()
        if t == N:
            if c < 0.5:
                return {"k": "pv", "e": num(r.choice([0, 1, 2, 3, -1, 0.5]))}
            if c < 0.65:
                return {"k": "po", "ps": [{"k": "pv", "e": num(x)} for x in r.sample([0, 1, 2, 3, 4, -1, 0.5], r.choice([2, 3]))]}
            if c < 0.8:
                return self.bind(t, binds)
            if c < 0.9:
                p = {"k": "po", "ps": [{"k": "pv", "e": num(x)} for x in r.sample([0, 1, 2, 3], 2)]}
                n = self.name("m")
                binds.append(Var(n, t))
                return {"k": "pas", "p": p, "n": n}
            return {"k": "pw"}
        if d <= 0 or c < 0.15:
            return self.bind(t, binds) if r.random() < 0.5 else {"k": "pw"}
        if is_rec(t):
            fs = self.cls(t)["fields"]
            k = r.randint(0, len(fs))
            pos = 0
            if r.random() < 0.5:
                chosen, pos = list(range(k)), r.randint(0, k)
            else:
                chosen = sorted(r.sample(range(len(fs)), k))
            return {"k": "pcls", "c": f"R{t[1]}", "pos": pos, "ps": [[fs[j][0], self.pattern(fs[j][1], binds, d - 1)] for j in chosen]}
        if is_arr(t):
            n = t[2] if r.random() < 0.8 else t[2] + 1
            return {"k": "ps", "ps": [self.pattern(t[1], binds, d - 1) for _ in range(n)]}
        ts = list(t[1])
        if r.random() < 0.15:
            ts = ts[:-1]
        return {"k": "ps", "ps": [self.pattern(x, binds, d - 1) for x in ts]}

    def bind(self, t, binds):
        n = self.name("m")
        binds.append(Var(n, t))
        return {"k": "pc", "n": n}

    def match_(self, d):
        r = self.r
        c = r.random()
        if c < 0.55:
            e, t = self.num(2), N
        elif c < 0.7:
            t = ("T", tuple(N for _ in range(r.choice([1, 2, 2]))))
            e = {"k": "t", "a": [self.num(1) for _ in t[1]]}
        else:
            vs = self.visible(lambda v: v.t != N and not v.const)
            if vs:
                v = r.choice(vs)
                e, t = var(v.name), v.t
            else:
                e, t = self.num(2), N
        cs = []
        for j in range(r.choice([1, 2, 2, 3])):
            binds = []
            vs = self.assignable()
            if t == N and vs and r.random() < 0.1:
                p = {"k": "pc", "n": r.choice(vs).name}
            else:
                p = self.pattern(t, binds)
            if self.irrefutable(p) and r.random() < 0.5 and not (j == 2):
                pass
            self.push()
            for b in binds:
                self.add(b)
            g = self.cond(1) if r.random() < 0.3 else {"k": "u"}
            b = self.block(self.size(), d - 1)
            self.pop()
            cs.append({"p": p, "g": g, "b": b})
            if self.irrefutable(p) and g["k"] == "u":
                break
        return [{"k": "ma", "e": e, "cs": cs}]

    def irrefutable(self, p):
        return p["k"] in ("pw", "pc")

    def local_fn(self, d):
        r = self.r
        if r.random() < 0.5:
            n = self.name("h")
            ts = [N] * r.choice([0, 1, 2])
            lam = self.lam(ts, N, 2)
            lam["d"]["df"] = [{"k": "u"}] * len(ts)
            k = r.randint(0, 1) if ts else 0
            for j in range(len(ts) - k, len(ts)):
                lam["d"]["df"][j] = self.const() if r.random() < 0.6 else self.leaf()
            self.frame.scope.fns.append(Fn(n, [(p, N) for p in lam["d"]["ps"]], N, defaults=k))
            return [assign(var(n), lam)]
        f, d_ = self.function("h", d - 1, nested=True)
        self.frame.scope.fns.append(f)
        return [{"k": "def", "n": f.name, "d": d_}]

    # -- functions
    def function(self, prefix, d, nested=False, ret="any", ps=None, gen=None, name=None, extra=()):
        r = self.r
        name = name or self.name(prefix)
        if ps is None:
            ps = []
            for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
                t = N if r.random() < 0.65 or not self.classes else self.some_type(1)
                ps.append((self.name("q"), t))
            ps.sort(key=lambda p: p[1] == N)  # defaults only on trailing numbers
        if ret == "any":
            c = r.random()
            ret = N if c < 0.6 else None if c < 0.8 or not self.classes else self.some_type(1)
        defaults = 0
        df = [{"k": "u"}] * len(ps)
        trailing = 0
        while trailing < len(ps) and ps[-1 - trailing][1] == N:
            trailing += 1
        if trailing and r.random() < 0.4 and not extra:
            defaults = r.randint(1, trailing)
            for j in range(len(ps) - defaults, len(ps)):
                df[j] = self.const() if not nested or r.random() < 0.5 else self.leaf()
        va = ""
        outer = getattr(self, "frame", None) if nested else None
        saved, saved_fixed, saved_budget = getattr(self, "frame", None), self.only_fixed, self.budget
        self.frame = Frame(outer, ret=None if gen else ret, gen=gen)
        self.only_fixed = 1 if gen and nested else 0
        self.budget = 3
        for p, t in ps:
            # a number parameter may be rebound; generators keep theirs
            self.add(Var(p, t, fixed=t != N or gen is not None or r.random() < 0.4))
        if not gen and not extra and r.random() < 0.12 and not defaults:
            va = self.name("s")
        body = []
        if va:
            body.append(log(bi("len", var(va))))
            x = self.name("e")
            body.append({"k": "for", "t": var(x), "it": var(va), "b": [log(var(x))], "o": []})
        if not self.only_fixed:
            for _ in range(r.choice([0, 1, 1, 2])):
                v = Var(self.name("x"), N, fixed=False)
                e = self.num(1)
                self.add(v)
                body.append(assign(var(v.name), e))
        n = r.choice([1, 2, 3])
        if gen:
            n += 1
        for _ in range(n):
            s = self.stmt(d)
            body += s
            if s and s[-1]["k"] == "re":
                break
        ended = body and body[-1]["k"] == "re"
        if gen and not ended:
            body.append({"k": "yi", "e": self.value(gen, 2)})
        if gen and ended:
            body.insert(-1, {"k": "yi", "e": self.in_frame([(p, t) for p, t in ps], lambda: self.num(1))})
        if ret is not None and not gen and not ended:
            body.append({"k": "re", "e": self.value(ret, 2)})
        self.frame, self.only_fixed, self.budget = saved, saved_fixed, saved_budget
        return (Fn(name, ps, ret if not gen else None, defaults=defaults, va=bool(va), gen=gen),
                desc([p for p, _ in ps], body, df=df, gen=bool(gen), va=va))

    def klass(self, i):
        r = self.r
        fields = []
        for j in range(r.choice([1, 2, 2, 3])):
            c = r.random()
            t = N
            k = 2 if self.profile == "alias" else 1
            if c < 0.2 * k and i > 0:
                t = ("R", r.randrange(i))
            elif c < 0.35 * k:
                t = ("A", N if i == 0 or r.random() < 0.7 else ("R", r.randrange(i)), r.choice([1, 2, 3]))
            fields.append((f"{'abc'[j]}", t))
        if not any(t == N for _, t in fields):
            fields[0] = ("a", N)
        c = {"fields": fields, "m": {}, "pr": {}, "st": {}, "sigs": {}}
        self.classes.append((f"R{i}", c))
        me = ("R", i)
        if r.random() < 0.5:
            for n in r.sample(["__add__", "__sub__", "__mul__"], r.choice([1, 2])):
                ot = me if n != "__mul__" else N
                _, d = self.function("op", 1, ret=me, ps=[("self", me), ("o", ot)], name=n, extra=("op",))
                # operators give a fresh record
                d["b"][-1] = {"k": "re", "e": self.in_frame([("self", me), ("o", ot)], lambda: self.fresh(me, 2))}
                c["m"][n] = d
                c["sigs"][n] = ([("o", ot)], me, "m")
        for _ in range(r.choice([0, 1, 1, 2])):
            n = self.name("m")
            ps = [(self.name("q"), N) for _ in range(r.choice([0, 1, 1]))]
            f, d = self.function("m", 1, ret=r.choice([N, N, None]), ps=[("self", me), *ps], name=n, extra=("m",))
            c["m"][n] = d
            c["sigs"][n] = (ps, f.ret, "m")
        if r.random() < 0.3:
            n = self.name("z")
            _, d = self.function("z", 1, ret=N, ps=[("self", me)], name=n, extra=("p",))
            c["pr"][n] = d
            c["sigs"][n] = ([], N, "pr")
            if r.random() < 0.6:
                _, d = self.function("z", 1, ret=None, ps=[("self", me), ("o", N)], name=n, extra=("p",))
                c["st"][n] = d
        return c

    def in_frame(self, ps, fn):
        saved, b = getattr(self, "frame", None), self.budget
        self.frame = Frame()
        self.budget = 2
        for p, t in ps:
            self.add(Var(p, t))
        out = fn()
        self.frame, self.budget = saved, b
        return out

    def program(self, inputs=3):
        r = self.r
        self.frame = Frame()
        x = "v0"
        fns = [["lg", {"k": "fn", "d": desc([x], [log(var(x)), {"k": "re", "e": var(x)}])}]]
        for i in range(r.choice([1, 2, 2, 3] if self.profile == "alias" else [0, 1, 1, 2])):
            self.klass(i)
        for _ in range(r.choice([0, 0, 1])):
            n = self.name("K")
            t = ("A", N, r.choice([2, 3, 4]))
            fns.append([n, {"k": "global", "e": {"k": "arr", "a": [self.const() for _ in range(t[2])]}}])
            self.consts.append(Var(n, t, const=True))
        for _ in range(r.choice([1, 2, 2, 3])):
            gen = N if r.random() < 0.3 else None
            f, d = self.function("f", r.choice([1, 2]), gen=gen)
            fns.append([f.name, {"k": "fn", "d": d}])
            self.fns.append(f)
        self.frame = Frame(ret=None)
        self.budget = 6
        for v in self.consts:
            self.add(v)
        ps = [f"a{i}" for i in range(inputs)]
        for i, p in enumerate(ps):
            self.add(Var(p, N, fixed=i == 0))
        body = []
        for _ in range(r.choice([1, 2])):
            v = Var(self.name("x"), N, fixed=False)
            e = self.num(1)
            self.add(v)
            body.append(assign(var(v.name), e))
        for _ in range(r.choice([2, 3, 4] if self.profile == "alias" else [0, 1, 2])):
            body += self.declare()
        if self.profile == "bind":
            for _ in range(3):
                body += self.declare()
            body += self.rebind() + self.rebind()
        for _ in range(r.choice([2, 3, 4, 5])):
            s = self.stmt(r.choice([1, 2, 2, 3]))
            body += s
            if s and s[-1]["k"] == "re":
                break
        else:
            # what is left, in the end
            for v in self.visible(lambda v: v.t == N)[:4]:
                body.append(log(var(v.name)))
            for v in self.visible(lambda v: v.t != N and not v.const)[:6 if self.profile == "alias" else 3]:
                body += self.dump(var(v.name), v.t)
        fns.append(["main", {"k": "fn", "d": desc(ps, body)}])
        return {"classes": self.classes, "fns": fns}

    def dump(self, e, t):
        if t == N:
            return [log(e)]
        if is_rec(t):
            return [s for n, ft in self.cls(t)["fields"] for s in self.dump(attr(e, n), ft)]
        if is_arr(t):
            return [s for j in range(t[2]) for s in self.dump(item(e, num(j)), t[1])]
        return [s for j, x in enumerate(t[1]) for s in self.dump(item(e, num(j)), x)]


def program(seed, profile="core"):
    g = Gen(seed, profile)
    return g.program(), g


def inputs(seed, n=3, k=3):
    r = random.Random(f"in-{seed}")
    return [[r.choice([0, 1, 2, 3, -1, -2, 0.5, 4, 7, 2.5]) for _ in range(n)] for _ in range(k)]
