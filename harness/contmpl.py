"""Source text of the container programs: one loop that carries out the operations it reads, or a straight line of them."""

KINDS = {
    # element type, constructor, cells, first cell
    "num": ("Num", "{0}", ["{e}"], "{e}"),
    "pair": ("Pair[Num, Num]", "Pair({0}, {1})", ["{e}.first", "{e}.second"], "{e}.first"),
    "rec": ("Rec", "Rec({0}, Array({1}))", ["{e}.a", "{e}.b[0]"], "{e}.a"),
}
HEAD = '''import random
from sonolus.script.array import Array
from sonolus.script.array_like import ArrayLike, get_positive_index
from sonolus.script.containers import ArrayMap, ArrayPointer, ArraySet, FrozenNumSet, Pair, VarArray
from sonolus.script.debug import debug_log
from sonolus.script.num import Num
from sonolus.script.record import Record
from sonolus.script.values import copy


class Rec(Record):
    a: Num
    b: Array[Num, 1]

    def __lt__(self, other):
        return self.a < other.a

    def __le__(self, other):
        return self.a <= other.a

    def __gt__(self, other):
        return self.a > other.a

    def __ge__(self, other):
        return self.a >= other.a


class Ring[T](Record, ArrayLike):
    arr: T
    first: Num

    def __len__(self):
        return len(self.arr)

    def _place(self, index):
        index = get_positive_index(index, len(self.arr)) + self.first
        if index >= len(self.arr):
            index -= len(self.arr)
        return index

    def __getitem__(self, index):
        return self.arr[self._place(index)]

    def __setitem__(self, index, value):
        self.arr[self._place(index)] = value

'''


class Kind:
    def __init__(self, kind):
        self.type, self.ctor, self.cells, self.first_ = KINDS[kind]
        self.num = kind == "num"

    def mk(self, a, b):
        return self.ctor.format(a, b)

    def show(self, e, tmp="q"):
        return [f"{tmp} = {e}", *[f"debug_log({c.format(e=tmp)})" for c in self.cells]]

    def first(self, e):
        return self.first_.format(e=e)


# one entry per operation: what it does, with A B C D for its arguments, E for the element (A, B) and T for the container
COMMON = {
    "get": ["SHOW T[A]"],
    "getu": ["if 0 <= A < len(T):", "    SHOW T.get_unchecked(A)"],
    "frac": ["SHOW T[A + 0.5]"],
    "set": ["T[C] = E", "POISON"],
    "setu": ["if 0 <= C < len(T):", "    T.set_unchecked(C, E)", "POISON"],
    "has": ["debug_log(E in T)", "debug_log(E not in T)"],
    "idx": ["debug_log(T.index(E))"],
    "idx1": ["debug_log(T.index(E, C))"],
    "idx2": ["debug_log(T.index(E, C, D))"],
    "cnt": ["debug_log(T.count(E))"],
    "lidx": ["debug_log(T.last_index(E))"],
    "imax": ["debug_log(T.index_of_max())", "debug_log(T.index_of_min())"],
    "imaxk": ["debug_log(T.index_of_max(key=lambda e: FST(e) % 3))", "debug_log(T.index_of_min(key=lambda e: FST(e) % 3))"],
    "max": ["SHOW max(T)", "SHOW min(T)"],
    "maxk": ["SHOW max(T, key=lambda e: FST(e) % 3)", "SHOW min(T, key=lambda e: FST(e) % 3)"],
    "swap": ["T.swap(A, B)"],
    "swapu": ["if 0 <= A < len(T) and 0 <= B < len(T):", "    T.swap_unchecked(A, B)"],
    "sort": ["T.sort()"],
    "sortr": ["T.sort(reverse=True)"],
    "sortk": ["T.sort(key=lambda e: FST(e) % 3)"],
    "sortkr": ["T.sort(key=lambda e: FST(e) % 3, reverse=True)"],
    "rsort": ["reversed(T).sort()"],
    "rev": ["T.reverse()"],
    "each": ["i = 0", "while i < len(T):", "    SHOW T[i]", "    i += 1"],
    "riter": ["for e in reversed(T):", "    SHOW e"],
    "enum": ["for i, e in enumerate(T, A):", "    debug_log(i)", "    SHOW e"],
    "until": ["for e in T:", "    SHOW e", "    if FST(e) == A:", "        break", "else:", "    debug_log(-1)"],
    "rget": ["SHOW reversed(T)[A]"],
    "rset": ["reversed(T)[C] = E", "POISON"],
    "ridx": ["debug_log(reversed(T).index(E))"],
    "shuf": ["T.shuffle()"],
    "pick": ["if len(T) > 0:", "    SHOW random.choice(T)"],
    "nest": ["for e in T:", "    for g in T:", "        if FST(e) < FST(g):", "            SHOW g"],
}
POKE = {"poke": ["FST(T[A]) = C"], "eachpoke": ["for e in T:", "    FST(e) += A"], "rpoke": ["for e in reversed(T):", "    FST(e) += A"]}
VAR = {
    "app": ["v.append(E)", "POISON"],
    "appu": ["if not v.is_full():", "    v.append_unchecked(E)", "POISON"],
    "wapp": ["w.append(E)", "POISON"],
    "wclr": ["w.clear()"],
    "wcopy": ["w @= v"],
    "vcopy": ["v @= w"],
    "ext": ["v.extend(w)"],
    "extx": ["v.extend(x)"],
    "exts": ["v.extend(v)"],
    "iadd": ["v += w"],
    "del": ["del v[A]"],
    "pop": ["p = v.pop()", "v.append_unchecked(DUMMY)", "SHOW p", "v.pop()"],
    "popi": ["p = v.pop(A)", "v.append_unchecked(DUMMY)", "SHOW p", "v.pop()"],
    "ins": ["v.insert(C, E)", "POISON"],
    "rem": ["debug_log(v.remove(E))"],
    "clr": ["v.clear()"],
    "sadd": ["debug_log(v.set_add(E))", "POISON"],
    "srem": ["debug_log(v.set_remove(E))"],
    "eq": ["debug_log(v == w)", "debug_log(v != w)"],
    "eqx": ["debug_log(v == x)", "debug_log(x == v)", "debug_log(v != x)"],
    "size": ["debug_log(len(v))", "debug_log(v.capacity())", "debug_log(v.is_full())"],
    "self": ["v @= v"],
    "appi": ["v.append(v[A])"],
    "cpy": ["u = copy(v)", "v.clear()", "v.append(DUMMY)", "v @= u"],
}
FIX = {
    "wcopy": ["w @= v"],
    "vcopy": ["v @= w"],
    "eq": ["debug_log(v == w)", "debug_log(v != w)"],
    "size": ["debug_log(len(v))"],
    "self": ["v @= v"],
    "seti": ["v[A] = v[B]"],
}
SET = {
    "add": ["debug_log(v.add(E))", "POISON"],
    "rem": ["debug_log(v.remove(E))"],
    "has": ["debug_log(E in v)", "debug_log(E not in v)"],
    "clr": ["v.clear()"],
    "size": ["debug_log(len(v))"],
    "cpy": ["u = copy(v)", "v.clear()", "v.add(DUMMY)", "v @= u"],
    "addall": ["for e in v:", "    debug_log(v.add(e))"],
}
MAP = {
    "put": ["v[K] = V", "POISONK"],
    "get": ["SHOWV v[K]"],
    "del": ["del v[K]"],
    "pop": ["p = v.pop(K)", "v[DUMMYK] = DUMMYV", "SHOWV p", "del v[DUMMYK]"],
    "has": ["debug_log(K in v)", "debug_log(K not in v)"],
    "clr": ["v.clear()"],
    "size": ["debug_log(len(v))", "debug_log(v.capacity())", "debug_log(v.is_full())"],
    "keys": ["for k in v.keys():", "    SHOWK k"],
    "iter": ["for k in v:", "    SHOWK k"],
    "vals": ["for k in v.values():", "    SHOWV k"],
    "cpy": ["u = copy(v)", "v.clear()", "v[DUMMYK] = DUMMYV", "v @= u"],
    "aug": ["FSTV(v[K]) += C"],
    "evens": ["for k, e in v.items():", "    if FSTV(e) % 2 == 0:", "        continue", "    SHOWK k"],
}


def expand(lines, sub, shows):
    """Replace the capital words; SHOW lines become several."""
    import re

    out = []
    for ln in lines:
        ind = ln[:len(ln) - len(ln.lstrip())]
        body = ln.strip()
        w = body.split(" ", 1)[0]
        if w in shows:
            arg = re.sub(r"\b([A-Z][A-Z]*)\b", lambda m: sub.get(m[1], m[1]), body.split(" ", 1)[1])
            arg = fst(arg, sub)
            out += [ind + x for x in shows[w](arg)]
            continue
        body = fst(body, sub)
        body = re.sub(r"\b([A-Z][A-Z]*)\b", lambda m: sub.get(m[1], m[1]), body)
        if body != "":
            out += [ind + x for x in body.split("\n")]
    return out


def fst(body, sub):
    import re

    for name in ("FST", "FSTV"):
        f = sub.get(name + "()")
        while f and (m := re.search(rf"\b{name}\(", body)):
            i, depth = m.end(), 1
            while depth:
                depth += {"(": 1, ")": -1}.get(body[i], 0)
                i += 1
            body = body[:m.start()] + f(body[m.end():i - 1]) + body[i:]
    return body


class Driver:
    """A container family, an element kind, a capacity; ops() and the text of its programs."""

    def __init__(self, fam, kind, cap, key="num", target="v"):
        self.fam, self.kind, self.cap, self.key, self.target = fam, kind, cap, key, target
        self.k = Kind(kind)
        self.kk = Kind(key)
        if fam in ("var", "fix", "ptr", "rev", "ring"):
            ops = dict(COMMON)
            if not self.k.num:
                ops.update(POKE)
            ops.update(VAR if fam == "var" else FIX)
        else:
            ops = dict(SET if fam == "set" else MAP)
        if kind == "num" and "shuf" in ops:
            ops["shufr"] = ["random.shuffle(v)"]
        if fam in ("ptr", "rev", "ring"):  # views
            for x in ("vcopy", "wcopy", "self", "eq"):
                ops.pop(x)
        self.ops = ops
        self.names = list(ops)

    @property
    def id(self):
        return f"{self.fam}-{self.kind}-{self.cap}" + (f"-{self.key}" if self.fam == "map" else "")

    def encode(self, h):
        return [x for op, *args in h for x in (self.names.index(op), *args)]

    def lines(self, op, a, b, c, d):
        k, kk = self.k, self.kk
        if self.fam == "map":
            sub = {"K": kk.mk(a, b) if kk.num else "r", "V": k.mk(c, d) if k.num else "rv", "A": a, "B": b, "C": c, "D": d,
                   "POISONK": "\n".join(([] if kk.num else [f"{kk.first('r')} = -55"]) + ([] if k.num else [f"{k.first('rv')} = -56"])),
                   "DUMMYK": kk.mk("-99", "-98"), "DUMMYV": k.mk("-97", "-96"), "FSTV()": k.first}
            shows = {"SHOWK": lambda e: kk.show(e), "SHOWV": lambda e: k.show(e)}
            pre = ([] if kk.num else [f"r @= {kk.mk(a, b)}"]) + ([] if k.num else [f"rv @= {k.mk(c, d)}"])
        else:
            sub = {"E": k.mk(a, b) if k.num else "r", "A": a, "B": b, "C": c, "D": d, "T": self.target,
                   "POISON": "" if k.num else f"{k.first('r')} = -55", "DUMMY": k.mk("-99", "-98"), "FST()": k.first}
            shows = {"SHOW": lambda e: k.show(e)}
            pre = [] if k.num else [f"r @= {k.mk(a, b)}"]
        return pre + expand(self.ops[op], sub, shows)

    def setup(self):
        k, kk, cap = self.k, self.kk, self.cap
        if self.fam == "var":
            return [f"v = VarArray[{k.type}, {cap}].new()", f"w = VarArray[{k.type}, {cap}].new()",
                    f"x = Array({k.mk(1, 2)}, {k.mk(0, 1)})"] + ([] if k.num else [f"r = {k.mk(0, 0)}"])
        if self.fam == "fix":
            return [f"v = +Array[{k.type}, {cap}]", f"w = +Array[{k.type}, {cap}]"] + ([] if k.num else [f"r = {k.mk(0, 0)}"])
        if self.fam == "ring":
            return [f"y = +Array[{k.type}, {cap}]", f"v = Ring(y, {cap // 2})", "w = v"] + ([] if k.num else [f"r = {k.mk(0, 0)}"])
        if self.fam == "rev":
            return [f"y = +Array[{k.type}, {cap}]", "v = reversed(y)", "w = v"] + ([] if k.num else [f"r = {k.mk(0, 0)}"])
        if self.fam == "ptr":
            return [f"v = ArrayPointer[{k.type}]({cap}, 2001, 3)", "w = v"] + ([] if k.num else [f"r = {k.mk(0, 0)}"])
        if self.fam == "set":
            return [f"v = ArraySet[{k.type}, {cap}].new()"] + ([] if k.num else [f"r = {k.mk(0, 0)}"])
        return ([f"v = ArrayMap[{kk.type}, {k.type}, {cap}].new()"] + ([] if kk.num else [f"r = {kk.mk(0, 0)}"])
                + ([] if k.num else [f"rv = {k.mk(0, 0)}"]))

    def dump(self):
        k, kk = self.k, self.kk
        if self.fam == "map":
            return ["debug_log(-7002)", "for k, e in v.items():", *["    " + x for x in kk.show("k", "q1")], *["    " + x for x in k.show("e", "q2")]]
        out = ["debug_log(-7002)", "for e in v:", *["    " + x for x in k.show("e")]]
        if self.fam != "set":
            out += ["debug_log(-7004)", "for e in w:", *["    " + x for x in k.show("e")]]
        return out

    def dynamic(self):
        out = [HEAD, "", "def main(code, n):"]
        body = [*self.setup(), "pc = 0", "while pc < n:", "    op = code[pc]"]
        body += [f"    {x} = code[pc + {i}]" for i, x in enumerate("abcd", 1)]
        body += ["    pc += 5", "    debug_log(-7001)", "    match op:"]
        for i, op in enumerate(self.names):
            body += [f"        case {i}:", *["            " + x for x in self.lines(op, *"abcd")]]
        body += ["        case _:", "            pass", *["    " + x for x in self.dump()], "debug_log(-7003)"]
        return "\n".join(out) + "\n" + "\n".join("    " + x for x in body) + "\n"

    def static(self, hist):
        """The same operations one after the other, with constants; every element is a literal."""
        out = [HEAD, "", "def main():"]
        body = list(self.setup())
        for op, *args in hist:
            body += ["debug_log(-7001)", *self.lines(op, *[f"({x})" for x in args]), *self.dump()]
        body.append("debug_log(-7003)")
        return "\n".join(out) + "\n" + "\n".join("    " + x for x in body) + "\n"


if __name__ == "__main__":
    print(Driver("var", "pair", 4).dynamic())
    print(Driver("map", "pair", 4, "pair").dynamic()[-2500:])
