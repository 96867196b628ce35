"""Random projects: hierarchies of archetypes with fields and callbacks, global memory, resources and a level.

A project is data: Archetypes.tla gives its meaning, `source` writes it as a Python module.
See Archetypes.tla for the meaning of statements and expressions.
"""

import random

ROOT = {"play": "PlayArchetype", "watch": "WatchArchetype", "preview": "PreviewArchetype"}
CALLBACKS = {
    # what may be written: m private, i imported, s shared, g level memory, d level data; r: returns a value
    "play": {"preprocess": "misgd", "spawn_order": "mr", "should_spawn": "mr", "initialize": "m", "update_sequential": "msg",
             "touch": "msg", "update_parallel": "m", "terminate": "m"},
    "watch": {"preprocess": "misgd", "spawn_time": "mr", "despawn_time": "mr", "initialize": "m", "update_sequential": "msg",
              "update_parallel": "m", "terminate": "m"},
    "preview": {"preprocess": "isd", "render": ""},
}
ORDERED = {"preprocess", "spawn_order", "update_sequential", "touch"}
PROBE = {"play": "initialize", "watch": "initialize", "preview": "render", "tutorial": "preprocess"}
TUTORIAL = {"navigate": "g", "update": "g"}
HELPERS = {"h0": 1, "h1": 2, "h2": 1, "h3": 1}
LIMIT = {"imported": 32, "exported": 32, "memory": 64, "shared": 32}
SPEC = {"imported": "imported", "exported": "exported", "memory": "entity_memory", "shared": "shared_memory"}
MOD = 97
WEIGHT = 40_000
ABSENT = -987654


def parts(ty, recs):
    """The paths of the numbers a value consists of."""
    if ty == "n":
        return [""]
    if ty[0] == "e":
        return [".index"]
    if ty[0] == "a":
        return [f"[{i}]{p}" for i in range(ty[1]) for p in parts(ty[2], recs)]
    return [f".{n}{p}" for n, t in recs[ty[1]]["fields"] for p in parts(t, recs)]


def tyname(ty, nm):
    if ty == "n":
        return "float"
    if ty[0] == "e":
        return f"EntityRef[{nm(ty[1]) if ty[1] else 'Any'}]"
    if ty[0] == "a":
        return f"Array[{tyname(ty[2], nm)}, {ty[1]}]"
    return f"R{ty[1]}"


class Gen:
    def __init__(self, seed, size=3, profile="calls", given=None):
        self.r = random.Random(f"{seed} {size} {profile}")
        self.seed, self.size, self.profile, self.given = seed, size, profile, given
        self.cls, self.py = {}, {}
        self.root = type("Root", (), {})

    def chance(self, p):
        return self.r.random() < p

    # types

    def records(self):
        self.recs = [
            {"fields": [["x", "n"], ["y", "n"]]},
            {"fields": [["p", ["r", 0]], ["k", "n"]]},
            {"fields": [["w", "n"], ["xs", ["a", self.r.randint(2, 3), "n"]]]},
            {"fields": [["one", "n"]]},
            {"fields": [["who", ["e", 0]], ["k", "n"]]},
            {"fields": [["t", "n"], ["u", "n"]], "truth": 1},
        ]
        self.r.shuffle(self.recs[1]["fields"])
        self.r.shuffle(self.recs[2]["fields"])

    def ty(self, mode, refs=True):
        x = self.r.random()
        if x < 0.45:
            return "n"
        if x < 0.68:
            return ["r", self.r.choice([0, 1, 2, 3, 5, 4] if refs else [0, 1, 2, 3, 5])]
        if x < 0.82:
            return ["a", self.r.randint(1, 4), self.r.choice(["n", "n", ["r", 0], ["r", 2]] + ([["r", 4], ["e", 0]] if refs else []))]
        if not refs:
            return ["a", 2, "n"]
        # a reference to a class written earlier
        known = [c for c, d in self.cls.items() if d["mode"] == mode and not d["derive"] and (self.fut or c < len(self.cls))]
        return ["e", self.r.choice(known) if known and self.chance(0.8) else 0]

    # classes

    def mro(self, c):
        return [self.ids[t] for t in self.py[c].__mro__ if t in self.ids]

    def add(self, d):
        """A class, when Python accepts its bases."""
        c = len(self.cls) + 1
        bases = tuple(self.root if b == 0 else self.py[b] for b in d["bases"])
        try:
            t = type("T", bases or (object,), {})
        except TypeError:
            return None
        self.cls[c], self.py[c] = d, t
        self.ids = {self.root: 0} | {t: c for c, t in self.py.items()}
        d["id"] = c
        d["mro"] = self.mro(c)
        return c

    def fields_of(self, c):
        return {f["n"]: f for k in self.mro(c) if k for f in self.cls[k]["fields"]}

    def size_of(self, c, st):
        return sum(len(parts(f["ty"], self.recs)) for f in self.fields_of(c).values() if f["st"] == st)

    def new_fields(self, c, mode, mixin):
        kinds = ["imported", "shared"] if mode in ("preview", "all") else ["imported", "memory", "memory", "shared"]
        if mode == "play" and not mixin:
            kinds.append("exported")
        out = self.cls[c]["fields"]
        most = [2, 3, 4, 5, 6] if self.profile == "fields" else [0, 1, 1, 2, 2, 3, 4]
        for k in range(self.r.choice(most) + (1 if self.size > 2 else 0)):
            st = self.r.choice(kinds)
            ty = self.ty(mode, refs=not mixin and st != "exported")
            n = len(parts(ty, self.recs))
            room = LIMIT[st] - self.size_of(c, st)
            if self.chance(0.05) and room > 0 and not mixin:
                ty, n = ["a", room, "n"], room  # up to the last cell
            if n > room or mixin and n > 6:
                continue
            f = {"n": f"{'xm' if mixin else 'f'}{c}{'abcdefgh'[k]}", "st": st, "dn": "", "ty": ty, "def": ABSENT, "form": self.r.randrange(3)}
            if st in ("imported", "exported") and self.chance(0.3):
                f["dn"] = f"#N{c}{k}"
            if st == "imported" and ty == "n" and self.chance(0.3):
                f["def"] = self.r.choice([0, 1, 5, -3, 8])
            out.append(f)
        return out

    def blank(self, mode, bases):
        return {"mode": mode, "bases": bases, "nm": "", "key": ABSENT, "scored": -1, "derive": 0, "fields": [], "meths": {}, "lead": 0, "listed": 0}

    def hierarchies(self):
        """Those given: lists of classes {"a": archetype, "b": bases, "f": [[storage, size]]}; 0 is the root."""
        self.modes = {m: [] for m in ROOT}
        for h in self.given:
            at = [0]
            for k in h:
                d = self.blank("play" if k["a"] else "pw", [at[b] for b in k["b"]])
                d["lead"] = 0
                c = self.add(d)
                at.append(c)
                for i, (st, n) in enumerate(k["f"]):
                    ty = {1: "n", 2: ["r", self.r.choice([0, 5])], 3: self.r.choice([["a", 3, "n"], ["r", 1]])}.get(n, ["a", n, "n"])
                    d["fields"].append({"n": f"{'f' if k['a'] else 'xm'}{c}{'abcd'[i]}", "st": st, "dn": "", "ty": ty, "def": ABSENT, "form": i % 3})
                if k["a"]:
                    self.modes["play"].append(c)
        for i, c in enumerate(self.modes["play"]):
            self.cls[c]["listed"] = i + 1

    def hierarchy(self):
        if self.given is not None:
            return self.hierarchies()
        mixins = []
        for _ in range(self.r.choice([0, 1, 2, 2, 3])):
            mode = self.r.choice(["all", "pw"])
            pre = [m for m in mixins if self.cls[m]["mode"] in ("all", mode)]
            d = self.blank(mode, [self.r.choice(pre)] if pre and self.chance(0.25) else [])
            d["lead"] = int(self.chance(0.6)) if not d["bases"] else self.cls[d["bases"][0]]["lead"]
            c = self.add(d)
            self.new_fields(c, mode, True)
            mixins.append(c)
        for mode in ("play", "watch", "preview"):
            mine = []
            for _ in range(self.r.randint(1, 2 * self.size) if mode == "play" else self.r.randint(0, self.size + 1)):
                base = self.r.choice(mine) if mine and self.chance(0.6) else 0
                ok = [m for m in mixins if mode != "preview" or self.cls[m]["mode"] == "all"]
                take = self.r.sample(ok, min(len(ok), self.r.choice([0, 0, 1, 1, 2])))
                bases = [m for m in take if self.cls[m]["lead"]] + [base] + [m for m in take if not self.cls[m]["lead"]]
                d = self.blank(mode, bases)
                if self.chance(0.3):
                    d["nm"] = f"Name{len(self.cls)}"
                if self.chance(0.35):
                    d["key"] = self.r.randint(0, 9)
                if self.chance(0.4):
                    d["scored"] = self.r.randrange(2)
                c = self.add(d)
                if c is None:
                    continue
                if any(self.size_of(c, st) > LIMIT[st] for st in LIMIT):
                    del self.cls[c], self.py[c]
                    continue
                self.new_fields(c, mode, False)
                mine.append(c)
            for b in [*mine]:
                for _ in range(self.r.choice([0, 0, 0, 1, 2])):
                    if self.cls[b]["derive"]:
                        continue
                    d = self.blank(mode, [b])
                    d["derive"], d["nm"], d["scored"] = b, f"Derived{len(self.cls)}", self.r.randrange(2)
                    if self.chance(0.6):
                        d["key"] = self.r.randint(0, 9)
                    c = self.add(d)
                    mine.append(c)
                    if self.chance(0.25):
                        # a class written on top of a derived one
                        d = self.blank(mode, [c])
                        c = self.add(d)
                        self.new_fields(c, mode, False)
                        mine.append(c)
            listed = [c for c in mine if self.chance(0.8)]
            if not listed:
                listed = mine[:1]
            self.r.shuffle(listed)
            for i, c in enumerate(listed):
                self.cls[c]["listed"] = i + 1
            self.modes[mode] = listed

    # expressions; C is what may be used here

    def objs(self, C, k=0):
        """An object whose fields can be named: the entity itself or another."""
        if k > 1 or self.chance(0.6) or not C["at"]:
            return ["s"] if C["self"] else None
        x = self.r.random()
        if x < 0.6 or not C["self"]:
            return ["at", self.r.choice(C["at"]), self.index(C)]
        refs = self.flds(C, ["s"], "is", lambda f: f["ty"][0] == "e")
        refs = [f for f in refs if f["ty"][1] == 0 or f["ty"][1] in C["at"]]
        if not refs:
            return ["at", self.r.choice(C["at"]), self.index(C)]
        f = self.r.choice(refs)
        if f["ty"][1] == 0 or self.chance(0.3):
            return ["refas", ["s"], f["n"], self.r.choice(C["at"])]
        return ["ref", ["s"], f["n"], f["ty"][1]]

    def cls_of(self, C, o):
        return C["cls"] if o[0] == "s" else o[1] if o[0] == "at" else o[3]

    def flds(self, C, o, kinds, ok=lambda f: True):
        """Fields of `o` of the kinds given (m i s, x exported)."""
        if o is None:
            return []
        c = self.cls_of(C, o)
        here = self.fields_of(c).values() if c else []
        if o[0] != "s" or C["self"] == 2:
            kinds = [k for k in kinds if k not in "mx"]
        return [f for f in here if {"memory": "m", "imported": "i", "shared": "s", "exported": "x"}[f["st"]] in kinds and ok(f)]

    def index(self, C):
        return ["c", self.r.randrange(8)] if self.chance(0.5) else ["%", self.expr(C, 2), 8]

    def comp(self, C, f, k):
        """A component of a field or global: [number] or [base, stride, count, expression]."""
        ps = parts(f["ty"], self.recs)
        if f["ty"][0] == "a" and self.chance(0.4):
            n = f["ty"][1]
            stride = len(ps) // n
            return [self.r.randrange(stride), stride, n, self.expr(C, k + 2)]
        return [self.r.randrange(len(ps))]

    def expr(self, C, k=0):
        r = self.r
        x = r.random()
        if k >= 3 or x < 0.15:
            y = r.random()
            if y < 0.4 and C["vars"]:
                return ["v", r.choice(C["vars"])]
            if y < 0.6 and C["self"]:
                return [r.choice(["idx", "id", "key", "sc"]), ["s"]]
            return ["c", r.choice([0, 1, 2, 3, 5, 7, 11, 40])]
        if x < 0.5:
            o = self.objs(C, k)
            fs = self.flds(C, o, "mis")
            if fs:
                f = r.choice(fs)
                return ["f", o, f["n"], self.comp(C, f, k)]
            return self.expr(C, k + 1)
        if x < 0.60 and C["glob"]:
            g = r.choice(C["glob"])
            f = r.choice(g["fields"])
            return ["g", g["n"], f["n"], self.comp(C, f, k)]
        if x < 0.64:
            return ["rom", r.randrange(len(self.rom)), self.expr(C, k + 1)]
        if x < 0.72 and C["mode"] in ROOT:
            y = r.random()
            if y < 0.3 and C["ids"]:
                return [r.choice(["cid", "ckey", "csc"]), r.choice(C["ids"])]
            if y < 0.75 and C["any"] and C["entities"]:
                return ["isat", r.choice(C["any"]), ["c", -1] if self.chance(0.1) else self.index(C), r.randrange(2)]
            fs = self.flds(C, ["s"] if C["self"] else None, "is", lambda f: f["ty"][0] == "e")
            fs = [f for f in fs if f["ty"][1] == 0 or f["ty"][1] in C["any"]]
            if fs and C["any"]:
                f = r.choice(fs)
                return ["am", ["s"], f["n"], f["ty"][1] or r.choice(C["any"]), r.randrange(2)]
            if C["at"]:
                return [r.choice(["idx", "id", "key", "sc"]), ["at", r.choice(C["at"]), self.index(C)]]
        if x < 0.76 and self.opts:
            return ["opt", r.randrange(len(self.opts))]
        if x < 0.78 and C["mode"] in ("play", "watch") and self.nbuckets:
            return ["bk", r.randrange(self.nbuckets), r.randrange(6)]
        if x < 0.80:
            return ["inf", self.expr(C, k + 1)]
        op = r.choice(["+", "+", "-", "*", "<", "=="])
        return [op, self.expr(C, k + 1), self.expr(C, k + 1)]

    def exprs(self, C, ty):
        n = len(parts(ty, self.recs))
        return [self.expr(C, 1 if n < 8 else 3) for _ in range(n)]

    # statements

    def body(self, C, n, depth=0):
        out = []
        for _ in range(n):
            s = self.stmt(C, depth)
            if s:
                out.append(s)
        return out

    def stmt(self, C, depth):
        r = self.r
        w = C["w"]
        x = r.random()
        if x < 0.18:
            e = self.expr(C)
            v = r.choice(["v0", "v1", "v2", "v3"])
            if v not in C["vars"]:
                if depth:  # only bound on this path
                    return ["log", e]
                C["vars"] = [*C["vars"], v]
            return ["=", v, e]
        if x < 0.50:
            o = ["s"] if C["self"] and ("s" not in w or self.chance(0.7)) else self.objs(C)
            fs = self.flds(C, o, [k for k in w if k in "mis"])
            if fs:
                f = r.choice(fs)
                y = r.random()
                if y < 0.2:
                    same = [(p, g) for p in [o, self.objs(C)] for g in self.flds(C, p, "mis") if g["ty"] == f["ty"]]
                    if same:
                        p, g = r.choice(same)
                        return ["cpy", o, f["n"], p, g["n"]]
                if y < 0.45:
                    return ["setr", o, f["n"], self.exprs(C, f["ty"])]
                return ["set", o, f["n"], self.comp(C, f, 0), self.expr(C)]
        if x < 0.57 and "g" in w + ("g" if "d" in w else ""):
            gs = [g for g in C["glob"] if ("g" if g["kind"] == "memory" else "d") in w]
            if gs:
                g = r.choice(gs)
                f = r.choice(g["fields"])
                return ["setg", g["n"], f["n"], self.comp(C, f, 0), self.expr(C)]
        if x < 0.63 and C["mode"] == "play" and C["self"] == 1 and C["w"]:
            fs = self.flds(C, ["s"], "x")
            if fs:
                f = r.choice(fs)
                if self.chance(0.5):
                    return ["expr", f["n"], self.exprs(C, f["ty"])]
                return ["exp", f["n"], [r.randrange(len(parts(f["ty"], self.recs)))], self.expr(C)]
        if x < 0.67 and C["mode"] == "play" and C["self"] == 1 and C["w"] and C["spawn"]:
            c = r.choice(C["spawn"])
            fs = [f for f in self.fields_of(c).values() if f["st"] == "memory"]
            fs = [f for f in fs if self.chance(0.7)]
            return ["spawn", c, [[f["n"], self.exprs(C, f["ty"])] for f in fs]]
        if x < 0.76 and depth < 2:
            t, e = self.body(C, r.randint(1, 2), depth + 1), self.body(C, r.randint(0, 2), depth + 1)
            if t:
                if C["ret"] and self.chance(0.25):
                    t.append(["ret", self.expr(C, 1)])
                return ["if", self.expr(C, 1), t, e]
        if x < 0.86 and C["calls"]:
            o, ms = ["s"], C["calls"]
            if self.chance(0.4) or not C["self"]:
                o = self.objs(C)
                if o and o[0] != "s":
                    ms = [m for m in C["calls"] if m in ("h0", "h1")]
            if o:
                c = self.cls_of(C, o)
                ms = [m for m in ms if any(m in self.cls[k]["meths"] for k in self.mro(c) if k)] if c else []
                if ms:
                    m = r.choice(ms)
                    args = [self.expr(C, 1) for _ in range(HELPERS[m])]
                    return ["call", self.bind(C, depth), o, m, args]
        if x < 0.90 and C["super"]:
            m, n = C["super"]
            args = [self.expr(C, 1) for _ in range(n)]
            return ["sup", self.bind(C, depth) if C["ret"] else "", m, args]
        if x < 0.95 and C["w"] != "" and C["mode"] != "pw":
            kinds = [k for k in ("draw", "play", "particle") if self.res[k] and not (C["mode"] in ("preview", "all") and k != "draw")]
            if kinds:
                k = r.choice(kinds)
                i = r.randrange(len(self.res[k]))
                return ["res", k, i, self.expr(C, 1) if self.res[k][i]["group"] else ["c", 0]]
        if x < 0.97 and C["mode"] == "tutorial" and self.texts:
            return ["text", r.randrange(len(self.texts))]
        return ["log", self.expr(C)]

    def bind(self, C, depth):
        if depth:
            return self.r.choice(["", *C["vars"]])
        v = self.r.choice(["", "v0", "v1", "v2"])
        if v and v not in C["vars"]:
            C["vars"] = [*C["vars"], v]
        return v

    def scope(self, c, mode, w, ret, calls, sup, selfkind):
        """What the body of a method of class c may use."""
        d = self.cls[c] if c else None
        glob = [g for g in self.globs if not (mode in ("preview", "all") and g["kind"] == "memory")]
        real = mode if mode in ROOT else None
        mine = [k for k, e in self.cls.items() if e["mode"] == real]
        return {
            "cls": c, "mode": mode, "w": w, "ret": ret, "calls": calls, "super": sup, "self": selfkind, "vars": [], "glob": glob,
            "at": mine if d is not None or selfkind == 0 else [],
            "any": [k for k in mine if k in self.related[real]] if real else [],
            "ids": [k for k in mine if self.cls[k]["listed"]] if real else [],
            "spawn": [k for k in mine if self.cls[k]["listed"]] if mode == "play" else [],
            "entities": mode in ROOT,
        }

    def method(self, c, mode, m, w, nargs, ret, calls, sup, selfkind=1):
        C = self.scope(c, mode, w, ret, calls, sup, selfkind)
        if C["at"]:
            # those whose class is in this mode (and no mixin's)
            C["at"] = [k for k in C["at"] if k in self.related[mode]]
        params = ["pa", "pb"][:nargs]
        C["vars"] = params
        b = self.body(C, self.r.randint(1, 2 + self.size))
        if ret:
            b.append(["ret", self.expr(C, 1)])
        return {"params": params, "body": b, "order": ABSENT}

    def methods(self):
        often = {"calls": 0.42, "fields": 0.15, "given": 0.12}[self.profile]
        for c, d in self.cls.items():
            if d["derive"]:
                continue
            mixin = d["mode"] in ("all", "pw")
            mode = d["mode"]
            mro = self.mro(c)
            above = {m for k in mro[1:] if k for m in self.cls[k]["meths"]}
            for m, n in HELPERS.items():
                if not self.chance(often):
                    continue
                if mode in ("preview", "all") and m == "h2":
                    continue
                w = {"h0": "", "h1": "", "h2": "m", "h3": "s" if mode in ("preview", "all") else "msg"}[m]
                calls = [h for h in HELPERS if h < m and (h in above or h in d["meths"])]
                sup = (m, n) if m in above and not mixin and self.chance(0.6) else None
                d["meths"][m] = self.method(c, mode, m, w, n, True, calls, sup, 2 if m in ("h0", "h1") else 1)
            names = {"all": ["preprocess"], "pw": ["preprocess", "update_sequential", "update_parallel", "terminate"]}.get(mode) or [
                m for m in CALLBACKS[mode] if m != PROBE[mode]]
            for m in names:
                if not self.chance(often):
                    continue
                w = CALLBACKS[mode if not mixin else "preview" if mode == "all" else "watch"][m]
                ret = "r" in w
                calls = [h for h in HELPERS if (h in above or h in d["meths"]) and (h != "h3" or "s" in w)]
                if mode == "preview" and m != "preprocess":
                    calls = [h for h in calls if h != "h3"]
                sup = (m, 0) if self.chance(0.6) and (not mixin or d["lead"]) else None
                d["meths"][m] = self.method(c, mode, m, w.replace("r", ""), 0, ret, calls, sup)
                if m in ORDERED and self.chance(0.5):
                    d["meths"][m]["order"] = self.r.choice([-2, -1, 0, 1, 3])

    def heaviest(self):
        """The most that compiling a callback expands to (every call is compiled at its place)."""
        known = {}

        def size(x):
            return 1 + sum(map(size, x)) if isinstance(x, list) else 1

        def meth(c, m, above):
            order = self.mro(c)
            for i in range(above, len(order)):
                if order[i] and m in self.cls[order[i]]["meths"]:
                    if (c, m, i) not in known:
                        known[c, m, i] = body(c, i, self.cls[order[i]]["meths"][m]["body"])
                    return known[c, m, i]
            return 0

        def body(c, i, b):
            n = 0
            for s in b:
                n += size(s)
                if s[0] == "call":
                    n += meth(self.cls_of({"cls": c}, s[2]), s[3], 0)
                elif s[0] == "sup":
                    n += meth(c, s[2], i + 1)
                elif s[0] == "if":
                    n += body(c, i, s[2]) + body(c, i, s[3])
            return n

        return max((meth(c, m, 0) for c in self.cls for m in {m for k in self.mro(c) if k for m in self.cls[k]["meths"]}), default=0)

    def globals(self):
        self.globs = []
        for i in range(self.r.randint(0, 4)):
            kind = self.r.choice(["memory", "data"])
            form = self.r.choice(["class", "value"])
            fs = [{"n": f"g{i}{'abc'[k]}" if form == "class" else "", "ty": self.ty("", refs=False)} for k in range(self.r.randint(1, 3))]
            if form == "value":
                fs = fs[:1]
                if fs[0]["ty"] == "n":
                    fs[0]["ty"] = ["a", 3, "n"]
            self.globs.append({"n": f"G{i}", "kind": kind, "form": form, "fields": fs})

    def resources(self):
        r = self.r
        self.res = {}
        for k in ("draw", "play", "particle"):
            self.res[k] = []
            for i in range(r.randint(0, 4)):
                group = r.choice([0, 0, 2, 3])
                names = [f"{k}{i}{'xyz'[j]}" for j in range(group or 1)]
                self.res[k].append({"group": group, "names": names})
        self.opts = [{"n": f"o{i}", "name": r.choice(["", f"Opt {i}"]), "def": r.randint(0, 9), "k": r.randrange(3)} for i in range(r.randint(0, 4))]
        self.texts = [f"text{i}" for i in range(r.randint(0, 3))]
        self.nbuckets = r.randint(0, 3)
        self.rom = [[r.choice([0, 1, 2, 5, 9, 33, 0.5 * 2]) for _ in range(r.randint(1, 5))] for _ in range(r.randint(1, 3))]
        self.rom = [[int(v) for v in row] for row in self.rom]

    def level(self):
        r = self.r
        cs = [c for c in self.modes["play"]]
        ents = []
        most = {"calls": 6, "fields": 16, "given": len(cs)}[self.profile]
        n = r.randint(0 if self.profile != "given" else len(cs), most) if cs else 0
        for i in range(n):
            c = r.choice(cs) if self.profile != "given" else cs[i]
            vals, later = {}, []
            for f in self.fields_of(c).values():
                if f["st"] != "imported":
                    continue
                if self.chance(0.75):
                    vals[f["n"]] = self.value(f["ty"], c, n)
                if self.chance(0.25):
                    later.append([f["n"], self.value(f["ty"], c, n)])
            ents.append({"cls": c, "vals": vals, "later": later})
        # references to entities of another class than the field names are not accepted
        for e in ents:
            fs = self.fields_of(e["cls"])
            for n_, v in [*e["vals"].items(), *e["later"]]:
                self.fix(fs[n_]["ty"], v, ents)
        return {"bgm": r.choice([0, 1, 3]), "ents": ents, "nest": r.randrange(3)}

    def value(self, ty, c, n):
        """A list of ["n", number] and ["@", entity]."""
        if ty == "n":
            return [["n", self.r.choice([0, 0, 1, 2, 7, -4, 19])]]
        if ty[0] == "e":
            return [["@", self.r.randrange(n)]] if self.chance(0.7) else [["n", self.r.randint(-1, 5)]]
        if ty[0] == "a":
            return [x for _ in range(ty[1]) for x in self.value(ty[2], c, n)]
        return [x for _, t in self.recs[ty[1]]["fields"] for x in self.value(t, c, n)]

    def fix(self, ty, v, ents):
        types = self.leaves(ty)
        for i, t in enumerate(types):
            if v[i][0] == "@" and t[1]:
                fits = [k for k, e in enumerate(ents) if t[1] in self.mro(e["cls"])]
                if v[i][1] not in fits:
                    v[i] = ["@", self.r.choice(fits)] if fits else ["n", 3]

    def leaves(self, ty):
        if ty == "n" or ty[0] == "e":
            return [ty]
        if ty[0] == "a":
            return [x for _ in range(ty[1]) for x in self.leaves(ty[2])]
        return [x for _, t in self.recs[ty[1]]["fields"] for x in self.leaves(t)]

    def project(self):
        r = self.r
        self.modes = {}
        self.fut = self.chance(0.4)
        self.records()
        self.resources()
        self.hierarchy()
        self.globals()
        self.related = {m: {k for c in self.modes[m] for k in self.mro(c) if k and self.cls[k]["mode"] == m} for m in ROOT}
        self.methods()
        while self.heaviest() > WEIGHT:
            for d in self.cls.values():
                if not d["derive"]:
                    d["meths"] = {}
            self.methods()
        tut = {}
        for m in TUTORIAL:
            tut[m] = self.method(0, "tutorial", m, "g", 0, False, [], None, 0)
        spawn = self.method(0, "watchglobal", "update_spawn", "", 0, True, [], None, 0)
        hist = []
        for mode in ROOT:
            for c in self.modes[mode]:
                for _ in range(2 if self.size > 2 and self.profile == "calls" else 1):
                    names = [m for m in CALLBACKS[mode] if m != PROBE[mode]]
                    hist.append({"mode": mode, "cls": c, "seed": r.randrange(97), "cbs": [r.choice(names) for _ in range(r.randint(3, 6))]})
        hist.append({"mode": "tutorial", "cls": 0, "seed": r.randrange(97), "cbs": [r.choice([*TUTORIAL]) for _ in range(4)]})
        hist.append({"mode": "watch", "cls": 0, "seed": r.randrange(97), "cbs": ["update_spawn"] * 2})
        for d in self.cls.values():
            for f in d["fields"]:
                f["np"] = len(parts(f["ty"], self.recs))
                f["num"] = int(f["ty"] == "n")
        return {
            "seed": self.seed, "recs": self.recs, "cls": [*self.cls.values()], "modes": self.modes, "globs": self.globs, "res": self.res,
            "opts": self.opts, "texts": self.texts, "nbuckets": self.nbuckets, "rom": self.rom, "tut": tut, "spawn": spawn,
            "hist": hist, "level": self.level(),
            "fut": int(self.fut), "build": [int(self.chance(0.85)) for _ in range(4)],
        }


# ---- Python source


class Source:
    def __init__(self, P):
        self.P = P
        self.recs = P["recs"]
        self.cls = {d["id"]: d for d in P["cls"]}
        self.out = []

    def nm(self, c):
        d = self.cls[c]
        return f"{'Mix' if d['mode'] in ('all', 'pw') else {'play': 'Play', 'watch': 'Watch', 'preview': 'Preview'}[d['mode']]}C{c}"

    def fields_of(self, c):
        return {f["n"]: f for k in self.cls[c]["mro"] if k for f in self.cls[k]["fields"]}

    def line(self, depth, text):
        self.out.append("    " * depth + text)

    def obj(self, o):
        if o[0] == "s":
            return "self"
        if o[0] == "at":
            return f"{self.nm(o[1])}.at({self.ex(o[2])}, check=False)"
        if o[0] == "ref":
            return f"{self.obj(o[1])}.{o[2]}.get(check=False)"
        return f"{self.obj(o[1])}.{o[2]}.with_archetype({self.nm(o[3])}).get(check=False)"

    def path(self, ty, comp):
        ps = parts(ty, self.recs)
        if len(comp) == 1:
            return ps[comp[0]]
        base, stride, n, e = comp
        tail = ps[base].split("]", 1)[1]
        return f"[({self.ex(e)}) % {n}]{tail}"

    def find(self, n):
        return next(f for d in self.P["cls"] for f in d["fields"] if f["n"] == n)

    def glob(self, g, f):
        G = next(x for x in self.P["globs"] if x["n"] == g)
        F = next(x for x in G["fields"] if x["n"] == f)
        return (f"{g}.{f}" if f else g), F["ty"]

    def ex(self, e):
        k = e[0]
        if k == "c":
            return str(e[1])
        if k == "v":
            return e[1]
        if k == "f":
            return f"{self.obj(e[1])}.{e[2]}{self.path(self.find(e[2])['ty'], e[3])}"
        if k == "g":
            n, ty = self.glob(e[1], e[2])
            return n + self.path(ty, e[3])
        if k == "rom":
            return f"K{e[1]}[({self.ex(e[2])}) % {len(self.P['rom'][e[1]])}]"
        if k in ("idx", "id", "key", "sc"):
            return f"{self.obj(e[1])}.{ {'idx': 'index', 'id': 'id', 'key': 'key', 'sc': 'is_scored'}[k] }"
        if k in ("cid", "ckey", "csc"):
            return f"{self.nm(e[1])}.{ {'cid': 'id', 'ckey': 'key', 'csc': 'is_scored'}[k] }"
        if k == "isat":
            return f"(1 if {self.nm(e[1])}.is_at({self.ex(e[2])}, strict={bool(e[3])}) else 0)"
        if k == "am":
            f = self.find(e[2])
            way = "" if f["ty"][1] else f".with_archetype({self.nm(e[3])})"
            return f"(1 if {self.obj(e[1])}.{e[2]}{way}.archetype_matches(strict={bool(e[4])}) else 0)"
        if k == "opt":
            return f"Opts.{self.P['opts'][e[1]]['n']}"
        if k == "bk":
            part = ["perfect.start", "perfect.end", "great.start", "great.end", "good.start", "good.end"][e[2]]
            return f"Bucks.b{e[1]}.window.{part}"
        if k == "inf":
            return f"(1 if ({self.ex(e[1])}) < inf else 0)"
        if k == "%":
            return f"(({self.ex(e[1])}) % {e[2]})"
        if k in ("<", "=="):
            return f"(1 if ({self.ex(e[1])}) {k} ({self.ex(e[2])}) else 0)"
        if k == "*":
            return f"(({self.ex(e[1])} * {self.ex(e[2])}) % {MOD})"
        return f"({self.ex(e[1])} {k} {self.ex(e[2])})"

    def make(self, ty, vs):
        """A value of the type from its numbers (consumed from the list)."""
        if ty == "n":
            return vs.pop(0)
        if ty[0] == "e":
            v = vs.pop(0)
            return v if v.endswith(".ref()") else f"{tyname(ty, self.nm)}(index={v})"
        if ty[0] == "a":
            return f"{tyname(ty, self.nm)}({', '.join([self.make(ty[2], vs) for _ in range(ty[1])])})"
        return f"R{ty[1]}({', '.join([self.make(t, vs) for _, t in self.recs[ty[1]]['fields']])})"

    def mod(self, e):
        return f"({self.ex(e)}) % {MOD}"

    def body(self, b, depth, cls):
        if not b:
            self.line(depth, "pass")
        for s in b:
            self.st(s, depth, cls)

    def st(self, s, d, cls):
        k = s[0]
        if k == "=":
            self.line(d, f"{s[1]} = {self.mod(s[2])}")
        elif k == "set":
            self.line(d, f"{self.obj(s[1])}.{s[2]}{self.path(self.find(s[2])['ty'], s[3])} = {self.mod(s[4])}")
        elif k == "setr":
            self.line(d, f"{self.obj(s[1])}.{s[2]} = {self.make(self.find(s[2])['ty'], [self.mod(e) for e in s[3]])}")
        elif k == "cpy":
            self.line(d, f"{self.obj(s[1])}.{s[2]} = {self.obj(s[3])}.{s[4]}")
        elif k == "setg":
            n, ty = self.glob(s[1], s[2])
            self.line(d, f"{n}{self.path(ty, s[3])} = {self.mod(s[4])}")
        elif k == "exp":
            self.line(d, f"self.{s[1]}{self.path(self.find(s[1])['ty'], s[2])} = {self.mod(s[3])}")
        elif k == "expr":
            self.line(d, f"self.{s[1]} = {self.make(self.find(s[1])['ty'], [self.mod(e) for e in s[2]])}")
        elif k == "spawn":
            args = [f"{n}={self.make(self.find(n)['ty'], [self.mod(e) for e in es])}" for n, es in s[2]]
            self.line(d, f"{self.nm(s[1])}.spawn({', '.join(args)})")
        elif k == "if":
            self.line(d, f"if {self.ex(s[1])}:")
            self.body(s[2], d + 1, cls)
            if s[3]:
                self.line(d, "else:")
                self.body(s[3], d + 1, cls)
        elif k in ("call", "sup"):
            who = self.obj(s[2]) if k == "call" else "super()"
            m, args = (s[3], s[4]) if k == "call" else (s[2], s[3])
            text = f"{who}.{m}({', '.join(self.mod(e) for e in args)})"
            # a callback without result
            self.line(d, f"{s[1]} = ({text}) % {MOD}" if s[1] and self.value(m) else text)
        elif k == "res":
            var = {"draw": "Sk", "play": "Ef", "particle": "Pt"}[s[1]]
            r = self.P["res"][s[1]][s[2]]
            sel = f"{var}.r{s[2]}" + (f"[({self.ex(s[3])}) % {r['group']}]" if r["group"] else "")
            self.line(d, sel + {"draw": ".draw(Rect(l=0, r=1, b=0, t=1))", "play": ".play()", "particle": ".spawn(Rect(l=0, r=1, b=0, t=1), 1)"}[s[1]])
        elif k == "text":
            self.line(d, f"Ins.{self.P['texts'][s[1]]}.show()")
        elif k == "ret":
            self.line(d, f"return {self.mod(s[1])}")
        else:
            self.line(d, f"debug_log({self.ex(s[1])})")

    def value(self, m):
        return m in HELPERS or m in ("spawn_order", "should_spawn", "spawn_time", "despawn_time")

    def field(self, f):
        t = tyname(f["ty"], self.nm)
        args = []
        if f["dn"]:
            args.append(f"name={f['dn']!r}")
        if f["def"] != ABSENT:
            args.append(f"default={f['def']}")
        call = SPEC[f["st"]]
        if f["st"] == "imported" and not args and f["form"] == 2:
            call = "entity_data"
        if f["form"] == 1 and not args:
            return f"{f['n']}: Annotated[{t}, {call}]" if call != "entity_data" else f"{f['n']}: Annotated[{t}, entity_data()]"
        if f["form"] == 2:
            return f"{f['n']}: Annotated[{t}, {call}({', '.join(args)})]"
        return f"{f['n']}: {t} = {call}({', '.join(args)})"

    def probe(self, c):
        """Say where everything is."""
        d = self.cls[c]
        mode = d["mode"]
        self.line(1, f"def {PROBE[mode]}(self):")
        for w in self.witness(c):
            if w[0] == "exported":
                self.line(2, f"self.{w[1]}{w[3]} = {w[4]}")
            elif w[0] == "glob":
                self.line(2, f"debug_log({w[1]}{'.' + w[2] if w[2] else ''}{w[3]})")
            else:
                self.line(2, f"debug_log(self.{w[1]}{w[3]})")
        self.line(2, "debug_log(-1)")

    def witness(self, c):
        """[kind, field, global field, path, number] in the order the probe names them."""
        d = self.cls[c] if c else {"mode": "tutorial"}
        out = []
        if c:
            for f in self.fields_of(c).values():
                for k, p in enumerate(parts(f["ty"], self.recs)):
                    out.append([f["st"], f["n"], "", p, 500 + k])
        for g in self.P["globs"]:
            if g["kind"] == "memory" and d["mode"] == "preview":
                continue
            for f in g["fields"]:
                for k, p in enumerate(parts(f["ty"], self.recs)):
                    out.append(["glob", g["n"], f["n"], p, k])
        return out

    def text(self):
        P = self.P
        self.out = [
            *(["from __future__ import annotations"] if P["fut"] else []),
            "from math import inf",
            "from typing import Annotated, Any",
            "from sonolus.script.archetype import *",
            "from sonolus.script.archetype import callback, entity_data, entity_memory, exported, imported, shared_memory, EntityRef, "
            "PlayArchetype, WatchArchetype, PreviewArchetype",
            "from sonolus.script.array import Array",
            "from sonolus.script.bucket import bucket, bucket_sprite, buckets, Bucket",
            "from sonolus.script.debug import debug_log",
            "from sonolus.script.effect import effect, effect_group, effects, Effect, EffectGroup",
            "from sonolus.script.engine import Engine, EngineData, PlayMode, PreviewMode, TutorialMode, WatchMode",
            "from sonolus.script.globals import level_data, level_memory",
            "from sonolus.script.instruction import instruction, instructions, Instruction",
            "from sonolus.script.level import LevelData",
            "from sonolus.script.options import options, select_option, slider_option, toggle_option",
            "from sonolus.script.particle import particle, particle_group, particles, Particle, ParticleGroup",
            "from sonolus.script.quad import Rect",
            "from sonolus.script.record import Record",
            "from sonolus.script.sprite import skin, sprite, sprite_group, Sprite, SpriteGroup",
            "",
        ]
        for i, rec in enumerate(P["recs"]):
            self.line(0, f"class R{i}(Record):")
            for n, t in rec["fields"]:
                self.line(1, f"{n}: {tyname(t, self.nm)}")
            if rec.get("truth"):
                self.line(1, "def __bool__(self):")
                self.line(2, "return self.t > 0")
        for i, row in enumerate(P["rom"]):
            self.line(0, f"K{i} = Array({', '.join(map(str, row))})")
        for g in P["globs"]:
            deco = "level_memory" if g["kind"] == "memory" else "level_data"
            if g["form"] == "value":
                self.line(0, f"{g['n']} = {deco}({tyname(g['fields'][0]['ty'], self.nm)})")
            else:
                self.line(0, f"@{deco}")
                self.line(0, f"class {g['n']}:")
                for f in g["fields"]:
                    self.line(1, f"{f['n']}: {tyname(f['ty'], self.nm)}")
        for k, deco, var, one in (("draw", "skin", "Sk", "Sprite"), ("play", "effects", "Ef", "Effect"), ("particle", "particles", "Pt", "Particle")):
            fn = {"skin": "sprite", "effects": "effect", "particles": "particle"}[deco]
            self.line(0, f"@{deco}")
            self.line(0, f"class {var}:")
            for i, r in enumerate(P["res"][k]):
                if r["group"]:
                    self.line(1, f"r{i}: {one}Group = {fn}_group({r['names']!r})")
                else:
                    self.line(1, f"r{i}: {one} = {fn}({r['names'][0]!r})")
            self.line(1, "pass")
        self.line(0, "@options")
        self.line(0, "class Opts:")
        for o in P["opts"]:
            nm = f"name={o['name']!r}, " if o["name"] else ""
            if o["k"] == 0:
                self.line(1, f"{o['n']}: float = slider_option({nm}default={o['def']}, min=0, max=9, step=1)")
            elif o["k"] == 1:
                self.line(1, f"{o['n']}: bool = toggle_option({nm}default={bool(o['def'] % 2)})")
            else:
                self.line(1, f"{o['n']}: int = select_option({nm}default={o['def'] % 2}, values=['a', 'b'])")
        self.line(1, "pass")
        self.line(0, "@buckets")
        self.line(0, "class Bucks:")
        for i in range(P["nbuckets"]):
            self.line(1, f"b{i}: Bucket = bucket(sprites=[], unit='unit{i}')")
        self.line(1, "pass")
        self.line(0, "@instructions")
        self.line(0, "class Ins:")
        for t in P["texts"]:
            self.line(1, f"{t}: Instruction = instruction({('#' + t)!r})")
        self.line(1, "pass")
        for d in P["cls"]:
            c = d["id"]
            if d["derive"]:
                key = f", key={d['key']}" if d["key"] != ABSENT else ""
                self.line(0, f"{self.nm(c)} = {self.nm(d['derive'])}.derive({d['nm']!r}, is_scored={bool(d['scored'])}{key})")
                continue
            bases = [ROOT[d["mode"]] if b == 0 else self.nm(b) for b in d["bases"]]
            self.line(0, f"class {self.nm(c)}{'(' + ', '.join(bases) + ')' if bases else ''}:")
            if d["nm"]:
                self.line(1, f"name = {d['nm']!r}")
            if d["key"] != ABSENT:
                self.line(1, f"key = {d['key']}")
            if d["scored"] >= 0:
                self.line(1, f"is_scored = {bool(d['scored'])}")
            for f in d["fields"]:
                self.line(1, self.field(f))
            for m, x in d["meths"].items():
                if x["order"] != ABSENT:
                    self.line(1, f"@callback(order={x['order']})")
                self.line(1, f"def {m}({', '.join(['self', *x['params']])}):")
                self.body(x["body"], 2, d)
            if d["mode"] in ROOT:
                self.probe(c)
            else:
                self.line(1, "pass")
        self.line(0, "def tut_preprocess():")
        for w in self.witness(0):
            self.line(1, f"debug_log({w[1]}{'.' + w[2] if w[2] else ''}{w[3]})")
        self.line(1, "debug_log(-1)")
        for m, x in P["tut"].items():
            self.line(0, f"def tut_{m}():")
            self.body(x["body"], 1, None)
        self.line(0, "def update_spawn():")
        self.body(P["spawn"]["body"], 1, None)

        def arch(m):
            return "[" + ", ".join(map(self.nm, P["modes"][m])) + "]"

        self.line(0, "data = EngineData(")
        self.line(1, "options=Opts,")
        self.line(1, f"play=PlayMode(archetypes={arch('play')}, skin=Sk, effects=Ef, particles=Pt, buckets=Bucks),")
        self.line(1, f"watch=WatchMode(archetypes={arch('watch')}, skin=Sk, effects=Ef, particles=Pt, buckets=Bucks, update_spawn=update_spawn),")
        self.line(1, f"preview=PreviewMode(archetypes={arch('preview')}, skin=Sk),")
        self.line(1, "tutorial=TutorialMode(skin=Sk, effects=Ef, particles=Pt, instructions=Ins, preprocess=tut_preprocess, "
                     "navigate=tut_navigate, update=tut_update),")
        self.line(0, ")")
        self.line(0, "def level():")
        L = P["level"]

        def lit(v):
            return str(v[1]) if v[0] == "n" else f"e{v[1]}.ref()"

        late = []
        for i, e in enumerate(L["ents"]):
            fs = self.fields_of(e["cls"])
            args = []
            for n, v in e["vals"].items():
                if all(x[0] == "n" or x[1] < i for x in v):
                    args.append(f"{n}={self.make(fs[n]['ty'], [lit(x) for x in v])}")
                else:
                    late.append(f"e{i}.{n} = {self.make(fs[n]['ty'], [lit(x) for x in v])}")
            self.line(1, f"e{i} = {self.nm(e['cls'])}({', '.join(args)})")
        for s in late:
            self.line(1, s)
        for i, e in enumerate(L["ents"]):
            fs = self.fields_of(e["cls"])
            for n, v in e["later"]:
                self.line(1, f"e{i}.{n} = {self.make(fs[n]['ty'], [lit(x) for x in v])}")
        es = [f"e{i}" for i in range(len(L["ents"]))]
        if L["nest"] and len(es) > 2:
            es = [es[0], f"[{', '.join(es[1:-1])}]" if L["nest"] == 1 else f"[[{es[1]}], [{', '.join(es[2:-1])}]]", es[-1]]
        self.line(1, f"return LevelData({L['bgm']}, [{', '.join(es)}])")
        return "\n".join(self.out) + "\n"


if __name__ == "__main__":
    import sys

    P = Gen(int(sys.argv[1])).project()
    print(Source(P).text())
