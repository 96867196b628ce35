"""Histories for containers: TLC's (joined end to end), random ones, and literal sets and maps."""

import json
import random

import contmpl

CFGS = ["minimal/none", "fast/terminate", "standard/terminate", "standard/none"]
RAND = [("var", "num", 5, "num"), ("var", "pair", 4, "num"), ("var", "rec", 6, "num"), ("var", "rec", 20, "num"), ("var", "num", 18, "num"),
        ("fix", "num", 5, "num"), ("fix", "num", 17, "num"), ("fix", "rec", 16, "num"), ("fix", "pair", 4, "num"), ("fix", "num", 1, "num"),
        ("rev", "num", 16, "num"), ("rev", "rec", 5, "num"), ("ring", "num", 5, "num"), ("ring", "rec", 16, "num"), ("ptr", "num", 6, "num"), ("ptr", "pair", 16, "num"),
        ("set", "num", 4, "num"), ("set", "rec", 3, "num"), ("set", "pair", 6, "num"),
        ("map", "num", 4, "num"), ("map", "pair", 3, "num"), ("map", "rec", 4, "pair"), ("map", "num", 5, "rec")]


def desc(fam, kind, cap, key="num"):
    return {"fam": fam, "kind": kind, "cap": cap, "key": key}


def reset(D):
    return {"var": [["clr", 0, 0, 0, 0], ["wclr", 0, 0, 0, 0]], "set": [["clr", 0, 0, 0, 0]], "map": [["clr", 0, 0, 0, 0]]}.get(D["fam"], [])


def jobs_of(hists, limit=390):
    """TLC's histories, one job per description; histories without errors joined end to end."""
    by = {}
    for h in hists:
        by.setdefault(json.dumps(h["D"], sort_keys=True), []).append(h)
    jobs = []
    for k, hs in sorted(by.items()):
        D = json.loads(k)
        out, cur = [], []
        for h in hs:
            ops = [[o[x] for x in "oabcd"] for o in h["ops"]]
            if h["err"]:
                out.append(ops)
                continue
            if len(cur) + len(ops) + 2 > limit:
                out.append(cur)
                cur = []
            cur = cur + reset(D) + ops
        jobs.append({"D": D, "hists": [*out, *([cur] if cur else [])], "static": False, "cfgs": CFGS})
    return jobs


def history(r, D, n, errors):
    """n random operations; a rough idea of the size keeps most of them inside the bounds."""
    drv = contmpl.Driver(D["fam"], D["kind"], D["cap"], D["key"])
    fam, cap = D["fam"], D["cap"]
    size = cap if fam in ("fix", "rev", "ring", "ptr") else 0
    wsize = size
    vals = r.choice([2, 3, 4, 8])
    mut = [o for o in drv.names if o in ("app", "appu", "ins", "pop", "popi", "del", "rem", "sadd", "srem", "ext", "add", "put", "set", "seti")]
    h = []

    def index(top):
        return r.randrange(-top, top) if top else 0

    for _ in range(n):
        op = r.choice(mut) if r.random() < 0.45 else r.choice(drv.names)
        if op in ("clr", "wclr", "frac") and r.random() < 0.8:
            continue
        bad = errors and r.random() < 0.03
        a, b, c, d = r.randrange(vals), r.randrange(vals), r.randrange(vals), r.randrange(vals)
        if fam in ("set", "map"):
            if op == "put" and size >= cap and not bad and r.random() < 0.7:
                continue
            if op in ("get", "del", "pop", "aug"):
                # ask first, so that the answer is there
                known = [x for x in h if x[0] == "put"]
                if known and not bad:
                    a, b = r.choice(known[-cap:])[1:3]
                if not errors:
                    continue
            size = min(cap, size + (op in ("put", "add"))) if op not in ("clr",) else 0
            h.append([op, a, b, c, d])
            continue
        if not bad:
            if op in ("get", "del", "popi", "rget", "poke") and not size or op in ("max", "maxk", "pop", "pick") and not size:
                continue
            if op == "frac" and not bad:
                continue
            if op in ("app", "ins", "appi") and size >= cap or op == "wapp" and wsize >= cap:
                continue
            if op == "appi" and not size:
                continue
            if op in ("ext", "iadd") and size + wsize > cap or op == "extx" and size + 2 > cap or op == "exts" and 2 * size > cap:
                continue
            if op in ("set", "rset", "seti", "swap") and not size:
                continue
        if op in ("get", "del", "popi", "rget", "poke", "appi"):
            a = index(size + bad)
        if op in ("set", "rset"):
            c = index(size + bad)
        if op in ("getu", "swapu"):
            a, b = r.randrange(size + 1), r.randrange(size + 1)
        if op == "setu":
            c = r.randrange(size + 1)
        if op == "seti":
            a, b = index(size + bad), index(size)
        if op == "swap":
            a, b = r.randrange(size + bad) if size + bad else 0, r.randrange(size) if size else 0
        if op == "ins":
            c = r.randint(-size - bad, size + bad)
        if op in ("idx1", "idx2"):
            c, d = r.randint(-size - 2, size + 2), r.randint(-size - 2, size + 2)
        if op in ("eachpoke", "rpoke", "enum"):
            a = r.randint(-2, 3)
        h.append([op, a, b, c, d])
        # how large it may be now; what depends on its contents is not followed
        if op in ("app", "ins", "appi"):
            size = min(cap, size + 1)
        elif op in ("appu",):
            size = min(cap, size + 1)
        elif op in ("pop", "popi", "del"):
            size = max(0, size - 1)
        elif op in ("clr", "rem", "srem", "sadd"):
            size = 0 if op == "clr" else size
        elif op == "wapp":
            wsize = min(cap, wsize + 1)
        elif op == "wclr":
            wsize = 0
        elif op == "wcopy":
            wsize = size
        elif op == "vcopy":
            size = wsize
        elif op in ("ext", "iadd"):
            size = min(cap, size + wsize)
        elif op == "extx":
            size = min(cap, size + 2)
        elif op == "exts":
            size = min(cap, 2 * size)
        if op in ("rem", "srem", "sadd"):
            if fam == "var":  # the size is no longer known: start over
                h.append(["clr", 0, 0, 0, 0])
                size = 0
                for _ in range(r.randint(0, cap)):
                    h.append(["app", r.randrange(vals), r.randrange(vals), 0, 0])
                    size += 1
    return h


class LitDriver:
    """A set or map written as a literal (or FrozenNumSet.of), asked at run time."""

    def __init__(self, D, v):
        self.D, self.v = D, v
        self.id = f"lit-{D['form']}-{D['key']}-{D['kind']}-{len(v)}"
        self.names = ["lhas", "llen", *(["lget", "lgetd", "litems", "lkeys"] if D["form"] == "map" else []),
                      *(["lbag"] if D["form"] != "map" else [])]

    def encode(self, h):
        return [x for op, *args in h for x in (self.names.index(op), *args)]

    def dynamic(self):
        D, v = self.D, self.v
        kw = 1 if D["key"] == "num" else 2
        kk = contmpl.Kind(D["key"])
        keys = [e[:kw] for e in v]
        out = [contmpl.HEAD]
        pre = []
        if D["form"] in ("set", "map"):
            if D["key"] != "num":
                out += [f"K{i} = {kk.mk(*k)}" for i, k in enumerate(keys)]
            kt = [str(k[0]) if D["key"] == "num" else f"K{i}" for i, k in enumerate(keys)]
        if D["form"] == "map":
            vk = contmpl.Kind(D["kind"])
            if D["kind"] != "num":
                out += [f"V{i} = {vk.mk(*e[kw:])}" for i, e in enumerate(v)]
            vt = [str(e[kw]) if D["kind"] == "num" else f"V{i}" for i, e in enumerate(v)]
            cut = D["cut"]
            pair = [f"{k}: {x}" for k, x in zip(kt, vt, strict=True)]
            lit = "{" + ", ".join(pair) + "}" if not cut else "({" + ", ".join(pair[:cut]) + "} | {" + ", ".join(pair[cut:]) + "})"
        elif D["form"] == "set":
            cut = D["cut"]
            lit = "{" + ", ".join(kt) + "}" if not cut else "({" + ", ".join(kt[:cut]) + "} | {" + ", ".join(kt[cut:]) + "})"
        elif D["form"] == "frozen":
            lit = "FrozenNumSet.of(" + ", ".join(str(k[0]) for k in keys) + ")"
        else:  # the members are read at run time
            lit = "FrozenNumSet.of(" + ", ".join(f"code[{1900 + i}]" for i in range(len(keys))) + ")"
            pre = [f"code[{1900 + i}] = {k[0]}" for i, k in enumerate(keys)]
        body = [*pre, f"f = {lit}", "pc = 0", "while pc < n:", "    op = code[pc]"]
        body += [f"    {x} = code[pc + {i}]" for i, x in enumerate("abcd", 1)]
        body += ["    pc += 5", "    debug_log(-7001)", "    match op:"]
        q = kk.mk("a", "b")
        show = (lambda e: contmpl.Kind(D["kind"]).show(e)) if D["kind"] != "none" else None
        kshow = lambda e: kk.show(e, "q1")  # noqa: E731
        text = {
            "lhas": [f"debug_log({q} in f)", f"debug_log({q} not in f)"],
            "llen": ["debug_log(len(f))"],
            "lget": show and show(f"f[{q}]"),
            "lgetd": show and show(f"f.get({q}, {contmpl.Kind(D['kind']).mk('c', 'd')})"),
            "lkeys": ["for k in f:", *["    " + x for x in kshow("k")]],
            "lbag": ["for k in f:", *["    " + x for x in kshow("k")]],
            "litems": show and ["for k, e in f.items():", *["    " + x for x in kshow("k")], *["    " + x for x in show("e")]],
        }
        for i, op in enumerate(self.names):
            body += [f"        case {i}:", *["            " + x for x in text[op]]]
        body += ["        case _:", "            pass", "    debug_log(-7002)", "debug_log(-7003)"]
        return "\n".join(out) + "\n\n\ndef main(code, n):\n" + "\n".join("    " + x for x in body) + "\n"


def literal(r):
    form = r.choice(["set", "set", "map", "map", "map", "frozen", "frozen", "frozenrt"])
    key = r.choice(["num", "num", "num", "pair"]) if form in ("set", "map") else "num"
    kind = r.choice(["num", "num", "pair"]) if form == "map" else "none"
    n = r.choice([1, 2, 3, 4, 5, 7, 8, 12]) if form in ("set", "map") else r.choice([1, 2, 3, 7, 15, 16, 17, 18, 23, 31, 40])
    span = n + r.choice([0, 1, 3, 10, 60])
    keys = r.sample(range(-span, span), n) if key == "num" else r.sample([(x, y) for x in range(5) for y in range(-2, 3)], n)
    keys = [[k] if key == "num" else list(k) for k in keys]
    v = [[*k, *[r.randint(-5, 5) for _ in range({"none": 0, "num": 1, "pair": 2}[kind])]] for k in keys]
    D = {"fam": "lit", "form": form, "kind": kind, "cap": n, "key": key, "cut": r.choice([0, 0, 0, 1 if n > 1 else 0])}
    drv = LitDriver(D, v)
    ask = [*keys, *([[k[0] + 1] if key == "num" else [k[0], k[1] + 1] for k in keys]), [99] if key == "num" else [99, 0]]
    h = []
    for k in r.sample(ask, len(ask)):
        for op in drv.names:
            if op == "lget" and k not in keys or op in ("litems", "lkeys", "lbag", "llen") and r.random() < 0.8:
                continue
            h.append([op, k[0], k[1] if key == "pair" else 0, 7, 0])
    hists = [h[:300]]
    if "lget" in drv.names:
        hists.append([["lget", *(ask[-1] if key == "pair" else [99, 0]), 0, 0]])
    return {"D": D, "v": v, "hists": hists, "static": False, "cfgs": CFGS}


class LinkDriver:
    """A linked list of entities, sorted; read forwards and, if it has them, along the backward links."""

    def __init__(self, D):
        self.D, self.v = D, []
        self.id = f"link-{'two' if D['prev'] else 'one'}"
        self.names = ["lsort"]

    def encode(self, h):
        return [len(self.v), *[x for e in self.v for x in e]]

    def dynamic(self):
        prev = self.D["prev"]
        return "\n".join([
            "from typing import Any",
            "from sonolus.script.archetype import EntityRef, PlayArchetype, shared_memory",
            "from sonolus.script.containers import sort_linked_entities",
            "from sonolus.script.debug import debug_log",
            "", "",
            "class Node(PlayArchetype):",
            "    pad: int = shared_memory()",
            "    rank: int = shared_memory()",
            "    next: EntityRef[Any] = shared_memory()",
            "    prev: EntityRef[Any] = shared_memory()",
            "", "",
            "def main(code, n):",
            "    size = code[0]",
            "    i = 0",
            "    while i < size:",
            "        node = Node.at(code[2 * i + 2])",
            "        node.rank = code[2 * i + 1]",
            "        node.next.index = code[2 * i + 4] if i + 1 < size else 0",
            "        node.prev.index = code[2 * i] if i > 0 else -7",
            "        i += 1",
            "    debug_log(-7001)",
            "    head = sort_linked_entities(EntityRef[Node](code[2] if size > 0 else 0), get_value=lambda e: e.rank,",
            "                                get_next_ref=lambda e: e.next" + (", get_prev_ref=lambda e: e.prev)" if prev else ")"),
            "    at = head.index",
            "    last = 0",
            "    steps = 0",
            "    while at > 0 and steps < 100:",
            "        debug_log(Node.at(at).rank)",
            "        debug_log(at)",
            "        last = at",
            "        at = +Node.at(at).next.index",
            "        steps += 1",
            *([
                "    at = +last",
                "    steps = 0",
                "    while at > 0 and steps < 100:",
                "        debug_log(Node.at(at).rank)",
                "        debug_log(at)",
                "        at = +Node.at(at).prev.index",
                "        steps += 1",
            ] if prev else []),
            "    debug_log(-7002)",
            "    debug_log(-7003)",
        ]) + "\n"


def linked(r, count, prev):
    vs = []
    for _ in range(count):
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 23])
        top = r.choice([1, 2, 3, 5, 100])
        v = [[r.randint(-top, top), e] for e in r.sample(range(1, 60), n)]
        if r.random() < 0.2:
            v.sort(key=lambda e: e[0], reverse=r.random() < 0.5)
        vs.append(v)
    D = {"fam": "link", "kind": "num", "cap": 0, "key": "num", "prev": prev}
    return {"D": D, "vs": vs, "hists": [[["lsort", 0, 0, 0, 0]]] * count, "static": False, "cfgs": CFGS}


def driver(job):
    D = job["D"]
    if D["fam"] in ("lit", "link"):
        return LitDriver(D, job["v"]) if D["fam"] == "lit" else LinkDriver(D)
    return contmpl.Driver(D["fam"], D["kind"], D["cap"], D["key"])


def random_jobs(seed, loops, statics, lits, links):
    r = random.Random(f"con-{seed}")
    jobs = []
    for d in RAND:
        D = desc(*d)
        jobs.append({"D": D, "hists": [history(r, D, r.choice([10, 25, 50]), i % 3 == 0) for i in range(loops)], "static": False, "cfgs": CFGS})
        if d[0] != "ptr" and d[2] <= 6:
            jobs.append({"D": D, "hists": [history(r, D, 12, False) for _ in range(statics)], "static": True,
                         "cfgs": ["minimal/terminate", "fast/none", "standard/none", "standard/terminate"]})
    return jobs + [literal(r) for _ in range(lits)] + [linked(r, links, prev) for prev in (False, True)]
