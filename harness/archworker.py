"""Build random projects (archgen.py) in several configurations, run every callback of the packaged engines, read back
the packaged level; write down what was seen.

argv: out.json progress jobs.json; a job is {"seed", "size", "profile", "cfgs"}, with "given" for
hierarchies TLC made.
"""

import gzip
import importlib
import json
import os
import signal
import struct
import sys
import traceback

sys.setrecursionlimit(10000)
sys.path.insert(0, os.getcwd())

import shim  # noqa: E402, F401
import archgen  # noqa: E402
from sonolus.backend.interpret import BreakException, Interpreter  # noqa: E402
from sonolus.backend.node import FunctionNode  # noqa: E402
from sonolus.backend.ops import Op  # noqa: E402
from sonolus.build.engine import package_engine  # noqa: E402
from sonolus.build.level import package_level_data  # noqa: E402
from sonolus.script.internal.context import RuntimeChecks  # noqa: E402
from sonolus.script.level import parse_external_level_data  # noqa: E402
from sonolus.script.project import BuildConfig  # noqa: E402

LEVELS = {"minimal": BuildConfig.MINIMAL_PASSES, "fast": BuildConfig.FAST_PASSES, "standard": BuildConfig.STANDARD_PASSES}
ROM, TEMP = 3000, 10000
INFO = {"play": (4003, 4103, 3), "watch": (4003, 4103, 3), "preview": (4002, 4102, 2), "tutorial": (-1, -1, 1)}
EFFECTS = {Op.DebugLog: "log", Op.Spawn: "spawn", Op.ExportValue: "export", Op.Draw: "draw", Op.Play: "play", Op.SpawnParticleEffect: "particle"}
BLOCKS = {"play": {"memory": 4000, "imported": 4001, "shared": 4002}, "watch": {"memory": 4000, "imported": 4001, "shared": 4002},
          "preview": {"imported": 4000, "shared": 4001}}
GLOBALS = {"play": {"memory": 2000, "data": 2001}, "watch": {"memory": 2000, "data": 2001}, "preview": {"data": 2000},
           "tutorial": {"memory": 2000, "data": 2001}}
TORN = 987654321


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang


def whole(x):
    try:
        return int(x) if x == int(x) and abs(x) < 10**8 else TORN
    except (TypeError, ValueError, OverflowError):
        return TORN


class Machine(Interpreter):
    """Cells have a value before they are first written."""

    def __init__(self, rom, first):
        super().__init__()
        self.rom, self.first = rom, first
        self.store, self.seen = {}, []

    def get(self, block, index):
        b, i = self.ensure_int(block), self.ensure_int(index)
        assert 0 <= i <= 65535
        if b == ROM:
            return self.rom[i]
        if b == TEMP:
            return self.store.get((b, i), -1.0)
        return self.store[b, i] if (b, i) in self.store else self.first(b, i)

    def set(self, block, index, value):
        b, i = self.ensure_int(block), self.ensure_int(index)
        assert 0 <= i <= 65535 and b != ROM
        self.store[b, i] = value
        return value

    def run(self, node):
        if isinstance(node, FunctionNode) and node.func in EFFECTS:
            args = [whole(self.run(a)) for a in node.args]
            kind = EFFECTS[node.func]
            if kind in ("draw", "play", "particle"):
                args = args[:1]
            self.seen.append([kind, args[0], args[1:]])
            return 0.0
        return super().run(node)


def nodes_of(data):
    out = []
    for n in data["nodes"]:
        out.append(n["value"] if "value" in n else FunctionNode(Op(n["func"]), tuple(out[i] for i in n["args"])))
    return out


def carry_out(m, node):
    """Run one callback; what it does to the world."""
    m.seen = []
    ret, end = archgen.ABSENT, "ok"
    signal.alarm(20)
    try:
        ret = whole(m.run(node))
    except BreakException as e:
        ret = whole(e.value)
    except Hang:
        end = "hangs"
    except Exception as e:  # noqa: BLE001
        end = "fails: " + "".join(traceback.format_exception_only(e)).strip()[-200:]
    finally:
        signal.alarm(0)
    for k in [k for k in m.store if k[0] == TEMP]:
        del m.store[k]
    return m.seen, ret, end


class Project:
    def __init__(self, P, name):
        self.P, self.name = P, name
        self.src = archgen.Source(P)
        with open(name + ".py", "w") as f:
            f.write(self.src.text())
        importlib.invalidate_caches()
        self.mod = importlib.import_module(name)

    def clear(self):
        sys.modules.pop(self.name, None)
        if not os.environ.get("VERIF_KEEP"):
            os.remove(self.name + ".py")

    def build(self, cfg):
        level, checks, flags = cfg
        c = BuildConfig(passes=LEVELS[level], runtime_checks=RuntimeChecks[checks.upper()],
                        build_play=bool(flags[0]), build_watch=bool(flags[1]), build_preview=bool(flags[2]), build_tutorial=bool(flags[3]))
        p = package_engine(self.mod.data, c)
        js = lambda b: json.loads(gzip.decompress(b))  # noqa: E731
        rom = gzip.decompress(p.rom)
        self.rom = [v for (v,) in struct.iter_unpack("<f", rom)]
        self.data = {"play": js(p.play_data), "watch": js(p.watch_data), "preview": js(p.preview_data), "tutorial": js(p.tutorial_data)}
        self.conf = js(p.configuration)
        self.nodes = {m: nodes_of(d) for m, d in self.data.items()}

    def observe(self, cfg):
        P = self.P
        self.build(cfg)
        on = dict(zip(("play", "watch", "preview", "tutorial"), cfg[2], strict=True))
        eng = {}
        for m, d in self.data.items():
            eng[m] = {
                "on": on[m],
                "arch": [self.entry(m, a) for a in d.get("archetypes", [])],
                "names": {
                    "draw": self.named(d["skin"]["sprites"]), "play": self.named(d.get("effect", {}).get("clips", [])),
                    "particle": self.named(d.get("particle", {}).get("effects", [])),
                    "text": self.named(d.get("instruction", {}).get("texts", [])),
                    "unit": [[b.get("unit", ""), i] for i, b in enumerate(d.get("buckets", []))],
                },
            }
        opts = [[o["name"], i] for i, o in enumerate(self.conf["options"])]
        wit, globs = {}, {}
        for m in archgen.ROOT:
            wit[m] = [{} for _ in P["cls"]]
            globs[m] = []
            if on[m]:
                for c in P["modes"][m]:
                    w, g = self.probe(m, c)
                    wit[m][c - 1] = w
                    globs[m].append(g)
        globs["tutorial"] = [self.probe("tutorial", 0)[1]] if on["tutorial"] else []
        hist = [self.history(h) if on[h["mode"]] else [] for h in P["hist"]]
        return {"eng": eng, "opts": opts, "wit": wit, "globs": globs, "hist": hist}

    def named(self, entries):
        return [[e["name"], e["id"]] for e in entries]

    def entry(self, m, a):
        cbs = {}
        for py in archgen.CALLBACKS[m]:
            head, *rest = py.split("_")
            js = head + "".join(w.capitalize() for w in rest)
            if js in a:
                cbs[py] = a[js]["order"]
        return {
            "name": a["name"], "hasInput": int(a["hasInput"]),
            "imports": [[i["name"], i["index"], whole(i.get("def", archgen.ABSENT))] for i in a["imports"]],
            "exports": a.get("exports", []), "cbs": cbs,
        }

    def root(self, mode, c, cb):
        head, *rest = cb.split("_")
        js = head + "".join(w.capitalize() for w in rest)
        if c == 0:
            return self.nodes[mode][self.data[mode][js]]
        a = self.data[mode]["archetypes"][self.P["modes"][mode].index(c)]
        return self.nodes[mode][a[js]["index"]] if js in a else None

    def probe(self, mode, c):
        """Where each part of each field and global is."""
        m = Machine(self.rom, lambda b, i: b * 1000 + i)
        node = self.root(mode, c, archgen.PROBE[mode])
        seen, _, end = carry_out(m, node) if node is not None else ([], 0, "missing")
        logs = iter([s[1] for s in seen if s[0] == "log"])
        exports = iter([s for s in seen if s[0] == "export"])
        w, g = {}, {}
        src = self.src.cls[c]["derive"] or c if c else 0
        kinds = {x["n"]: x["kind"] for x in self.P["globs"]}
        for kind, f, gf, _, k in self.src.witness(src):
            if kind == "exported":
                e = next(exports, None)
                w.setdefault(f, []).append(e[1] if e and e[2] == [k] else -1)
                continue
            block = GLOBALS[mode][kinds[f]] if kind == "glob" else BLOCKS[mode][kind]
            v = next(logs, -1) - 1000 * block
            cell = v if 0 <= v < 1000 else -1
            if kind == "glob":
                g.setdefault(f"{f}.{gf}", []).append(cell)
            else:
                w.setdefault(f, []).append(cell)
        if end != "ok" or next(logs, None) != -1:
            w["!"] = [-1]
        return w, g

    def first(self, h):
        mode, seed = h["mode"], h["seed"]
        one, many, stride = INFO[mode]
        n = max(1, len(self.P["modes"].get(mode, [])))
        mine = self.P["modes"][mode].index(h["cls"]) if h["cls"] else 0

        def at(b, i):
            if b == one:
                return [seed % 8, mine, seed % 3][i % 3]
            if b == many:
                e, k = divmod(i, stride)
                return [e, (e * 5 + seed) % n, (e + seed) % 3][k]
            return (i * 13 + b * 7 + seed) % archgen.MOD

        return at

    def history(self, h):
        first = self.first(h)
        m = Machine(self.rom, first)
        out = []
        for cb in h["cbs"]:
            node = self.root(h["mode"], h["cls"], cb)
            if node is None:
                seen, ret, end = [], archgen.ABSENT, "absent"
            else:
                seen, ret, end = carry_out(m, node)
            out.append({
                "end": end, "ret": ret,
                "log": [s for s in seen if s[0] != "export"], "exp": [[s[1], s[2][0]] for s in seen if s[0] == "export"],
                "mem": sorted([b, i, whole(v)] for (b, i), v in m.store.items() if v != first(b, i)),
            })
        return out

    def level(self):
        try:
            b = package_level_data(self.mod.level())
            raw = json.loads(gzip.decompress(b))
            ext = parse_external_level_data(b)
        except Exception as e:  # noqa: BLE001
            while e.__cause__ is not None:
                e = e.__cause__
            return {"error": "".join(traceback.format_exception_only(e)).strip()[-300:], "bgm": 0, "ents": [], "ext": []}
        return {
            "error": "", "bgm": whole(raw["bgmOffset"]) if raw["bgmOffset"] == ext.bgm_offset else TORN,
            "ents": [{"name": e["name"], "arch": e["archetype"],
                      "data": [[x["name"], "@", 0, x["ref"]] if "ref" in x else [x["name"], "n", whole(x["value"]), ""] for x in e["data"]]}
                     for e in raw["entities"]],
            "ext": [{"arch": e.archetype, "data": [[k, whole(v)] for k, v in e.data.items()]} for e in ext.entities],
        }


def main():
    out, progress, jobs = sys.argv[1:]
    signal.signal(signal.SIGALRM, on_alarm)
    with open(jobs) as f:
        jobs = json.load(f)
    cases, rejected, runs = [], [], 0
    for j in jobs:
        with open(progress, "w") as f:
            f.write(f"project {j['seed']}")
        profile = j.get("profile", "calls")
        P = archgen.Gen(j["seed"], j["size"], profile, j.get("given")).project()
        pid = f"{profile}/{j['seed']}/{j['size']}"
        name = f"arch_{os.getpid()}_{profile}_{j['seed']}_{j['size']}"
        try:
            pr = Project(P, name)
        except Exception as e:  # noqa: BLE001
            rejected.append({"id": pid, "cfg": "", "error": "".join(traceback.format_exception_only(e)).strip()[-400:]})
            continue
        obs = {}
        cfgs = [[l, c, P["build"] if c == "flags" else [1, 1, 1, 1]] for l, c in j["cfgs"]]
        for cfg in cfgs:
            label = "/".join([*cfg[:2], "".join(map(str, cfg[2]))])
            cfg[1] = "none" if cfg[1] == "flags" else cfg[1]
            signal.alarm(120)
            try:
                o = pr.observe(cfg)
            except Hang:
                rejected.append({"id": pid, "cfg": label, "error": "does not terminate"})
                continue
            except Exception as e:  # noqa: BLE001
                while e.__cause__ is not None:
                    e = e.__cause__
                rejected.append({"id": pid, "cfg": label, "error": "".join(traceback.format_exception_only(e)).strip()[-400:]})
                continue
            finally:
                signal.alarm(0)
            runs += sum(map(len, o["hist"]))
            key = json.dumps(o)
            if key in obs:
                obs[key]["cfg"] += " " + label
            else:
                obs[key] = {"cfg": label, **o}
        cases.append({"id": pid, "P": P, "obs": list(obs.values()), "level": pr.level()})
        pr.clear()
    with open(out, "w") as f:
        json.dump(cases, f)
    print(json.dumps({"cases": len(cases), "runs": runs, "rejected": rejected}))


if __name__ == "__main__":
    main()
