"""Carry out histories of container operations as Python and compiled at every level; write down what was seen.

argv: out.json progress jobs.json
A job: {"D": description, "hists": [[[op, a, b, c, d], ...], ...], "static": bool, "cfgs": [...]}; see conhist.py.
"""

import importlib
import json
import os
import random
import signal
import sys
import traceback

sys.setrecursionlimit(10000)
sys.path.insert(0, os.getcwd())

import shim  # noqa: E402, F401
import conhist  # noqa: E402
from sonolus.backend.interpret import BreakException, Interpreter  # noqa: E402
from sonolus.backend.mode import Mode  # noqa: E402
from sonolus.backend.optimize import (  # noqa: E402
    FAST_PASSES,
    MINIMAL_PASSES,
    STANDARD_PASSES,
    OptimizerConfig,
    cfg_to_engine_node,
    run_passes,
)
from sonolus.backend.place import BlockPlace  # noqa: E402
from sonolus.build.compile import callback_to_cfg  # noqa: E402
from sonolus.script.array import Array  # noqa: E402
from sonolus.script.debug import debug_log_callback, simulation_context  # noqa: E402
from sonolus.script.internal.context import ModeContextState, ProjectContextState, RuntimeChecks  # noqa: E402
from sonolus.script.internal.meta_fn import meta_fn  # noqa: E402
from sonolus.script.internal.visitor import clear_frontend_caches, compile_and_call  # noqa: E402
from sonolus.script.num import Num  # noqa: E402

LEVELS = {"minimal": MINIMAL_PASSES, "fast": FAST_PASSES, "standard": STANDARD_PASSES}
CODE, ROM, PTR, INFO = 2000, 3000, 2001, 4103
SIZE = 2000  # cells of code
TORN = 987654321


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang


def whole(x):
    try:
        x = x._as_py_() if hasattr(x, "_as_py_") else x
        return int(x) if x == int(x) and abs(x) < 10**9 else TORN
    except (TypeError, ValueError, OverflowError):
        return TORN


def parse(log, end):
    """Split the log into steps: -7001 out... [-7002 contents... [-7004 contents...]]; -7003 ends the program."""
    steps, part = [], None
    done = False
    for x in log:
        if x == -7001:
            steps.append({"out": [], "v": [], "w": [], "whole": False})
            part = "out"
        elif x == -7002 and steps:
            part = "v"
            steps[-1]["whole"] = True
        elif x == -7004 and steps:
            part = "w"
        elif x == -7003:
            done = True
        elif steps:
            steps[-1][part].append(x)
    if steps and not steps[-1].pop("whole"):
        steps.pop()
    for s in steps:
        s.pop("whole", None)
    if end == "ok" and not done:
        end = "error"  # the callback was left early
    return {"steps": steps, "end": end}


def plain(call):
    out = []
    token = debug_log_callback.set(lambda x: out.append(whole(x)) or 0)
    end, err = "ok", ""
    signal.alarm(20)
    try:
        with simulation_context():
            call()
    except Hang:
        end = "hangs"
    except (AssertionError, IndexError, ValueError, RuntimeError, KeyError) as e:
        end, err = "error", repr(e)[:200]
    except Exception as e:  # noqa: BLE001
        end, err = "raised", "".join(traceback.format_exception(e))[-600:]
    finally:
        signal.alarm(0)
        debug_log_callback.reset(token)
    return parse(out, end), err


def compiled(body, level, checks, archetypes):
    clear_frontend_caches()
    ps = ProjectContextState(runtime_checks=RuntimeChecks[checks.upper()])

    @meta_fn
    def wrapper():
        body()
        return Num(0)

    cfg = callback_to_cfg(ps, ModeContextState(Mode.PLAY, archetypes), wrapper, "")
    return cfg_to_engine_node(run_passes(cfg, LEVELS[level], OptimizerConfig())), ps.rom.values


def interpret(node, rom, code):
    it = Interpreter()
    for i, v in enumerate(rom):
        it.set(ROM, i, v)
    for i, v in enumerate(code):
        it.set(CODE, i, v)
    for i in range(64):
        it.set(PTR, i, 0)
        it.set(INFO, 3 * i + 1, 0)
    end = "ok"
    signal.alarm(20)
    try:
        it.run(node)
    except BreakException:
        pass
    except Hang:
        end = "hangs"
    except Exception:  # noqa: BLE001
        end = "raised"
    finally:
        signal.alarm(0)
    return parse([whole(x) for x in it.log], end)


class Job:
    def __init__(self, job, name):
        self.D, self.job = job["D"], job
        self.drv = conhist.driver(job)
        self.name = name
        self.rejected, self.mods, self.count = [], [], 0

    def module(self, text):
        # a new name each time: the compiler reads the source of a function through the line cache
        self.count += 1
        name = f"{self.name}_{self.count}"
        with open(name + ".py", "w") as f:
            f.write(text)
        importlib.invalidate_caches()
        self.mods.append(name)
        mod = importlib.import_module(name)
        self.archetypes = [mod.Node] if hasattr(mod, "Node") else None
        for a in self.archetypes or []:
            a._init_fields()
        return mod

    def clear(self):
        for name in self.mods:
            sys.modules.pop(name, None)
            if not os.environ.get("VERIF_KEEP"):
                os.remove(name + ".py")

    def build(self, body, cfg):
        signal.alarm(120)
        try:
            return compiled(body, *cfg.split("/"), self.archetypes)
        except Hang:
            self.rejected.append({"cfg": cfg, "error": "does not terminate"})
        except Exception as e:  # noqa: BLE001 -- every program is one the compiler accepts
            while e.__cause__ is not None:
                e = e.__cause__
            self.rejected.append({"cfg": cfg, "error": "".join(traceback.format_exception_only(e)).strip()[-400:]})
        finally:
            signal.alarm(0)
        return None

    def run(self):
        D, out = self.D, []
        if not self.job["static"]:
            mod = self.module(self.drv.dynamic())
            body = lambda: compile_and_call(  # noqa: E731
                mod.main, Array[Num, SIZE]._from_place_(BlockPlace(CODE, 1, 0)), Num._from_place_(BlockPlace(CODE, 0, 0)))
            nodes = {cfg: self.build(body, cfg) for cfg in self.job["cfgs"]}
        for i, h in enumerate(self.job["hists"]):
            v = self.job["vs"][i] if "vs" in self.job else self.job.get("v", [])
            self.drv.v = v
            random.seed(json.dumps(h))
            runs, err = [], ""
            if self.job["static"]:
                mod = self.module(self.drv.static(h))
                call = mod.main
                nodes = {cfg: self.build(lambda: compile_and_call(mod.main), cfg) for cfg in self.job["cfgs"]}
                code = []
            else:
                code = [5 * len(h), *self.drv.encode(h)]
                call = lambda: mod.main(Array[Num, SIZE](*code[1:], *[0] * (SIZE + 1 - len(code))), code[0])  # noqa: B023, E731
            if D["fam"] not in ("ptr", "link"):
                r, err = plain(call)
                runs.append({"cfg": "python", **r})
            failed = bool(runs) and runs[0]["end"] != "ok"
            # without checks, what follows an error is anything
            for cfg, n in sorted(nodes.items(), key=lambda e: e[0].endswith("/none")):
                if n and not (cfg.endswith("/none") and failed):
                    runs.append({"cfg": cfg, **interpret(*n, code)})
                    failed |= runs[-1]["end"] == "error"
            # equal runs are judged once
            kept = {}
            for r in runs:
                key = json.dumps([r["steps"], r["end"]])
                if key in kept:
                    kept[key]["cfg"] += " " + r["cfg"]
                else:
                    kept[key] = r
            out.append({"D": D, "v": v, "runs": list(kept.values()), "err": err,
                        "ops": [dict(zip("oabcd", o, strict=True)) for o in h]})
        return out


def main():
    out, progress, jobs = sys.argv[1:]
    signal.signal(signal.SIGALRM, on_alarm)
    cases, rejected = [], []
    with open(jobs) as f:
        jobs = json.load(f)
    for n, j in enumerate(jobs):
        with open(progress, "w") as f:
            f.write(f"job {n}: {j['D']}")
        job = Job(j, f"con_{os.getpid()}_{n}")
        for i, c in enumerate(job.run()):
            c["id"] = f"{job.drv.id}/{'static' if j['static'] else 'loop'}/{n}/{i}"
            cases.append(c)
        job.clear()
        rejected += [{"id": job.drv.id + ("/static" if j["static"] else ""), **r} for r in job.rejected]
    with open(out, "w") as f:
        json.dump(cases, f)
    print(json.dumps({"cases": len(cases), "runs": sum(len(r["cfg"].split()) for c in cases for r in c["runs"]), "rejected": rejected}))


if __name__ == "__main__":
    main()
