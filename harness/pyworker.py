"""Run generated Python programs as Python, compile them with the frontend under test; write both down for spec/PY.tla.

argv: out.json progress first count profile...
"""

import importlib
import json
import os
import random
import signal
import sys
import traceback

sys.setrecursionlimit(10000)
sys.path.insert(0, os.getcwd())

import shim  # noqa: E402, F401
import encode  # noqa: E402
import pygen  # noqa: E402
from sonolus.backend.mode import Mode  # noqa: E402
from sonolus.backend.optimize import (  # noqa: E402
    FAST_PASSES,
    MINIMAL_PASSES,
    STANDARD_PASSES,
    OptimizerConfig,
    cfg_to_engine_node,
    run_passes,
)
from sonolus.backend.place import BlockPlace  # noqa: E402
from sonolus.build.compile import callback_to_cfg  # noqa: E402
from sonolus.script.debug import debug_log_callback, simulation_context  # noqa: E402
from sonolus.script.internal.context import ModeContextState, ProjectContextState, RuntimeChecks  # noqa: E402
from sonolus.script.internal.meta_fn import meta_fn  # noqa: E402
from sonolus.script.internal.visitor import clear_frontend_caches, compile_and_call  # noqa: E402
from sonolus.script.num import Num  # noqa: E402

LEVELS = (MINIMAL_PASSES, FAST_PASSES, STANDARD_PASSES)


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang


def plain(fn, args):
    out = []

    def log(x):
        out.append(encode.num(x._as_py_() if hasattr(x, "_as_py_") else x))
        return 0

    token = debug_log_callback.set(log)
    end = "ok"
    err = ""
    signal.alarm(20)
    try:
        with simulation_context():
            fn(*args)
    except Hang:
        end = "hangs"
    except Exception as e:  # noqa: BLE001
        end, err = "raised", repr(e)[:200]
    finally:
        signal.alarm(0)
        debug_log_callback.reset(token)
    return {"log": out, "end": end}, err


def compiled(fn, n, level, checks):
    @meta_fn
    def wrapper():
        compile_and_call(fn, *[Num._from_place_(BlockPlace(2000, i)) for i in range(n)])
        return Num(0)

    clear_frontend_caches()
    ps = ProjectContextState(runtime_checks=checks)
    cfg = callback_to_cfg(ps, ModeContextState(Mode.PLAY), wrapper, "")
    node = cfg_to_engine_node(run_passes(cfg, level, OptimizerConfig()))
    nodes, root = encode.engine(node)
    return {"nodes": nodes, "root": root, "rom": [encode.num(v) for v in ps.rom.values],
            "cfg": f"{level.name}/{checks.name.lower()}", "checks": checks.name.lower()}


def case_of(seed, profile):
    prog, g = pygen.program(seed, profile)
    text = pygen.source(prog)
    name = f"p_{profile}_{seed}"
    with open(name + ".py", "w") as f:
        f.write(text)
    importlib.invalidate_caches()
    try:
        mod = importlib.import_module(name)
    except Exception as e:  # noqa: BLE001 -- every generated module is one Python accepts
        return None, [{"cfg": "import", "error": repr(e)[-500:]}], text
    runs = []
    for a in pygen.inputs(seed):
        got, err = plain(mod.main, a)
        runs.append({"a": [encode.num(x) for x in a], "py": got, "err": err})
    rng = random.Random(f"cfg-{seed}")
    cfgs = [(lv, rng.choice([RuntimeChecks.NONE, RuntimeChecks.TERMINATE])) for lv in LEVELS]
    progs, rejected = [], []
    for lv, ck in cfgs:
        signal.alarm(60)
        try:
            progs.append(compiled(mod.main, len(runs[0]["a"]), lv, ck))
        except Hang:
            rejected.append({"cfg": lv.name, "error": "does not terminate"})
        except Exception as e:  # noqa: BLE001 -- every generated program is one the compiler accepts
            while e.__cause__ is not None:
                e = e.__cause__
            if lv is LEVELS[0] and "Temporary memory limit" in str(e):
                continue  # the level that does not pack its temporaries may run out of them
            if profile == "bind" and any(x in str(e) for x in pygen.LOOSE):
                continue
            rejected.append({"cfg": lv.name, "error": "".join(traceback.format_exception_only(e)).strip()[-500:]})
        finally:
            signal.alarm(0)
    del sys.modules[name]
    if not os.environ.get("VERIF_KEEP"):
        os.remove(name + ".py")
    return {"id": f"{profile}/{seed}", "P": pygen.spec(prog), "runs": runs, "progs": progs}, rejected, text


def main():
    out, progress, first, count, *profiles = sys.argv[1:]
    signal.signal(signal.SIGALRM, on_alarm)
    cases, rejected, lines, texts = [], [], 0, {}
    text = ""
    for i in range(int(first), int(first) + int(count)):
        prof = profiles[i % len(profiles)]
        with open(progress, "w") as f:
            f.write(f"{prof}/{i}")
        c, rej, text = case_of(i, prof)
        texts[f"{prof}/{i}"] = text
        lines += text.count("\n")
        rejected += [{"id": f"{prof}/{i}", **r, "source": text} for r in rej]
        if c:
            cases.append(c)
    with open(out, "w") as f:
        json.dump(cases, f)
    with open(out + ".src", "w") as f:
        json.dump(texts, f)
    print(json.dumps({"programs": len(cases), "lines": lines, "rejected": rejected,
                      "nodes": sum(len(p["nodes"]) for c in cases for p in c["progs"]), "sample": text}))


if __name__ == "__main__":
    main()
