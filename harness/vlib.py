"""Shared machinery of the checks: run context, workers, TLC, evidence, verdicts."""

from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import build

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
PY = build.PY
CORES = max(1, min(8, os.cpu_count() or 1))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


_LOCK = threading.Lock()


class Machinery(Exception):
    """The check itself failed (not a verdict)."""


class Ctx:
    def __init__(self, prop: str):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.t0 = time.time()
        self.dir = Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
        self.violations: list[dict] = []
        self.known_hit: dict[str, dict] = {}
        self.assumptions: list[str] = []
        self.tree: Path | None = None
        self.halted: list[str] = []
        f = VERIF / "known_findings.json"
        self.known = [k for k in json.loads(f.read_text())["findings"] if k["property"] == prop] if f.exists() else []

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def scale(self, quick: int, thorough: int) -> int:
        f = float(os.environ.get("VERIF_SCALE", "1"))
        return max(1, int((thorough if self.thorough else quick) * f))

    def violation(self, key: str, what: str, data) -> None:
        """A violation, unless `key` is a listed known finding."""
        for k in self.known:
            if k["key"] == key:
                self.known_hit[key] = k
                return
        self.violations.append({"key": key, "what": what, "data": data})

    # -- running things ---------------------------------------------------------------------
    def env(self, **kw):
        e = dict(os.environ)
        e.pop("PYTHONHASHSEED", None)
        e.update(PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8", PYTHONPATH=f"{self.tree}:{VERIF / 'harness'}",
                 VERIF_SEED=str(self.seed), PYTHONHASHSEED="0")
        e.update({k: str(v) for k, v in kw.items()})
        return e

    def py(self, script: str, *args, timeout=600, env=None, input_=None, mem_gb=6):
        """Run a harness script against the built tree; returns CompletedProcess, or None on time-out."""
        cmd = ["prlimit", f"--as={mem_gb << 30}", PY, str(VERIF / "harness" / script), *map(str, args)]
        try:
            return subprocess.run(cmd, cwd=self.dir, env=env or self.env(), capture_output=True, text=True,
                                  timeout=timeout, input=input_, check=False)
        except subprocess.TimeoutExpired:
            return None

    def java_classes(self) -> Path:
        with _LOCK:
            return self._java_classes()

    def _java_classes(self) -> Path:
        d = self.dir / "classes"
        if not d.exists():
            d.mkdir()
            r = subprocess.run(["javac", "-cp", JARS.split(":")[0], "-d", str(d), *map(str, (VERIF / "java").glob("*.java"))],
                               capture_output=True, text=True, check=False)
            if r.returncode:
                raise Machinery("javac: " + r.stderr[-2000:])
        return d

    def tlc(self, module: str, cfg: str | None = None, *, env=None, workers=1, heap="3g", timeout=800, args=(), ok=(0,)):
        """Run TLC; returns its output.  An exit status not in `ok` is an error of the machinery."""
        cls = self.java_classes()
        meta = Path(tempfile.mkdtemp(prefix="tlc-", dir=self.dir))
        for f in [*SPEC.glob("*.tla"), SPEC / (cfg or f"{module}.cfg")]:
            shutil.copy(f, meta / f.name)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Xss256m", f"-Xmx{heap}", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={meta}", "-cp", f"{cls}:{JARS}", "tlc2.TLC",
               "-workers", str(workers), "-metadir", str(meta), "-noTE", *args,
               "-config", cfg or f"{module}.cfg", f"{module}.tla"]
        try:
            r = subprocess.run(cmd, cwd=meta, env=e, capture_output=True, text=True, timeout=timeout, check=False)
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC {module}: time-out after {timeout} s") from None
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout + r.stderr
        if r.returncode not in ok:
            self.halted.append(out)
            raise Machinery(f"TLC {module} exited with {r.returncode}:\n" + out[-6000:])
        return out

    def parallel(self, fn, items, n=CORES):
        with ThreadPoolExecutor(n) as ex:
            return list(ex.map(fn, items))

    def halt(self, why) -> int:
        """The machinery stopped: a verdict only if the specification had rejected something before that."""
        fails = [f for out in self.halted for f in tagged(out, "FAIL")]
        if any(f.get("prop") == "model" for f in fails):
            return 2
        for f in fails:
            if f.get("prop", self.prop) in (self.prop, "run"):
                self.violation("halted:" + json.dumps(f, sort_keys=True)[:300], "rejected: " + json.dumps(f)[:500], f)
        return self.finish("model_checking", {"stopped_by": str(why)[-400:]}) if self.violations else 2

    # -- verdict ----------------------------------------------------------------------------
    def finish(self, level: str, coverage: dict) -> int:
        ev = Path(os.environ.get("VERIF_EVIDENCE") or VERIF / "evidence")
        ev.mkdir(exist_ok=True, parents=True)
        rc = 0
        for k in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.violations:
            rd = ev / "replay"
            rd.mkdir(exist_ok=True)
            path = rd / f"{self.prop}.json"
            path.write_text(json.dumps(self.violations[:20], indent=1, default=str))
            seen = set()
            for v in self.violations[:20]:
                print("  " + v["what"][:600], file=sys.stderr)
                seen.add(v["key"])
            print(f"VIOLATION property={self.prop} replay={path}")
            rc = 1
        (ev / f"{self.prop}.json").write_text(json.dumps({
            "property": self.prop, "tier": "thorough" if self.thorough else "quick", "seed": self.seed, "level": level,
            "coverage": coverage, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations)}, indent=1, default=str))
        return rc


def tagged(out: str, tag: str):
    """Payloads of PrintT(<<tag, ToJson(x)>>) lines."""
    res = []
    pat = re.compile(r'^<<"' + re.escape(tag) + r'", (".*")>>$')
    for line in out.splitlines():
        m = pat.match(line)
        if m:
            res.append(json.loads(json.loads(m.group(1))))
    return res


def tlc_states(out: str):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def main(prop: str, body) -> int:
    ctx = Ctx(prop)
    try:
        try:
            with build.built_tree() as tree:
                ctx.tree = tree
                return body(ctx)
        except build.BuildError as e:
            print(f"build failed:\n{e}", file=sys.stderr)
            return 2
        except Machinery as e:
            print(f"machinery error: {e}", file=sys.stderr)
            return ctx.halt(e)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.dir, ignore_errors=True)
